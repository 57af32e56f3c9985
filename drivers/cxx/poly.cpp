// Polynomials "B|M dim range order.. coefs.." (coefficients first direction fastest, components together); cases:
// "eval S poly pts" | "itv S poly centre.. radius.. (quarters)" | "add|sub|mul S poly poly pts" | "comp S poly poly pts"
// "raise S poly order.. pts" | "negate S poly pts" | "facet S poly id pts" | "bezier S poly pts" | "deriv S poly dir pts"
// "lin S poly scale shift.. pts" | "image S poly old new pts" | "rescale S poly lo.. hi.. (halves) pts" | "sign poly"
// "bern S order der den x" | "store poly"; pts: den n coords..; answers are in units of 1/S
#include "io.hpp"
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <algorithm>
#include <memory>
#include <utility>
using namespace qugar;
using namespace qugar::impl;
using L = std::int64_t;
template<int range> using Coef = std::conditional_t<range == 1, real, Point<range>>;
template<int range> std::vector<L> comps(const Coef<range> &v, double S)
{
  std::vector<L> r;
  if constexpr (range == 1) r.push_back(io::units(v, S));
  else
    for (int k = 0; k < range; ++k) r.push_back(io::units(v(k), S));
  return r;
}
template<int range> Coef<range> rdc(std::istream &in)
{
  Coef<range> c;
  if constexpr (range == 1) in >> c;
  else
    for (int k = 0; k < range; ++k) in >> c(k);
  return c;
}
template<int dim> TensorSizeTP<dim> rdo(std::istream &in)
{
  TensorSizeTP<dim> o;
  for (int d = 0; d < dim; ++d) in >> o(d);
  return o;
}
template<template<int, int> class P, int dim, int range> P<dim, range> rdpoly(std::istream &in)
{
  const auto o = rdo<dim>(in);
  std::vector<Coef<range>> c;
  for (int i = 0; i < static_cast<int>(o.size()); ++i) c.push_back(rdc<range>(in));
  return P<dim, range>(o, c);
}
template<int dim> Vector<real, dim> rdv(std::istream &in, double den = 1)
{
  Vector<real, dim> p;
  for (int d = 0; d < dim; ++d) {
    in >> p(d);
    p(d) /= den;
  }
  return p;
}
template<int dim> std::vector<Vector<real, dim>> rdpts(std::istream &in)
{
  double den{};
  int n{};
  in >> den >> n;
  std::vector<Vector<real, dim>> v;
  for (int i = 0; i < n; ++i) v.push_back(rdv<dim>(in, den));
  return v;
}
template<int dim, int range> void describe(io::Obj &o, const PolynomialTP<dim, range> &p, double S, std::istream &in)
{
  std::vector<std::vector<L>> v;
  for (const auto &x : rdpts<dim>(in)) v.push_back(comps<range>(p(x), S));
  o.add("order", io::vec(p.get_order(), dim)).add("count", p.get_num_coefs()).add("size", p.get_coefs().size()).add("vals", v);
}
template<int dim, int range> io::Json bounds(const std::conditional_t<range == 1, algoim::Interval<dim>, Vector<algoim::Interval<dim>, range>> &v, double S)
{
  std::vector<std::vector<L>> r;
  const auto one = [&](const algoim::Interval<dim> &x) {
    const double a = std::floor((x.alpha - x.maxDeviation()) * S - 1e-6), b = std::ceil((x.alpha + x.maxDeviation()) * S + 1e-6);
    r.push_back({ static_cast<L>(std::max(a, -1e9)), static_cast<L>(std::min(b, 1e9)) });
    if (!(a <= b)) r.back() = { 1, 0 };
  };
  if constexpr (range == 1) one(v);
  else
    for (int k = 0; k < range; ++k) one(v(k));
  return io::raw(io::text(r));
}
template<template<int, int> class P, int dim, int range> void go(const std::string &op, std::istream &in, double S)
{
  constexpr bool B = std::is_same_v<P<dim, range>, BezierTP<dim, range>>;
  auto p = rdpoly<P, dim, range>(in);
  io::Obj o;
  o.add("k", op);
  if (op == "eval") {
    std::vector<std::vector<L>> v;
    std::vector<std::vector<std::vector<L>>> g, h;
    for (const auto &x : rdpts<dim>(in)) {
      v.push_back(comps<range>(p(x), S));
      const auto gr = p.grad(x);
      const auto he = p.hessian(x);
      g.emplace_back();
      h.emplace_back();
      for (int d = 0; d < dim; ++d) g.back().push_back(comps<range>(gr(d), S));
      for (int d = 0; d < dim * (dim + 1) / 2; ++d) h.back().push_back(comps<range>(he(d), S));
    }
    o.add("vals", v).add("grads", g).add("hess", h);
  } else if (op == "itv") {
    const auto c = rdv<dim>(in, 4), r = rdv<dim>(in, 4);
    Vector<algoim::Interval<dim>, dim> x;
    for (int d = 0; d < dim; ++d) {
      algoim::Interval<dim>::delta(d) = r(d);
      Vector<real, dim> b(real(0));
      b(d) = 1;
      x(d) = algoim::Interval<dim>(c(d), b);
    }
    o.add("v", bounds<dim, range>(p(x), S));
    std::vector<io::Json> g;
    const auto gr = p.grad(x);
    for (int d = 0; d < dim; ++d) g.push_back(bounds<dim, range>(gr(d), S));
    o.add("g", g);
  } else if (op == "store") {
    std::vector<std::vector<L>> flat, tens, all, x;
    std::vector<int> n, deg;
    for (const auto t : TensorIndexRangeTP<dim>(p.get_order())) {
      flat.push_back(comps<range>(std::as_const(p).get_coef(static_cast<int>(flat.size())), 1));
      tens.push_back(comps<range>(std::as_const(p).get_coef(t), 1));
      if constexpr (B) {
        algoim::uvector<int, dim> r;
        for (int d = 0; d < dim; ++d) r(d) = t(dim - 1 - d);
        x.push_back(comps<range>(p.get_xarray().m(r), 1));
      }
    }
    for (const auto &c : p.get_coefs()) all.push_back(comps<range>(c, 1));
    for (int d = 0; d < dim; ++d) {
      n.push_back(p.get_order(d));
      deg.push_back(p.get_degree(d));
    }
    const P<dim, range> z(p.get_order());
    std::vector<std::vector<L>> zero;
    for (const auto &c : z.get_coefs()) zero.push_back(comps<range>(c, 1));
    auto copy = p;
    copy.get_coef(0) = p.get_coef(0) * 2 + p.get_coef(0);
    o.add("flat", flat).add("tens", tens).add("all", all).add("x", x).add("n", n).add("deg", deg).add("zero", zero);
    o.add("copy", comps<range>(copy.get_coef(0), 1)).add("kept", comps<range>(p.get_coef(TensorIndexTP<dim>(0)), 1)).add("bezier", B);
  } else if (op == "lin") {
    double a{};
    in >> a;
    p.coefs_linear_transform(a, rdc<range>(in));
    describe<dim, range>(o, p, S, in);
  } else if (op == "image") {
    const auto a = rdv<range>(in), b = rdv<range>(in), c = rdv<range>(in), d = rdv<range>(in);
    p.transform_image(BoundBox<range>(a, b), BoundBox<range>(c, d));
    describe<dim, range>(o, p, S, in);
  } else if (op == "facet") {
    if constexpr (dim > 1) {
      int id{};
      in >> id;
      const auto q = p.extract_facet(id);
      describe<dim - 1, range>(o, *q, S, in);
    }
  } else if (op == "deriv") {
    if constexpr (!B) {
      int d{};
      in >> d;
      describe<dim, range>(o, *p.create_derivative(d), S, in);
    }
  } else if (op == "bezier") {
    if constexpr (!B) {
      const BezierTP<dim, range> q(p);
      describe<dim, range>(o, q, S, in);
    }
  } else if constexpr (B) {
    if (op == "add" || op == "sub" || op == "mul") {
      const auto q = rdpoly<BezierTP, dim, range>(in);
      describe<dim, range>(o, op == "add" ? *(p + q) : op == "sub" ? *(p - q) : *(p * q), S, in);
    } else if (op == "comp") {
      int sub{};
      in >> sub;
      const auto with = [&]<int s>() {
        const auto q = rdpoly<BezierTP, s, dim>(in);
        describe<s, range>(o, *p.template compose<s>(q), S, in);
      };
      if (sub == 1) with.template operator()<1>();
      else if (sub == 2) with.template operator()<2>();
      else with.template operator()<3>();
    } else if (op == "raise") {
      const auto n = rdo<dim>(in);
      describe<dim, range>(o, *p.raise_order(n), S, in);
    } else if (op == "negate") {
      describe<dim, range>(o, *p.negate(), S, in);
    } else if constexpr (range == 1) {
      if (op == "rescale") {
        const auto a = rdv<dim>(in, 2), b = rdv<dim>(in, 2);
        p.rescale_domain(BoundBox<dim>(a, b));
        describe<dim, range>(o, p, S, in);
      } else if (op == "sign") {
        const auto s = p.sign();
        o.add("sign", s == FuncSign::positive ? 1 : s == FuncSign::negative ? -1 : 0);
      }
    }
  }
  io::say(o);
}
template<int dim, int range> void pick(const std::string &op, const std::string &b, std::istream &in, double S)
{
  if (b == "B") go<BezierTP, dim, range>(op, in, S);
  else go<MonomialsTP, dim, range>(op, in, S);
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, b;
    double S{};
    in >> op >> S;
    if (op == "bern") {
      int n{}, der{};
      double den{}, x{};
      in >> n >> der >> den >> x;
      std::vector<real> v(static_cast<std::size_t>(n), 7.);
      evaluate_Bernstein(x / den, n, der, v);
      std::vector<L> r;
      for (const auto y : v) r.push_back(io::units(y, S));
      io::say(io::Obj().add("k", op).add("vals", r));
      continue;
    }
    int dim{}, range{};
    in >> b >> dim >> range;
    switch (10 * dim + range) {
    case 11: pick<1, 1>(op, b, in, S); break;
    case 12: pick<1, 2>(op, b, in, S); break;
    case 13: pick<1, 3>(op, b, in, S); break;
    case 21: pick<2, 1>(op, b, in, S); break;
    case 22: pick<2, 2>(op, b, in, S); break;
    case 23: pick<2, 3>(op, b, in, S); break;
    case 31: pick<3, 1>(op, b, in, S); break;
    case 32: pick<3, 2>(op, b, in, S); break;
    default: pick<3, 3>(op, b, in, S);
    }
  }
}
