// Functions FUNC: "sphere|cylinder|ellipsoid|annulus|torus|constant|plane B|G nargs args.." | "dimlinear nargs w.. MAP"
// | "square nargs MAP" | "affine FUNC MAP" | "neg FUNC" | "add|sub FUNC FUNC" | "tpms name nargs m.. z(twelfths)"
// SYS: "default|cart o|axis o a|two o a b"; MAP: "id|shift o|scale o s|rot o a [b]|rots o a [b] s..|coefs A.. b.. den|inv MAP|mul MAP MAP"
// Cases "OP dim S ..": "f FUNC den pts" | "g FUNC den pts" (no Hessian) | "i FUNC den centre radius" | "at MAP FUNC pts"
// | "map MAP pts" | "back MAP pts" | "sys SYS axis len" | "around axis len" | "get FUNC"; periodic ones: "F", "I" (per 2 pi)
#include "io.hpp"
#include <qugar/affine_transf.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tpms_lib.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <numbers>
#include <stdexcept>
using namespace qugar;
using namespace qugar::impl;
using L = std::int64_t;
template<int dim> using Fn = std::shared_ptr<const ImplicitFunc<dim>>;
std::string word(std::istream &in)
{
  std::string w;
  in >> w;
  return w;
}
double num(std::istream &in)
{
  double v{};
  if (!(in >> v)) throw std::runtime_error("malformed case");
  return v;
}
int whole(std::istream &in) { return static_cast<int>(num(in)); }
template<int dim> Point<dim> pt(std::istream &in, double den = 1)
{
  Point<dim> p;
  for (int d = 0; d < dim; ++d) p(d) = num(in) / den;
  return p;
}
template<int dim> RefSystem<dim> rdsys(std::istream &in)
{
  const auto k = word(in);
  if (k == "default") return RefSystem<dim>();
  const auto o = pt<dim>(in);
  if (k == "cart") return RefSystem<dim>(o);
  const auto a = pt<dim>(in);
  if (k == "axis") return RefSystem<dim>(o, a);
  if constexpr (dim == 3) return RefSystem<3>(o, a, pt<3>(in));
  throw std::runtime_error("system " + k);
}
template<int dim> AffineTransf<dim> rdmap(std::istream &in)
{
  using T = AffineTransf<dim>;
  const auto k = word(in);
  if (k == "id") return T();
  if (k == "inv") return rdmap<dim>(in).inverse();
  if (k == "mul") {
    const auto a = rdmap<dim>(in);
    return a * rdmap<dim>(in);
  }
  if (k == "coefs") {
    Vector<real, T::n_coefs> c;
    for (int i = 0; i < T::n_coefs; ++i) c(i) = num(in);
    const auto den = num(in);
    for (int i = 0; i < T::n_coefs; ++i) c(i) /= den;
    return T(c);
  }
  const auto o = pt<dim>(in);
  if (k == "shift") return T(o);
  if (k == "scale") return T(o, num(in));
  const auto a = pt<dim>(in);
  if constexpr (dim == 2) {
    if (k == "rot") return T(o, a);
    const auto s = pt<2>(in);
    return T(o, a, s(0), s(1));
  } else {
    const auto b = pt<3>(in);
    if (k == "rot") return T(o, a, b);
    const auto s = pt<3>(in);
    return T(o, a, b, s(0), s(1), s(2));
  }
}
template<template<int> class P, int dim> Fn<dim> surface(int n, std::istream &in)
{
  if (n == 0) return std::make_shared<P<dim>>();
  Vector<real, dim> m;
  for (int d = 0; d < dim; ++d) m(d) = num(in);
  if constexpr (dim == 2) return std::make_shared<P<2>>(m, num(in) / 12);
  else return std::make_shared<P<3>>(m);
}
template<template<int> class B, template<int> class G, int dim, class... A> Fn<dim> either(bool b, const A &...a)
{
  if (b) return std::make_shared<B<dim>>(a...);
  return std::make_shared<G<dim>>(a...);
}
template<class B, class G, int dim, class... A> Fn<dim> both(bool b, const A &...a)
{
  if (b) return std::make_shared<B>(a...);
  return std::make_shared<G>(a...);
}
template<int dim> Fn<dim> rdfunc(std::istream &in)
{
  namespace F = funcs;
  const auto k = word(in);
  if (k == "neg") return std::make_shared<F::Negative<dim>>(rdfunc<dim>(in));
  if (k == "add" || k == "sub") {
    const auto f = rdfunc<dim>(in);
    const auto g = rdfunc<dim>(in);
    if (k == "add") return std::make_shared<F::AddFunctions<dim>>(f, g);
    return std::make_shared<F::SubtractFunctions<dim>>(f, g);
  }
  if (k == "affine") {
    const auto f = rdfunc<dim>(in);
    return std::make_shared<F::TransformedFunction<dim>>(f, rdmap<dim>(in));
  }
  if (k == "square") {
    if (whole(in) == 0) return std::make_shared<F::Square<dim>>();
    return std::make_shared<F::Square<dim>>(rdmap<dim>(in));
  }
  if (k == "dimlinear") {
    const int n = whole(in);
    std::array<real, (1 << dim)> w;
    for (auto &v : w) v = num(in);
    if (n == 1) return std::make_shared<F::DimLinear<dim>>(w);
    return std::make_shared<F::DimLinear<dim>>(w, rdmap<dim>(in));
  }
  if (k == "tpms") {
    const auto s = word(in);
    const int n = whole(in);
    if (s == "Schoen") return surface<tpms::Schoen, dim>(n, in);
    if (s == "SchoenIWP") return surface<tpms::SchoenIWP, dim>(n, in);
    if (s == "SchoenFRD") return surface<tpms::SchoenFRD, dim>(n, in);
    if (s == "FischerKochS") return surface<tpms::FischerKochS, dim>(n, in);
    if (s == "SchwarzDiamond") return surface<tpms::SchwarzDiamond, dim>(n, in);
    if (s == "SchwarzPrimitive") return surface<tpms::SchwarzPrimitive, dim>(n, in);
    throw std::runtime_error(s);
  }
  const bool b = word(in) == "B";
  const int n = whole(in);
  if (k == "sphere") {
    const auto r = num(in);
    if (n == 1) return either<F::SphereBzr, F::Sphere, dim>(b, r);
    return either<F::SphereBzr, F::Sphere, dim>(b, r, pt<dim>(in));
  }
  if (k == "ellipsoid") {
    const auto s = pt<dim>(in);
    if (n == 1) return either<F::EllipsoidBzr, F::Ellipsoid, dim>(b, s);
    return either<F::EllipsoidBzr, F::Ellipsoid, dim>(b, s, rdsys<dim>(in));
  }
  if (k == "constant") {
    if (n == 0) return either<F::ConstantBzr, F::Constant, dim>(b);
    const auto v = num(in);
    return either<F::ConstantBzr, F::Constant, dim>(b, v / num(in));
  }
  if (k == "plane") {
    if (n == 0) return either<F::PlaneBzr, F::Plane, dim>(b);
    const auto o = pt<dim>(in);
    return either<F::PlaneBzr, F::Plane, dim>(b, o, pt<dim>(in));
  }
  if constexpr (dim == 2) {
    if (k == "annulus") {
      const auto ri = num(in), ro = num(in);
      if (n == 2) return both<F::AnnulusBzr, F::Annulus, 2>(b, ri, ro);
      return both<F::AnnulusBzr, F::Annulus, 2>(b, ri, ro, pt<2>(in));
    }
  } else {
    const auto r = num(in);
    if (k == "cylinder") {
      if (n == 1) return both<F::CylinderBzr, F::Cylinder, 3>(b, r);
      const auto o = pt<3>(in);
      if (n == 2) return both<F::CylinderBzr, F::Cylinder, 3>(b, r, o);
      return both<F::CylinderBzr, F::Cylinder, 3>(b, r, o, pt<3>(in));
    }
    if (k == "torus") {
      const auto q = num(in);
      if (n == 2) return both<F::TorusBzr, F::Torus, 3>(b, r, q);
      const auto o = pt<3>(in);
      if (n == 3) return both<F::TorusBzr, F::Torus, 3>(b, r, q, o);
      return both<F::TorusBzr, F::Torus, 3>(b, r, q, o, pt<3>(in));
    }
  }
  throw std::runtime_error("function " + k);
}
template<int dim> std::vector<Point<dim>> rdpts(std::istream &in)
{
  const double den = num(in);
  const int n = whole(in);
  std::vector<Point<dim>> v;
  for (int i = 0; i < n; ++i) v.push_back(pt<dim>(in, den));
  return v;
}
// a whole number of 1/q, or an impossible one
L whole(double x, double q)
{
  const double y = x * q, r = std::round(y);
  return std::abs(y - r) <= 1.0e-2 && std::abs(r) < 1.0e9 ? static_cast<L>(r) : -999999937;
}
template<int dim> std::vector<L> units(const Point<dim> &p, double S)
{
  std::vector<L> r;
  for (int d = 0; d < dim; ++d) r.push_back(whole(p(d), S));
  return r;
}
L near(double v) { return std::isfinite(v) && std::abs(v) < 1e9 ? static_cast<L>(std::llround(v)) : -999999937; }
template<int dim> std::vector<L> bounds(const algoim::Interval<dim> &x, double S)
{
  const double a = std::floor((x.alpha - x.maxDeviation()) * S - 1e-6), b = std::ceil((x.alpha + x.maxDeviation()) * S + 1e-6);
  if (!(a <= b)) return { 1, 0 };
  return { static_cast<L>(std::max(a, -1e9)), static_cast<L>(std::min(b, 1e9)) };
}
template<int dim> io::Obj getters(const Fn<dim> &f, double S)
{
  namespace F = funcs;
  io::Obj o;
  const auto say = [&](const char *k, double v) { o.add(k, whole(v, S)); };
  const auto sayp = [&](const char *k, const auto &v) { o.add(k, units<dim>(v, S)); };
  if (const auto *s = dynamic_cast<const F::SphereBase<dim> *>(f.get())) say("r", s->radius()), sayp("c", s->center());
  if (const auto *e = dynamic_cast<const F::EllipsoidBase<dim> *>(f.get())) {
    sayp("semi", e->semi_axes()), sayp("c", e->ref_system().get_origin());
    std::vector<std::vector<L>> b;
    for (const auto &v : e->ref_system().get_basis()) b.push_back(units<dim>(v, S));
    o.add("basis", b);
  }
  if (const auto *k = dynamic_cast<const F::ConstantBase *>(f.get())) say("v", k->value());
  if (const auto *p = dynamic_cast<const F::PlaneBase<dim> *>(f.get())) sayp("c", p->origin()), sayp("n", p->normal());
  if constexpr (dim == 2) {
    if (const auto *a = dynamic_cast<const F::AnnulusBase *>(f.get())) say("ri", a->inner_radius()), say("ro", a->outer_radius()), sayp("c", a->center());
  } else {
    if (const auto *c = dynamic_cast<const F::CylinderBase *>(f.get())) say("r", c->radius()), sayp("c", c->origin()), sayp("a", c->axis());
    if (const auto *t = dynamic_cast<const F::TorusBase *>(f.get()))
      say("R", t->major_radius()), say("r", t->minor_radius()), sayp("c", t->center()), sayp("a", t->axis());
  }
  return o;
}
template<int dim> void gram(io::Obj &o, const std::vector<Point<dim>> &b)
{
  std::vector<std::vector<L>> g;
  for (const auto &x : b) {
    g.emplace_back();
    for (const auto &y : b) g.back().push_back(whole(dot(x, y), 1));
  }
  o.add("gram", g);
}
template<int dim> void go(const std::string &op, std::istream &in)
{
  const double S = num(in), turn = 2 * std::numbers::pi;
  io::Obj o;
  std::vector<std::vector<L>> v;
  if (op == "f" || op == "g" || op == "F") {
    const auto f = rdfunc<dim>(in);
    std::vector<L> vals;
    std::vector<std::vector<L>> g, h;
    for (const auto &x : rdpts<dim>(in)) {
      const bool P = op == "F";
      const auto one = [&](double y, double s) { return P ? near(y * S / s) : whole(y, S); };
      vals.push_back(one((*f)(x), 1));
      const auto gr = f->grad(x);
      g.emplace_back();
      for (int d = 0; d < dim; ++d) g.back().push_back(one(gr(d), turn));
      if (op == "g") continue;
      const auto he = f->hessian(x);
      h.emplace_back();
      for (int d = 0; d < dim * (dim + 1) / 2; ++d) h.back().push_back(one(he(d), turn * turn));
    }
    o.add("vals", vals).add("grads", g).add("hess", h);
  } else if (op == "i" || op == "I") {
    const auto f = rdfunc<dim>(in);
    const double den = num(in);
    const auto c = pt<dim>(in, den), r = pt<dim>(in, den);
    Vector<algoim::Interval<dim>, dim> x;
    for (int d = 0; d < dim; ++d) {
      algoim::Interval<dim>::delta(d) = r(d);
      Vector<real, dim> b(real(0));
      b(d) = 1;
      x(d) = algoim::Interval<dim>(c(d), b);
    }
    o.add("v", bounds<dim>((*f)(x), S));
    const auto g = f->grad(x);
    for (int d = 0; d < dim; ++d) v.push_back(bounds<dim>(g(d), op == "I" ? S / turn : S));
    o.add("g", v);
  } else if (op == "at") {
    const auto t = rdmap<dim>(in);
    const auto f = rdfunc<dim>(in);
    const auto g = std::make_shared<funcs::TransformedFunction<dim>>(f, t);
    std::vector<L> vals;
    for (const auto &x : rdpts<dim>(in)) vals.push_back(whole((*g)(t.transform_point(x)), S));
    o.add("vals", vals);
  } else if (op == "map") {
    const auto t = rdmap<dim>(in);
    for (const auto &x : rdpts<dim>(in)) v.push_back(units<dim>(t.transform_point(x), S));
    o.add("vals", v);
  } else if (op == "back") {
    const auto t = rdmap<dim>(in);
    const auto u = t.inverse(), w = t * u, z = u * t;
    std::vector<std::vector<L>> a, b, c;
    for (const auto &x : rdpts<dim>(in)) {
      v.push_back(units<dim>(u.transform_point(t.transform_point(x)), S));
      a.push_back(units<dim>(t.transform_point(u.transform_point(x)), S));
      b.push_back(units<dim>(w.transform_point(x), S));
      c.push_back(units<dim>(z.transform_point(x), S));
    }
    o.add("v", std::vector{ v, a, b, c });
  } else if (op == "sys") {
    const auto s = rdsys<dim>(in);
    o.add("o", units<dim>(s.get_origin(), 1)).add("cart", s.is_Cartesian_oriented());
    std::vector<Point<dim>> b(s.get_basis().begin(), s.get_basis().end());
    gram<dim>(o, b);
    for (const auto &x : b) v.push_back(units<dim>(x, S));
    o.add("basis", v);
    const auto a = pt<dim>(in);
    std::vector<L> al;
    for (const auto &x : b) al.push_back(whole(dot(x, a), S));
    o.add("along", al);
  } else if (op == "around") {
    if constexpr (dim == 3) {
      const auto a = pt<3>(in);
      const auto r = create_reference_system_around_axis(a);
      gram<3>(o, { r.first, r.second });
      o.add("along", std::vector<L>{ whole(dot(r.first, a), 1), whole(dot(r.second, a), 1) });
    }
  } else if (op == "get") {
    o = getters<dim>(rdfunc<dim>(in), S);
  } else
    throw std::runtime_error("case " + op);
  io::say(o);
}
int main()
{
  for (std::string ln; std::getline(std::cin, ln);) {
    std::istringstream in(ln);
    const auto op = word(in);
    if (whole(in) == 2) go<2>(op, in);
    else go<3>(op, in);
  }
}
