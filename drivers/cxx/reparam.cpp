// Coordinates are in units of 1/64. Cases:
// "mesh dim order file nops ops.." on two meshes; op m: "full m lo.. hi.. wb" | "grid m nb breaks.. (per direction) nc cells.. wb" |
//    "merge m" (of the other one) | "unique m" | "permute m cell" | "scale m lo.. hi.. lo.. hi.."; answers mesh 0
// "cut dim order levelset merge bezier nb breaks.. (per direction) a.. c s c2 nc cells.. qv qm" (nc = -1: all)
//    bezier: 0: no, 1: of lowest orders, 2: of the same order in all directions, 3, 4: the same, of one cell given directly, 5: no, of one cell given directly
// "facet dim order lo.. hi.. a.. c s c2 facet qv"
// "lagrange dim n.. chebyshev p.. m.." polynomial of exponents m at p
#include "io.hpp"
#include <algoim/bernstein.hpp>
#include <algoim/polyset.hpp>
#include <algoim/quadrature_general.hpp>
#include <array>
#include <fstream>
#include <memory>
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/reparam_mesh.hpp>
#include <qugar/tensor_index_tp.hpp>
using namespace qugar;
constexpr double U = 64.0;
/// a . x - c, or its product with a . x - c2 and a sign
template<int dim> class Half : public impl::ImplicitFunc<dim>
{
  using Base = impl::ImplicitFunc<dim>;
  template<int N> using Interval = ::algoim::Interval<N>;
  std::array<double, dim> a_;
  double c_, c2_;
  int sign_;
  template<typename T> T plane(const Point<dim, T> &p, double c) const
  {
    T r(-c);
    for (int d = 0; d < dim; ++d) r = r + a_[static_cast<std::size_t>(d)] * p(d);
    return r;
  }
  template<typename T> T value(const Point<dim, T> &p) const
  {
    const auto v = plane<T>(p, c_);
    return sign_ == 0 ? v : v * plane<T>(p, c2_) * static_cast<double>(sign_);
  }
  template<typename T> Vector<T, dim> gradient(const Point<dim, T> &p) const
  {
    Vector<T, dim> g;
    const T f = sign_ == 0 ? T(1.0) : (plane<T>(p, c_) + plane<T>(p, c2_)) * static_cast<double>(sign_);
    for (int d = 0; d < dim; ++d) g(d) = f * a_[static_cast<std::size_t>(d)];
    return g;
  }

public:
  Half(const std::array<double, dim> &a, double c, int sign = 0, double c2 = 0) : a_(a), c_(c), c2_(c2), sign_(sign) {}
  int degree() const { return sign_ == 0 ? 1 : 2; }
  bool depends(int d) const { return a_[static_cast<std::size_t>(d)] != 0; }
  typename Base::template Value<real> operator()(const Point<dim> &p) const override { return value<real>(p); }
  typename Base::template Value<Interval<dim>> operator()(const Point<dim, Interval<dim>> &p) const override { return value<Interval<dim>>(p); }
  typename Base::template Gradient<real> grad(const Point<dim> &p) const override { return gradient<real>(p); }
  typename Base::template Gradient<Interval<dim>> grad(const Point<dim, Interval<dim>> &p) const override { return gradient<Interval<dim>>(p); }
  typename Base::template Hessian<real> hessian(const Point<dim> &) const override { std::abort(); }
};
/// an ellipsoid, or what is outside of it: sign (sum (k . (x - c))^2 - r^2)
template<int dim> class Oval : public impl::ImplicitFunc<dim>
{
  using Base = impl::ImplicitFunc<dim>;
  template<int N> using Interval = ::algoim::Interval<N>;
  std::array<double, dim> k_, c_;
  double r_;
  int sign_;
  template<typename T> T value(const Point<dim, T> &p) const
  {
    T v(-r_ * r_);
    for (int d = 0; d < dim; ++d) {
      const auto e = static_cast<std::size_t>(d);
      const T y = (p(d) - T(c_[e])) * k_[e];
      v = v + y * y;
    }
    return v * static_cast<double>(sign_);
  }
  template<typename T> Vector<T, dim> gradient(const Point<dim, T> &p) const
  {
    Vector<T, dim> g;
    for (int d = 0; d < dim; ++d) {
      const auto e = static_cast<std::size_t>(d);
      g(d) = (p(d) - T(c_[e])) * (2 * k_[e] * k_[e] * sign_);
    }
    return g;
  }

public:
  Oval(const std::array<double, dim> &k, const std::array<double, dim> &c, double r, int sign) : k_(k), c_(c), r_(r), sign_(sign) {}
  bool depends(int) const { return true; }
  typename Base::template Value<real> operator()(const Point<dim> &p) const override { return value<real>(p); }
  typename Base::template Value<Interval<dim>> operator()(const Point<dim, Interval<dim>> &p) const override { return value<Interval<dim>>(p); }
  typename Base::template Gradient<real> grad(const Point<dim> &p) const override { return gradient<real>(p); }
  typename Base::template Gradient<Interval<dim>> grad(const Point<dim, Interval<dim>> &p) const override { return gradient<Interval<dim>>(p); }
  typename Base::template Hessian<real> hessian(const Point<dim> &) const override { std::abort(); }
};
/// the same in the Bernstein basis, of given degree where it does not vanish
template<int dim, typename F> std::shared_ptr<const impl::BezierTP<dim>> bezier(const F &phi, int degree, bool lowest, const BoundBox<dim> &b = {})
{
  TensorSizeTP<dim> order;
  ::algoim::uvector<int, dim> ext(1);
  for (int d = 0; d < dim; ++d) {
    order(d) = lowest && !phi.depends(d) ? 1 : degree + 1;
    ext(dim - 1 - d) = order(d);
  }
  const auto p = ::algoim::detail::interpolate<dim>(ext, [&](const auto &x) {
    Point<dim> y;
    for (int d = 0; d < dim; ++d) y(d) = b.min(d) + b.length(d) * x(dim - 1 - d);
    return phi(y);
  });
  std::vector<real> c;
  for (const double v : p.c) c.push_back(std::llround(v * 65536 * 64) / (65536.0 * 64));
  return std::make_shared<const impl::BezierTP<dim>>(order, c);
}
double rd(std::istream &in)
{
  long v{};
  in >> v;
  return static_cast<double>(v) / U;
}
template<typename T> T get(std::istream &in)
{
  T v{};
  in >> v;
  return v;
}
template<int dim> BoundBox<dim> box(std::istream &in)
{
  std::array<double, dim> lo{}, hi{};
  for (auto &v : lo) v = rd(in);
  for (auto &v : hi) v = rd(in);
  return BoundBox<dim>(lo, hi);
}
template<int dim> std::shared_ptr<const CartGridTP<dim>> grid(std::istream &in)
{
  std::array<std::vector<real>, dim> b;
  for (auto &x : b) {
    x.resize(get<std::size_t>(in));
    for (auto &v : x) v = rd(in);
  }
  return std::make_shared<const CartGridTP<dim>>(b);
}
std::vector<std::int64_t> ids(std::istream &in)
{
  std::vector<std::int64_t> v(get<std::size_t>(in));
  for (auto &x : v) in >> x;
  return v;
}
std::int64_t close(double x, double q) { return std::llround(x * q); }
template<int range> std::vector<io::Json> coordinates(const std::vector<Point<range>> &pts)
{
  std::vector<io::Json> r;
  for (const auto &p : pts) {
    std::vector<std::int64_t> v;
    for (int d = 0; d < range; ++d) v.push_back(close(p(d), U * 65536));
    r.push_back(io::raw(io::text(v)));
  }
  return r;
}
std::vector<io::Json> groups(const std::vector<std::size_t> &c, std::size_t n)
{
  std::vector<io::Json> r;
  for (std::size_t i = 0; i < c.size(); i += n) r.push_back(io::raw(io::text(std::vector<std::size_t>(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(std::min(c.size(), i + n))))));
  return r;
}
template<int dim> void mesh(std::istream &in)
{
  const int order = get<int>(in);
  const auto file = get<std::string>(in);
  std::array<ReparamMesh<dim, dim>, 2> m{ ReparamMesh<dim, dim>(order), ReparamMesh<dim, dim>(order) };
  for (int n = get<int>(in); n > 0; --n) {
    const auto op = get<std::string>(in);
    auto &x = m[get<std::size_t>(in)];
    if (op == "full") {
      const auto b = box<dim>(in);
      x.add_full_cell(b, get<int>(in) == 1);
    } else if (op == "grid") {
      const auto g = grid<dim>(in);
      const auto c = ids(in);
      x.add_full_cells(*g, c, get<int>(in) == 1);
    } else if (op == "merge") x.merge(&x == &m[0] ? m[1] : m[0]);
    else if (op == "unique") x.merge_coincident_points(Tolerance(1.0e-9));
    else if (op == "permute") x.permute_cell_directions(get<std::size_t>(in));
    else if (op == "scale") {
      const auto a = box<dim>(in);
      const auto b = box<dim>(in);
      x.scale_points(a, b);
    }
  }
  const auto &x = m[0];
  io::Obj o;
  o.add("points", coordinates<dim>(x.get_points())).add("cells", groups(x.get_connectivity(), x.get_num_points_per_cell()));
  o.add("wires", groups(x.get_wires_connectivity(), static_cast<std::size_t>(order)));
  o.add("counts", std::vector<std::size_t>{ x.get_num_cells(), x.get_num_points(), x.get_num_points_per_cell(), static_cast<std::size_t>(x.get_order()) });
  if (file != "-") x.write_VTK_file(file);
  io::say(o);
}
/// the measures of the cells of a mesh, one row for each box
template<int dim, int range> struct Measure
{
  int order;
  bool chebyshev;
  std::vector<std::vector<real>> basis;
  std::vector<Vector<std::vector<real>, dim>> ders;
  std::shared_ptr<Quadrature<dim>> q;
  static real node(int i, int n, bool c) { return c ? ::algoim::bernstein::modifiedChebyshevNode(i, n) : real(i) / (n - 1); }
  static void basis1(real x, int n, bool c, std::vector<real> &v, std::vector<real> &g)
  {
    for (int i = 0; i < n; ++i) {
      real p = 1, s = 0;
      for (int j = 0; j < n; ++j)
        if (j != i) p *= (x - node(j, n, c)) / (node(i, n, c) - node(j, n, c));
      for (int k = 0; k < n; ++k) {
        if (k == i) continue;
        real t = 1 / (node(i, n, c) - node(k, n, c));
        for (int j = 0; j < n; ++j)
          if (j != i && j != k) t *= (x - node(j, n, c)) / (node(i, n, c) - node(j, n, c));
        s += t;
      }
      v.push_back(p);
      g.push_back(s);
    }
  }
  explicit Measure(int n) : order(n), chebyshev(n >= 7), q(Quadrature<dim>::create_Gauss_01(dim * n > 12 ? 12 : dim * n))
  {
    for (const auto &p : q->points()) {
      std::array<std::vector<real>, dim> v, g;
      for (int d = 0; d < dim; ++d) basis1(p(d), n, chebyshev, v[static_cast<std::size_t>(d)], g[static_cast<std::size_t>(d)]);
      std::vector<real> b;
      Vector<std::vector<real>, dim> db;
      for (const auto &t : TensorIndexRangeTP<dim>(TensorSizeTP<dim>(n))) {
        real w = 1;
        for (int d = 0; d < dim; ++d) w *= v[static_cast<std::size_t>(d)][static_cast<std::size_t>(t(d))];
        b.push_back(w);
        for (int e = 0; e < dim; ++e) {
          w = 1;
          for (int d = 0; d < dim; ++d) w *= (d == e ? g : v)[static_cast<std::size_t>(d)][static_cast<std::size_t>(t(d))];
          db(e).push_back(w);
        }
      }
      basis.push_back(b);
      ders.push_back(db);
    }
  }
};
template<int dim, int range, typename F>
io::Json measure(const ReparamMesh<dim, range> &m, const std::vector<BoundBox<range>> &boxes, const F &phi, double qv, double qm, bool curved = false)
{
  const Measure<dim, range> rule(m.get_order());
  const auto n = m.get_num_points_per_cell();
  const auto &conn = m.get_connectivity();
  const auto &pts = m.get_points();
  const auto within = [](const BoundBox<range> &b, const Point<range> &p) {
    for (int d = 0; d < range; ++d)
      if (p(d) < b.min(d) - 1.0e-9 || p(d) > b.max(d) + 1.0e-9) return false;
    return true;
  };
  // the last row: what is in no box
  std::vector<std::vector<double>> sums(boxes.size() + 1, std::vector<double>(2 * range + 3, 0.0));
  bool on = true;
  for (std::size_t c = 0; c < m.get_num_cells(); ++c) {
    Point<range> mid(0.0);
    for (std::size_t i = 0; i < n; ++i) {
      const auto &p = pts.at(conn.at(c * n + i));
      mid += p;
      const double v = phi(p);
      on = on && (dim == range ? v < 1.0e-9 : std::abs(v) < 1.0e-9);
    }
    mid /= static_cast<real>(n);
    std::size_t k = 0;
    while (k < boxes.size() && !within(boxes[k], mid)) ++k;
    if (k < boxes.size())
      for (std::size_t i = 0; i < n; ++i)
        if (!within(boxes[k], pts.at(conn.at(c * n + i)))) on = false;
    auto &row = sums[k];
    row[0] += 1;
    for (std::size_t g = 0; g < rule.basis.size(); ++g) {
      Point<range> x(0.0);
      std::array<Point<range>, dim> J;
      for (auto &j : J) j = Point<range>(0.0);
      for (std::size_t i = 0; i < n; ++i) {
        const auto &p = pts.at(conn.at(c * n + i));
        x += p * rule.basis[g][i];
        for (int d = 0; d < dim; ++d) J[static_cast<std::size_t>(d)] += p * rule.ders[g](d)[i];
      }
      const double w = rule.q->weights()[g];
      if constexpr (dim == range) {
        double det = 0;
        if constexpr (dim == 2) det = J[0](0) * J[1](1) - J[0](1) * J[1](0);
        else
          for (int d = 0; d < 3; ++d) det += J[0](d) * (J[1]((d + 1) % 3) * J[2]((d + 2) % 3) - J[1]((d + 2) % 3) * J[2]((d + 1) % 3));
        if (det < -1.0e-9) row[1] += 1;
        row[2] += w * det;
        for (int d = 0; d < range; ++d) row[static_cast<std::size_t>(3 + d)] += w * det * (x(d) - (k < boxes.size() ? boxes[k].min(d) : 0.0));
      } else {
        Point<range> nrm(0.0);
        if constexpr (range == 2) nrm = Point<range>(J[0](1), -J[0](0));
        else
          for (int d = 0; d < 3; ++d) nrm(d) = J[0]((d + 1) % 3) * J[1]((d + 2) % 3) - J[0]((d + 2) % 3) * J[1]((d + 1) % 3);
        const auto grad = phi.grad(x);
        double s = 0;
        for (int d = 0; d < range; ++d) s += nrm(d) * grad(d);
        if (s < -1.0e-9) row[1] += 1;
        for (int d = 0; d < range; ++d) row[static_cast<std::size_t>(3 + d)] += w * nrm(d);
        if (curved)
          for (int d = 0; d < range; ++d) row[2] += w * nrm(d) * x(d) / range;
      }
    }
  }
  // wires: extents in each direction
  const auto &wires = m.get_wires_connectivity();
  const auto o = static_cast<std::size_t>(m.get_order());
  for (std::size_t i = 0; i + o <= wires.size(); i += o) {
    Point<range> mid(0.0);
    for (std::size_t j = 0; j < o; ++j) mid += pts.at(wires[i + j]);
    mid /= static_cast<real>(o);
    // in every box it touches
    for (std::size_t k = 0; k < boxes.size(); ++k)
      if (within(boxes[k], mid))
        for (int d = 0; d < range; ++d) sums[k][static_cast<std::size_t>(3 + range + d)] += std::abs(pts.at(wires[i + o - 1])(d) - pts.at(wires[i])(d));
  }
  const auto units = [curved](double x, double f) { return curved ? std::isfinite(x) ? static_cast<std::int64_t>(std::llround(x * f)) : -999999937 : io::units(x, f); };
  std::vector<io::Json> rows;
  for (const auto &row : sums) {
    io::Obj r;
    std::vector<std::int64_t> mom, len;
    for (int d = 0; d < range; ++d) mom.push_back(units(row[static_cast<std::size_t>(3 + d)], dim == range ? qm : qv)), len.push_back(units(row[static_cast<std::size_t>(3 + range + d)], qv));
    r.add("n", static_cast<int>(row[0])).add("neg", static_cast<int>(row[1])).add("vol", units(row[2], qv)).add("mom", mom).add("len", len);
    rows.push_back(r.json());
  }
  io::Obj r;
  r.add("on", on).add("rows", rows);
  return r.json();
}
template<int dim> Half<dim> half(std::istream &in)
{
  std::array<double, dim> a{};
  for (auto &v : a) v = get<int>(in);
  const double c = rd(in);
  const int sign = get<int>(in);
  return Half<dim>(a, c, sign, rd(in));
}
/// the cells of a mesh, every other one turned over
template<typename Mesh> void turned(const Mesh &m, Mesh &out)
{
  const auto n = m.get_num_points_per_cell();
  const int first = out.allocate_cells(m.get_num_cells());
  for (std::size_t i = 0; i < m.get_connectivity().size(); ++i)
    out.insert_cell_point(m.get_points().at(m.get_connectivity()[i]), first + static_cast<int>(i / n), static_cast<int>(i % n));
  for (std::size_t c = 0; c < m.get_num_cells(); c += 2) out.permute_cell_directions(c);
}
template<int dim> void cut(std::istream &in)
{
  const int order = get<int>(in);
  const bool levelset = get<int>(in) == 1, merge = get<int>(in) == 1;
  const int bez = get<int>(in);
  const auto g = grid<dim>(in);
  const auto phi = std::make_shared<const Half<dim>>(half<dim>(in));
  std::shared_ptr<const impl::ImplicitFunc<dim>> fun = phi;
  if (bez == 1 || bez == 2) fun = bezier<dim>(*phi, phi->degree(), bez == 1);
  const int nc = get<int>(in);
  std::vector<std::int64_t> cells;
  for (int i = 0; i < nc; ++i) cells.push_back(get<std::int64_t>(in));
  const auto qv = get<double>(in), qm = get<double>(in);
  const impl::UnfittedImplDomain<dim> dom(fun, g);
  std::vector<BoundBox<dim>> boxes;
  for (std::int64_t c = 0; c < static_cast<std::int64_t>(g->get_num_cells()); ++c) boxes.push_back(g->get_cell_domain(c));
  io::Obj o;
  const auto answer = [&]<bool S>() {
    if (bez > 2) {
      using Mesh = impl::ImplReparamMesh<S ? dim - 1 : dim, dim>;
      const auto f = bez == 5 ? nullptr : bezier<dim>(*phi, phi->degree(), bez == 3, boxes[0]);
      auto m = std::make_shared<Mesh>(order);
      // added to what is there
      if (merge) {
        if (f) impl::reparam_Bezier<dim, S>(*f, boxes[0], *m);
        else impl::reparam_general<dim, S>(*phi, boxes[0], *m);
      } else m = f ? impl::reparam_Bezier<dim, S>(*f, boxes[0], order) : impl::reparam_general<dim, S>(*phi, boxes[0], order);
      // the cells once more: turned, oriented and surrounded by wires again
      Mesh again(order);
      turned(*m, again);
      const std::vector<std::reference_wrapper<const impl::ImplicitFunc<dim>>> funcs{ *phi };
      if constexpr (S) again.orient_levelset_cells_positively(funcs);
      else again.orient_cells_positively();
      again.generate_wirebasket(funcs, boxes[0], Tolerance(1.0e-9));
      if (merge) m->merge_coincident_points(Tolerance(1.0e-9)), again.merge_coincident_points(Tolerance(1.0e-9));
      o.add("m", measure(*m, boxes, *phi, qv, qm)).add("again", measure(again, boxes, *phi, qv, qm));
      return;
    }
    const auto m = nc < 0 ? create_reparameterization<dim, S>(dom, order, merge) : create_reparameterization<dim, S>(dom, cells, order, merge);
    o.add("m", measure(*m, boxes, *phi, qv, qm));
  };
  if (levelset) answer.template operator()<true>();
  else answer.template operator()<false>();
  io::say(o);
}
template<int dim> void oval(std::istream &in)
{
  const int order = get<int>(in);
  const bool levelset = get<int>(in) == 1, merge = get<int>(in) == 1;
  const int bez = get<int>(in);
  const auto g = grid<dim>(in);
  std::array<double, dim> k{}, c{};
  for (auto &v : k) v = get<int>(in);
  for (auto &v : c) v = rd(in);
  const double r = rd(in);
  const auto phi = std::make_shared<const Oval<dim>>(k, c, r, get<int>(in));
  std::shared_ptr<const impl::ImplicitFunc<dim>> fun = phi;
  if (bez == 1) fun = bezier<dim>(*phi, 2, false);
  const auto q = get<double>(in);
  standin::refine = dim == 2 ? 64 : 12; // finds the corners it cuts off cells
  const impl::UnfittedImplDomain<dim> dom(fun, g);
  standin::refine = 2;
  std::vector<BoundBox<dim>> boxes;
  for (std::int64_t i = 0; i < static_cast<std::int64_t>(g->get_num_cells()); ++i) boxes.push_back(g->get_cell_domain(i));
  io::Obj o;
  if (levelset) o.add("m", measure(*create_reparameterization<dim, true>(dom, order, merge), boxes, *phi, q, q, true));
  else o.add("m", measure(*create_reparameterization<dim, false>(dom, order, merge), boxes, *phi, q, q, true));
  io::say(o);
}
template<int dim> void facet(std::istream &in)
{
  const int order = get<int>(in);
  const auto b = box<dim>(in);
  const auto phi = half<dim>(in);
  const int f = get<int>(in);
  const auto qv = get<double>(in);
  const auto m = impl::reparam_general_facet<dim>(phi, b, f, order);
  // outward of the facet is what its cells are oriented by
  std::array<double, dim> a{};
  const auto d = static_cast<std::size_t>(f / 2);
  a[d] = f % 2 == 0 ? -1 : 1;
  const Half<dim> plane(a, a[d] * (f % 2 == 0 ? b.min(f / 2) : b.max(f / 2)));
  bool in_domain = true;
  for (const auto &p : m->get_points()) in_domain = in_domain && phi(p) < 1.0e-9;
  io::Obj o;
  impl::ImplReparamMesh<dim - 1, dim> again(order);
  turned(*m, again);
  again.orient_facet_cells_positively(f);
  o.add("inside", in_domain).add("m", measure(*m, std::vector<BoundBox<dim>>{ b }, plane, qv, qv));
  o.add("again", measure(again, std::vector<BoundBox<dim>>{ b }, plane, qv, qv));
  io::say(o);
}
template<int dim> void lagrange(std::istream &in)
{
  std::array<int, dim> n{}, m{};
  for (auto &v : n) in >> v;
  const bool c = get<int>(in) == 1;
  Point<dim> p;
  for (int d = 0; d < dim; ++d) p(d) = get<int>(in) / 4.0;
  for (auto &v : m) in >> v;
  TensorSizeTP<dim> order;
  for (int d = 0; d < dim; ++d) order(d) = n[static_cast<std::size_t>(d)];
  std::vector<real> basis;
  Vector<std::vector<real>, dim> ders;
  impl::evaluate_Lagrange_basis<dim>(p, order, c, basis);
  impl::evaluate_Lagrange_derivative<dim>(p, order, c, ders);
  std::vector<double> r(dim + 1, 0.0);
  std::size_t i = 0;
  double q = 1;
  for (int d = 0; d < dim; ++d) q *= std::pow(4.0, m[static_cast<std::size_t>(d)]);
  for (const auto &t : TensorIndexRangeTP<dim>(order)) {
    double v = 1;
    for (int d = 0; d < dim; ++d) v *= std::pow(Measure<dim, dim>::node(t(d), order(d), c), m[static_cast<std::size_t>(d)]);
    r[0] += v * basis.at(i);
    for (int d = 0; d < dim; ++d) r[static_cast<std::size_t>(d + 1)] += v * ders(d).at(i);
    ++i;
  }
  std::vector<std::int64_t> out;
  for (const double v : r) out.push_back(io::units(v, q));
  io::Obj o;
  o.add("count", basis.size()).add("values", out);
  io::say(o);
}
int main()
{
  standin::refine = 32; // finds every slice of the half-spaces asked for
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    const auto what = get<std::string>(in);
    const int dim = get<int>(in);
    if (what == "mesh") dim == 2 ? mesh<2>(in) : mesh<3>(in);
    else if (what == "cut") dim == 2 ? cut<2>(in) : cut<3>(in);
    else if (what == "oval") dim == 2 ? oval<2>(in) : oval<3>(in);
    else if (what == "facet") dim == 2 ? facet<2>(in) : facet<3>(in);
    else dim == 1 ? lagrange<1>(in) : dim == 2 ? lagrange<2>(in) : lagrange<3>(in);
  }
}
