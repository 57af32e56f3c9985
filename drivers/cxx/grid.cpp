// Cases in units of 1/2048:
// "grid dim n_0 breaks.. n_1 breaks.." | "even dim min max n .."  | "points dim <breaks> tol count coords.."
// "sub dim <breaks> lo.. hi.." | "box dim lo.. hi.. lo2.. hi2.. point.. delta" | "tol tol a b reltol" | "unique tol n v.."
// "same dim tol n coords.." | "wide dim n.. count t.." (unit cells; ids in digits of base 1000)
#include "io.hpp"
#include <qugar/bbox.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/point.hpp>
#include <qugar/tolerance.hpp>
using namespace qugar;
constexpr double U = 2048.0;
double rd(std::istream &in)
{
  long v{};
  in >> v;
  return static_cast<double>(v) / U;
}
template<int dim> Point<dim> rdp(std::istream &in)
{
  Point<dim> p;
  for (int d = 0; d < dim; ++d) p(d) = rd(in);
  return p;
}
template<int dim> io::Json un(const Point<dim> &p, double q = U)
{
  std::vector<std::int64_t> v;
  for (int d = 0; d < dim; ++d) v.push_back(io::units(p(d), q));
  return io::raw(io::text(v));
}
template<int dim> io::Json box(const BoundBox<dim> &b, double q = U)
{
  return io::Obj().add("lo", un<dim>(b.min_corner(), q)).add("hi", un<dim>(b.max_corner(), q)).json();
}
template<int dim> std::array<std::vector<real>, dim> breaks(std::istream &in)
{
  std::array<std::vector<real>, dim> b;
  for (auto &v : b) {
    int n{};
    in >> n;
    for (int i = 0; i < n; ++i) v.push_back(rd(in));
  }
  return b;
}
template<int dim> TensorIndexTP<dim> tidx(std::istream &in)
{
  TensorIndexTP<dim> t;
  for (int d = 0; d < dim; ++d) in >> t(d);
  return t;
}
template<int dim> void describe(io::Obj &o, const CartGridTP<dim> &g)
{
  std::vector<io::Json> brk, cells, tens, on, bdry;
  std::vector<std::int64_t> flat;
  for (int d = 0; d < dim; ++d) {
    std::vector<std::int64_t> v;
    for (const auto x : g.get_breaks(d)) v.push_back(io::units(x, U));
    brk.push_back(io::raw(io::text(v)));
  }
  for (std::int64_t c = 0; c < static_cast<std::int64_t>(g.get_num_cells()); ++c) {
    cells.push_back(box<dim>(g.get_cell_domain(c)));
    const auto t = g.to_tensor(c);
    tens.push_back(io::vec(t, dim));
    flat.push_back(g.to_flat(t));
    std::vector<bool> v;
    for (int f = 0; f < 2 * dim; ++f) v.push_back(g.on_boundary(c, f));
    on.push_back(io::raw(io::text(v)));
  }
  for (int f = 0; f < 2 * dim; ++f) bdry.push_back(io::raw(io::text(g.get_boundary_cells(f))));
  o.add("breaks", brk).add("cells", cells).add("tens", tens).add("flat", flat).add("on", on).add("bdry", bdry);
  o.add("n", io::vec(g.get_num_cells_dir(), dim)).add("count", g.get_num_cells()).add("domain", box<dim>(g.get_domain()));
}
template<int dim> io::Json subgrid(const SubCartGridTP<dim> &s)
{
  io::Obj o;
  std::vector<std::int64_t> cells;
  for (const auto &t : s.get_range()) cells.push_back(s.to_flat(t));
  o.add("lo", io::vec(s.get_range().get_lower_bound(), dim)).add("hi", io::vec(s.get_range().get_upper_bound(), dim));
  o.add("n", io::vec(s.get_num_cells_dir(), dim)).add("count", s.get_num_cells()).add("full", s.is_full());
  o.add("unique", s.is_unique_cell()).add("domain", box<dim>(s.get_domain())).add("cells", cells);
  o.add("single", s.is_unique_cell() ? s.get_single_cell() : -1);
  return o.json();
}
std::vector<std::int64_t> digits(std::int64_t v)
{
  std::vector<std::int64_t> d;
  for (; v > 0; v /= 1000) d.push_back(v % 1000);
  if (v < 0) d.push_back(-1);
  return d;
}
template<int dim> void wide(io::Obj &o, std::istream &in)
{
  std::array<std::size_t, dim> n;
  Point<dim> lo, hi;
  for (int d = 0; d < dim; ++d) {
    in >> n[static_cast<std::size_t>(d)];
    lo(d) = 0.0;
    hi(d) = static_cast<double>(n[static_cast<std::size_t>(d)]);
  }
  const auto g = std::make_shared<const CartGridTP<dim>>(BoundBox<dim>(lo, hi), n);
  o.add("n", io::vec(g->get_num_cells_dir(), dim)).add("count", digits(static_cast<std::int64_t>(g->get_num_cells())));
  int m{};
  in >> m;
  std::vector<io::Json> cells, bdry;
  for (int i = 0; i < m; ++i) {
    const auto t = tidx<dim>(in);
    const auto f = g->to_flat(t);
    io::Obj c;
    std::vector<bool> on;
    for (int k = 0; k < 2 * dim; ++k) on.push_back(g->on_boundary(f, k));
    const auto b = g->get_cell_domain(f);
    auto up = t;
    for (int d = 0; d < dim; ++d) ++up(d);
    const SubCartGridTP<dim> one(g, t, up), rest(g, t, TensorIndexTP<dim>(g->get_num_cells_dir()));
    c.add("t", io::vec(t, dim)).add("id", digits(f)).add("back", io::vec(g->to_tensor(f), dim)).add("box", box<dim>(b, 64.0));
    c.add("on", on).add("at", digits(g->get_cell_id(b.mid_point(), Tolerance(0.01)))).add("single", digits(one.get_single_cell()));
    c.add("first", digits(rest.to_flat(*rest.get_range().begin()))).add("left", digits(static_cast<std::int64_t>(rest.get_num_cells())));
    cells.push_back(c.json());
  }
  for (int k = 0; k < 2 * dim; ++k) {
    double size{ 1.0 };
    for (int d = 0; d < dim; ++d) size *= d == k / 2 ? 1.0 : hi(d);
    if (size > 2e6) continue;
    const auto ids = g->get_boundary_cells(k);
    io::Obj f;
    std::vector<std::int64_t> at;
    std::vector<io::Json> v;
    for (const std::size_t x : { std::size_t{ 0 }, std::size_t{ 1 }, ids.size() / 7, ids.size() / 2, 3 * ids.size() / 4, ids.size() - 1 })
      if (x < ids.size()) {
        at.push_back(static_cast<std::int64_t>(x));
        v.push_back(io::raw(io::text(digits(ids[x]))));
      }
    f.add("f", k).add("len", ids.size()).add("at", at).add("ids", v);
    bdry.push_back(f.json());
  }
  o.add("cells", cells).add("bdry", bdry);
}
template<int dim> void go(const std::string &what, std::istream &in)
{
  io::Obj o;
  o.add("k", what);
  if (what == "grid") describe<dim>(o, CartGridTP<dim>(breaks<dim>(in)));
  else if (what == "even") {
    const auto lo = rdp<dim>(in), hi = rdp<dim>(in);
    std::array<std::size_t, dim> n;
    for (auto &v : n) in >> v;
    describe<dim>(o, CartGridTP<dim>(BoundBox<dim>(lo, hi), n));
    io::Obj u;
    describe<dim>(u, CartGridTP<dim>(n));
    o.add("unit", u.json());
  } else if (what == "wide") wide<dim>(o, in);
  else if (what == "points") {
    const CartGridTP<dim> g(breaks<dim>(in));
    const Tolerance tol(rd(in));
    int n{};
    in >> n;
    std::vector<std::int64_t> id;
    std::vector<int> at;
    for (int i = 0; i < n; ++i) {
      const auto p = rdp<dim>(in);
      id.push_back(g.get_cell_id(p, tol));
      at.push_back(g.at_cells_boundary(p, tol).value_or(-1));
    }
    o.add("id", id).add("at", at);
  } else if (what == "sub") {
    const auto g = std::make_shared<const CartGridTP<dim>>(breaks<dim>(in));
    const auto lo = tidx<dim>(in), hi = tidx<dim>(in);
    const SubCartGridTP<dim> s(g, lo, hi);
    o.add("sub", subgrid<dim>(s)).add("whole", subgrid<dim>(SubCartGridTP<dim>(g)));
    o.add("same", s.get_grid() == g);
    std::vector<io::Json> halves;
    if (!s.is_unique_cell())
      for (const auto &h : s.split()) halves.push_back(subgrid<dim>(*h));
    o.add("halves", halves);
  } else if (what == "box") {
    const auto lo = rdp<dim>(in), hi = rdp<dim>(in), lo2 = rdp<dim>(in), hi2 = rdp<dim>(in), p = rdp<dim>(in);
    const double delta = rd(in);
    const BoundBox<dim> b(lo, hi), b2(lo2, hi2);
    BoundBox<dim> set, ext(b);
    set.set(lo2, hi2);
    ext.extend(p);
    const auto rect = b.to_hyperrectangle();
    o.add("box", box<dim>(b)).add("set", box<dim>(set)).add("ext", box<dim>(ext)).add("grown", box<dim>(b.extend(delta)));
    o.add("rect", box<dim>(BoundBox<dim>(rect))).add("len", un<dim>(b.get_lengths())).add("mid", un<dim>(b.mid_point(), 2 * U));
    o.add("vol", io::units(b.volume(), std::pow(16.0, dim)));
    // the point measured in fractions of the box, in 64ths
    o.add("to01", un<dim>(b.scale_to_0_1(p), U * 64)).add("tonew", un<dim>(b.scale_to_new_domain(b2, p), U * 64));
    o.add("back", un<dim>(b.scale_from_0_1(b.scale_to_0_1(p)))).add("unit", box<dim>(BoundBox<dim>()));
    std::array<real, dim> alo, ahi;
    for (int d = 0; d < dim; ++d) {
      alo[static_cast<std::size_t>(d)] = lo(d);
      ahi[static_cast<std::size_t>(d)] = hi(d);
    }
    o.add("arr", box<dim>(BoundBox<dim>(alo, ahi)));
  } else if (what == "same") {
    if constexpr (dim > 1) {
      const Tolerance tol(rd(in));
      int n{};
      in >> n;
      std::vector<Point<dim>> pts;
      for (int i = 0; i < n; ++i) pts.push_back(rdp<dim>(in));
      std::vector<std::size_t> map, otn;
      find_coincident_points<dim>(pts, tol, map);
      make_points_unique<dim>(pts, tol, otn);
      std::vector<io::Json> kept;
      for (const auto &p : pts) kept.push_back(un<dim>(p));
      o.add("map", map).add("otn", otn).add("kept", kept);
    }
  }
  io::say(o);
}
void tolerances(const std::string &what, std::istream &in)
{
  io::Obj o;
  o.add("k", what);
  const double t = rd(in);
  const Tolerance tol(t);
  if (what == "tol") {
    const double a = rd(in), b = rd(in), r = rd(in);
    const Tolerance rel(r);
    Tolerance up(tol), up2(tol);
    up.update(r);
    up2.update(rel);
    o.add("zero", tol.is_zero(a)).add("neg", tol.is_negative(a)).add("pos", tol.is_positive(a));
    o.add("eq", tol.equal(a, b)).add("gt", tol.greater_than(a, b)).add("lt", tol.smaller_than(a, b));
    o.add("ge", tol.greater_equal_than(a, b)).add("le", tol.smaller_equal_than(a, b));
    o.add("eqr", tol.equal_rel(a, b)).add("gtr", tol.greater_than_rel(a, b)).add("ltr", tol.smaller_than_rel(a, b));
    o.add("eqm", tol.equal_rel(a, b, rel));
    std::vector<std::int64_t> v{ io::units(tol.value(), U), io::units(up.value(), U), io::units(up2.value(), U),
      io::units(Tolerance(t, r).value(), U), io::units(Tolerance(tol, rel).value(), U) };
    o.add("values", v);
  } else {
    int n{};
    in >> n;
    std::vector<real> v;
    for (int i = 0; i < n; ++i) v.push_back(rd(in));
    tol.unique(v);
    std::vector<std::int64_t> r;
    for (const auto x : v) r.push_back(io::units(x, U));
    o.add("kept", r);
  }
  io::say(o);
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string what;
    in >> what;
    if (what == "tol" || what == "unique") {
      tolerances(what, in);
      continue;
    }
    int dim{};
    in >> dim;
    if (dim == 2) go<2>(what, in);
    if (dim == 3) go<3>(what, in);
  }
}
