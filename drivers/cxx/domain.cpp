// A case: "status|quad dim n.. breaks.. (m slack bits | b d s k c..) given cells.. | given = -1: all
//   status: nt (cell facet).. nc cells..
//   quad: npts srf include exclude nc cells.. nf (cell facet).."
// Coordinates are in units of 1/2048; bits: micro cells (two per cell and direction, and a layer around), direction 0 fastest.
#include "io.hpp"
#include <algoim/quadrature_general.hpp>
#include <array>
#include <memory>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/cut_quadrature.hpp>
#include <qugar/domain_function.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
using namespace qugar;
constexpr double U = 2048.0;
template<int dim> using Grid = std::shared_ptr<const CartGridTP<dim>>;
/// signed distance (of the maximum norm) to the boundary of a union of micro cells
template<int dim> class Micro : public impl::ImplicitFunc<dim>
{
  using Base = impl::ImplicitFunc<dim>;
  template<int N> using Interval = ::algoim::Interval<N>;
  std::array<std::vector<double>, dim> planes_;
  std::vector<bool> in_;
  std::array<int, dim> n_{};
  double slack_;
  int where(int d, double x) const
  {
    const auto &p = planes_[static_cast<std::size_t>(d)];
    int k = 0;
    while (k + 1 < n_[static_cast<std::size_t>(d)] && x >= p[static_cast<std::size_t>(k + 1)]) ++k;
    return k;
  }
  bool inside(const Point<dim> &p) const
  {
    int id = 0;
    for (int d = dim - 1; d >= 0; --d) id = id * n_[static_cast<std::size_t>(d)] + where(d, p(d));
    return in_[static_cast<std::size_t>(id)];
  }
  double distance(const Point<dim> &p, bool to) const
  {
    double best = 1.0e3;
    for (std::size_t id = 0; id < in_.size(); ++id) {
      if (in_[id] != to) continue;
      std::size_t r = id;
      double far = 0;
      for (std::size_t d = 0; d < dim; ++d) {
        const auto k = r % static_cast<std::size_t>(n_[d]);
        r /= static_cast<std::size_t>(n_[d]);
        const double x = p(static_cast<int>(d));
        // the outer micro cells have no end
        if (k > 0) far = std::max(far, planes_[d][k] - x);
        if (k + 1 < static_cast<std::size_t>(n_[d])) far = std::max(far, x - planes_[d][k + 1]);
      }
      best = std::min(best, far);
    }
    return best;
  }

public:
  Micro(const CartGridTP<dim> &grid, double slack, const std::string &bits) : slack_(slack)
  {
    for (const char c : bits) in_.push_back(c == '1');
    for (int d = 0; d < dim; ++d) {
      const auto &b = grid.get_breaks(d);
      auto &p = planes_[static_cast<std::size_t>(d)];
      p.push_back(b.front() - 1);
      for (std::size_t i = 0; i + 1 < b.size(); ++i) {
        p.push_back(b[i]);
        p.push_back((b[i] + b[i + 1]) / 2);
      }
      p.push_back(b.back());
      n_[static_cast<std::size_t>(d)] = static_cast<int>(p.size());
    }
  }
  typename Base::template Value<real> operator()(const Point<dim> &p) const override { return distance(p, true) - distance(p, false); }
  typename Base::template Value<Interval<dim>> operator()(const Point<dim, Interval<dim>> &p) const override
  {
    Point<dim> mid;
    double r = 0;
    for (int d = 0; d < dim; ++d) {
      mid(d) = p(d).alpha;
      r = std::max(r, p(d).maxDeviation());
    }
    return Interval<dim>((*this)(mid), ::algoim::uvector<real, dim>(0.0), slack_ * r);
  }
  typename Base::template Gradient<real> grad(const Point<dim> &p) const override
  {
    typename Base::template Gradient<real> g(0.0);
    for (int d = 0; d < dim; ++d)
      for (std::size_t k = 1; k < planes_[static_cast<std::size_t>(d)].size(); ++k) {
        const double x = planes_[static_cast<std::size_t>(d)][k];
        if (std::abs(x - p(d)) > 1.0e-9) continue;
        Point<dim> a(p), b(p);
        a(d) = x - 1.0e-6;
        b(d) = x + 1.0e-6;
        if (inside(a) != inside(b)) {
          g(d) = inside(a) ? 1.0 : -1.0;
          return g;
        }
      }
    g(0) = 1.0;
    return g;
  }
  typename Base::template Gradient<Interval<dim>> grad(const Point<dim, Interval<dim>> &) const override { std::abort(); }
  typename Base::template Hessian<real> hessian(const Point<dim> &) const override { std::abort(); }
};
template<int dim> struct Domain : impl::UnfittedImplDomain<dim>
{
  using impl::UnfittedImplDomain<dim>::UnfittedImplDomain;
  const UnfittedBinarySpacePart<dim> &tree() const { return *this->binary_sp_part_; }
};
template<typename T> std::vector<T> list(std::istream &in)
{
  std::size_t n{};
  in >> n;
  std::vector<T> v(n);
  for (auto &x : v) in >> x;
  return v;
}
double rd(std::istream &in)
{
  long v{};
  in >> v;
  return static_cast<double>(v) / U;
}
template<int dim> std::shared_ptr<const impl::ImplicitFunc<dim>> function(std::istream &in, const CartGridTP<dim> &grid)
{
  std::string kind;
  in >> kind;
  if (kind == "m") {
    double slack{};
    std::string bits;
    in >> slack >> bits;
    return std::make_shared<Micro<dim>>(grid, slack, bits);
  }
  int d{}, s{}, k{};
  in >> d >> s >> k;
  std::vector<double> c;
  for (int i = 0; i < k; ++i) c.push_back(rd(in));
  // s (x - c0) or s (x - c0) (x - c1) in Bernstein form, constant in the other directions
  TensorSizeTP<dim> order;
  for (int e = 0; e < dim; ++e) order(e) = e == d ? k + 1 : 2;
  const auto at = [&](double a, double b) {
    return k == 1 ? s * (a - c[0]) : s * ((a - c[0]) * (b - c[1]) + (b - c[0]) * (a - c[1])) / 2;
  };
  const std::vector<double> line = k == 1 ? std::vector<double>{ at(0, 0), at(1, 1) } : std::vector<double>{ at(0, 0), at(0, 1), at(1, 1) };
  std::vector<double> coefs;
  for (const auto &t : TensorIndexRangeTP<dim>(order)) coefs.push_back(line[static_cast<std::size_t>(t(d))]);
  return std::make_shared<impl::BezierTP<dim>>(order, coefs);
}
using Ids = std::vector<std::int64_t>;
using Loc = std::vector<int>;
io::Json pairs(const Ids &c, const Loc &f)
{
  std::vector<Ids> v;
  for (std::size_t i = 0; i < std::max(c.size(), f.size()); ++i)
    v.push_back({ i < c.size() ? c[i] : -7, i < f.size() ? f[i] : -7 });
  return io::raw(io::text(v));
}
template<int dim> void statuses(const Domain<dim> &dom, std::istream &in)
{
  io::Obj o;
  o.add("k", "status");
  const auto N = static_cast<std::int64_t>(dom.get_grid()->get_num_cells());
  std::vector<std::vector<bool>> cells, facets;
  for (std::int64_t c = 0; c < N; ++c) {
    cells.push_back({ dom.is_full_cell(c), dom.is_empty_cell(c), dom.is_cut_cell(c), dom.is_full_with_unf_bdry_cell(c),
      dom.is_cell_with_unf_bdry(c) });
    for (int f = 0; f < 2 * dim; ++f)
      facets.push_back({ dom.is_full_facet(c, f), dom.is_empty_facet(c, f), dom.is_cut_facet(c, f),
        dom.is_full_unfitted_facet(c, f), dom.has_unfitted_boundary(c, f), dom.has_external_boundary(c, f),
        dom.is_exterior_facet(c, f) });
  }
  o.add("cells", cells).add("facets", facets);
  o.add("counts", std::vector<std::size_t>{ dom.get_num_full_cells(), dom.get_num_empty_cells(), dom.get_num_cut_cells(),
                    dom.get_num_total_cells() });
  o.add("any", dom.has_facets_with_unf_bdry());
  Ids targets(1, -5), tcells, c;
  Loc tfacets, f(1, -5);
  int nt{};
  in >> nt;
  for (int i = 0; i < nt; ++i) {
    std::int64_t a{};
    int b{};
    in >> a >> b;
    tcells.push_back(a);
    tfacets.push_back(b);
  }
  targets = list<std::int64_t>(in);
  std::vector<Ids> all, some;
  dom.get_full_cells(c), all.push_back(c);
  dom.get_empty_cells(c), all.push_back(c);
  dom.get_cut_cells(c), all.push_back(c);
  dom.get_full_cells(targets, c), some.push_back(c);
  dom.get_empty_cells(targets, c), some.push_back(c);
  dom.get_cut_cells(targets, c), some.push_back(c);
  std::vector<io::Json> allf, somef;
  dom.get_full_facets(c, f), allf.push_back(pairs(c, f));
  dom.get_empty_facets(c, f), allf.push_back(pairs(c, f));
  dom.get_cut_facets(c, f), allf.push_back(pairs(c, f));
  dom.get_full_unfitted_facets(c, f), allf.push_back(pairs(c, f));
  dom.get_unfitted_facets(c, f), allf.push_back(pairs(c, f));
  dom.get_full_facets(tcells, tfacets, c, f), somef.push_back(pairs(c, f));
  dom.get_empty_facets(tcells, tfacets, c, f), somef.push_back(pairs(c, f));
  dom.get_cut_facets(tcells, tfacets, c, f), somef.push_back(pairs(c, f));
  dom.get_full_unfitted_facets(tcells, tfacets, c, f), somef.push_back(pairs(c, f));
  dom.get_unfitted_facets(tcells, tfacets, c, f), somef.push_back(pairs(c, f));
  o.add("all", all).add("some", some).add("allf", allf).add("somef", somef);
  // the tree: the leaves of each status as lists of cells, and the leaf of each cell
  const auto &tree = dom.tree();
  std::vector<std::vector<Ids>> leaves;
  std::vector<std::size_t> nleaves;
  for (const auto s : { ImmersedCellStatus::full, ImmersedCellStatus::empty, ImmersedCellStatus::cut, ImmersedCellStatus::unknown }) {
    std::vector<std::shared_ptr<const UnfittedBinarySpacePart<dim>>> v;
    tree.get_leaves(s, v);
    std::vector<Ids> cellsof;
    for (const auto &leaf : v) {
      Ids ids;
      for (const auto &t : leaf->get_subgrid()->get_range()) ids.push_back(t.flat(leaf->get_grid()->get_num_cells_dir()));
      if (!leaf->is_leaf() || leaf->get_status() != s) ids.push_back(-3);
      for (std::int64_t q = 0; q < N; ++q)
        if (leaf->is_in_tree(q) != (std::find(ids.begin(), ids.end(), q) != ids.end())) ids.push_back(-4);
      for (const auto q : ids)
        if (q >= 0 && tree.find_leaf(q) != leaf) ids.push_back(-5);
      cellsof.push_back(ids);
    }
    leaves.push_back(cellsof);
    nleaves.push_back(tree.get_num_leaves(s));
  }
  o.add("leaves", leaves).add("nleaves", nleaves);
  io::say(o);
}
/// what a rule of an entity integrates: all products of coordinates, in powers of 1/8
template<int d, typename Pts> io::Json moments(const Pts &pts, const std::vector<double> &w, std::size_t from, std::size_t n, int skip = -1)
{
  std::vector<std::int64_t> m;
  constexpr double unit = d == 0 ? 1 : d == 1 ? 8 : d == 2 ? 64 : 512;
  for (int e = 0; e < (1 << d); ++e) {
    double s = 0;
    for (std::size_t i = from; i < from + n; ++i) {
      double v = w[i];
      for (int k = 0; k < d; ++k)
        if (e >> k & 1) v *= pts[i](k < skip || skip < 0 ? k : k + 1);
      s += v;
    }
    m.push_back(io::units(s, unit));
  }
  return io::raw(io::text(m));
}
template<int d, typename Pts> bool proper(const Pts &pts, const std::vector<double> &w, std::size_t from, std::size_t n)
{
  bool ok = true;
  for (std::size_t i = from; i < from + n; ++i) {
    ok = ok && w[i] > 0;
    for (int k = 0; k < d; ++k) ok = ok && pts[i](k) > -1.0e-12 && pts[i](k) < 1 + 1.0e-12;
  }
  return ok;
}
template<int d, typename Pts> io::Json rule(const Pts &pts, const std::vector<double> &w, std::size_t from, std::size_t n)
{
  return io::Obj().add("n", n).add("ok", proper<d>(pts, w, from, n)).add("m", moments<d>(pts, w, from, n)).json();
}
/// the rules of the entities of a list; nothing when sizes do not fit
template<int d, typename Q> std::vector<io::Json> rules(const Q &q, const std::vector<int> &sizes)
{
  std::vector<io::Json> r;
  std::size_t total = 0;
  for (const int n : sizes) total += static_cast<std::size_t>(n);
  if (total != q.points.size() || total != q.weights.size()) return r;
  std::size_t from = 0;
  for (const int n : sizes) {
    r.push_back(rule<d>(q.points, q.weights, from, static_cast<std::size_t>(n)));
    from += static_cast<std::size_t>(n);
  }
  return r;
}
template<int dim> std::vector<io::Json> surfaces(const CutUnfBoundsQuad<dim> &q)
{
  std::vector<io::Json> r;
  std::size_t total = 0, from = 0;
  for (const int n : q.n_pts_per_cell) total += static_cast<std::size_t>(n);
  if (total != q.points.size() || total != q.weights.size() || total != q.normals.size()) return r;
  for (const int m : q.n_pts_per_cell) {
    const auto n = static_cast<std::size_t>(m);
    // pieces by direction, sign and position of their plane (in halves of the cell)
    std::vector<io::Json> pieces;
    std::size_t used = 0;
    for (int d = 0; d < dim; ++d)
      for (int s = -1; s <= 1; s += 2)
        for (int at = 0; at <= 2; ++at) {
          std::vector<Point<dim>> pts;
          std::vector<double> w;
          for (std::size_t i = from; i < from + n; ++i) {
            Point<dim> e(0.0);
            e(d) = s;
            double off = 0;
            for (int k = 0; k < dim; ++k) off += std::abs(q.normals[i](k) - e(k));
            if (off < 1.0e-9 && std::abs(q.points[i](d) - at / 2.0) < 1.0e-9) {
              pts.push_back(q.points[i]);
              w.push_back(q.weights[i]);
            }
          }
          used += pts.size();
          if (!pts.empty())
            pieces.push_back(io::Obj().add("d", d).add("s", s).add("at", at).add("m", moments<dim - 1>(pts, w, 0, pts.size(), d)).json());
        }
    r.push_back(io::Obj().add("n", n).add("ok", used == n && proper<dim>(q.points, q.weights, from, n)).add("pieces", pieces).json());
    from += n;
  }
  return r;
}
template<int dim> void quads(const Domain<dim> &dom, std::istream &in)
{
  io::Obj o;
  o.add("k", "quad");
  int n{}, srf{}, inc{}, exc{};
  in >> n >> srf >> inc >> exc;
  standin::surface_on_faces = srf;
  const auto cells = list<std::int64_t>(in);
  int nf{};
  in >> nf;
  Ids fc;
  Loc ff;
  for (int i = 0; i < nf; ++i) {
    std::int64_t a{};
    int b{};
    in >> a >> b;
    fc.push_back(a);
    ff.push_back(b);
  }
  const auto q = create_quadrature<dim>(dom, cells, n);
  const auto u = create_unfitted_bound_quadrature<dim>(dom, cells, n, inc != 0, exc != 0);
  const auto i = create_facets_quadrature_interior_integral<dim>(dom, fc, ff, n);
  const auto e = create_facets_quadrature_exterior_integral<dim>(dom, fc, ff, n);
  o.add("cells", q->cells == cells && u->cells == cells).add("facets", pairs(i->cells, i->local_facet_ids)).add("facets2", pairs(e->cells, e->local_facet_ids));
  o.add("vol", rules<dim>(*q, q->n_pts_per_cell)).add("unf", surfaces<dim>(*u));
  o.add("int", rules<dim - 1>(*i, i->n_pts_per_facet)).add("ext", rules<dim - 1>(*e, e->n_pts_per_facet));
  io::say(o);
}
template<int dim> void go(const std::string &what, std::istream &in)
{
  std::array<std::vector<real>, dim> breaks;
  for (auto &b : breaks) {
    int n{};
    in >> n;
    for (int i = 0; i < n; ++i) b.push_back(rd(in));
  }
  const auto grid = std::make_shared<const CartGridTP<dim>>(breaks);
  const auto phi = function<dim>(in, *grid);
  int given{};
  in >> given;
  std::unique_ptr<Domain<dim>> dom;
  if (given < 0) dom = std::make_unique<Domain<dim>>(phi, grid);
  else {
    std::vector<std::int64_t> cells;
    for (int i = 0; i < given; ++i) {
      std::int64_t c{};
      in >> c;
      cells.push_back(c);
    }
    dom = std::make_unique<Domain<dim>>(phi, grid, cells);
  }
  if (dom->get_impl_func() != phi || dom->get_grid() != grid) std::abort();
  if (what == "status") statuses<dim>(*dom, in);
  else quads<dim>(*dom, in);
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string what;
    int dim{};
    in >> what >> dim;
    if (dim == 2) go<2>(what, in);
    if (dim == 3) go<3>(what, in);
  }
}
