// Cases: "rule gauss|tanh n" | "box gauss|tanh dim n.. lo.. hi.. scale unit" (quarters; unit = 1: the constructor of the unit box)
// Numbers come out as limbs of four decimals.
#include "io.hpp"
#include <qugar/bbox.hpp>
#include <qugar/quadrature.hpp>
using namespace qugar;
io::Json limbs(double x)
{
  const auto v = static_cast<std::int64_t>(std::llround(x * 1.0e12));
  auto high = v / 100000000, low = v % 100000000;
  if (low < 0) --high, low += 100000000;
  return io::raw(io::text(std::vector<std::int64_t>{ high, low / 10000, low % 10000 }));
}
template<int dim> void box(const std::string &rule, std::istream &in)
{
  std::array<int, dim> n{};
  std::array<double, dim> lo{}, hi{};
  for (auto &v : n) in >> v;
  for (auto &v : lo) in >> v, v /= 4;
  for (auto &v : hi) in >> v, v /= 4;
  int scale{}, unit{};
  in >> scale >> unit;
  using Q = Quadrature<dim>;
  std::shared_ptr<Q> q;
  bool same = true;
  for (const int k : n) same = same && k == n[0];
  const bool g = rule == "gauss";
  if (unit == 1 && same) q = g ? Q::create_Gauss_01(n[0]) : Q::create_tanh_sinh_01(n[0]);
  else if (unit == 1) q = g ? Q::create_Gauss_01(n) : Q::create_tanh_sinh_01(n);
  else if constexpr (dim == 1) {
    const Interval d(lo[0], hi[0]);
    q = g ? Q::create_Gauss(n, d) : Q::create_tanh_sinh(n, d);
  } else {
    const BoundBox<dim> d(lo, hi);
    q = g ? Q::create_Gauss(n, d) : Q::create_tanh_sinh(n, d);
  }
  if (scale != 4) q->scale_weights(scale / 4.0);
  std::vector<io::Json> pts, wgh;
  const Q &c = *q;
  for (const auto &p : c.points()) {
    std::vector<io::Json> v;
    for (int d = 0; d < dim; ++d) v.push_back(limbs(p(d)));
    pts.push_back(io::raw(io::text(v)));
  }
  for (const double w : c.weights()) wgh.push_back(limbs(w));
  io::Obj o;
  o.add("k", "box").add("points", pts).add("weights", wgh).add("count", q->get_num_points());
  io::say(o);
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string what, rule;
    in >> what >> rule;
    if (what == "rule") {
      int n{};
      in >> n;
      std::vector<io::Json> x, w;
      for (int i = 0; i < n; ++i) {
        x.push_back(limbs(rule == "gauss" ? Gauss::get_abscissa(n, i) : TanhSinh::get_abscissa(n, i)));
        w.push_back(limbs(rule == "gauss" ? Gauss::get_weight(n, i) : TanhSinh::get_weight(n, i)));
      }
      io::say(io::Obj().add("k", "rule").add("x", x).add("w", w));
      continue;
    }
    int dim{};
    in >> dim;
    if (dim == 1) box<1>(rule, in);
    if (dim == 2) box<2>(rule, in);
    if (dim == 3) box<3>(rule, in);
  }
}
