// Cases: "size dim n.." | "big dim n.. t.." | "pair dim a.. b.." | "range dim lo.. hi.. n.."
#include "io.hpp"
#include <qugar/tensor_index_tp.hpp>
#include <functional>
using namespace qugar;
template<int dim> TensorIndexTP<dim> read(std::istream &in)
{
  TensorIndexTP<dim> t;
  for (int d = 0; d < dim; ++d) in >> t(d);
  return t;
}
template<int dim> io::Json range_json(const TensorIndexRangeTP<dim> &r)
{
  std::vector<io::Json> elems, posts;
  std::vector<std::int64_t> flats;
  std::size_t k = 0;
  for (auto it = r.begin(); it != r.end() && k < 500; ++it, ++k) {
    elems.push_back(io::vec(*it, dim));
    flats.push_back(it.flat());
  }
  k = 0;
  for (auto it = r.cbegin(); !(it == r.cend()) && k < 500; ++k) posts.push_back(io::vec(*it++, dim));
  io::Obj o;
  o.add("lo", io::vec(r.get_lower_bound(), dim)).add("hi", io::vec(r.get_upper_bound(), dim));
  o.add("size", r.size()).add("sizes", io::vec(r.get_sizes(), dim));
  o.add("elems", elems).add("posts", posts).add("flats", flats);
  return o.json();
}
template<int dim> void go(const std::string &what, std::istream &in)
{
  io::Obj o;
  o.add("k", what);
  if (what == "size") {
    const TensorSizeTP<dim> n(read<dim>(in));
    std::vector<io::Json> tens;
    std::vector<std::int64_t> flats, flats2;
    for (std::int64_t f = 0; f < static_cast<std::int64_t>(n.size()); ++f) {
      const TensorIndexTP<dim> t(f, n);
      tens.push_back(io::vec(t, dim));
      flats.push_back(t.flat(n));
      flats2.push_back(TensorIndexTP<dim>(f, TensorIndexTP<dim>(n)).flat(TensorIndexTP<dim>(n)));
    }
    o.add("n", io::vec(n, dim)).add("size", n.size()).add("tens", tens).add("flats", flats).add("flats2", flats2);
  } else if (what == "big") {
    // ids of spaces with more elements than fit in 32 bits, in digits of base 1000
    const TensorSizeTP<dim> n(read<dim>(in));
    const auto t = read<dim>(in);
    const auto digits = [](std::int64_t v) {
      std::vector<std::int64_t> d;
      for (; v > 0; v /= 1000) d.push_back(v % 1000);
      if (v < 0) d.push_back(-1);
      return d;
    };
    const std::int64_t f = t.flat(n);
    TensorIndexTP<dim> up(t);
    for (int d = 0; d < dim; ++d) ++up(d);
    const TensorIndexRangeTP<dim> one(t, up), all(n);
    o.add("n", io::vec(n, dim)).add("t", io::vec(t, dim)).add("size", digits(static_cast<std::int64_t>(n.size())));
    o.add("flat", digits(f)).add("flat2", digits(t.flat(TensorIndexTP<dim>(n)))).add("back", io::vec(TensorIndexTP<dim>(f, n), dim));
    o.add("rsize", digits(static_cast<std::int64_t>(all.size()))).add("only", one.is_in_range(f, n));
    o.add("in", all.is_in_range(f, n)).add("past", all.is_in_range(static_cast<std::int64_t>(n.size()), n));
    const TensorIndexRangeTP<dim> rest(t, TensorIndexTP<dim>(n));
    o.add("it", digits(rest.begin().flat()));
  } else if (what == "pair") {
    const auto a = read<dim>(in), b = read<dim>(in);
    const std::hash<TensorIndexTP<dim>> h;
    o.add("a", io::vec(a, dim)).add("b", io::vec(b, dim)).add("lt", a < b).add("gt", b < a);
    o.add("eq", a == b).add("ne", a != b).add("hash", h(a) == h(b)).add("sizeq", TensorSizeTP<dim>(a) == TensorSizeTP<dim>(b));
    o.add("sum", io::vec(TensorSizeTP<dim>(a) + TensorSizeTP<dim>(b), dim));
  } else {
    const auto lo = read<dim>(in), hi = read<dim>(in), n = read<dim>(in);
    const TensorIndexRangeTP<dim> r(lo, hi);
    o.add("range", range_json(r)).add("n", io::vec(n, dim));
    std::vector<std::int64_t> in_flat, in_tens;
    for (std::int64_t f = 0; f < static_cast<std::int64_t>(TensorSizeTP<dim>(n).size()); ++f) {
      if (r.is_in_range(f, TensorSizeTP<dim>(n))) in_flat.push_back(f);
      if (r.is_in_range(TensorIndexTP<dim>(f, n))) in_tens.push_back(f);
    }
    for (std::int64_t f = 0; f < 3; ++f)
      if (r.is_in_range(static_cast<std::int64_t>(TensorSizeTP<dim>(n).size()) + f, TensorSizeTP<dim>(n))) in_flat.push_back(-1);
    o.add("inflat", in_flat).add("intens", in_tens);
    std::vector<io::Json> halves;
    if (r.size() > 1)
      for (const auto &h : r.split()) halves.push_back(range_json(h));
    o.add("halves", halves);
    std::vector<io::Json> same;
    if (lo == TensorIndexTP<dim>()) {
      same.push_back(range_json(TensorIndexRangeTP<dim>(hi)));
      same.push_back(range_json(TensorIndexRangeTP<dim>(TensorSizeTP<dim>(hi))));
      if (hi == TensorIndexTP<dim>(hi(0))) same.push_back(range_json(TensorIndexRangeTP<dim>(hi(0))));
    }
    o.add("same", same);
  }
  io::say(o);
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string what;
    int dim{};
    in >> what >> dim;
    if (dim == 1) go<1>(what, in);
    if (dim == 2) go<2>(what, in);
    if (dim == 3) go<3>(what, in);
  }
}
