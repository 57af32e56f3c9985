// Stand-in of Algoim's sets of polynomials and of the elimination of an axis: the faces, discriminants (of degree two)
// and resultants (up to degree two) of the polynomials of a set, by interpolation of their values.
#ifndef STANDIN_ALGOIM_POLYSET_HPP
#define STANDIN_ALGOIM_POLYSET_HPP
#include <algoim/bernstein.hpp>
#include <algoim/booluarray.hpp>
#include <algoim/xarray.hpp>
#include <cstdlib>
#include <vector>
namespace algoim {
template<typename T> struct spark
{
  std::vector<T> a, b;
  template<typename M> spark(T **p, M n, T **q, M m) : a(static_cast<std::size_t>(n) + 1), b(static_cast<std::size_t>(m) + 1)
  {
    *p = a.data();
    *q = b.data();
  }
};
#define algoim_spark_alloc(T, ...) spark<T> standin_spark_var(__VA_ARGS__)
template<int N, int E> class PolySet
{
  struct Item
  {
    std::vector<real> coefs;
    uvector<int, N> ext;
    booluarray<N, E> mask;
  };
  std::vector<Item> items_;

public:
  std::size_t count() const { return items_.size(); }
  xarray<real, N> poly(std::size_t i) const
  {
    const auto &p = items_.at(i);
    return xarray<real, N>(const_cast<real *>(p.coefs.data()), p.ext);
  }
  const booluarray<N, E> &mask(std::size_t i) const { return items_.at(i).mask; }
  void push_back(const xarray<real, N> &p, const booluarray<N, E> &m) { items_.push_back({ std::vector<real>(p.data(), p.data() + p.size()), p.ext(), m }); }
};
namespace bernstein {
template<int N> void collapseAlongAxis(const xarray<real, N> &p, const uvector<real, N - 1> &x, int dir, real *out)
{
  for (int i = 0; i < p.ext(dir); ++i) out[i] = 0;
  each<N>(p.ext(), [&](const uvector<int, N> &i) {
    real b = p.m(i);
    for (int k = 0, j = 0; k < N; ++k)
      if (k != dir) b *= basis(p.ext(k), i(k), x(j++));
    out[i(dir)] += b;
  });
}
inline real value1(const std::vector<real> &c, real x)
{
  real r = 0;
  for (std::size_t i = 0; i < c.size(); ++i) r += c[i] * basis(static_cast<int>(c.size()), static_cast<int>(i), x);
  return r;
}
/// simple roots in the unit interval: one in each monotonic piece in which the sign changes
inline void roots1(const std::vector<real> &c, std::vector<real> &roots)
{
  roots.clear();
  real size = 0;
  for (const real v : c) size = std::max(size, std::abs(v));
  if (c.size() < 2 || size == 0) return;
  std::vector<real> der, at{ 0 }, mid;
  for (std::size_t i = 0; i + 1 < c.size(); ++i) der.push_back(c[i + 1] - c[i]);
  roots1(der, mid);
  at.insert(at.end(), mid.begin(), mid.end());
  at.push_back(1);
  const real eps = 1.0e-14 * size;
  for (std::size_t i = 0; i + 1 < at.size(); ++i) {
    real a = at[i], b = at[i + 1];
    if (b <= a) continue;
    const real fa = value1(c, a), fb = value1(c, b);
    if (std::abs(fa) <= eps) {
      if (roots.empty() || roots.back() < a) roots.push_back(a);
      continue;
    }
    if (std::abs(fb) <= eps) {
      if (i + 2 == at.size()) roots.push_back(b);
      continue;
    }
    if ((fa < 0) == (fb < 0)) continue;
    for (int s = 0; s < 200 && b - a > 0; ++s) {
      const real m = 0.5 * (a + b);
      if (m == a || m == b) break;
      ((value1(c, m) < 0) == (fa < 0) ? a : b) = m;
    }
    if (c.size() == 2) a = c[0] / (c[0] - c[1]);
    roots.push_back(a);
  }
}
inline int bernsteinUnitIntervalRealRoots(const real *p, int order, real *out)
{
  std::vector<real> roots;
  roots1(std::vector<real>(p, p + order), roots);
  for (std::size_t i = 0; i < roots.size(); ++i) out[i] = roots[i];
  return static_cast<int>(roots.size());
}
}// namespace bernstein
namespace detail {
template<int N, int E> bool maskEmpty(const booluarray<N, E> &m) { return !m.any; }
template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &p, const booluarray<N, E> &m)
{
  return booluarray<N, E>(m.any && bernstein::uniformSign(p) == 0);
}
template<int N, int E> bool lineIntersectsMask(const booluarray<N, E> &m, const uvector<real, N - 1> &, int) { return m.any; }
template<int N, int E> bool pointWithinMask(const booluarray<N, E> &m, const uvector<real, N> &) { return m.any; }
/// a polynomial that owns its coefficients
template<int N> struct Owned
{
  std::vector<real> c;
  uvector<int, N> ext;
  explicit Owned(const uvector<int, N> &e) : c(static_cast<std::size_t>(prod(e)), 0.0), ext(e) {}
  explicit Owned(const xarray<real, N> &p) : c(p.data(), p.data() + p.size()), ext(p.ext()) {}
  xarray<real, N> view() { return xarray<real, N>(c.data(), ext); }
};
/// lowers the degree where the leading coefficient vanishes
template<int N> void reduce(Owned<N> &p)
{
  real size = 0;
  for (const real v : p.c) size = std::max(size, std::abs(v));
  for (int d = 0; d < N; ++d)
    while (p.ext(d) > 1) {
      const int n = p.ext(d);
      auto v = p.view();
      real lead = 0;
      bernstein::each<N>(set_component(p.ext, d, 1), [&](uvector<int, N> i) {
        real s = 0;
        for (int k = 0; k < n; ++k) {
          i(d) = k;
          s += ((n - 1 - k) % 2 ? -1 : 1) * Binomial::c(n - 1, k) * v.m(i);
        }
        lead = std::max(lead, std::abs(s));
      });
      if (lead > 1.0e-12 * size) break;
      Owned<N> q(set_component(p.ext, d, n - 1));
      auto w = q.view();
      bernstein::each<N>(set_component(p.ext, d, 1), [&](uvector<int, N> i) {
        real last = 0;
        for (int k = 0; k + 1 < n; ++k) { // elevation undone
          i(d) = k;
          const real b = (v.m(i) * (n - 1) - k * last) / (n - 1 - k);
          w.m(i) = b;
          last = b;
        }
      });
      p = q;
    }
}
/// the polynomial of the given orders with the values of f
template<int N, typename F> Owned<N> interpolate(const uvector<int, N> &ext, F f)
{
  Owned<N> p(ext);
  auto v = p.view();
  const auto node = [](int i, int n) { return n < 2 ? 0.5 : 0.5 - 0.5 * std::cos(std::numbers::pi * (2 * i + 1) / (2 * n)); };
  bernstein::each<N>(ext, [&](const uvector<int, N> &i) {
    uvector<real, N> x(0.0);
    for (int d = 0; d < N; ++d) x(d) = node(i(d), ext(d));
    v.m(i) = f(x);
  });
  for (int d = 0; d < N; ++d) {
    const auto n = static_cast<std::size_t>(ext(d));
    bernstein::each<N>(set_component(ext, d, 1), [&](uvector<int, N> i) {
      std::vector<std::vector<real>> A(n, std::vector<real>(n + 1));
      for (std::size_t r = 0; r < n; ++r) {
        for (std::size_t c = 0; c < n; ++c) A[r][c] = bernstein::basis(ext(d), static_cast<int>(c), node(static_cast<int>(r), ext(d)));
        i(d) = static_cast<int>(r);
        A[r][n] = v.m(i);
      }
      for (std::size_t k = 0; k < n; ++k) {
        std::size_t piv = k;
        for (std::size_t r = k; r < n; ++r)
          if (std::abs(A[r][k]) > std::abs(A[piv][k])) piv = r;
        std::swap(A[k], A[piv]);
        for (std::size_t r = 0; r < n; ++r)
          if (r != k) {
            const real t = A[r][k] / A[k][k];
            for (std::size_t c = k; c <= n; ++c) A[r][c] -= t * A[k][c];
          }
      }
      for (std::size_t k = 0; k < n; ++k) {
        i(d) = static_cast<int>(k);
        v.m(i) = A[k][n] / A[k][k];
      }
    });
  }
  return p;
}
template<int N> Owned<N - 1> face(const xarray<real, N> &p, int k, int side)
{
  Owned<N - 1> r(remove_component(p.ext(), k));
  auto v = r.view();
  bernstein::each<N - 1>(r.ext, [&](const uvector<int, N - 1> &i) { v.m(i) = p.m(add_component(i, k, side == 0 ? 0 : p.ext(k) - 1)); });
  return r;
}
/// power coefficients along an axis, at x in the others
template<int N> std::array<real, 3> powers(const xarray<real, N> &p, const uvector<real, N - 1> &x, int k)
{
  std::array<real, 3> b{};
  if (p.ext(k) > 3) std::abort();
  bernstein::collapseAlongAxis(p, x, k, b.data());
  if (p.ext(k) == 3) return { b[0], 2 * (b[1] - b[0]), b[0] - 2 * b[1] + b[2] };
  if (p.ext(k) == 2) return { b[0], b[1] - b[0], 0 };
  return { b[0], 0, 0 };
}
template<int N> Owned<N - 1> discriminant(const xarray<real, N> &p, int k)
{
  const auto e = remove_component(p.ext(), k);
  return interpolate<N - 1>((e - 1) * 2 + 1, [&](const auto &x) {
    const auto c = powers(p, x, k);
    return c[1] * c[1] - 4 * c[0] * c[2];
  });
}
template<int N> Owned<N - 1> resultant(const xarray<real, N> &p, const xarray<real, N> &q, int k)
{
  const auto ep = remove_component(p.ext(), k), eq = remove_component(q.ext(), k);
  const int n = p.ext(k) - 1, m = q.ext(k) - 1;
  return interpolate<N - 1>((ep - 1) * m + (eq - 1) * n + 1, [&](const auto &x) -> real {
    const auto a = powers(p, x, k), b = powers(q, x, k);
    if (n == 1 && m == 1) return a[1] * b[0] - a[0] * b[1];
    if (n == 2 && m == 1) return a[2] * b[0] * b[0] - a[1] * b[0] * b[1] + a[0] * b[1] * b[1];
    if (n == 1 && m == 2) return b[2] * a[0] * a[0] - b[1] * a[0] * a[1] + b[0] * a[1] * a[1];
    const real u = a[2] * b[0] - a[0] * b[2];
    return u * u - (a[2] * b[1] - a[1] * b[2]) * (a[1] * b[0] - a[0] * b[1]);
  });
}
template<int N, int E> void put(PolySet<N, E> &out, Owned<N> p)
{
  reduce(p);
  real size = 0;
  for (const real v : p.c) size = std::max(size, std::abs(v));
  if (size < 1.0e-13) return; // nothing is separated by it
  const auto m = nonzeroMask(p.view(), booluarray<N, E>(true));
  if (!maskEmpty(m)) out.push_back(p.view(), m);
}
template<int N, int E> void eliminate_axis(const PolySet<N, E> &phi, int k, PolySet<N - 1, E> &out)
{
  for (std::size_t i = 0; i < phi.count(); ++i) {
    Owned<N> p(phi.poly(i));
    reduce(p);
    put(out, face(p.view(), k, 0));
    put(out, face(p.view(), k, 1));
    if (p.ext(k) > 2) put(out, discriminant(p.view(), k));
    for (std::size_t j = i + 1; j < phi.count(); ++j) {
      Owned<N> q(phi.poly(j));
      reduce(q);
      if (p.ext(k) > 1 && q.ext(k) > 1) put(out, resultant(p.view(), q.view(), k));
    }
  }
}
template<int N, int E> uvector<real, N> score_estimate(const PolySet<N, E> &phi, uvector<bool, N> &has_disc)
{
  uvector<real, N> score(0.0);
  has_disc = uvector<bool, N>(false);
  for (std::size_t i = 0; i < phi.count(); ++i) {
    Owned<N> p(phi.poly(i));
    reduce(p);
    for (int k = 0; k < N; ++k)
      if (p.ext(k) > 2) {
        auto d = discriminant(p.view(), k);
        if (bernstein::uniformSign(d.view()) == 0) has_disc(k) = true;
      }
    bernstein::each<N>(uvector<int, N>(5), [&](const uvector<int, N> &t) {
      uvector<real, N> x(0.0);
      for (int d = 0; d < N; ++d) x(d) = (t(d) + 0.5) / 5;
      const auto g = bernstein::evalBernsteinPolyGradient(p.view(), x);
      real s = 0;
      for (int d = 0; d < N; ++d) s += std::abs(g(d));
      if (s > 1.0e-12)
        for (int d = 0; d < N; ++d) score(d) += std::abs(g(d)) / s;
    });
  }
  if (max(score) == 0) score = uvector<real, N>(1.0);
  return score;
}
}// namespace detail
}// namespace algoim
#endif
