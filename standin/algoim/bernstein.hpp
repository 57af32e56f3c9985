// Stand-in of Algoim's tensor-product Bernstein polynomials on the unit box.
#ifndef STANDIN_ALGOIM_BERNSTEIN_HPP
#define STANDIN_ALGOIM_BERNSTEIN_HPP
#include <algoim/binomial.hpp>
#include <algoim/xarray.hpp>
#include <numbers>
#include <vector>
namespace algoim::bernstein {
inline real modifiedChebyshevNode(int i, int n)
{
  if (n < 2) return 0.5;
  const real h = std::numbers::pi / (2 * n);
  return i == 0 ? 0 : i == n - 1 ? 1 : 0.5 - 0.5 * std::cos((2 * i + 1) * h) / std::cos(h);
}
inline real basis(int n, int i, real x) { return Binomial::c(n - 1, i) * std::pow(x, i) * std::pow(1 - x, n - 1 - i); }
inline real basis_der(int n, int i, real x)
{
  if (n < 2) return 0;
  return (n - 1) * ((i > 0 ? basis(n - 1, i - 1, x) : 0) - (i < n - 1 ? basis(n - 1, i, x) : 0));
}
template<int N, typename F> void each(const uvector<int, N> &ext, F f)
{
  uvector<int, N> i(0);
  for (;;) {
    f(i);
    int k = N - 1;
    for (; k >= 0; --k) {
      if (++i(k) < ext(k)) break;
      i(k) = 0;
    }
    if (k < 0) return;
  }
}
template<int N, typename T> T evalBernsteinPoly(const xarray<T, N> &p, const uvector<real, N> &x)
{
  T r = T(0);
  each<N>(p.ext(), [&](const uvector<int, N> &i) {
    real b = 1;
    for (int k = 0; k < N; ++k) b *= basis(p.ext(k), i(k), x(k));
    r += p.m(i) * b;
  });
  return r;
}
template<typename T, int N> uvector<T, N> evalBernsteinPolyGradient(const xarray<T, N> &p, const uvector<real, N> &x)
{
  uvector<T, N> r(T(0));
  each<N>(p.ext(), [&](const uvector<int, N> &i) {
    for (int d = 0; d < N; ++d) {
      real b = 1;
      for (int k = 0; k < N; ++k) b *= k == d ? basis_der(p.ext(k), i(k), x(k)) : basis(p.ext(k), i(k), x(k));
      r(d) += p.m(i) * b;
    }
  });
  return r;
}
template<int N, typename T> int uniformSign(const xarray<T, N> &p)
{
  bool pos = true, neg = true;
  for (int i = 0; i < p.size(); ++i) {
    pos = pos && p[i] > 0;
    neg = neg && p[i] < 0;
  }
  return pos ? 1 : neg ? -1 : 0;
}
/// the polynomial of the box [a, b], in place
template<typename T, int N> void deCasteljau(xarray<T, N> &p, const real *a, const real *b)
{
  for (int d = 0; d < N; ++d) {
    const int n = p.ext(d);
    each<N>(set_component(p.ext(), d, 1), [&](uvector<int, N> i) {
      std::vector<T> c(static_cast<std::size_t>(n)), r(c);
      for (int k = 0; k < n; ++k) {
        i(d) = k;
        c[static_cast<std::size_t>(k)] = p.m(i);
      }
      // blossom: coefficient k of the restriction has n-1-k arguments a and k arguments b
      for (int k = 0; k < n; ++k) {
        auto q = c;
        for (int s = 0; s < n - 1; ++s) {
          const real t = s < k ? b[d] : a[d];
          for (int j = 0; j + 1 < n - s; ++j)
            q[static_cast<std::size_t>(j)] = q[static_cast<std::size_t>(j)] * (1 - t) + q[static_cast<std::size_t>(j) + 1] * t;
        }
        r[static_cast<std::size_t>(k)] = q[0];
      }
      for (int k = 0; k < n; ++k) {
        i(d) = k;
        p.m(i) = r[static_cast<std::size_t>(k)];
      }
    });
  }
}
}// namespace algoim::bernstein
#endif
