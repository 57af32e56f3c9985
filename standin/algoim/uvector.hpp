// Stand-in of Algoim's small fixed-size vectors: element-wise operations, comparisons giving vectors of bool.
#ifndef STANDIN_ALGOIM_UVECTOR_HPP
#define STANDIN_ALGOIM_UVECTOR_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <limits>
#include <numeric>
#include <ranges>
#include <type_traits>
namespace algoim {
using real = double;
template<typename T, int N> class uvector
{
  std::array<T, static_cast<std::size_t>(N)> d_{};

public:
  static constexpr int extent_ = N;
  using value_type = T;
  uvector() = default;
  template<typename U>
    requires std::convertible_to<U, T>
  uvector(const U &x)
  {
    for (auto &v : d_) v = static_cast<T>(x);
  }
  template<typename U>
    requires std::convertible_to<U, T>
  uvector(const uvector<U, N> &o)
  {
    for (int i = 0; i < N; ++i) (*this)(i) = static_cast<T>(o(i));
  }
  template<typename... U>
    requires(sizeof...(U) == N && N > 1 && (std::convertible_to<U, T> && ...))
  uvector(const U &...x) : d_{ static_cast<T>(x)... }
  {}
  T &operator()(int i) { assert(0 <= i && i < N); return d_[static_cast<std::size_t>(i)]; }
  const T &operator()(int i) const { assert(0 <= i && i < N); return d_[static_cast<std::size_t>(i)]; }
  T &operator[](int i) { return (*this)(i); }
  const T &operator[](int i) const { return (*this)(i); }
  T *data() { return d_.data(); }
  const T *data() const { return d_.data(); }
#define STANDIN_COMPOUND(op)                                                                  \
  template<typename U> uvector &operator op(const uvector<U, N> &o)                           \
  {                                                                                           \
    for (int i = 0; i < N; ++i) (*this)(i) op o(i);                                           \
    return *this;                                                                             \
  }                                                                                           \
  template<typename U>                                                                        \
    requires(!requires { U::extent_; })                                                       \
  uvector &operator op(const U &o)                                                            \
  {                                                                                           \
    for (int i = 0; i < N; ++i) (*this)(i) op o;                                              \
    return *this;                                                                             \
  }
  STANDIN_COMPOUND(+=)
  STANDIN_COMPOUND(-=)
  STANDIN_COMPOUND(*=)
  STANDIN_COMPOUND(/=)
#undef STANDIN_COMPOUND
};
template<typename T>
concept notvec = !requires(const T &t) { std::remove_cvref_t<T>::extent_; };
#define STANDIN_BINARY(op)                                                                    \
  template<typename T, typename U, int N> auto operator op(const uvector<T, N> &a, const uvector<U, N> &b) \
  {                                                                                           \
    uvector<std::remove_cvref_t<decltype(std::declval<T>() op std::declval<U>())>, N> r;      \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b(i);                                          \
    return r;                                                                                 \
  }                                                                                           \
  template<typename T, notvec U, int N> auto operator op(const uvector<T, N> &a, const U &b)  \
  {                                                                                           \
    uvector<std::remove_cvref_t<decltype(std::declval<T>() op std::declval<U>())>, N> r;      \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b;                                             \
    return r;                                                                                 \
  }                                                                                           \
  template<notvec T, typename U, int N> auto operator op(const T &a, const uvector<U, N> &b)  \
  {                                                                                           \
    uvector<std::remove_cvref_t<decltype(std::declval<T>() op std::declval<U>())>, N> r;      \
    for (int i = 0; i < N; ++i) r(i) = a op b(i);                                             \
    return r;                                                                                 \
  }
STANDIN_BINARY(+)
STANDIN_BINARY(-)
STANDIN_BINARY(*)
STANDIN_BINARY(/)
STANDIN_BINARY(==)
STANDIN_BINARY(!=)
STANDIN_BINARY(<)
STANDIN_BINARY(<=)
STANDIN_BINARY(>)
STANDIN_BINARY(>=)
STANDIN_BINARY(&&)
STANDIN_BINARY(||)
#undef STANDIN_BINARY
template<typename T, int N> uvector<T, N> operator-(const uvector<T, N> &a)
{
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = -a(i);
  return r;
}
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a)
{
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = std::abs(a(i));
  return r;
}
template<typename T, int N> T sum(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) r += a(i);
  return r;
}
template<typename T, int N> T prod(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) r *= a(i);
  return r;
}
template<typename T, typename U, int N> auto dot(const uvector<T, N> &a, const uvector<U, N> &b) { return sum(a * b); }
template<typename T, int N> T sqrnorm(const uvector<T, N> &a) { return sum(a * a); }
template<typename T, int N> auto norm(const uvector<T, N> &a)
{
  using std::sqrt;
  return sqrt(sqrnorm(a));
}
template<typename T, int N> bool all(const uvector<T, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (!a(i)) return false;
  return true;
}
template<typename T, int N> bool any(const uvector<T, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (a(i)) return true;
  return false;
}
template<typename T, int N> int argmax(const uvector<T, N> &a)
{
  int r = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) > a(r)) r = i;
  return r;
}
template<typename T, int N> int argmin(const uvector<T, N> &a)
{
  int r = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) < a(r)) r = i;
  return r;
}
template<typename T, int N> T max(const uvector<T, N> &a) { return a(argmax(a)); }
template<typename T, int N> T min(const uvector<T, N> &a) { return a(argmin(a)); }
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &a, int c)
{
  uvector<T, N - 1> r;
  for (int i = 0, j = 0; i < N; ++i)
    if (i != c) r(j++) = a(i);
  return r;
}
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &a, int c, std::type_identity_t<T> x)
{
  uvector<T, N + 1> r;
  for (int i = 0; i <= N; ++i) r(i) = i < c ? a(i) : i == c ? x : a(i - 1);
  return r;
}
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &a, int c, std::type_identity_t<T> x)
{
  uvector<T, N> r(a);
  r(c) = x;
  return r;
}
}// namespace algoim
#endif
