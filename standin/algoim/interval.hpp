// Stand-in of Algoim's first-order interval arithmetic: x in alpha + beta . [-delta, delta] +- eps.
#ifndef STANDIN_ALGOIM_INTERVAL_HPP
#define STANDIN_ALGOIM_INTERVAL_HPP
#include <algoim/uvector.hpp>
#include <algorithm>
#include <limits>
namespace algoim {
template<int N> struct Interval
{
  real alpha;
  uvector<real, N> beta;
  real eps;
  Interval() : alpha(0), beta(real(0)), eps(0) {}
  Interval(real a) : alpha(a), beta(real(0)), eps(0) {}
  Interval(real a, const uvector<real, N> &b, real e = 0) : alpha(a), beta(b), eps(e) {}
  static uvector<real, N> &delta()
  {
    static thread_local uvector<real, N> d(real(0));
    return d;
  }
  static real &delta(int i) { return delta()(i); }
  real linear() const
  {
    real r = 0;
    for (int i = 0; i < N; ++i) r += std::abs(beta(i)) * delta()(i);
    return r;
  }
  real maxDeviation() const { return linear() + eps; }
  bool uniformSign() const { return maxDeviation() < std::abs(alpha); }
  int sign() const { return alpha > maxDeviation() ? 1 : alpha < -maxDeviation() ? -1 : 0; }
  Interval &operator+=(const Interval &o) { return *this = *this + o; }
  Interval &operator-=(const Interval &o) { return *this = *this - o; }
  Interval &operator*=(const Interval &o) { return *this = *this * o; }
  Interval &operator/=(const Interval &o) { return *this = *this / o; }
  friend Interval operator-(const Interval &a) { return Interval(-a.alpha, -a.beta, a.eps); }
  friend Interval operator+(const Interval &a, const Interval &b) { return Interval(a.alpha + b.alpha, a.beta + b.beta, a.eps + b.eps); }
  friend Interval operator-(const Interval &a, const Interval &b) { return Interval(a.alpha - b.alpha, a.beta - b.beta, a.eps + b.eps); }
  friend Interval operator*(const Interval &a, const Interval &b)
  {
    const real la = a.linear(), lb = b.linear();
    return Interval(a.alpha * b.alpha, a.beta * b.alpha + b.beta * a.alpha,
      la * lb + (std::abs(a.alpha) + la) * b.eps + (std::abs(b.alpha) + lb) * a.eps + a.eps * b.eps);
  }
  // f(x) for x within c +- r: f(c) + f'(c) (x - c) +- max |f''| r^2 / 2
  static Interval taylor(const Interval &x, real f, real df, real ddfmax)
  {
    const real r = x.maxDeviation();
    return Interval(f, x.beta * df, std::abs(df) * x.eps + ddfmax * r * r / 2);
  }
  friend Interval operator/(const Interval &a, const Interval &b)
  {
    const real c = b.alpha, low = std::abs(c) - b.maxDeviation();
    if (low <= 0) return Interval(0, uvector<real, N>(real(0)), std::numeric_limits<real>::infinity());
    return a * taylor(b, 1 / c, -1 / (c * c), 2 / (low * low * low));
  }
  friend Interval sqrt(const Interval &x)
  {
    const real low = x.alpha - x.maxDeviation();
    if (low <= 0) {
      const real up = std::sqrt(std::max(real(0), x.alpha + x.maxDeviation())) / 2;
      return Interval(up, uvector<real, N>(real(0)), up);
    }
    const real s = std::sqrt(x.alpha);
    return taylor(x, s, 1 / (2 * s), 1 / (4 * low * std::sqrt(low)));
  }
  friend Interval sin(const Interval &x) { return taylor(x, std::sin(x.alpha), std::cos(x.alpha), 1); }
  friend Interval cos(const Interval &x) { return taylor(x, std::cos(x.alpha), -std::sin(x.alpha), 1); }
  friend Interval exp(const Interval &x)
  {
    return taylor(x, std::exp(x.alpha), std::exp(x.alpha), std::exp(x.alpha + x.maxDeviation()));
  }
  friend Interval tanh(const Interval &x)
  {
    const real t = std::tanh(x.alpha);
    return taylor(x, t, 1 - t * t, 1);
  }
  friend Interval abs(const Interval &x)
  {
    if (x.uniformSign()) return x.alpha > 0 ? x : -x;
    const real up = (std::abs(x.alpha) + x.maxDeviation()) / 2;
    return Interval(up, uvector<real, N>(real(0)), up);
  }
};
#define STANDIN_MIXED(op)                                                                                    \
  template<int N, typename T>                                                                                \
    requires std::is_arithmetic_v<T>                                                                         \
  Interval<N> operator op(const Interval<N> &a, const T &b)                                                  \
  {                                                                                                          \
    return a op Interval<N>(static_cast<real>(b));                                                           \
  }                                                                                                          \
  template<int N, typename T>                                                                                \
    requires std::is_arithmetic_v<T>                                                                         \
  Interval<N> operator op(const T &a, const Interval<N> &b)                                                  \
  {                                                                                                          \
    return Interval<N>(static_cast<real>(a)) op b;                                                           \
  }
STANDIN_MIXED(+)
STANDIN_MIXED(-)
STANDIN_MIXED(*)
STANDIN_MIXED(/)
#undef STANDIN_MIXED
}// namespace algoim
#endif
