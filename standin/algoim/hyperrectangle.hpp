#ifndef STANDIN_ALGOIM_HYPERRECTANGLE_HPP
#define STANDIN_ALGOIM_HYPERRECTANGLE_HPP
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class HyperRectangle
{
  uvector<T, N> lo_, hi_;

public:
  HyperRectangle(const uvector<T, N> &lo, const uvector<T, N> &hi) : lo_(lo), hi_(hi) {}
  const uvector<T, N> &min() const { return lo_; }
  T min(int i) const { return lo_(i); }
  uvector<T, N> &min() { return lo_; }
  T &min(int i) { return lo_(i); }
  const uvector<T, N> &max() const { return hi_; }
  T max(int i) const { return hi_(i); }
  uvector<T, N> &max() { return hi_; }
  T &max(int i) { return hi_(i); }
  const uvector<T, N> &side(int s) const { return s == 0 ? lo_ : hi_; }
  T side(int s, int i) const { return s == 0 ? lo_(i) : hi_(i); }
  uvector<T, N> extent() const { return hi_ - lo_; }
  T extent(int i) const { return hi_(i) - lo_(i); }
  uvector<T, N> midpoint() const { return (lo_ + hi_) * T(0.5); }
  T midpoint(int i) const { return (lo_(i) + hi_(i)) * T(0.5); }
};
}// namespace algoim
#endif
