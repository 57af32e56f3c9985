// Stand-in of Algoim's views of multi-dimensional arrays (the last index runs fastest).
#ifndef STANDIN_ALGOIM_XARRAY_HPP
#define STANDIN_ALGOIM_XARRAY_HPP
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext) : data_(data), ext_(ext) {}
  xarray(const xarray &) = default;
  xarray &operator=(const xarray &o)
  {
    assert(all(ext_ == o.ext_));
    for (int i = 0; i < size(); ++i) data_[i] = o.data_[i];
    return *this;
  }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int i) const { return ext_(i); }
  int size() const { return prod(ext_); }
  T *data() { return data_; }
  const T *data() const { return data_; }
  T &operator[](int i) { assert(0 <= i && i < size()); return data_[i]; }
  const T &operator[](int i) const { assert(0 <= i && i < size()); return data_[i]; }
  int flat(const uvector<int, N> &i) const
  {
    int f = 0;
    for (int k = 0; k < N; ++k) f = f * ext_(k) + i(k);
    return f;
  }
  T &m(const uvector<int, N> &i) { return (*this)[flat(i)]; }
  const T &m(const uvector<int, N> &i) const { return (*this)[flat(i)]; }
};
}// namespace algoim
#endif
