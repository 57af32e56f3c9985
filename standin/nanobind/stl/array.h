#ifndef STANDIN_NANOBIND_STL_ARRAY_H
#define STANDIN_NANOBIND_STL_ARRAY_H
#include "vector.h"
#include <array>
namespace nanobind::detail {
template<typename T, std::size_t N> struct Caster<std::array<T, N>>
{
  std::array<T, N> v;
  bool load(PyObject *o, bool convert)
  {
    return each_item(o, convert, [&](Py_ssize_t k, PyObject *x, bool c) {
      if (!x) return k == static_cast<Py_ssize_t>(N);
      caster<T> t;
      if (!t.load(x, c)) return false;
      v[static_cast<std::size_t>(k)] = t.get();
      return true;
    });
  }
  std::array<T, N> &get() { return v; }
  template<typename U> static PyObject *cast(U &&u, rv_policy policy, PyObject *parent) { return Caster<std::vector<T>>::cast(u, policy, parent); }
};
}// namespace nanobind::detail
#endif
