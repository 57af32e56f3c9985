#ifndef STANDIN_NANOBIND_STL_VECTOR_H
#define STANDIN_NANOBIND_STL_VECTOR_H
#include "../nanobind.h"
namespace nanobind::detail {
template<typename F> bool each_item(PyObject *o, bool convert, F f)
{
  if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
  const object s = object::steal(PySequence_Fast(o, ""));
  if (!s.is_valid()) {
    PyErr_Clear();
    return false;
  }
  const Py_ssize_t n = PySequence_Fast_GET_SIZE(s.ptr());
  if (!f(n, nullptr, convert)) return false;
  for (Py_ssize_t k = 0; k < n; ++k)
    if (!f(k, PySequence_Fast_GET_ITEM(s.ptr(), k), convert)) return false;
  return true;
}
template<typename T> struct Caster<std::vector<T>>
{
  std::vector<T> v;
  bool load(PyObject *o, bool convert)
  {
    return each_item(o, convert, [&](Py_ssize_t, PyObject *x, bool c) {
      if (!x) {
        v.clear();
        return true;
      }
      caster<T> t;
      if (!t.load(x, c)) return false;
      v.push_back(t.get());
      return true;
    });
  }
  std::vector<T> &get() { return v; }
  template<typename U> static PyObject *cast(U &&u, rv_policy policy, PyObject *parent)
  {
    object l = object::steal(checked(PyList_New(0)));
    for (auto &x : u) {
      const object y = object::steal(checked(give(x, policy, parent)));
      PyList_Append(l.ptr(), y.ptr());
    }
    return l.release();
  }
};
}// namespace nanobind::detail
#endif
