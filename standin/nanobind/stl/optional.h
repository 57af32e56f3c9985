#ifndef STANDIN_NANOBIND_STL_OPTIONAL_H
#define STANDIN_NANOBIND_STL_OPTIONAL_H
#include "../nanobind.h"
#include <optional>
namespace nanobind::detail {
template<typename T> struct Caster<std::optional<T>>
{
  std::optional<T> v;
  bool load(PyObject *o, bool convert)
  {
    v.reset();
    if (o == Py_None) return true;
    caster<T> c;
    if (!c.load(o, convert)) return false;
    v = c.get();
    return true;
  }
  std::optional<T> &get() { return v; }
};
}// namespace nanobind::detail
#endif
