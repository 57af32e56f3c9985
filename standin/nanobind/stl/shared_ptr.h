#ifndef STANDIN_NANOBIND_STL_SHARED_PTR_H
#define STANDIN_NANOBIND_STL_SHARED_PTR_H
#include "../nanobind.h"
namespace nanobind::detail {
template<typename T> struct Caster<std::shared_ptr<T>>
{
  std::shared_ptr<T> v;
  bool load(PyObject *o, bool)
  {
    using U = std::remove_const_t<T>;
    auto *i = instance(o, typeid(U));
    if (!i) return false;
    v = std::shared_ptr<T>(keep(o), static_cast<U *>(i->p));
    return true;
  }
  std::shared_ptr<T> &get() { return v; }
  static PyObject *cast(const std::shared_ptr<T> &p, rv_policy, PyObject *) { return wrap_shared(p); }
};
}// namespace nanobind::detail
#endif
