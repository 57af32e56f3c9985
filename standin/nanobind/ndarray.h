// Stand-in for nanobind/ndarray.h over NumPy's C interface.
#ifndef STANDIN_NANOBIND_NDARRAY_H
#define STANDIN_NANOBIND_NDARRAY_H
#include "nanobind.h"
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL standin_numpy
#ifndef STANDIN_NUMPY_HERE
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>

namespace nanobind {
struct numpy
{
};
struct c_contig
{
};
template<Py_ssize_t... N> struct shape
{
};

namespace detail {
  template<typename T> struct is_shape : std::false_type
  {
  };
  template<Py_ssize_t... N> struct is_shape<shape<N...>> : std::true_type
  {
    static std::vector<Py_ssize_t> list() { return { N... }; }
  };
  template<typename... A> struct first_number
  {
    using type = void;
  };
  template<typename A, typename... R> struct first_number<A, R...>
  {
    using type = std::conditional_t<std::is_arithmetic_v<A>, A, typename first_number<R...>::type>;
  };
  template<typename T> int number_type()
  {
    if constexpr (std::is_same_v<T, double>) return NPY_DOUBLE;
    else if constexpr (std::is_same_v<T, float>) return NPY_FLOAT;
    else if constexpr (std::is_signed_v<T>) return sizeof(T) == 8 ? NPY_INT64 : NPY_INT32;
    else return sizeof(T) == 8 ? NPY_UINT64 : NPY_UINT32;
  }
  void need_numpy();// in nanobind.cpp
}// namespace detail

template<typename... Args> class ndarray
{
public:
  using Scalar = typename detail::first_number<Args...>::type;
  static_assert(!std::is_void_v<Scalar>);
  using Value = std::remove_const_t<Scalar>;
  static constexpr bool contiguous = (std::is_same_v<Args, c_contig> || ...);
  using Data = std::conditional_t<std::is_const_v<Scalar>, const void, void>;

  ndarray() = default;
  ndarray(Data *data, std::initializer_list<std::size_t> shape, handle owner = {})
    : data_(static_cast<Scalar *>(data)), shape_(shape.begin(), shape.end()), owner_(object::borrow(owner.ptr()))
  {
    rows();
  }
  ndarray(Data *data, std::size_t ndim, const std::size_t *shape, handle owner = {})
    : data_(static_cast<Scalar *>(data)), shape_(shape, shape + ndim), owner_(object::borrow(owner.ptr()))
  {
    rows();
  }
  // of a NumPy array
  explicit ndarray(PyArrayObject *a) : data_(static_cast<Scalar *>(PyArray_DATA(a))), owner_(object::borrow(reinterpret_cast<PyObject *>(a)))
  {
    for (int k = 0; k < PyArray_NDIM(a); ++k) {
      shape_.push_back(static_cast<std::size_t>(PyArray_DIM(a, k)));
      strides_.push_back(PyArray_STRIDE(a, k) / static_cast<npy_intp>(sizeof(Scalar)));
    }
  }
  std::size_t shape(std::size_t k) const { return shape_.at(k); }
  std::size_t ndim() const { return shape_.size(); }
  std::size_t size() const
  {
    std::size_t n = 1;
    for (const auto s : shape_) n *= s;
    return n;
  }
  Scalar *data() const { return data_; }
  template<typename... I> Scalar &operator()(I... i) const
  {
    std::size_t k = 0;
    npy_intp at = 0;
    ((at += static_cast<npy_intp>(i) * strides_.at(k++)), ...);
    return data_[at];
  }
  static std::vector<Py_ssize_t> expected(bool &any)
  {
    std::vector<Py_ssize_t> s;
    any = true;
    (
      [&] {
        if constexpr (detail::is_shape<Args>::value) {
          s = detail::is_shape<Args>::list();
          any = false;
        }
      }(),
      ...);
    return s;
  }
  PyObject *to_numpy(rv_policy policy, PyObject *parent) const
  {
    detail::need_numpy();
    object owner = owner_;
    if (!owner.is_valid() && policy == rv_policy::reference_internal) owner = object::borrow(parent);
    const bool copy = policy == rv_policy::copy || policy == rv_policy::move
                      || (!owner.is_valid() && policy != rv_policy::reference && policy != rv_policy::none);
    std::vector<npy_intp> dims(shape_.begin(), shape_.end()), st;
    for (const auto s : strides_) st.push_back(s * static_cast<npy_intp>(sizeof(Scalar)));
    const int flags = std::is_const_v<Scalar> ? 0 : NPY_ARRAY_WRITEABLE;
    static char nothing[16];
    void *p = data_ ? const_cast<Value *>(data_) : reinterpret_cast<Value *>(nothing);
    object a = object::steal(checked(PyArray_New(&PyArray_Type, static_cast<int>(dims.size()), dims.data(), detail::number_type<Value>(), st.data(), p, 0, flags, nullptr)));
    if (copy) return checked(PyArray_NewCopy(reinterpret_cast<PyArrayObject *>(a.ptr()), NPY_CORDER));
    if (owner.is_valid() && PyArray_SetBaseObject(reinterpret_cast<PyArrayObject *>(a.ptr()), owner.release()) < 0) throw python_error();
    return a.release();
  }
  object cast(rv_policy policy = rv_policy::automatic_reference) const { return object::steal(to_numpy(policy, nullptr)); }

private:
  void rows()
  {
    strides_.assign(shape_.size(), 1);
    for (std::size_t k = shape_.size(); k-- > 1;) strides_[k - 1] = strides_[k] * static_cast<npy_intp>(shape_[k]);
  }
  Scalar *data_{};
  std::vector<std::size_t> shape_;
  std::vector<npy_intp> strides_;
  object owner_;
};

namespace detail {
  template<typename... Args> struct Caster<ndarray<Args...>>
  {
    using Array = ndarray<Args...>;
    Array v;
    bool load(PyObject *o, bool convert)
    {
      need_numpy();
      if (!PyArray_Check(o)) return false;
      auto *a = reinterpret_cast<PyArrayObject *>(o);
      bool any;
      const auto want = Array::expected(any);
      if (!any) {
        if (static_cast<std::size_t>(PyArray_NDIM(a)) != want.size()) return false;
        for (std::size_t k = 0; k < want.size(); ++k)
          if (want[k] >= 0 && want[k] != PyArray_DIM(a, static_cast<int>(k))) return false;
      }
      const int type = number_type<typename Array::Value>();
      const bool same = PyArray_EquivTypenums(PyArray_TYPE(a), type) && PyArray_ISNOTSWAPPED(a);
      const bool order = !Array::contiguous || PyArray_IS_C_CONTIGUOUS(a);
      object held = object::borrow(o);
      if (!same || !order || !PyArray_ISALIGNED(a)) {
        if (!convert || PyArray_ISCOMPLEX(a)) return false;
        held = object::steal(PyArray_FROMANY(o, type, 0, 0, NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST | NPY_ARRAY_ENSURECOPY));
        if (!held.is_valid()) {
          PyErr_Clear();
          return false;
        }
      } else if (!std::is_const_v<typename Array::Scalar> && !PyArray_ISWRITEABLE(a)) {
        return false;
      }
      v = Array(reinterpret_cast<PyArrayObject *>(held.ptr()));
      return true;
    }
    Array &get() { return v; }
    static PyObject *cast(const Array &a, rv_policy policy, PyObject *parent) { return a.to_numpy(policy, parent); }
  };
}// namespace detail
}// namespace nanobind
#endif
