// Stand-in for nanobind: the part of it that QUGaR's wrappers use, over the CPython C interface.
// Overloads are tried first without and then with conversions; class instances hold shared pointers, and a C++ object
// that already has a Python object is given back as that object.
#ifndef STANDIN_NANOBIND_H
#define STANDIN_NANOBIND_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <concepts>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

#define NB_MODULE(name, variable)                                        \
  static void standin_init_##name(nanobind::module_ &);                  \
  extern "C" PyObject *PyInit_##name()                                   \
  {                                                                      \
    static PyModuleDef def{ PyModuleDef_HEAD_INIT, #name, nullptr, -1 }; \
    nanobind::module_ m(PyModule_Create(&def));                          \
    try {                                                                \
      standin_init_##name(m);                                            \
    } catch (const std::exception &e) {                                  \
      PyErr_SetString(PyExc_ImportError, e.what());                      \
      return nullptr;                                                    \
    }                                                                    \
    return m.ptr();                                                      \
  }                                                                      \
  static void standin_init_##name(nanobind::module_ &variable)

namespace nanobind {
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };

struct python_error : std::runtime_error
{
  python_error() : std::runtime_error("Python error") {}
};
inline PyObject *checked(PyObject *p)
{
  if (!p) throw python_error();
  return p;
}

// not owning
class handle
{
public:
  handle() = default;
  handle(PyObject *p) : p_(p) {}
  PyObject *ptr() const { return p_; }
  bool is_valid() const { return p_ != nullptr; }

protected:
  PyObject *p_{ nullptr };
};

// owning
class object : public handle
{
public:
  object() = default;
  static object steal(PyObject *p)
  {
    object o;
    o.p_ = p;
    return o;
  }
  static object borrow(PyObject *p)
  {
    Py_XINCREF(p);
    return steal(p);
  }
  object(const object &o) : handle(o.p_) { Py_XINCREF(p_); }
  object(object &&o) noexcept : handle(o.p_) { o.p_ = nullptr; }
  object &operator=(object o) noexcept
  {
    std::swap(p_, o.p_);
    return *this;
  }
  ~object() { Py_XDECREF(p_); }
  PyObject *release()
  {
    auto *p = p_;
    p_ = nullptr;
    return p;
  }
};
inline object none() { return object::borrow(Py_None); }
class tuple : public object
{
public:
  explicit tuple(PyObject *p) : object(object::steal(p)) {}
};
class capsule : public object
{
public:
  capsule(void *p, void (*cleanup)(void *) noexcept) : object(object::steal(checked(PyCapsule_New(new Held{ p, cleanup }, nullptr, drop)))) {}

private:
  struct Held
  {
    void *p;
    void (*cleanup)(void *) noexcept;
  };
  static void drop(PyObject *o)
  {
    auto *h = static_cast<Held *>(PyCapsule_GetPointer(o, nullptr));
    h->cleanup(h->p);
    delete h;
  }
};

namespace detail {
  // ---------------------------------------------------------------- bound classes
  struct Instance
  {
    PyObject_HEAD std::shared_ptr<void> held;
    void *p;
  };
  inline std::map<std::type_index, PyTypeObject *> &types()
  {
    static std::map<std::type_index, PyTypeObject *> t;
    return t;
  }
  inline std::map<std::pair<void *, PyTypeObject *>, Instance *> &instances()
  {
    static std::map<std::pair<void *, PyTypeObject *>, Instance *> t;
    return t;
  }
  inline void dealloc(PyObject *self)
  {
    auto *i = reinterpret_cast<Instance *>(self);
    auto *t = Py_TYPE(self);
    instances().erase({ i->p, t });
    i->held.~shared_ptr();
    t->tp_free(self);
    Py_DECREF(t);
  }
  inline PyTypeObject *type_of(const std::type_info &t)
  {
    const auto it = types().find(t);
    return it == types().end() ? nullptr : it->second;
  }
  // the Python object of a C++ object
  inline PyObject *wrap(PyTypeObject *t, void *p, std::shared_ptr<void> held)
  {
    const auto it = instances().find({ p, t });
    if (it != instances().end()) return Py_NewRef(reinterpret_cast<PyObject *>(it->second));
    auto *i = reinterpret_cast<Instance *>(t->tp_alloc(t, 0));
    if (!i) throw python_error();
    new (&i->held) std::shared_ptr<void>(std::move(held));
    i->p = p;
    instances()[{ p, t }] = i;
    return reinterpret_cast<PyObject *>(i);
  }
  template<typename T> PyTypeObject *type_for(T *p)
  {
    PyTypeObject *t = nullptr;
    if constexpr (std::is_polymorphic_v<T>) t = type_of(typeid(*p));
    if (!t) t = type_of(typeid(T));
    if (!t) throw std::runtime_error(std::string("cannot convert a ") + typeid(T).name());
    return t;
  }
  template<typename T> PyObject *wrap_shared(const std::shared_ptr<T> &p)
  {
    if (!p) return Py_NewRef(Py_None);
    using U = std::remove_const_t<T>;
    auto *q = const_cast<U *>(p.get());
    return wrap(type_for<U>(q), q, std::const_pointer_cast<U>(p));
  }
  inline std::shared_ptr<void> keep(PyObject *o)
  {
    Py_XINCREF(o);
    return { o, [](PyObject *q) { Py_XDECREF(q); } };
  }
  inline Instance *instance(PyObject *o, const std::type_info &t)
  {
    auto *type = type_of(t);
    return type && PyObject_TypeCheck(o, type) ? reinterpret_cast<Instance *>(o) : nullptr;
  }

  // ---------------------------------------------------------------- conversions
  template<typename T> struct Caster
  {// bound classes
    T *v{};
    bool load(PyObject *o, bool)
    {
      auto *i = instance(o, typeid(T));
      if (i) v = static_cast<T *>(i->p);
      return i != nullptr;
    }
    T &get() { return *v; }
    template<typename U> static PyObject *cast(U &&u, rv_policy policy, PyObject *parent)
    {
      if constexpr (std::is_lvalue_reference_v<U &&>) {
        if (policy == rv_policy::reference_internal || policy == rv_policy::reference) {
          auto *q = const_cast<T *>(&u);
          return wrap(type_for<T>(q), q, keep(policy == rv_policy::reference ? nullptr : parent));
        }
      }
      return wrap_shared(std::make_shared<T>(std::forward<U>(u)));
    }
  };
  template<> struct Caster<bool>
  {
    bool v{};
    bool load(PyObject *o, bool)
    {
      v = o == Py_True;
      return v || o == Py_False;
    }
    bool get() { return v; }
    static PyObject *cast(bool b, rv_policy, PyObject *) { return Py_NewRef(b ? Py_True : Py_False); }
  };
  template<std::integral T>
    requires(!std::same_as<T, bool>)
  struct Caster<T>
  {
    T v{};
    bool load(PyObject *o, bool convert)
    {
      if (PyFloat_Check(o) || (!convert && !PyLong_CheckExact(o))) return false;
      object n = object::steal(PyLong_CheckExact(o) ? Py_NewRef(o) : PyNumber_Long(o));
      bool good = n.is_valid();
      if (good) {
        if constexpr (std::is_signed_v<T>) {
          const long long x = PyLong_AsLongLong(n.ptr());
          v = static_cast<T>(x);
          good = !PyErr_Occurred() && static_cast<long long>(v) == x;
        } else {
          const unsigned long long x = PyLong_AsUnsignedLongLong(n.ptr());
          v = static_cast<T>(x);
          good = !PyErr_Occurred() && static_cast<unsigned long long>(v) == x;
        }
      }
      PyErr_Clear();
      return good;
    }
    T get() { return v; }
    static PyObject *cast(T x, rv_policy, PyObject *)
    {
      if constexpr (std::is_signed_v<T>) return PyLong_FromLongLong(x);
      else return PyLong_FromUnsignedLongLong(x);
    }
  };
  template<std::floating_point T> struct Caster<T>
  {
    T v{};
    bool load(PyObject *o, bool convert)
    {
      if (!convert && !PyFloat_CheckExact(o)) return false;
      v = static_cast<T>(PyFloat_AsDouble(o));
      const bool good = !PyErr_Occurred();
      PyErr_Clear();
      return good;
    }
    T get() { return v; }
    static PyObject *cast(T x, rv_policy, PyObject *) { return PyFloat_FromDouble(x); }
  };
  template<std::derived_from<handle> T> struct Caster<T>
  {
    static PyObject *cast(const handle &h, rv_policy, PyObject *) { return Py_NewRef(h.ptr()); }
  };
  template<typename T> using caster = Caster<std::remove_cvref_t<T>>;
  template<typename R> PyObject *give(R &&r, rv_policy policy, PyObject *parent)
  {
    return caster<R>::cast(std::forward<R>(r), policy, parent);
  }

  // ---------------------------------------------------------------- functions
  struct Argument
  {
    std::string name;
    object value{};
  };
  struct Overload
  {
    std::size_t n;
    std::vector<Argument> args;
    std::function<PyObject *(PyObject *const *, bool)> call;// nothing and no error: the arguments do not fit
  };
  struct Function
  {
    PyObject_HEAD std::vector<Overload> *overloads;
    std::string *name;
  };
  struct no_match
  {
  };
  inline PyObject *call_function(PyObject *self, PyObject *args, PyObject *kwargs)
  {
    auto *f = reinterpret_cast<Function *>(self);
    const auto given = static_cast<std::size_t>(PyTuple_GET_SIZE(args));
    const auto named = kwargs ? static_cast<std::size_t>(PyDict_GET_SIZE(kwargs)) : 0;
    try {
      for (const bool convert : { false, true }) {
        for (const auto &o : *f->overloads) {
          if (given > o.n) continue;
          std::vector<PyObject *> a(o.n, nullptr);
          for (std::size_t k = 0; k < given; ++k) a[k] = PyTuple_GET_ITEM(args, k);
          const std::size_t first = o.n - o.args.size();// of those with names
          std::size_t used = 0;
          bool fits = true;
          for (std::size_t k = given; k < o.n && fits; ++k) {
            fits = k >= first;
            if (!fits) break;
            const auto &arg = o.args[k - first];
            a[k] = kwargs ? PyDict_GetItemString(kwargs, arg.name.c_str()) : nullptr;
            if (a[k]) ++used;
            else a[k] = arg.value.ptr();
            fits = a[k] != nullptr;
          }
          if (!fits || used != named) continue;
          try {
            return o.call(a.data(), convert);
          } catch (const no_match &) {
          }
        }
      }
    } catch (const python_error &) {
      return nullptr;
    } catch (const std::exception &e) {
      PyErr_SetString(PyExc_RuntimeError, e.what());
      return nullptr;
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", f->name->c_str());
    return nullptr;
  }
  inline PyObject *bind_function(PyObject *f, PyObject *o, PyObject *)
  {
    return o && o != Py_None ? PyMethod_New(f, o) : Py_NewRef(f);
  }
  inline PyTypeObject *function_type()
  {
    static PyTypeObject *t = [] {
      static PyType_Slot slots[] = { { Py_tp_call, reinterpret_cast<void *>(call_function) },
        { Py_tp_descr_get, reinterpret_cast<void *>(bind_function) }, { 0, nullptr } };
      static PyType_Spec spec{ "nanobind.nb_func", sizeof(Function), 0, Py_TPFLAGS_DEFAULT, slots };
      return reinterpret_cast<PyTypeObject *>(checked(PyType_FromSpec(&spec)));
    }();
    return t;
  }
  // adds an overload to what is already there under that name
  inline void add_overload(PyObject *scope, const char *name, Overload &&o)
  {
    object f = object::steal(PyObject_GetAttrString(scope, name));
    PyErr_Clear();
    object own = PyType_Check(scope) ? object::steal(PyObject_GetAttrString(scope, "__dict__")) : object();
    const bool here = f.is_valid() && Py_TYPE(f.ptr()) == function_type()
                      && (!own.is_valid() || PyMapping_HasKeyString(own.ptr(), name));
    if (!here) {
      auto *n = PyObject_New(Function, function_type());
      n->overloads = new std::vector<Overload>;
      n->name = new std::string(name);
      f = object::steal(reinterpret_cast<PyObject *>(n));
      if (PyObject_SetAttrString(scope, name, f.ptr())) throw python_error();
    }
    reinterpret_cast<Function *>(f.ptr())->overloads->push_back(std::move(o));
  }
}// namespace detail

struct arg_v
{
  const char *name;
  object value;
};
struct arg
{
  explicit arg(const char *n) : name(n) {}
  template<typename T> arg_v operator=(T &&v) const
  {
    return { name, object::steal(detail::give(std::forward<T>(v), rv_policy::automatic, nullptr)) };
  }
  const char *name;
};

namespace detail {
  template<typename T> bool fits(T &c, PyObject *o, bool convert) { return c.load(o, convert); }
  template<typename R, typename F, typename... A, std::size_t... I>
  Overload bind(F f, rv_policy policy, std::index_sequence<I...>)
  {
    return { sizeof...(A), {}, [f = std::move(f), policy](PyObject *const *a, bool convert) -> PyObject * {
              std::tuple<caster<A>...> c;
              if (!(fits(std::get<I>(c), a[I], convert) && ...)) throw no_match{};
              PyObject *parent = sizeof...(A) ? a[0] : nullptr;
              if constexpr (std::is_void_v<R>) {
                f(std::get<I>(c).get()...);
                return Py_NewRef(Py_None);
              } else {
                return checked(give<R>(f(std::get<I>(c).get()...), policy, parent));
              }
            } };
  }
  template<typename F> struct Signature : Signature<decltype(&F::operator())>
  {
  };
  template<typename C, typename R, typename... A> struct Signature<R (C::*)(A...) const>
  {
    template<typename F> static Overload make(F f, rv_policy p) { return bind<R, F, A...>(std::move(f), p, std::index_sequence_for<A...>{}); }
    template<typename F> static Overload member(F f, rv_policy p)
    {
      const auto g = [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
      return bind<R, decltype(g), const C &, A...>(g, p, std::make_index_sequence<sizeof...(A) + 1>{});
    }
  };
  template<typename C, typename R, typename... A> struct Signature<R (C::*)(A...)>
  {
    template<typename F> static Overload make(F f, rv_policy p) { return bind<R, F, A...>(std::move(f), p, std::index_sequence_for<A...>{}); }
    template<typename F> static Overload member(F f, rv_policy p)
    {
      const auto g = [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
      return bind<R, decltype(g), C &, A...>(g, p, std::make_index_sequence<sizeof...(A) + 1>{});
    }
  };
  struct Extras
  {
    rv_policy policy{ rv_policy::automatic };
    std::vector<Argument> args{};
    void take(rv_policy p) { policy = p; }
    void take(const char *) {}
    void take(const arg &a) { args.push_back({ a.name, {} }); }
    void take(const arg_v &a) { args.push_back({ a.name, a.value }); }
  };
  template<typename F, typename... E> Overload overload(F f, rv_policy standard, const E &...extra)
  {
    Extras x;
    x.policy = standard;
    (x.take(extra), ...);
    Overload o = [&] {
      if constexpr (std::is_member_function_pointer_v<F>) return Signature<F>::member(f, x.policy);
      else return Signature<F>::make(std::move(f), x.policy);
    }();
    o.args = std::move(x.args);
    return o;
  }
}// namespace detail

class module_ : public handle
{
public:
  explicit module_(PyObject *p) : handle(p) {}
  class Attr
  {
  public:
    Attr(PyObject *m, const char *n) : m_(m), n_(n) {}
    void operator=(const char *s)
    {
      const object v = object::steal(checked(PyUnicode_FromString(s)));
      if (PyObject_SetAttrString(m_, n_, v.ptr())) throw python_error();
    }

  private:
    PyObject *m_;
    const char *n_;
  };
  Attr attr(const char *n) { return { p_, n }; }
  class Doc : public Attr
  {
  public:
    using Attr::operator=;
    explicit Doc(PyObject *m) : Attr(m, "__doc__") {}
  };
  Doc doc() { return Doc(p_); }
  template<typename F, typename... E> module_ &def(const char *name, F f, const E &...extra)
  {
    detail::add_overload(p_, name, detail::overload(std::move(f), rv_policy::automatic, extra...));
    return *this;
  }
};

template<typename T, typename Base = void> class class_
{
public:
  class_(module_ &m, const char *name, const char *doc = nullptr)
  {
    const object mod = object::steal(checked(PyObject_GetAttrString(m.ptr(), "__name__")));
    const std::string full = std::string(PyUnicode_AsUTF8(mod.ptr())) + "." + name;
    PyType_Slot slots[] = { { Py_tp_dealloc, reinterpret_cast<void *>(detail::dealloc) },
      { Py_tp_doc, const_cast<char *>(doc ? doc : "") }, { 0, nullptr } };
    PyType_Spec spec{ (new std::string(full))->c_str(), sizeof(detail::Instance), 0,
      Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_DISALLOW_INSTANTIATION, slots };
    object bases;
    if constexpr (!std::is_void_v<Base>) {
      static_assert(std::is_base_of_v<Base, T>);
      auto *b = detail::type_of(typeid(Base));
      if (!b) throw std::runtime_error(full + ": the base class is not known");
      bases = object::steal(PyTuple_Pack(1, b));
      // there is no adjustment of pointers between a class and its base
      alignas(T) static char room[sizeof(T)];
      auto *p = reinterpret_cast<T *>(room);
      if (static_cast<void *>(static_cast<Base *>(p)) != static_cast<void *>(p)) throw std::runtime_error(full + ": the base lies elsewhere");
    }
    type_ = checked(PyType_FromSpecWithBases(&spec, bases.ptr()));
    detail::types()[typeid(T)] = reinterpret_cast<PyTypeObject *>(type_);
    if (PyObject_SetAttrString(m.ptr(), name, type_)) throw python_error();
  }
  template<typename F, typename... E> class_ &def(const char *name, F f, const E &...extra)
  {
    detail::add_overload(type_, name, detail::overload(std::move(f), rv_policy::automatic, extra...));
    return *this;
  }
  template<typename F, typename... E> class_ &def_prop_ro(const char *name, F f, const E &...extra)
  {
    auto *n = PyObject_New(detail::Function, detail::function_type());
    n->overloads = new std::vector<detail::Overload>;
    n->name = new std::string(name);
    n->overloads->push_back(detail::overload(std::move(f), rv_policy::reference_internal, extra...));
    const object g = object::steal(reinterpret_cast<PyObject *>(n));
    const object p = object::steal(checked(PyObject_CallOneArg(reinterpret_cast<PyObject *>(&PyProperty_Type), g.ptr())));
    if (PyObject_SetAttrString(type_, name, p.ptr())) throw python_error();
    return *this;
  }

private:
  PyObject *type_{};
};

template<typename T> class enum_
{
public:
  enum_(module_ &m, const char *name) : m_(m), name_(name) {}
  enum_ &value(const char *n, T v)
  {
    values_.emplace_back(n, static_cast<long>(v));
    return *this;
  }
  enum_ &export_values()
  {
    const object d = object::steal(PyDict_New());
    for (const auto &[n, v] : values_) {
      const object x = object::steal(PyLong_FromLong(v));
      PyDict_SetItemString(d.ptr(), n.c_str(), x.ptr());
    }
    const object mod = object::steal(checked(PyImport_ImportModule("enum")));
    const object e = object::steal(checked(PyObject_CallMethod(mod.ptr(), "Enum", "sO", name_.c_str(), d.ptr())));
    PyObject_SetAttrString(m_.ptr(), name_.c_str(), e.ptr());
    for (const auto &[n, v] : values_) {
      const object x = object::steal(checked(PyObject_GetAttrString(e.ptr(), n.c_str())));
      PyObject_SetAttrString(m_.ptr(), n.c_str(), x.ptr());
    }
    return *this;
  }

private:
  module_ m_;
  std::string name_;
  std::vector<std::pair<std::string, long>> values_;
};

template<typename... A> tuple make_tuple(A &&...a)
{
  PyObject *t = checked(PyTuple_New(sizeof...(A)));
  Py_ssize_t k = 0;
  (PyTuple_SET_ITEM(t, k++, checked(detail::give(std::forward<A>(a), rv_policy::automatic, nullptr))), ...);
  return tuple(t);
}
inline void set_leak_warnings(bool) {}
}// namespace nanobind
#endif
