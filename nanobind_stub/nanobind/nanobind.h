// The part of nanobind the repository's wrappers use, over the CPython API, for checking them where nanobind is not
// installed. It follows nanobind's documented behaviour: overloads are tried in order of definition, first without and
// then with implicit conversions; ndarrays are checked against dtype, shape, order and writability and copied only in
// the second pass; returned ndarrays without an owner are copied unless the policy is reference_internal, which ties
// them to the object they come from.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>
namespace nanobind {
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
struct python_error : std::exception {
  const char *what() const noexcept override { return "Python error"; }
};
class handle {
protected:
  PyObject *m_ptr = nullptr;
public:
  handle() = default;
  handle(PyObject *p) : m_ptr(p) {}
  PyObject *ptr() const { return m_ptr; }
};
class object : public handle {
public:
  object() = default;
  explicit object(PyObject *stolen) : handle(stolen) {}
  object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
  object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
  object &operator=(object o) { std::swap(m_ptr, o.m_ptr); return *this; }
  ~object() { Py_XDECREF(m_ptr); }
  PyObject *release() { PyObject *p = m_ptr; m_ptr = nullptr; return p; }
};
inline object steal(PyObject *p) { if (!p) throw python_error(); return object(p); }
inline object borrow(PyObject *p) { Py_XINCREF(p); return object(p); }
class none : public object {
public:
  none() : object(Py_NewRef(Py_None)) {}
};
class capsule : public object {
  static void destroy(PyObject *o) { ((void (*)(void *)) PyCapsule_GetContext(o))(PyCapsule_GetPointer(o, nullptr)); }
public:
  capsule(const void *p, void (*deleter)(void *) noexcept) : object(PyCapsule_New(const_cast<void *>(p), nullptr, destroy)) { PyCapsule_SetContext(m_ptr, (void *) deleter); }
};
struct arg_v {
  const char *name;
  object value;
};
template<typename T> struct caster;
struct arg {
  const char *name;
  explicit arg(const char *n) : name(n) {}
  template<typename T> arg_v operator=(T &&v) const {
    if constexpr (std::is_base_of_v<object, std::decay_t<T>>) return { name, std::forward<T>(v) };
    else return { name, steal(caster<std::decay_t<T>>::to(std::forward<T>(v), rv_policy::copy, nullptr)) };
  }
};
// ---------------------------------------------------------------- instances
struct type_data {
  PyTypeObject *type;
  type_data *base;
  void *(*to_base)(void *);
  std::type_index id;
};
inline std::unordered_map<std::type_index, type_data *> &types() { static std::unordered_map<std::type_index, type_data *> m; return m; }
struct instance {
  PyObject_HEAD
  type_data *type;
  void *ptr;
  std::shared_ptr<void> *hold;
  PyObject *parent;
};
inline void instance_dealloc(PyObject *o) {
  auto *i = (instance *) o;
  delete i->hold;
  PyObject *parent = i->parent;
  PyTypeObject *t = Py_TYPE(o);
  t->tp_free(o);
  Py_DECREF(t);
  Py_XDECREF(parent);
}
inline PyObject *no_constructor(PyTypeObject *t, PyObject *, PyObject *) {
  PyErr_Format(PyExc_TypeError, "%s: no constructor defined!", t->tp_name);
  return nullptr;
}
inline PyObject *make_instance(type_data *t, void *ptr, std::shared_ptr<void> hold, PyObject *parent) {
  auto *i = (instance *) t->type->tp_alloc(t->type, 0);
  if (!i) throw python_error();
  i->type = t;
  i->ptr = ptr;
  i->hold = hold ? new std::shared_ptr<void>(std::move(hold)) : nullptr;
  i->parent = parent;
  Py_XINCREF(parent);
  return (PyObject *) i;
}
inline PyTypeObject *&root_type() { static PyTypeObject *t = nullptr; return t; }
template<typename T> T *instance_cast(PyObject *o, std::shared_ptr<void> *hold = nullptr) {
  if (!root_type() || !PyObject_TypeCheck(o, root_type())) return nullptr;
  auto *i = (instance *) o;
  void *p = i->ptr;
  for (type_data *t = i->type; t; t = t->base) {
    if (t->id == std::type_index(typeid(T))) {
      if (hold) {
        if (i->hold) *hold = *i->hold;
        else {
          Py_INCREF(o);
          *hold = std::shared_ptr<void>((void *) o, [](void *q) { Py_DECREF((PyObject *) q); });
        }
      }
      return (T *) p;
    }
    if (t->to_base) p = t->to_base(p);
  }
  return nullptr;
}
/// The registered type an object is shown as: the most derived one that is known.
template<typename T> std::pair<type_data *, void *> most_derived(T *p) {
  if constexpr (std::is_polymorphic_v<T>) {
    auto it = types().find(std::type_index(typeid(*p)));
    if (it != types().end()) return { it->second, dynamic_cast<void *>(const_cast<std::remove_const_t<T> *>(p)) };
  }
  auto it = types().find(std::type_index(typeid(T)));
  if (it == types().end()) throw std::runtime_error(std::string("type not bound: ") + typeid(T).name());
  return { it->second, (void *) const_cast<std::remove_const_t<T> *>(p) };
}
// ---------------------------------------------------------------- casters
/// Bound classes.
template<typename T> struct caster {
  T *value = nullptr;
  bool from(PyObject *o, bool) { return (value = instance_cast<T>(o)) != nullptr; }
  T &get() { return *value; }
  template<typename U> static PyObject *to(U &&v, rv_policy policy, PyObject *self) {
    if constexpr (std::is_lvalue_reference_v<U>) {
      if (policy == rv_policy::reference_internal && self) {
        auto [t, p] = most_derived(&v);
        return make_instance(t, p, nullptr, self);
      }
    }
    auto sp = std::make_shared<T>(std::forward<U>(v));
    return make_instance(most_derived(sp.get()).first, sp.get(), sp, nullptr);
  }
};
template<> struct caster<bool> {
  bool value;
  bool from(PyObject *o, bool) { value = o == Py_True; return o == Py_True || o == Py_False; }
  bool &get() { return value; }
  static PyObject *to(bool v, rv_policy, PyObject *) { return PyBool_FromLong(v); }
};
template<typename T> struct int_caster {
  T value;
  bool from(PyObject *o, bool convert) {
    PyObject *n = nullptr;
    if (PyLong_CheckExact(o)) n = Py_NewRef(o);
    else if (convert && !PyFloat_Check(o) && PyIndex_Check(o)) n = PyNumber_Index(o);
    if (!n) { PyErr_Clear(); return false; }
    bool ok;
    if constexpr (std::is_signed_v<T>) {
      const long long v = PyLong_AsLongLong(n);
      value = (T) v;
      ok = !PyErr_Occurred() && (long long) value == v;
    } else {
      const unsigned long long v = PyLong_AsUnsignedLongLong(n);
      value = (T) v;
      ok = !PyErr_Occurred() && (unsigned long long) value == v;
    }
    PyErr_Clear();
    Py_DECREF(n);
    return ok;
  }
  T &get() { return value; }
  static PyObject *to(T v, rv_policy, PyObject *) {
    if constexpr (std::is_signed_v<T>) return PyLong_FromLongLong(v);
    else return PyLong_FromUnsignedLongLong(v);
  }
};
template<> struct caster<int> : int_caster<int> {};
template<> struct caster<long> : int_caster<long> {};
template<> struct caster<long long> : int_caster<long long> {};
template<> struct caster<unsigned> : int_caster<unsigned> {};
template<> struct caster<unsigned long> : int_caster<unsigned long> {};
template<> struct caster<unsigned long long> : int_caster<unsigned long long> {};
template<typename T> struct float_caster {
  T value;
  bool from(PyObject *o, bool convert) {
    if (PyFloat_CheckExact(o)) { value = (T) PyFloat_AS_DOUBLE(o); return true; }
    if (!convert) return false;
    const double v = PyFloat_AsDouble(o);
    if (PyErr_Occurred()) { PyErr_Clear(); return false; }
    value = (T) v;
    return true;
  }
  T &get() { return value; }
  static PyObject *to(T v, rv_policy, PyObject *) { return PyFloat_FromDouble(v); }
};
template<> struct caster<double> : float_caster<double> {};
template<> struct caster<float> : float_caster<float> {};
template<> struct caster<object> {
  static PyObject *to(object &&v, rv_policy, PyObject *) { return v.release(); }
};
template<> struct caster<std::string> {
  static PyObject *to(const std::string &v, rv_policy, PyObject *) { return PyUnicode_FromStringAndSize(v.data(), (Py_ssize_t) v.size()); }
};
template<typename T> struct caster<std::shared_ptr<T>> {
  std::shared_ptr<T> value;
  bool from(PyObject *o, bool) {
    std::shared_ptr<void> hold;
    auto *p = instance_cast<std::remove_const_t<T>>(o, &hold);
    if (!p) return false;
    value = std::shared_ptr<T>(hold, p);
    return true;
  }
  std::shared_ptr<T> &get() { return value; }
  static PyObject *to(const std::shared_ptr<T> &v, rv_policy, PyObject *) {
    if (!v) return Py_NewRef(Py_None);
    auto [t, p] = most_derived(v.get());
    return make_instance(t, p, std::const_pointer_cast<std::remove_const_t<T>>(v), nullptr);
  }
};
template<typename T> struct caster<std::optional<T>> {
  std::optional<T> value;
  bool from(PyObject *o, bool convert) {
    value.reset();
    if (o == Py_None) return true;
    caster<T> c;
    if (!c.from(o, convert)) return false;
    value.emplace(std::move(c.get()));
    return true;
  }
  std::optional<T> &get() { return value; }
};
inline PyObject *sequence(PyObject *o) {
  if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o)) return nullptr;
  PyObject *s = PySequence_Fast(o, "");
  if (!s) PyErr_Clear();
  return s;
}
template<typename T, std::size_t N> struct caster<std::array<T, N>> {
  std::array<T, N> value;
  bool from(PyObject *o, bool convert) {
    PyObject *s = sequence(o);
    bool ok = s && PySequence_Fast_GET_SIZE(s) == (Py_ssize_t) N;
    for (std::size_t i = 0; ok && i < N; ++i) {
      caster<T> c;
      ok = c.from(PySequence_Fast_GET_ITEM(s, i), convert);
      if (ok) value[i] = std::move(c.get());
    }
    Py_XDECREF(s);
    return ok;
  }
  std::array<T, N> &get() { return value; }
  template<typename U> static PyObject *to(U &&v, rv_policy policy, PyObject *self) {
    PyObject *l = PyList_New(N);
    for (std::size_t i = 0; i < N; ++i) PyList_SET_ITEM(l, i, caster<T>::to(std::move(v[i]), policy, self));
    return l;
  }
};
template<typename T> struct caster<std::vector<T>> {
  std::vector<T> value;
  bool from(PyObject *o, bool convert) {
    PyObject *s = sequence(o);
    bool ok = s != nullptr;
    value.clear();
    for (Py_ssize_t i = 0; ok && i < PySequence_Fast_GET_SIZE(s); ++i) {
      caster<T> c;
      ok = c.from(PySequence_Fast_GET_ITEM(s, i), convert);
      if (ok) value.push_back(std::move(c.get()));
    }
    Py_XDECREF(s);
    return ok;
  }
  std::vector<T> &get() { return value; }
};
// ---------------------------------------------------------------- functions
struct overload {
  std::vector<std::pair<const char *, object>> names;
  std::size_t n_args = 0;
  rv_policy policy = rv_policy::automatic;
  /// Returns nullptr with no error set if the arguments do not match.
  std::function<PyObject *(PyObject *const *args, bool convert, rv_policy)> call;
  void add(const arg &a) { names.emplace_back(a.name, object()); }
  void add(const arg_v &a) { names.emplace_back(a.name, a.value); }
  void add(rv_policy p) { policy = p; }
  void add(const char *) {}
};
struct function_record {
  std::string name;
  std::vector<overload> overloads;
};
inline bool collect(const overload &o, PyObject *args, PyObject *kwargs, std::vector<PyObject *> &out) {
  const std::size_t n_pos = (std::size_t) PyTuple_GET_SIZE(args), skip = o.names.empty() ? o.n_args : o.n_args - o.names.size();
  if (n_pos > o.n_args) return false;
  out.assign(o.n_args, nullptr);
  std::size_t used = 0;
  for (std::size_t i = 0; i < o.n_args; ++i) {
    if (i < n_pos) { out[i] = PyTuple_GET_ITEM(args, i); continue; }
    if (i < skip) return false;
    const auto &[name, value] = o.names[i - skip];
    PyObject *k = kwargs ? PyDict_GetItemString(kwargs, name) : nullptr;
    if (k) { out[i] = k; ++used; }
    else if (value.ptr()) out[i] = value.ptr();
    else return false;
  }
  return !kwargs || used == (std::size_t) PyDict_GET_SIZE(kwargs);
}
inline PyObject *function_call(PyObject *self, PyObject *args, PyObject *kwargs) {
  auto *r = (function_record *) PyCapsule_GetPointer(self, nullptr);
  std::vector<PyObject *> in;
  try {
    for (int convert = r->overloads.size() == 1; convert < 2; ++convert) {
      for (const auto &o : r->overloads) {
        if (!collect(o, args, kwargs, in)) continue;
        PyObject *res = o.call(in.data(), convert, o.policy);
        if (res) return res;
        if (PyErr_Occurred()) return nullptr;
      }
    }
  } catch (const python_error &) {
    return nullptr;
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
    return nullptr;
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
    return nullptr;
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
    return nullptr;
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", r->name.c_str());
  return nullptr;
}
template<typename F, typename R, typename... Args, std::size_t... I> overload make_overload(F f, R (*)(Args...), std::index_sequence<I...>) {
  overload o;
  o.n_args = sizeof...(Args);
  o.call = [f](PyObject *const *in, bool convert, rv_policy policy) -> PyObject * {
    std::tuple<caster<std::decay_t<Args>>...> c;
    (void) in;
    if (!(std::get<I>(c).from(in[I], convert) && ...)) return nullptr;
    PyObject *self = sizeof...(Args) > 0 ? in[0] : nullptr;
    if constexpr (std::is_void_v<R>) {
      f(std::get<I>(c).get()...);
      return Py_NewRef(Py_None);
    } else {
      PyObject *res = caster<std::decay_t<R>>::to(f(std::get<I>(c).get()...), policy, self);
      if (!res && !PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "null result");
      return res;
    }
  };
  return o;
}
template<typename F> struct signature : signature<decltype(&F::operator())> {};
template<typename C, typename R, typename... A> struct signature<R (C::*)(A...) const> { using type = R (*)(A...); static constexpr std::size_t n = sizeof...(A); };
template<typename C, typename R, typename... A> struct signature<R (C::*)(A...)> { using type = R (*)(A...); static constexpr std::size_t n = sizeof...(A); };
template<typename F> overload make_any(F f) {
  using S = signature<F>;
  return make_overload(f, (typename S::type) nullptr, std::make_index_sequence<S::n>());
}
template<typename C, typename R, typename... A> overload make_any(R (C::*m)(A...) const) { return make_any([m](const C &c, A... a) -> R { return (c.*m)(std::forward<A>(a)...); }); }
template<typename C, typename R, typename... A> overload make_any(R (C::*m)(A...)) { return make_any([m](C &c, A... a) -> R { return (c.*m)(std::forward<A>(a)...); }); }
inline PyObject *make_function(function_record *r) {
  auto *def = new PyMethodDef{ r->name.c_str(), (PyCFunction) (void *) function_call, METH_VARARGS | METH_KEYWORDS, nullptr };
  PyObject *cap = PyCapsule_New(r, nullptr, nullptr);
  return PyCFunction_New(def, cap);
}
/// Adds an overload to the function called `name` of a module or class.
template<typename F, typename... Extra> void add_function(PyObject *scope, std::unordered_map<std::string, function_record *> &table, const char *name, bool method, F f, const Extra &...extra) {
  overload o = make_any(f);
  (o.add(extra), ...);
  auto &r = table[name];
  if (!r) {
    r = new function_record{ name, {} };
    PyObject *fn = make_function(r);
    if (method) fn = PyInstanceMethod_New(fn);
    PyObject_SetAttrString(scope, name, fn);
    Py_DECREF(fn);
  }
  r->overloads.push_back(std::move(o));
}
struct accessor {
  PyObject *o;
  const char *name;
  void operator=(const char *v) {
    PyObject *s = PyUnicode_FromString(v);
    PyObject_SetAttrString(o, name, s);
    Py_DECREF(s);
  }
};
class module_ : public handle {
  using table = std::unordered_map<std::string, function_record *>;
  std::shared_ptr<table> functions = std::make_shared<table>();
public:
  using handle::handle;
  template<typename F, typename... Extra> module_ &def(const char *name, F f, const Extra &...extra) {
    add_function(m_ptr, *functions, name, false, f, extra...);
    return *this;
  }
  accessor attr(const char *name) { return { m_ptr, name }; }
  accessor doc() { return { m_ptr, "__doc__" }; }
};
inline void set_leak_warnings(bool) {}
inline PyTypeObject *make_type(PyObject *module, const char *name, PyTypeObject *base) {
  static std::vector<std::unique_ptr<std::string>> names;
  if (!root_type()) {
    PyType_Slot slots[] = { { Py_tp_dealloc, (void *) instance_dealloc }, { Py_tp_new, (void *) no_constructor }, { 0, nullptr } };
    PyType_Spec spec = { "qugar.cpp.object", sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots };
    root_type() = (PyTypeObject *) PyType_FromSpec(&spec);
  }
  names.push_back(std::make_unique<std::string>(std::string("qugar.cpp.") + name));
  PyType_Slot slots[] = { { Py_tp_dealloc, (void *) instance_dealloc }, { Py_tp_new, (void *) no_constructor }, { 0, nullptr } };
  PyType_Spec spec = { names.back()->c_str(), sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots };
  PyObject *t = PyType_FromSpecWithBases(&spec, (PyObject *) (base ? base : root_type()));
  if (!t) throw python_error();
  PyObject_SetAttrString(module, name, t);
  return (PyTypeObject *) t;
}
template<typename T, typename... Base> class class_ : public handle {
  std::unordered_map<std::string, function_record *> functions;
public:
  class_(module_ &m, const char *name, const char * = nullptr) {
    type_data *base = nullptr;
    void *(*to_base)(void *) = nullptr;
    if constexpr (sizeof...(Base) == 1) {
      using B = std::tuple_element_t<0, std::tuple<Base...>>;
      base = types().at(std::type_index(typeid(B)));
      to_base = [](void *p) -> void * { return static_cast<B *>((T *) p); };
    }
    m_ptr = (PyObject *) make_type(m.ptr(), name, base ? base->type : nullptr);
    types()[std::type_index(typeid(T))] = new type_data{ (PyTypeObject *) m_ptr, base, to_base, std::type_index(typeid(T)) };
  }
  template<typename F, typename... Extra> class_ &def(const char *name, F f, const Extra &...extra) {
    add_function(m_ptr, functions, name, true, f, extra...);
    return *this;
  }
  template<typename F, typename... Extra> class_ &def_prop_ro(const char *name, F f, const Extra &...extra) {
    overload o = make_any(f);
    o.policy = rv_policy::reference_internal;
    (o.add(extra), ...);
    auto *r = new function_record{ name, {} };
    r->overloads.push_back(std::move(o));
    PyObject *getter = make_function(r);
    PyObject *p = PyObject_CallFunctionObjArgs((PyObject *) &PyProperty_Type, getter, nullptr);
    if (!p) throw python_error();
    PyObject_SetAttrString(m_ptr, name, p);
    Py_DECREF(p);
    Py_DECREF(getter);
    return *this;
  }
};
template<typename T> class enum_ {
  PyObject *module;
  std::string name;
  std::vector<std::pair<std::string, long long>> values;
public:
  enum_(module_ &m, const char *n) : module(m.ptr()), name(n) {}
  ~enum_() {
    object d = steal(PyList_New(0));
    for (const auto &[k, v] : values) {
      object item = steal(Py_BuildValue("(sL)", k.c_str(), v));
      PyList_Append(d.ptr(), item.ptr());
    }
    object mod = steal(PyImport_ImportModule("enum"));
    object t = steal(PyObject_CallMethod(mod.ptr(), "Enum", "sO", name.c_str(), d.ptr()));
    PyObject_SetAttrString(module, name.c_str(), t.ptr());
  }
  enum_ &value(const char *n, T v) { values.emplace_back(n, (long long) v); return *this; }
  enum_ &export_values() { return *this; }
};
template<typename... T> object make_tuple(T &&...v) {
  PyObject *t = PyTuple_New(sizeof...(T));
  Py_ssize_t i = 0;
  (PyTuple_SET_ITEM(t, i++, caster<std::decay_t<T>>::to(std::forward<T>(v), rv_policy::automatic, nullptr)), ...);
  return object(t);
}
}// namespace nanobind
#define NB_MODULE(name, variable)                                                             \
  static void nb_exec_##name(nanobind::module_ &);                                            \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {               \
    static PyModuleDef def = { PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr }; \
    PyObject *m = PyModule_Create(&def);                                                      \
    if (!m) return nullptr;                                                                   \
    try {                                                                                     \
      nanobind::module_ mod(m);                                                               \
      nb_exec_##name(mod);                                                                    \
    } catch (const std::exception &e) {                                                       \
      if (!PyErr_Occurred()) PyErr_SetString(PyExc_ImportError, e.what());                    \
      return nullptr;                                                                         \
    }                                                                                         \
    return m;                                                                                 \
  }                                                                                           \
  void nb_exec_##name(nanobind::module_ &variable)
