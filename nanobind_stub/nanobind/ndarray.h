#pragma once
#include <nanobind/nanobind.h>
namespace nanobind {
template<long... N> struct shape { static constexpr long value[sizeof...(N)] = { N... }; static constexpr int n = sizeof...(N); };
struct c_contig {};
struct numpy {};
/// The memory of a returned array as a Python object: it keeps the array's owner alive.
struct memory {
  PyObject_HEAD
  void *data;
  int ndim;
  Py_ssize_t shape[4], strides[4], itemsize;
  const char *format;
  int readonly;
  PyObject *owner;
};
inline PyTypeObject *memory_type() {
  static PyTypeObject *t = nullptr;
  if (!t) {
    PyType_Slot slots[] = { { Py_tp_dealloc, (void *) +[](PyObject *o) {
                               PyObject *owner = ((memory *) o)->owner;
                               PyTypeObject *tp = Py_TYPE(o);
                               tp->tp_free(o);
                               Py_DECREF(tp);
                               Py_XDECREF(owner);
                             } },
      { Py_bf_getbuffer, (void *) +[](PyObject *o, Py_buffer *v, int flags) -> int {
         auto *m = (memory *) o;
         if ((flags & PyBUF_WRITABLE) && m->readonly) {
           PyErr_SetString(PyExc_BufferError, "read-only");
           v->obj = nullptr;
           return -1;
         }
         v->buf = m->data;
         v->obj = Py_NewRef(o);
         v->len = m->itemsize;
         for (int i = 0; i < m->ndim; ++i) v->len *= m->shape[i];
         v->itemsize = m->itemsize;
         v->readonly = m->readonly;
         v->ndim = m->ndim;
         v->format = const_cast<char *>(m->format);
         v->shape = m->shape;
         v->strides = m->strides;
         v->suboffsets = nullptr;
         v->internal = nullptr;
         return 0;
       } },
      { 0, nullptr } };
    PyType_Spec spec = { "qugar.cpp.memory", sizeof(memory), 0, Py_TPFLAGS_DEFAULT, slots };
    t = (PyTypeObject *) PyType_FromSpec(&spec);
  }
  return t;
}
template<typename T> constexpr const char *format_of() {
  if constexpr (std::is_same_v<T, double>) return "d";
  else if constexpr (std::is_same_v<T, float>) return "f";
  else if constexpr (std::is_signed_v<T>) return sizeof(T) == 8 ? "l" : "i";
  else return sizeof(T) == 8 ? "L" : "I";
}
template<typename T> constexpr const char *dtype_of() {
  if constexpr (std::is_same_v<T, double>) return "float64";
  else if constexpr (std::is_same_v<T, float>) return "float32";
  else if constexpr (std::is_signed_v<T>) return sizeof(T) == 8 ? "int64" : "int32";
  else return sizeof(T) == 8 ? "uint64" : "uint32";
}
template<typename T> bool same_dtype(const Py_buffer &b) {
  const char *f = b.format ? b.format : "B";
  if (*f == '@' || *f == '=' || *f == '<') ++f;
  if (f[0] == 0 || f[1] != 0 || b.itemsize != sizeof(T)) return false;
  if constexpr (std::is_floating_point_v<T>) return *f == 'd' || *f == 'f';
  else if constexpr (std::is_signed_v<T>) return std::strchr("bhilqn", *f) != nullptr;
  else return std::strchr("BHILQN", *f) != nullptr;
}
template<typename Scalar, typename... Attr> class ndarray {
public:
  using T = std::remove_const_t<Scalar>;
  static constexpr bool contiguous = (std::is_same_v<Attr, c_contig> || ...);
  Scalar *m_data = nullptr;
  int m_ndim = 0;
  std::array<std::size_t, 4> m_shape{};
  std::array<std::int64_t, 4> m_strides{};
  object m_owner;
  ndarray() = default;
  ndarray(Scalar *data, std::initializer_list<std::size_t> shape, handle owner = {}) { init(data, shape.size(), shape.begin(), owner); }
  ndarray(Scalar *data, std::size_t ndim, const std::size_t *shape, handle owner = {}) { init(data, ndim, shape, owner); }
  Scalar *data() const { return m_data; }
  std::size_t ndim() const { return (std::size_t) m_ndim; }
  std::size_t shape(std::size_t i) const { return m_shape[i]; }
  std::int64_t stride(std::size_t i) const { return m_strides[i]; }
  std::size_t size() const {
    std::size_t n = 1;
    for (int i = 0; i < m_ndim; ++i) n *= m_shape[i];
    return n;
  }
  template<typename... I> Scalar &operator()(I... i) const {
    std::int64_t ofs = 0;
    int d = 0;
    ((ofs += (std::int64_t) i * m_strides[d++]), ...);
    return m_data[ofs];
  }
  object cast(rv_policy policy = rv_policy::automatic_reference, handle = {}) { return steal(caster<ndarray>::to(*this, policy, nullptr)); }
private:
  void init(Scalar *data, std::size_t ndim, const std::size_t *shape, handle owner) {
    m_data = data;
    m_ndim = (int) ndim;
    std::int64_t s = 1;
    for (int i = m_ndim - 1; i >= 0; --i) {
      m_shape[i] = shape[i];
      m_strides[i] = s;
      s *= (std::int64_t) shape[i];
    }
    m_owner = borrow(owner.ptr());
  }
};
template<typename A> struct shape_of { static constexpr int n = -1; };
template<long... N> struct shape_of<shape<N...>> { static constexpr int n = sizeof...(N); static bool ok(int d, Py_ssize_t s) { return shape<N...>::value[d] == -1 || shape<N...>::value[d] == s; } };
template<typename Scalar, typename... Attr> struct caster<ndarray<Scalar, Attr...>> {
  using A = ndarray<Scalar, Attr...>;
  using T = typename A::T;
  A value;
  struct view {
    Py_buffer b;
    ~view() { PyBuffer_Release(&b); }
  };
  template<typename At> static bool shape_ok(const Py_buffer &b) {
    if constexpr (shape_of<At>::n >= 0) {
      if (b.ndim != shape_of<At>::n) return false;
      for (int d = 0; d < b.ndim; ++d)
        if (!shape_of<At>::ok(d, b.shape[d])) return false;
    }
    return true;
  }
  bool from(PyObject *o, bool convert) {
    auto v = std::make_shared<view>();
    if (!PyObject_CheckBuffer(o) || PyObject_GetBuffer(o, &v->b, PyBUF_FORMAT | PyBUF_STRIDES | (std::is_const_v<Scalar> ? 0 : PyBUF_WRITABLE))) {
      PyErr_Clear();
      v->b.obj = nullptr;
      return false;
    }
    const Py_buffer &b = v->b;
    if (b.ndim > 4 || !(shape_ok<Attr>(b) && ...)) return false;
    bool order = true;
    if (A::contiguous) {
      Py_ssize_t s = b.itemsize;
      for (int d = b.ndim - 1; d >= 0; --d) {
        if (b.shape[d] != 1 && b.strides[d] != s) order = false;
        s *= b.shape[d];
      }
      if (b.len == 0) order = true;
    }
    bool aligned = true;
    for (int d = 0; d < b.ndim; ++d) aligned = aligned && b.strides[d] % (Py_ssize_t) sizeof(T) == 0;
    if (!same_dtype<T>(b) || !order || !aligned) {
      if (!convert || !PyObject_HasAttrString(o, "astype")) return false;
      if (b.format && std::strchr(b.format, 'Z')) return false;
      PyObject *c = PyObject_CallMethod(o, "astype", "ss", dtype_of<T>(), A::contiguous ? "C" : "K");
      if (!c) { PyErr_Clear(); return false; }
      const bool ok = from(c, false);
      Py_DECREF(c);
      return ok;
    }
    value.m_data = (Scalar *) b.buf;
    value.m_ndim = b.ndim;
    for (int d = 0; d < b.ndim; ++d) {
      value.m_shape[d] = (std::size_t) b.shape[d];
      value.m_strides[d] = b.strides[d] / (Py_ssize_t) sizeof(T);
    }
    auto *keep = new std::shared_ptr<view>(v);
    value.m_owner = capsule(keep, [](void *p) noexcept { delete (std::shared_ptr<view> *) p; });
    return true;
  }
  A &get() { return value; }
  static PyObject *to(const A &v, rv_policy policy, PyObject *self) {
    PyObject *owner = v.m_owner.ptr();
    bool copy = false;
    switch (policy) {
    case rv_policy::reference_internal:
      if (self && self != owner) {
        if (owner) {
          PyErr_SetString(PyExc_RuntimeError, "reference_internal policy cannot be applied (ndarray already has an owner)");
          return nullptr;
        }
        owner = self;
      }
      [[fallthrough]];
    case rv_policy::automatic:
    case rv_policy::automatic_reference: copy = owner == nullptr; break;
    case rv_policy::copy:
    case rv_policy::move: copy = true; break;
    default: break;
    }
    static double nothing[4] = {};
    auto *m = (memory *) memory_type()->tp_alloc(memory_type(), 0);
    m->data = v.m_data ? (void *) v.m_data : (void *) nothing;
    m->ndim = v.m_ndim;
    m->itemsize = sizeof(T);
    for (int d = 0; d < v.m_ndim; ++d) {
      m->shape[d] = (Py_ssize_t) v.m_shape[d];
      m->strides[d] = v.m_strides[d] * (Py_ssize_t) sizeof(T);
    }
    m->format = format_of<T>();
    m->readonly = std::is_const_v<Scalar>;
    m->owner = owner;
    Py_XINCREF(owner);
    object np = steal(PyImport_ImportModule("numpy"));
    PyObject *a = PyObject_CallMethod(np.ptr(), copy ? "array" : "asarray", "O", (PyObject *) m);
    Py_DECREF(m);
    return a;
  }
};
}// namespace nanobind
