#ifndef VP_ALGOIM_UVECTOR_HPP
#define VP_ALGOIM_UVECTOR_HPP
#include "real.hpp"
namespace algoim {
template<typename T, int N> struct uvector;

namespace uv_detail {
  template<typename T, int N> std::true_type test(const uvector<T, N> *);
  std::false_type test(const void *);
  template<typename S> constexpr bool is_uv = decltype(test(static_cast<const std::decay_t<S> *>(nullptr)))::value;
  template<typename S>
  concept Scalar = !is_uv<S>;
}// namespace uv_detail

template<typename T, int N> struct uvector
{
  T v_[N];
  uvector() : v_{} {}
  uvector(const T &s)
  {
    for (int i = 0; i < N; ++i) v_[i] = s;
  }
  template<typename S>
    requires(uv_detail::Scalar<S> && std::is_convertible_v<S, T> && !std::is_same_v<std::decay_t<S>, T>)
  uvector(const S &s)
  {
    for (int i = 0; i < N; ++i) v_[i] = static_cast<T>(s);
  }
  template<typename... A>
    requires(sizeof...(A) + 2 == N)
  uvector(const T &a, const T &b, const A &...rest) : v_{ a, b, static_cast<T>(rest)... }
  {}
  template<typename S>
    requires(!std::is_same_v<S, T>)
  uvector(const uvector<S, N> &o)
  {
    for (int i = 0; i < N; ++i) v_[i] = static_cast<T>(o(i));
  }
  T &operator()(int i)
  {
    assert(i >= 0 && i < N);
    return v_[i];
  }
  const T &operator()(int i) const
  {
    assert(i >= 0 && i < N);
    return v_[i];
  }
  T &operator[](int i) { return (*this)(i); }
  const T &operator[](int i) const { return (*this)(i); }
  T *data() { return v_; }
  const T *data() const { return v_; }
};

template<typename T> struct uvector<T, 0>
{
  uvector() {}
  template<typename S> uvector(const S &) {}
  T &operator()(int)
  {
    static thread_local T dummy{};
    return dummy;
  }
  const T &operator()(int) const
  {
    static thread_local T dummy{};
    return dummy;
  }
  T &operator[](int i) { return (*this)(i); }
  const T &operator[](int i) const { return (*this)(i); }
  T *data() { return nullptr; }
  const T *data() const { return nullptr; }
};

#define VP_UV_BIN(op)                                                                                     \
  template<typename A, typename B, int N> auto operator op(const uvector<A, N> &a, const uvector<B, N> &b) \
  {                                                                                                       \
    using R = std::decay_t<decltype(std::declval<A>() op std::declval<B>())>;                             \
    uvector<R, N> r;                                                                                      \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b(i);                                                      \
    return r;                                                                                             \
  }                                                                                                       \
  template<typename A, uv_detail::Scalar B, int N> auto operator op(const uvector<A, N> &a, const B &b)   \
  {                                                                                                       \
    using R = std::decay_t<decltype(std::declval<A>() op std::declval<B>())>;                             \
    uvector<R, N> r;                                                                                      \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b;                                                         \
    return r;                                                                                             \
  }                                                                                                       \
  template<uv_detail::Scalar A, typename B, int N> auto operator op(const A &a, const uvector<B, N> &b)   \
  {                                                                                                       \
    using R = std::decay_t<decltype(std::declval<A>() op std::declval<B>())>;                             \
    uvector<R, N> r;                                                                                      \
    for (int i = 0; i < N; ++i) r(i) = a op b(i);                                                         \
    return r;                                                                                             \
  }
VP_UV_BIN(+)
VP_UV_BIN(-)
VP_UV_BIN(*)
VP_UV_BIN(/)
VP_UV_BIN(==)
VP_UV_BIN(!=)
VP_UV_BIN(<)
VP_UV_BIN(<=)
VP_UV_BIN(>)
VP_UV_BIN(>=)
VP_UV_BIN(&&)
VP_UV_BIN(||)
#undef VP_UV_BIN

#define VP_UV_ASG(op)                                                                                         \
  template<typename A, typename B, int N> uvector<A, N> &operator op(uvector<A, N> &a, const uvector<B, N> &b) \
  {                                                                                                           \
    for (int i = 0; i < N; ++i) a(i) op b(i);                                                                 \
    return a;                                                                                                 \
  }                                                                                                           \
  template<typename A, uv_detail::Scalar B, int N> uvector<A, N> &operator op(uvector<A, N> &a, const B &b)   \
  {                                                                                                           \
    for (int i = 0; i < N; ++i) a(i) op b;                                                                    \
    return a;                                                                                                 \
  }
VP_UV_ASG(+=)
VP_UV_ASG(-=)
VP_UV_ASG(*=)
VP_UV_ASG(/=)
#undef VP_UV_ASG

template<typename A, int N> uvector<A, N> operator-(const uvector<A, N> &a)
{
  uvector<A, N> r;
  for (int i = 0; i < N; ++i) r(i) = -a(i);
  return r;
}
template<typename A, int N> uvector<A, N> operator+(const uvector<A, N> &a) { return a; }
template<int N> uvector<bool, N> operator!(const uvector<bool, N> &a)
{
  uvector<bool, N> r;
  for (int i = 0; i < N; ++i) r(i) = !a(i);
  return r;
}

template<typename A, int N> uvector<A, N> abs(const uvector<A, N> &a)
{
  using std::abs;
  uvector<A, N> r;
  for (int i = 0; i < N; ++i) r(i) = abs(a(i));
  return r;
}
template<typename A, typename B, int N> auto dot(const uvector<A, N> &a, const uvector<B, N> &b)
{
  using R = std::decay_t<decltype(std::declval<A>() * std::declval<B>())>;
  R s = R(0);
  for (int i = 0; i < N; ++i) s += a(i) * b(i);
  return s;
}
template<typename A, int N> auto sqrnorm(const uvector<A, N> &a) { return dot(a, a); }
template<typename A, int N> auto norm(const uvector<A, N> &a)
{
  using std::sqrt;
  return sqrt(dot(a, a));
}
template<typename A, int N> A prod(const uvector<A, N> &a)
{
  A r = A(1);
  for (int i = 0; i < N; ++i) r *= a(i);
  return r;
}
template<typename A, int N> A sum(const uvector<A, N> &a)
{
  A r = A(0);
  for (int i = 0; i < N; ++i) r += a(i);
  return r;
}
template<int N> int argmax_(const uvector<double, N> &a);
template<typename A, int N> int argmax(const uvector<A, N> &a)
{
  int j = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) > a(j)) j = i;
  return j;
}
template<typename A, int N> int argmin(const uvector<A, N> &a)
{
  int j = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) < a(j)) j = i;
  return j;
}
template<typename A, int N> A max(const uvector<A, N> &a) { return a(argmax(a)); }
template<typename A, int N> A min(const uvector<A, N> &a) { return a(argmin(a)); }
template<typename A, int N> uvector<A, N> max(const uvector<A, N> &a, const uvector<A, N> &b)
{
  uvector<A, N> r;
  for (int i = 0; i < N; ++i) r(i) = a(i) < b(i) ? b(i) : a(i);
  return r;
}
template<typename A, int N> uvector<A, N> min(const uvector<A, N> &a, const uvector<A, N> &b)
{
  uvector<A, N> r;
  for (int i = 0; i < N; ++i) r(i) = b(i) < a(i) ? b(i) : a(i);
  return r;
}
template<typename A, int N> bool all(const uvector<A, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (!a(i)) return false;
  return true;
}
template<typename A, int N> bool any(const uvector<A, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (a(i)) return true;
  return false;
}
template<typename A, int N> uvector<A, N> set_component(uvector<A, N> a, int k, std::type_identity_t<A> s)
{
  a(k) = s;
  return a;
}
template<typename A, int N> uvector<A, N> inc_component(uvector<A, N> a, int k, std::type_identity_t<A> s)
{
  a(k) += s;
  return a;
}
template<typename A, int N>
  requires(N > 0)
uvector<A, N - 1> remove_component(const uvector<A, N> &a, int k)
{
  uvector<A, N - 1> r;
  for (int i = 0, j = 0; i < N; ++i)
    if (i != k) r(j++) = a(i);
  return r;
}
template<typename A, int N> uvector<A, N + 1> add_component(const uvector<A, N> &a, int k, std::type_identity_t<A> s)
{
  uvector<A, N + 1> r;
  for (int i = 0, j = 0; i < N + 1; ++i) r(i) = i == k ? s : a(j++);
  return r;
}
}// namespace algoim
#endif
