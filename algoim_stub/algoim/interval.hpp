#ifndef VP_ALGOIM_INTERVAL_HPP
#define VP_ALGOIM_INTERVAL_HPP
#include "uvector.hpp"
namespace algoim {
// First-order Taylor form  f(x0+y) in alpha + beta.y + [-eps,eps],  |y_i| <= delta_i.
template<int N> struct Interval
{
  real alpha;
  uvector<real, N> beta;
  real eps;
  static uvector<real, N> &delta()
  {
    static thread_local uvector<real, N> d(0.0);
    return d;
  }
  static real &delta(int i) { return delta()(i); }
  Interval() : alpha(0), beta(0.0), eps(0) {}
  Interval(real a) : alpha(a), beta(0.0), eps(0) {}
  Interval(real a, const uvector<real, N> &b) : alpha(a), beta(b), eps(0) {}
  Interval(real a, const uvector<real, N> &b, real e) : alpha(a), beta(b), eps(e) {}
  real dev1() const
  {
    real s = 0;
    for (int i = 0; i < N; ++i) s += std::abs(beta(i)) * delta()(i);
    return s;
  }
  real maxDeviation() const { return eps + dev1(); }
  bool uniformSign() const { return std::abs(alpha) > maxDeviation(); }
  int sign() const { return uniformSign() ? (alpha > 0 ? 1 : -1) : 0; }
  Interval operator-() const { return Interval(-alpha, -beta, eps); }
  Interval operator+() const { return *this; }
  Interval &operator+=(const Interval &o)
  {
    alpha += o.alpha;
    beta += o.beta;
    eps += o.eps;
    return *this;
  }
  Interval &operator-=(const Interval &o)
  {
    alpha -= o.alpha;
    beta -= o.beta;
    eps += o.eps;
    return *this;
  }
  Interval &operator*=(const Interval &o)
  {
    const real d1 = dev1(), d2 = o.dev1();
    const real e = d1 * d2 + eps * (std::abs(o.alpha) + d2 + o.eps) + o.eps * (std::abs(alpha) + d1);
    beta = beta * o.alpha + o.beta * alpha;
    alpha *= o.alpha;
    eps = e;
    return *this;
  }
  Interval &operator*=(real o)
  {
    alpha *= o;
    beta *= o;
    eps *= std::abs(o);
    return *this;
  }
  Interval &operator/=(real o) { return *this *= 1.0 / o; }
  Interval &operator/=(const Interval &o);
};
template<int N> Interval<N> chain_(const Interval<N> &a, real f, real df, real ddfmax)
{
  const real d = a.maxDeviation();
  return Interval<N>(f, a.beta * df, std::abs(df) * a.eps + 0.5 * ddfmax * d * d);
}
template<int N> Interval<N> inverse_(const Interval<N> &a)
{
  const real d = a.maxDeviation();
  const real lo = std::abs(a.alpha) - d;
  if (lo <= 0) return Interval<N>(0.0, uvector<real, N>(0.0), std::numeric_limits<real>::infinity());
  return chain_(a, 1.0 / a.alpha, -1.0 / (a.alpha * a.alpha), 2.0 / (lo * lo * lo));
}
template<int N> Interval<N> &Interval<N>::operator/=(const Interval<N> &o) { return *this *= inverse_(o); }
template<int N> Interval<N> sin(const Interval<N> &a) { return chain_(a, std::sin(a.alpha), std::cos(a.alpha), 1.0); }
template<int N> Interval<N> cos(const Interval<N> &a) { return chain_(a, std::cos(a.alpha), -std::sin(a.alpha), 1.0); }
template<int N> Interval<N> sqrt(const Interval<N> &a)
{
  const real d = a.maxDeviation();
  const real lo = a.alpha - d;
  if (lo <= 0) return Interval<N>(std::sqrt(std::max(a.alpha, 0.0)), uvector<real, N>(0.0), std::sqrt(std::max(a.alpha + d, 0.0)));
  const real s = std::sqrt(a.alpha);
  return chain_(a, s, 0.5 / s, 0.25 / (lo * std::sqrt(lo)));
}
template<int N> Interval<N> abs(const Interval<N> &a)
{
  if (a.uniformSign()) return a.alpha > 0 ? a : -a;
  return Interval<N>(std::abs(a.alpha), uvector<real, N>(0.0), a.maxDeviation());
}
template<int N> Interval<N> operator+(Interval<N> a, const Interval<N> &b) { return a += b; }
template<int N> Interval<N> operator-(Interval<N> a, const Interval<N> &b) { return a -= b; }
template<int N> Interval<N> operator*(Interval<N> a, const Interval<N> &b) { return a *= b; }
template<int N> Interval<N> operator/(Interval<N> a, const Interval<N> &b) { return a /= b; }
template<int N> Interval<N> operator+(Interval<N> a, real b) { return a += Interval<N>(b); }
template<int N> Interval<N> operator-(Interval<N> a, real b) { return a -= Interval<N>(b); }
template<int N> Interval<N> operator*(Interval<N> a, real b) { return a *= b; }
template<int N> Interval<N> operator/(Interval<N> a, real b) { return a /= b; }
template<int N> Interval<N> operator+(real a, const Interval<N> &b) { return b + a; }
template<int N> Interval<N> operator-(real a, const Interval<N> &b) { return (-b) + a; }
template<int N> Interval<N> operator*(real a, const Interval<N> &b) { return b * a; }
template<int N> Interval<N> operator/(real a, const Interval<N> &b) { return inverse_(b) * a; }
}// namespace algoim
#endif
