// Shared generators and reference evaluators of the C++ harness.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "pbt.hpp"
#include <qugar/affine_transf.hpp>
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/domain_function.hpp>
#include <qugar/monomials_tp.hpp>
#include <qugar/point.hpp>
#include <qugar/polynomial_tp.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <qugar/tolerance.hpp>
#include <qugar/types.hpp>
#include <array>
#include <memory>

namespace gen {
using pbt::Src;
using qugar::BoundBox;
using qugar::Point;
using qugar::real;
using qugar::TensorIndexTP;
using qugar::TensorIndexRangeTP;
using qugar::TensorSizeTP;
using qugar::Tolerance;
using qugar::Vector;

template<int dim, typename T> std::string str(const Vector<T, dim> &v)
{
  std::ostringstream o;
  o << std::setprecision(17) << "(";
  for (int i = 0; i < dim; ++i) o << (i ? "," : "") << v(i);
  o << ")";
  return o.str();
}
template<int dim> std::string str(const BoundBox<dim> &b) { return str<dim, real>(b.min_corner()) + ".." + str<dim, real>(b.max_corner()); }

template<int dim> Point<dim> point(Src &s, real lo, real hi)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = s.real(lo, hi);
  return p;
}
template<int dim> Point<dim> unit_point(Src &s)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = s.unit();
  return p;
}
template<int dim> Point<dim> in_box(Src &s, const BoundBox<dim> &b)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = b.min(i) + s.unit() * b.length(i);
  return p;
}
// A box; the unit box for the simplest choices.
template<int dim> BoundBox<dim> box(Src &s)
{
  if (!s.chance(2, 3)) return BoundBox<dim>(0.0, 1.0);
  Point<dim> a, b;
  for (int i = 0; i < dim; ++i) {
    a(i) = s.real(-2.0, 2.0);
    b(i) = a(i) + s.real(0.3, 2.0);
  }
  return BoundBox<dim>(a, b);
}
template<int dim> TensorSizeTP<dim> order(Src &s, int lo, int hi)
{
  Vector<int, dim> v;
  for (int i = 0; i < dim; ++i) v(i) = s.i(lo, hi);
  return TensorSizeTP<dim>(v);
}
template<int dim> std::int64_t size(const TensorSizeTP<dim> &o)
{
  std::int64_t n = 1;
  for (int i = 0; i < dim; ++i) n *= o(i);
  return n;
}
// Own flat <-> tensor conversion (first direction fastest).
template<int dim> std::array<int, dim> tensor(std::int64_t f, const TensorSizeTP<dim> &o)
{
  std::array<int, dim> t{};
  for (int i = 0; i < dim; ++i) {
    t[i] = static_cast<int>(f % o(i));
    f /= o(i);
  }
  return t;
}
template<int dim, int range> using Coef = typename qugar::impl::PolynomialTP<dim, range>::CoefsType;
template<int range, typename C> real comp(const C &c, int k)
{
  if constexpr (range == 1)
    return c;
  else
    return c(k);
}
template<int dim, int range> std::vector<Coef<dim, range>> coefs(Src &s, const TensorSizeTP<dim> &o)
{
  std::vector<Coef<dim, range>> c(static_cast<std::size_t>(size<dim>(o)));
  for (auto &x : c) {
    if constexpr (range == 1)
      x = s.real(-2, 2);
    else
      for (int k = 0; k < range; ++k) x(k) = s.real(-2, 2);
  }
  return c;
}
inline long double binom(int n, int k)
{
  long double b = 1;
  for (int i = 1; i <= k; ++i) b = b * (n - k + i) / i;
  return b;
}
// Value / derivative (der 0..2) of one-dimensional basis function i of `order` functions.
inline long double basis1(bool bern, int i, int order, int der, long double x)
{
  if (i < 0 || i >= order) return 0;
  if (!bern) {
    if (i < der) return 0;
    long double v = 1;
    for (int k = 0; k < der; ++k) v *= i - k;
    for (int k = 0; k < i - der; ++k) v *= x;
    return v;
  }
  const int n = order - 1;
  if (der == 0) {
    long double v = binom(n, i);
    for (int k = 0; k < i; ++k) v *= x;
    for (int k = 0; k < n - i; ++k) v *= 1 - x;
    return v;
  }
  if (n == 0) return 0;
  return n * (basis1(true, i - 1, order - 1, der - 1, x) - basis1(true, i, order - 1, der - 1, x));
}
struct Ref
{
  double value;
  double scale;// sum of absolute contributions: the natural error scale
};
template<int dim, int range, typename C>
Ref eval(bool bern, const TensorSizeTP<dim> &o, const std::vector<C> &c, int k, const Point<dim> &p, const std::array<int, dim> &der)
{
  long double v = 0, sc = 0;
  for (std::int64_t f = 0; f < size<dim>(o); ++f) {
    const auto t = tensor<dim>(f, o);
    long double b = comp<range>(c[static_cast<std::size_t>(f)], k), ab = std::fabs(b);
    for (int d = 0; d < dim; ++d) {
      b *= basis1(bern, t[d], o(d), der[d], p(d));
      // scale: basis of |x| and |1-x|
      long double m = 0;
      if (bern) {
        m = std::fabs(basis1(true, t[d], o(d), der[d], p(d)));
        long double q = 1;
        for (int r = 0; r < der[d]; ++r) q *= 2.0L * o(d);
        m += q * (der[d] ? 1.0L : 0.0L);
      } else
        m = std::fabs(basis1(false, t[d], o(d), der[d], std::fabs(p(d))));
      ab *= m;
    }
    v += b;
    sc += ab;
  }
  return { static_cast<double>(v), static_cast<double>(sc) };
}
inline bool close(double a, double b, double scale, double rel = 1e-10) { return std::fabs(a - b) <= rel * (1.0 + std::fabs(scale)); }

// A grid: uniform or random breakpoints over a random box.
template<int dim> std::shared_ptr<const qugar::CartGridTP<dim>> grid(Src &s, int n_max, const BoundBox<dim> &b, bool allow_irregular = true)
{
  const bool irregular = allow_irregular && s.chance(1, 2);
  std::array<std::size_t, dim> n{};
  for (int d = 0; d < dim; ++d) n[d] = static_cast<std::size_t>(s.i(1, n_max));
  if (!irregular) return std::make_shared<const qugar::CartGridTP<dim>>(b, n);
  std::array<std::vector<real>, dim> br;
  for (int d = 0; d < dim; ++d) {
    std::vector<double> w(n[d]);
    double tot = 0;
    for (auto &x : w) tot += (x = s.real(0.3, 1.0));
    double acc = 0;
    br[d].push_back(b.min(d));
    for (std::size_t i = 0; i < n[d]; ++i) {
      acc += w[i];
      br[d].push_back(i + 1 == n[d] ? b.max(d) : b.min(d) + b.length(d) * acc / tot);
    }
  }
  return std::make_shared<const qugar::CartGridTP<dim>>(br);
}
template<int dim> std::string str(const qugar::CartGridTP<dim> &g)
{
  std::ostringstream o;
  o << std::setprecision(6);
  for (int d = 0; d < dim; ++d) {
    o << (d ? "x" : "") << "[";
    for (std::size_t i = 0; i < g.get_breaks(d).size(); ++i) o << (i ? " " : "") << g.get_breaks(d)[i];
    o << "]";
  }
  return o.str();
}
}// namespace gen
#endif
