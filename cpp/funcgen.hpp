// Random implicit functions, each with an independent reference of its value.
#ifndef VERIF_FUNCGEN_HPP
#define VERIF_FUNCGEN_HPP
#include "gen.hpp"
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/tpms_lib.hpp>
namespace gen {
using L = long double;
template<int dim> using LP = std::array<L, dim>;
template<int dim> LP<dim> lp(const Point<dim> &p)
{
  LP<dim> q;
  for (int i = 0; i < dim; ++i) q[i] = p(i);
  return q;
}
template<int dim> L ldot(const LP<dim> &a, const LP<dim> &b)
{
  L s = 0;
  for (int i = 0; i < dim; ++i) s += a[i] * b[i];
  return s;
}
template<int dim> LP<dim> lsub(const LP<dim> &a, const LP<dim> &b)
{
  LP<dim> c;
  for (int i = 0; i < dim; ++i) c[i] = a[i] - b[i];
  return c;
}
template<int dim> LP<dim> lscale(LP<dim> a, L f)
{
  for (auto &x : a) x *= f;
  return a;
}
inline LP<3> lcross(const LP<3> &a, const LP<3> &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
template<int dim> LP<dim> lunit(const LP<dim> &a) { return lscale<dim>(a, 1 / std::sqrt(ldot<dim>(a, a))); }

// Affine map y = A x + b kept as a plain matrix.
template<int dim> struct Map
{
  std::array<std::array<L, dim>, dim> A{};
  LP<dim> b{};
  LP<dim> operator()(const LP<dim> &x) const
  {
    LP<dim> y = b;
    for (int i = 0; i < dim; ++i) y[i] += ldot<dim>(A[i], x);
    return y;
  }
  Map after(const Map &r) const
  {
    Map m;
    m.b = (*this)(r.b);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) {
        m.A[i][j] = 0;
        for (int k = 0; k < dim; ++k) m.A[i][j] += A[i][k] * r.A[k][j];
      }
    return m;
  }
  L det() const
  {
    if constexpr (dim == 2)
      return A[0][0] * A[1][1] - A[0][1] * A[1][0];
    else
      return ldot<3>(A[0], lcross(A[1], A[2]));
  }
  Map inverse() const
  {
    Map m;
    const L d = det();
    if constexpr (dim == 2) {
      m.A = { { { A[1][1] / d, -A[0][1] / d }, { -A[1][0] / d, A[0][0] / d } } };
    } else {
      const auto c0 = lcross(A[1], A[2]), c1 = lcross(A[2], A[0]), c2 = lcross(A[0], A[1]);
      for (int i = 0; i < 3; ++i) m.A[i] = { c0[i] / d, c1[i] / d, c2[i] / d };
    }
    for (int i = 0; i < dim; ++i) m.b[i] = -ldot<dim>(m.A[i], b);
    return m;
  }
  L norm() const
  {
    L s = 0;
    for (const auto &r : A) s += ldot<dim>(r, r);
    return std::sqrt(s);
  }
};
template<int dim> struct MapCase
{
  qugar::impl::AffineTransf<dim> t;
  Map<dim> m;
  std::string name;
};
// A direction; aligned with an axis (or nearly) in a share of the cases.
template<int dim> Point<dim> direction(Src &s)
{
  Point<dim> v;
  if (s.chance(1, 3)) {
    const int k = s.i(0, dim - 1);
    v = Point<dim>(0.0);
    v(k) = s.sgn() * s.real(0.2, 3.0);
    if (s.chance(1, 4)) v((k + 1) % dim) = s.pick<double>({ 1e-5, 1e-3, 0.05 });
    return v;
  }
  for (int i = 0; i < dim; ++i) v(i) = s.real(-1, 1);
  if (qugar::norm(v) < 0.1) v(s.i(0, dim - 1)) = 1.0;
  return v;
}
// Directions in general position with respect to a given one.
template<int dim> Point<dim> other_direction(Src &s, const Point<dim> &a)
{
  for (int rep = 0; rep < 8; ++rep) {
    const auto v = direction<dim>(s);
    const auto u = lunit<dim>(lp<dim>(a)), w = lunit<dim>(lp<dim>(v));
    if (std::fabs(ldot<dim>(u, w)) < 0.95L) return v;
  }
  throw pbt::Discard{};
}
inline std::array<LP<3>, 3> frame3(const LP<3> &x, const LP<3> &y)
{
  const auto e0 = lunit<3>(x), e2 = lunit<3>(lcross(e0, y));
  return { e0, lcross(e2, e0), e2 };
}
inline std::array<LP<2>, 2> frame2(const LP<2> &x)
{
  const auto e0 = lunit<2>(x);
  return { e0, LP<2>{ -e0[1], e0[0] } };
}
template<int dim> MapCase<dim> affine(Src &s, bool general = true)
{
  using T = qugar::impl::AffineTransf<dim>;
  MapCase<dim> c;
  const auto o = point<dim>(s, -1, 1);
  auto diag = [&](L f) {
    for (int i = 0; i < dim; ++i) c.m.A[i][i] = f;
  };
  auto frame = [&](const std::array<LP<dim>, dim> &e, const LP<dim> &sc) {
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) c.m.A[i][j] = sc[j] * e[j][i];
  };
  c.m.b = lp<dim>(o);
  switch (s.i(0, general ? 5 : 4)) {
  case 0:
    c.t = T();
    c.m.b = {};
    diag(1);
    c.name = "identity";
    break;
  case 1:
    c.t = T(o);
    diag(1);
    c.name = "translation";
    break;
  case 2: {
    const real f = s.real(0.3, 2);
    c.t = T(o, f);
    diag(f);
    c.name = "scaling";
    break;
  }
  case 3:
  case 4: {
    const auto x = direction<dim>(s);
    LP<dim> sc;
    for (auto &v : sc) v = 1;
    const bool scaled = s.coin();
    if (scaled)
      for (auto &v : sc) v = s.real(0.4, 2);
    if constexpr (dim == 2) {
      c.t = scaled ? T(o, x, static_cast<real>(sc[0]), static_cast<real>(sc[1])) : T(o, x);
      frame(frame2(lp<2>(x)), sc);
    } else {
      const auto y = other_direction<3>(s, x);
      c.t = scaled ? T(o, x, y, static_cast<real>(sc[0]), static_cast<real>(sc[1]), static_cast<real>(sc[2])) : T(o, x, y);
      frame(frame3(lp<3>(x), lp<3>(y)), sc);
    }
    c.name = scaled ? "scaled frame" : "frame";
    break;
  }
  default: {
    Vector<real, dim * dim + dim> k;
    for (int i = 0; i < dim * dim + dim; ++i) k(i) = s.real(-1.5, 1.5);
    for (int i = 0; i < dim; ++i) k(i * dim + i) += k(i * dim + i) < 0 ? -1.0 : 1.0;
    c.t = T(k);
    for (int i = 0; i < dim; ++i) {
      for (int j = 0; j < dim; ++j) c.m.A[i][j] = k(i * dim + j);
      c.m.b[i] = k(dim * dim + i);
    }
    c.name = "matrix";
  }
  }
  if (std::fabs(c.m.det()) < 0.05L * std::pow(c.m.norm(), dim) / dim) throw pbt::Discard{};
  return c;
}
template<int dim> struct Fn
{
  std::shared_ptr<const qugar::impl::ImplicitFunc<dim>> f;
  std::function<L(const LP<dim> &)> ref;
  std::string name;
  double freq{ 1 };// inverse length scale
  double size{ 1 };// magnitude of the values
  bool hess{ true };
  bool smooth{ true };
  bool singular{ false };// the zero level set may have singular points
  bool bzr{ false };// to be evaluated in the unit box only
  // Distance in reference-value terms to kinks: returns true if the point is safely smooth.
  std::function<bool(const LP<dim> &, double)> regular = [](const LP<dim> &, double) { return true; };
};
template<int dim> qugar::impl::RefSystem<dim> ref_system(Src &s, std::array<LP<dim>, dim> &e, LP<dim> &o)
{
  using R = qugar::impl::RefSystem<dim>;
  e = {};
  for (int i = 0; i < dim; ++i) e[i][i] = 1;
  const auto org = s.coin() ? point<dim>(s, -1, 1) : Point<dim>(0.0);
  o = lp<dim>(org);
  if (!s.chance(2, 3)) {
    if (s.coin()) {
      o = {};
      return R();
    }
    return R(org);
  }
  const auto x = direction<dim>(s);
  if constexpr (dim == 2) {
    e = frame2(lp<2>(x));
    return R(org, x);
  } else {
    const auto y = other_direction<3>(s, x);
    e = frame3(lp<3>(x), lp<3>(y));
    return R(org, x, y);
  }
}
template<int dim, template<int> class F> std::shared_ptr<const qugar::impl::ImplicitFunc<dim>> tpms(const Vector<real, dim> &m, real z)
{
  if constexpr (dim == 2)
    return std::make_shared<F<2>>(m, z);
  else
    return std::make_shared<F<3>>(m);
}
template<int dim> Fn<dim> primitive(Src &s, bool allow_square, double extent = 1.0, bool allow_bzr = true)
{
  namespace fn = qugar::impl::funcs;
  namespace tp = qugar::impl::tpms;
  Fn<dim> r;
  std::ostringstream n;
  n << std::setprecision(6);
  auto centre = [&] { return point<dim>(s, -0.5 * extent, 1.5 * extent); };
  const int kind = s.i(0, allow_square ? 9 : 8);
  r.bzr = allow_bzr && s.coin();
  switch (kind) {
  case 0: {
    const real R = s.real(0.2, 1.5) * extent;
    const bool dflt = s.chance(1, 5);
    const auto c = dflt ? Point<dim>(0.0) : centre();
    if (r.bzr)
      r.f = dflt ? std::make_shared<fn::SphereBzr<dim>>(R) : std::make_shared<fn::SphereBzr<dim>>(R, c);
    else
      r.f = dflt ? std::make_shared<fn::Sphere<dim>>(R) : std::make_shared<fn::Sphere<dim>>(R, c);
    r.ref = [c = lp<dim>(c), R](const LP<dim> &x) {
      const auto d = lsub<dim>(x, c);
      return ldot<dim>(d, d) - static_cast<L>(R) * R;
    };
    n << "sphere(" << R << "," << str<dim, real>(c) << ")";
    r.size = 4 + R * R;
    break;
  }
  case 1: {
    std::array<LP<dim>, dim> e;
    LP<dim> o;
    const bool dflt = s.chance(1, 5);
    auto sys = qugar::impl::RefSystem<dim>();
    Point<dim> ax;
    for (int i = 0; i < dim; ++i) ax(i) = s.real(0.3, 1.5) * extent;
    if (!dflt)
      sys = ref_system<dim>(s, e, o);
    else {
      o = {};
      e = {};
      for (int i = 0; i < dim; ++i) e[i][i] = 1;
    }
    if (r.bzr)
      r.f = dflt ? std::make_shared<fn::EllipsoidBzr<dim>>(ax) : std::make_shared<fn::EllipsoidBzr<dim>>(ax, sys);
    else
      r.f = dflt ? std::make_shared<fn::Ellipsoid<dim>>(ax) : std::make_shared<fn::Ellipsoid<dim>>(ax, sys);
    r.ref = [e, o, a = lp<dim>(ax)](const LP<dim> &x) {
      L v = -1;
      for (int i = 0; i < dim; ++i) {
        const L p = ldot<dim>(lsub<dim>(x, o), e[i]) / a[i];
        v += p * p;
      }
      return v;
    };
    n << "ellipsoid(" << str<dim, real>(ax) << "," << str<dim, real>(sys.get_origin()) << ",";
    for (int i = 0; i < dim; ++i) n << str<dim, real>(sys.get_basis()[i]);
    n << ")";
    r.size = 150;
    break;
  }
  case 2: {
    const auto o = centre();
    const auto v = direction<dim>(s);
    const bool dflt = s.chance(1, 5);
    if (dflt) {
      r.f = r.bzr ? std::static_pointer_cast<const qugar::impl::ImplicitFunc<dim>>(std::make_shared<fn::PlaneBzr<dim>>()) : std::make_shared<fn::Plane<dim>>();
      r.ref = [](const LP<dim> &x) { return x[0]; };
      n << "plane";
    } else {
      r.f = r.bzr ? std::static_pointer_cast<const qugar::impl::ImplicitFunc<dim>>(std::make_shared<fn::PlaneBzr<dim>>(o, v)) : std::make_shared<fn::Plane<dim>>(o, v);
      // Both normalizations of the normal are legitimate: "grows linearly".
      const auto nv = lp<dim>(v);
      const L len = std::sqrt(ldot<dim>(nv, nv));
      const auto probe = [&](L f) {
        Point<dim> q;
        for (int i = 0; i < dim; ++i) q(i) = o(i) + v(i);
        return std::fabs((*r.f)(q)-static_cast<double>(f * len * len)) < 1e-9;
      };
      const L f = probe(1) ? 1 : 1 / len;
      r.ref = [o = lp<dim>(o), nv, f](const LP<dim> &x) { return f * ldot<dim>(lsub<dim>(x, o), nv); };
      n << "plane(" << str<dim, real>(o) << "," << str<dim, real>(v) << ")";
    }
    r.size = 6;
    break;
  }
  case 3: {
    const real v = s.real(-1, 1);
    if (s.chance(1, 6)) {
      r.f = r.bzr ? std::static_pointer_cast<const qugar::impl::ImplicitFunc<dim>>(std::make_shared<fn::ConstantBzr<dim>>()) : std::make_shared<fn::Constant<dim>>();
      const L d = fn::ConstantBase::default_value;
      r.ref = [d](const LP<dim> &) { return d; };
    } else {
      r.f = r.bzr ? std::static_pointer_cast<const qugar::impl::ImplicitFunc<dim>>(std::make_shared<fn::ConstantBzr<dim>>(v)) : std::make_shared<fn::Constant<dim>>(v);
      r.ref = [v](const LP<dim> &) { return static_cast<L>(v); };
    }
    n << "constant(" << v << ")";
    break;
  }
  case 4: {
    std::array<real, 1 << dim> c;
    for (auto &x : c) x = s.real(-1, 1);
    r.bzr = false;
    r.singular = true;
    auto base = [c](const LP<dim> &x) {
      L v = 0;
      for (int k = 0; k < (1 << dim); ++k) {
        L w = c[static_cast<std::size_t>(k)];
        for (int i = 0; i < dim; ++i) w *= (k >> i & 1) ? x[i] : 1 - x[i];
        v += w;
      }
      return v;
    };
    n << "dim-linear(" << c[0] << ".." << c.back() << ")";
    if (s.coin()) {
      r.f = std::make_shared<fn::DimLinear<dim>>(c);
      r.ref = base;
      r.size = 30;
    } else {
      const auto m = affine<dim>(s);
      r.f = std::make_shared<fn::DimLinear<dim>>(c, m.t);
      r.ref = [base, i = m.m.inverse()](const LP<dim> &x) { return base(i(x)); };
      n << " in " << m.name;
      r.freq = std::max(1.0, static_cast<double>(m.m.inverse().norm()));
      r.size = 30 * std::pow(1 + r.freq, dim);
    }
    break;
  }
  case 5:
    if constexpr (dim == 2) {
      const real Ri = s.real(0.1, 0.9) * extent, Ro = Ri + s.real(0.1, 0.8) * extent;
      const bool dflt = s.chance(1, 5);
      const auto c = dflt ? Point<2>(0.0) : centre();
      if (r.bzr)
        r.f = dflt ? std::make_shared<fn::AnnulusBzr>(Ri, Ro) : std::make_shared<fn::AnnulusBzr>(Ri, Ro, c);
      else
        r.f = dflt ? std::make_shared<fn::Annulus>(Ri, Ro) : std::make_shared<fn::Annulus>(Ri, Ro, c);
      r.ref = [c = lp<2>(c), Ri, Ro](const LP<2> &x) {
        const auto d = lsub<2>(x, c);
        const L q = ldot<2>(d, d);
        return (q - static_cast<L>(Ri) * Ri) * (q - static_cast<L>(Ro) * Ro);
      };
      n << "annulus(" << Ri << "," << Ro << "," << str<2, real>(c) << ")";
    } else {
      const real R = s.real(0.3, 1) * extent, q = R * s.real(0.1, 0.9);
      const int dflt = s.i(0, 3);
      const auto c = dflt == 1 ? Point<3>(0.0) : centre();
      const auto a = dflt == 1 || dflt == 2 ? Point<3>(0.0, 0.0, 1.0) : direction<3>(s);
      if (r.bzr)
        r.f = dflt == 1 ? std::make_shared<fn::TorusBzr>(R, q) : dflt == 2 ? std::make_shared<fn::TorusBzr>(R, q, c) : std::make_shared<fn::TorusBzr>(R, q, c, a);
      else
        r.f = dflt == 1 ? std::make_shared<fn::Torus>(R, q) : dflt == 2 ? std::make_shared<fn::Torus>(R, q, c) : std::make_shared<fn::Torus>(R, q, c, a);
      // (dist to the axis circle)^2 in factored form: (rho^2 + h^2 + R^2 - r^2)^2 - 4 R^2 rho^2.
      r.ref = [c = lp<3>(c), a = lunit<3>(lp<3>(a)), R, q](const LP<3> &x) {
        const auto d = lsub<3>(x, c);
        const L h = ldot<3>(d, a), t = ldot<3>(d, d), rho2 = t - h * h, R2 = static_cast<L>(R) * R, k = t + R2 - static_cast<L>(q) * q;
        return k * k - 4 * R2 * rho2;
      };
      n << "torus(" << R << "," << q << "," << str<3, real>(c) << "," << str<3, real>(a) << ")";
    }
    r.size = 60;
    break;
  case 6:
    if constexpr (dim == 3) {
      const real R = s.real(0.2, 1) * extent;
      const int dflt = s.i(0, 3);
      const auto c = dflt == 1 ? Point<3>(0.0) : centre();
      const auto a = dflt == 1 || dflt == 2 ? Point<3>(0.0, 0.0, 1.0) : direction<3>(s);
      if (r.bzr)
        r.f = dflt == 1 ? std::make_shared<fn::CylinderBzr>(R) : dflt == 2 ? std::make_shared<fn::CylinderBzr>(R, c) : std::make_shared<fn::CylinderBzr>(R, c, a);
      else
        r.f = dflt == 1 ? std::make_shared<fn::Cylinder>(R) : dflt == 2 ? std::make_shared<fn::Cylinder>(R, c) : std::make_shared<fn::Cylinder>(R, c, a);
      r.ref = [c = lp<3>(c), a = lunit<3>(lp<3>(a)), R](const LP<3> &x) {
        const auto w = lcross(lsub<3>(x, c), a);
        return ldot<3>(w, w) - static_cast<L>(R) * R;
      };
      n << "cylinder(" << R << "," << str<3, real>(c) << "," << str<3, real>(a) << ")";
      r.size = 12;
      break;
    }
    [[fallthrough]];
  case 7:
  case 8: {
    r.bzr = false;
    r.singular = true;
    Vector<real, dim> m;
    for (int i = 0; i < dim; ++i) m(i) = s.chance(1, 2) ? s.i(1, 3) : s.real(0.3, 2.5);
    const real z = dim == 2 ? s.real(-1, 1) : 0.0;
    LP<3> k{ 1, 1, 1 };
    for (int i = 0; i < dim; ++i) k[i] = m(i);
    const bool dflt = s.chance(1, 6);
    if (dflt) k = { 1, 1, 1 };
    const L zz = dflt ? 0 : z;
    const int which = s.i(0, 5);
    auto make = [&]<template<int> class F>() -> std::shared_ptr<const qugar::impl::ImplicitFunc<dim>> {
      if (dflt) return std::make_shared<F<dim>>();
      return tpms<dim, F>(m, z);
    };
    static const char *names[] = { "Schoen", "SchoenIWP", "SchoenFRD", "FischerKochS", "SchwarzDiamond", "SchwarzPrimitive" };
    switch (which) {
    case 0: r.f = make.template operator()<tp::Schoen>(); break;
    case 1: r.f = make.template operator()<tp::SchoenIWP>(); break;
    case 2: r.f = make.template operator()<tp::SchoenFRD>(); break;
    case 3: r.f = make.template operator()<tp::FischerKochS>(); break;
    case 4: r.f = make.template operator()<tp::SchwarzDiamond>(); break;
    default: r.f = make.template operator()<tp::SchwarzPrimitive>();
    }
    r.ref = [k, zz, which](const LP<dim> &x) {
      constexpr L tau = 6.28318530717958647692528676655900577L;
      L X[3] = { x[0], x[1], zz };
      if constexpr (dim == 3) X[2] = x[2];
      L S[3], C[3], C2[3];
      for (int i = 0; i < 3; ++i) {
        const L t = tau * k[i] * X[i];
        S[i] = std::sin(t);
        C[i] = std::cos(t);
        C2[i] = std::cos(2 * t);
      }
      L v = 0;
      for (int i = 0; i < 3; ++i) {
        const int j = (i + 1) % 3, l = (i + 2) % 3;
        switch (which) {
        case 0: v += S[i] * C[j]; break;
        case 1: v += 2 * C[i] * C[j] - C2[i]; break;
        case 2: v += (i == 0 ? 4 * C[0] * C[1] * C[2] : 0) - C2[i] * C2[j]; break;
        case 3: v += i == 0 ? C2[0] * S[1] * C[2] : i == 1 ? C[0] * C2[1] * S[2] : S[0] * C[1] * C2[2]; break;
        case 4: v += i == 0 ? C[0] * C[1] * C[2] - S[0] * S[1] * S[2] : 0; break;
        default: v += C[i];
        }
        (void)l;
      }
      return v;
    };
    n << names[which] << "(" << str<dim, real>(m) << "," << z << (dflt ? ",default" : "") << ")";
    r.freq = 4 * 3.15 * static_cast<double>(std::max({ k[0], k[1], k[2] }));
    r.size = 9;
    break;
  }
  default: {
    r.bzr = false;
    r.smooth = false;
    r.hess = false;
    Map<dim> inv;
    for (int i = 0; i < dim; ++i) inv.A[i][i] = 1;
    if (s.coin()) {
      const auto m = affine<dim>(s);
      r.f = std::make_shared<fn::Square<dim>>(m.t);
      inv = m.m.inverse();
      n << "square in " << m.name;
    } else {
      r.f = std::make_shared<fn::Square<dim>>();
      n << "square";
    }
    r.freq = std::max(1.0, static_cast<double>(inv.norm()));
    r.size = 4 * r.freq;
    r.ref = [inv](const LP<dim> &x) {
      L v = 0;
      for (const L c : inv(x)) v = std::max(v, std::fabs(c));
      return v - 1;
    };
    r.regular = [inv](const LP<dim> &x, double d) {
      auto a = inv(x);
      for (auto &c : a) c = std::fabs(c);
      std::sort(a.begin(), a.end());
      return a[dim - 1] - a[dim - 2] > 4 * d && a[dim - 1] > 4 * d;
    };
  }
  }
  r.name = n.str() + (r.bzr ? "Bzr" : "");
  return r;
}
// Primitive or combination of functions.
template<int dim> Fn<dim> func(Src &s, int depth, bool allow_square, double extent = 1.0, bool allow_bzr = true)
{
  namespace fn = qugar::impl::funcs;
  const int kind = depth > 0 ? s.i(0, 7) : 0;
  if (kind < 4) return primitive<dim>(s, allow_square, extent, allow_bzr);
  // Bezier functions lose precision fast outside of the unit box: no transformations of them.
  auto a = func<dim>(s, depth - 1, allow_square, extent, allow_bzr && kind != 5);
  Fn<dim> r = a;
  if (kind == 4) {
    r.f = std::make_shared<fn::Negative<dim>>(a.f);
    r.ref = [f = a.ref](const LP<dim> &x) { return -f(x); };
    r.name = "-(" + a.name + ")";
  } else if (kind == 5) {
    const auto m = affine<dim>(s);
    r.f = std::make_shared<fn::TransformedFunction<dim>>(a.f, m.t);
    const auto inv = m.m.inverse();
    const double k = std::max(1.0, static_cast<double>(inv.norm()));
    r.ref = [f = a.ref, inv](const LP<dim> &x) { return f(inv(x)); };
    r.regular = [f = a.regular, inv, k](const LP<dim> &x, double d) { return f(inv(x), d * k); };
    r.freq = a.freq * k;
    r.size = a.size * std::pow(1 + k, 4);
    r.name = m.name + " of (" + a.name + ")";
  } else {
    auto b = func<dim>(s, depth - 1, allow_square, extent, allow_bzr);
    if (kind == 6) {
      r.f = std::make_shared<fn::AddFunctions<dim>>(a.f, b.f);
      r.ref = [f = a.ref, g = b.ref](const LP<dim> &x) { return f(x) + g(x); };
    } else {
      r.f = std::make_shared<fn::SubtractFunctions<dim>>(a.f, b.f);
      r.ref = [f = a.ref, g = b.ref](const LP<dim> &x) { return f(x) - g(x); };
    }
    r.name = "(" + a.name + (kind == 6 ? " + " : " - ") + b.name + ")";
    r.freq = std::max(a.freq, b.freq);
    r.size = a.size + b.size;
    r.hess = a.hess && b.hess;
    r.singular = true;
    r.bzr = a.bzr || b.bzr;
    r.smooth = a.smooth && b.smooth;
    r.regular = [f = a.regular, g = b.regular](const LP<dim> &x, double d) { return f(x, d) && g(x, d); };
  }
  return r;
}
}// namespace gen
#endif
