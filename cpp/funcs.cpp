// F01 derivatives, F02 values, F03 enclosures, F04 maps, reference systems and combinations of implicit functions.
#include "funcgen.hpp"
using namespace gen;
using qugar::impl::AffineTransf;
using qugar::impl::RefSystem;
namespace {
template<int dim> Point<dim> off(Point<dim> p, int i, double h)
{
  p(i) += h;
  return p;
}
// Fourth-order central difference with an error estimate.
template<int dim, typename G> std::pair<double, double> diff(G g, const Point<dim> &p, int i, double h)
{
  auto d = [&](double k) { return (8 * (g(off<dim>(p, i, k)) - g(off<dim>(p, i, -k))) - (g(off<dim>(p, i, 2 * k)) - g(off<dim>(p, i, -2 * k)))) / (12 * k); };
  const double a = d(h), b = d(h / 2);
  return { b, std::fabs(a - b) };
}
template<int dim> Point<dim> sample(Src &s, const Fn<dim> &f) { return f.bzr ? unit_point<dim>(s) : point<dim>(s, -1.5, 1.5); }
template<int dim> void f01(Src &s)
{
  const auto f = func<dim>(s, 2, true);
  s.note("f", f.name);
  bool any = false;
  for (int rep = 0; rep < 4; ++rep) {
    auto p = sample<dim>(s, f);
    const double h = 2e-3 / f.freq;
    if (f.bzr)
      for (int i = 0; i < dim; ++i) p(i) = 0.01 + 0.98 * p(i);
    if (!f.regular(lp<dim>(p), 3 * h * f.freq)) continue;
    const auto g = f.f->grad(p);
    const auto H = f.hess ? f.f->hessian(p) : decltype(f.f->hessian(p)){};
    int q = 0;
    for (int i = 0; i < dim; ++i) {
      const auto [d, e] = diff<dim>([&](const Point<dim> &x) { return (*f.f)(x); }, p, i, h);
      REQUIRE_SIG(std::fabs(d - g(i)) <= 5 * e + 1e-9 * f.size * f.freq, "gradient", f.name, ": gradient ", i, " is ", g(i), ", values give ", d, " at ", str<dim, real>(p));
      if (std::fabs(d) > 1e-3) any = true;
      for (int j = i; f.hess && j < dim; ++j, ++q) {
        const auto [dd, ee] = diff<dim>([&](const Point<dim> &x) { return static_cast<double>(f.f->grad(x)(i)); }, p, j, h);
        REQUIRE_SIG(std::fabs(dd - H(q)) <= 5 * ee + 1e-8 * f.size * f.freq * f.freq, "hessian", f.name, ": hessian ", q, " is ", H(q), ", gradients give ", dd, " at ", str<dim, real>(p));
      }
    }
    s.count("point");
  }
  if (any) s.nontrivial();
}
// The function built again from the parameters it reports.
template<int dim> std::shared_ptr<const qugar::impl::ImplicitFunc<dim>> rebuilt(const qugar::impl::ImplicitFunc<dim> &f)
{
  namespace fn = qugar::impl::funcs;
  std::shared_ptr<const qugar::impl::ImplicitFunc<dim>> r;
  const auto with = [&]<typename T>(const T *, auto &&make) {
    if (const auto *g = dynamic_cast<const T *>(&f)) r = make(*g);
  };
#define AGAIN(T, ...) with(static_cast<const T *>(nullptr), [](const auto &g) { return std::make_shared<const T>(__VA_ARGS__); })
  AGAIN(fn::Sphere<dim>, g.radius(), g.center());
  AGAIN(fn::SphereBzr<dim>, g.radius(), g.center());
  AGAIN(fn::Ellipsoid<dim>, g.semi_axes(), g.ref_system());
  AGAIN(fn::EllipsoidBzr<dim>, g.semi_axes(), g.ref_system());
  AGAIN(fn::Constant<dim>, g.value());
  AGAIN(fn::ConstantBzr<dim>, g.value());
  AGAIN(fn::Plane<dim>, g.origin(), g.normal());
  AGAIN(fn::PlaneBzr<dim>, g.origin(), g.normal());
  if constexpr (dim == 2) {
    AGAIN(fn::Annulus, g.inner_radius(), g.outer_radius(), g.center());
    AGAIN(fn::AnnulusBzr, g.inner_radius(), g.outer_radius(), g.center());
  } else {
    AGAIN(fn::Cylinder, g.radius(), g.origin(), g.axis());
    AGAIN(fn::CylinderBzr, g.radius(), g.origin(), g.axis());
    AGAIN(fn::Torus, g.major_radius(), g.minor_radius(), g.center(), g.axis());
    AGAIN(fn::TorusBzr, g.major_radius(), g.minor_radius(), g.center(), g.axis());
  }
#undef AGAIN
  return r;
}
template<int dim> void f02(Src &s)
{
  const auto f = primitive<dim>(s, true);
  s.note("f", f.name);
  bool neg = false, pos = false;
  for (int rep = 0; rep < 12; ++rep) {
    const auto p = sample<dim>(s, f);
    const double v = (*f.f)(p);
    const double w = static_cast<double>(f.ref(lp<dim>(p)));
    REQUIRE_SIG(std::fabs(v - w) <= 2e-11 * f.size, "value", f.name, " is ", v, " instead of ", w, " at ", str<dim, real>(p));
    (w < 0 ? neg : pos) = true;
  }
  if (const auto g = rebuilt<dim>(*f.f)) {
    const auto p = sample<dim>(s, f);
    REQUIRE_SIG(std::fabs((*g)(p) - (*f.f)(p)) <= 2e-11 * f.size, "reported parameters", f.name, " built again from its parameters is ", (*g)(p), " instead of ", (*f.f)(p), " at ", str<dim, real>(p));
    s.count("built again");
  }
  if (neg && pos) s.nontrivial();
  s.count(f.bzr ? "Bezier" : "general");
}
template<int dim> void f03(Src &s)
{
  using I = ::algoim::Interval<dim>;
  const auto f = func<dim>(s, 2, true);
  s.note("f", f.name);
  const bool tiny = s.chance(1, 3);
  Point<dim> c, hw;
  for (int i = 0; i < dim; ++i) {
    hw(i) = s.real(0.02, 0.5) * (tiny ? 0.05 : 1.0) * (s.chance(1, 8) ? 4 : 1);
    c(i) = f.bzr ? 0.5 : s.real(-1.2, 1.2);
    if (f.bzr) {
      hw(i) = std::min(hw(i), 0.5);
      c(i) = hw(i) + s.unit() * (1 - 2 * hw(i));
    }
  }
  s.note("box", str<dim, real>(c) + "+-" + str<dim, real>(hw));
  Point<dim, I> x;
  for (int i = 0; i < dim; ++i) {
    I::delta(i) = hw(i);
    Vector<real, dim> b(0.0);
    b(i) = 1.0;
    x(i) = I(c(i), b);
  }
  const I v = (*f.f)(x);
  const auto g = f.f->grad(x);
  if (v.eps + v.dev1() > 1e-12 && std::isfinite(v.eps)) s.nontrivial();
  if (v.uniformSign()) s.count("uniform sign");
  for (int rep = 0; rep < 16; ++rep) {
    Point<dim> y;
    Point<dim> p;
    for (int i = 0; i < dim; ++i) {
      const int k = rep < 6 ? s.i(-1, 1) : 2;
      y(i) = hw(i) * (k == 2 ? 2 * s.unit() - 1 : k);
      p(i) = c(i) + y(i);
    }
    auto inside = [&](const I &a, double val, const char *what) {
      double lin = a.alpha;
      for (int i = 0; i < dim; ++i) lin += a.beta(i) * y(i);
      REQUIRE_SIG(!(std::fabs(val - lin) > a.eps + 1e-10 * f.size * f.freq), what, f.name, ": ", what, " ", val, " at ", str<dim, real>(p), " is outside ", lin, " +- ", a.eps);
    };
    inside(v, (*f.f)(p), "value");
    if (!f.regular(lp<dim>(p), 1e-9)) continue;
    const auto gp = f.f->grad(p);
    for (int i = 0; i < dim; ++i) inside(g(i), gp(i), "gradient");
  }
}
template<int dim> void same(const AffineTransf<dim> &t, const Map<dim> &m, Src &s, const char *what, double scale)
{
  using I = ::algoim::Interval<dim>;
  for (int rep = 0; rep < 2; ++rep) {
    const auto p = point<dim>(s, -2, 2);
    const auto y = t.transform_point(p);
    const auto w = m(lp<dim>(p));
    Point<dim, I> pi;
    for (int i = 0; i < dim; ++i) pi(i) = I(p(i));
    const auto yi = t.transform_point(pi);
    for (int i = 0; i < dim; ++i) {
      REQUIRE_SIG(std::fabs(y(i) - w[i]) <= 1e-11 * scale, what, what, ": component ", i, " of ", str<dim, real>(y), " should be ", static_cast<double>(w[i]), " for ", str<dim, real>(p));
      REQUIRE_SIG(std::fabs(yi(i).alpha - y(i)) <= 1e-11 * scale, "interval map", what);
    }
    // Gradients and Hessians follow the chain rule: A^T v, A^T H A.
    const auto v = point<dim>(s, -1, 1);
    const auto gv = t.transform_vector(v);
    constexpr int nh = dim * (dim + 1) / 2;
    Vector<real, nh> h;
    for (int i = 0; i < nh; ++i) h(i) = s.real(-1, 1);
    L H[dim][dim];
    for (int i = 0, q = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j, ++q) H[i][j] = H[j][i] = h(q);
    const auto th = t.transform_tensor(h);
    for (int i = 0, q = 0; i < dim; ++i) {
      L r = 0;
      for (int k = 0; k < dim; ++k) r += m.A[k][i] * v(k);
      REQUIRE_SIG(std::fabs(gv(i) - r) <= 1e-11 * scale, "vector", what, ": vector component ", i, " is ", gv(i), " instead of ", static_cast<double>(r));
      for (int j = i; j < dim; ++j, ++q) {
        L e = 0;
        for (int k = 0; k < dim; ++k)
          for (int l = 0; l < dim; ++l) e += m.A[k][i] * H[k][l] * m.A[l][j];
        REQUIRE_SIG(std::fabs(th(q) - e) <= 1e-10 * scale * scale, "tensor", what, ": tensor component ", q, " is ", th(q), " instead of ", static_cast<double>(e));
      }
    }
  }
}
template<int dim, std::size_t n> void check_basis(const std::array<Point<dim>, n> &b, const std::array<LP<dim>, dim> &e, const char *what, double tol = 1e-12)
{
  for (int k = 0; k < dim; ++k)
    for (int i = 0; i < dim; ++i)
      REQUIRE_SIG(std::fabs(b[static_cast<std::size_t>(k)](i) - e[k][i]) <= tol, what, what, ": axis ", k, " is ", str<dim, real>(b[static_cast<std::size_t>(k)]), " component ", i, " should be ", static_cast<double>(e[k][i]));
}
template<int dim> void orthonormal(const std::array<Point<dim>, dim> &b, const char *what)
{
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) {
      const double d = qugar::dot(b[i], b[j]);
      REQUIRE_SIG(std::fabs(d - (i == j)) < 1e-12, what, what, ": axes ", i, " and ", j, " have product ", d);
    }
  if constexpr (dim == 3) {
    const auto c = lcross(lp<3>(b[0]), lp<3>(b[1]));
    for (int i = 0; i < 3; ++i) REQUIRE_SIG(std::fabs(c[i] - b[2](i)) < 1e-12, what, what, ": left-handed");
  }
}
template<int dim> void f04(Src &s)
{
  const int what = s.i(0, 3);
  if (what == 0) {
    const auto a = affine<dim>(s), b = affine<dim>(s);
    s.note("a", a.name);
    s.note("b", b.name);
    if (a.name != "identity") s.nontrivial();
    const double sc = 1 + std::pow(static_cast<double>(a.m.norm()), 2) * (1 + static_cast<double>(b.m.norm())) * 4;
    same<dim>(a.t, a.m, s, "map", sc);
    same<dim>(a.t * b.t, a.m.after(b.m), s, "composition", 4 * sc);
    const auto inv = a.m.inverse();
    const double cond = std::pow(1 + static_cast<double>(inv.norm()), 2);
    same<dim>(a.t.inverse(), inv, s, "inverse", sc * cond);
    Map<dim> id;
    for (int i = 0; i < dim; ++i) id.A[i][i] = 1;
    same<dim>(a.t * a.t.inverse(), id, s, "map after its inverse", sc * cond);
    same<dim>(a.t.inverse() * a.t, id, s, "inverse after the map", sc * cond);
  } else if (what == 1) {
    s.nontrivial();
    s.note("kind", "reference system");
    std::array<LP<dim>, dim> e;
    LP<dim> o;
    const auto r = ref_system<dim>(s, e, o);
    check_basis<dim>(r.get_basis(), e, "reference system");
    orthonormal<dim>(r.get_basis(), "reference system");
    for (int i = 0; i < dim; ++i) REQUIRE_SIG(r.get_origin()(i) == o[i], "origin", "origin of the reference system");
    double dev = 0;
    for (int i = 0; i < dim; ++i) dev = std::max(dev, std::fabs(static_cast<double>(e[i][i]) - 1));
    if (dev == 0 || dev > 1e-9) REQUIRE_SIG(r.is_Cartesian_oriented() == (dev == 0), "cartesian", "is_Cartesian_oriented with deviation ", dev);
    if constexpr (dim == 3) {
      // Systems around an axis.
      const auto a = direction<3>(s);
      s.note("axis", str<3, real>(a));
      const RefSystem<3> z(Point<3>(0.25), a);
      orthonormal<3>(z.get_basis(), "system around an axis");
      const auto u = lunit<3>(lp<3>(a));
      for (int i = 0; i < 3; ++i) REQUIRE_SIG(std::fabs(z.get_basis()[2](i) - u[i]) < 1e-12, "axis", "z axis ", str<3, real>(z.get_basis()[2]));
      const auto xy = qugar::impl::create_reference_system_around_axis(a);
      const std::array<Point<3>, 3> b{ xy.first, xy.second, Point<3>(static_cast<real>(u[0]), static_cast<real>(u[1]), static_cast<real>(u[2])) };
      orthonormal<3>(b, "axes around an axis");
    } else {
      const RefSystem<1> r1(Point<1>(0.5), Point<1>(s.sgn() * s.real(0.1, 3)));
      REQUIRE_SIG(std::fabs(std::fabs(r1.get_basis()[0](0)) - 1.0) < 1e-14, "one-dimensional", "axis of length ", r1.get_basis()[0](0));
      const double at = s.real(-2, 2);
      const RefSystem<1> r0{ Point<1>(at) };
      REQUIRE_SIG(r0.get_origin()(0) == at && r0.get_basis()[0](0) == 1.0 && r0.is_Cartesian_oriented(), "one-dimensional", "default axis ", r0.get_basis()[0](0));
    }
  } else {
    const auto f = func<dim>(s, 3, true);
    s.note("f", f.name);
    bool neg = false, pos = false;
    for (int rep = 0; rep < 8; ++rep) {
      const auto p = sample<dim>(s, f);
      const double v = (*f.f)(p);
      const double w = static_cast<double>(f.ref(lp<dim>(p)));
      REQUIRE_SIG(std::fabs(v - w) <= 1e-10 * f.size * f.freq, "combination", f.name, " is ", v, " instead of ", w, " at ", str<dim, real>(p));
      (w < 0 ? neg : pos) = true;
    }
    if (neg && pos) s.nontrivial();
  }
}
#define BOTH(name)                             \
  void name##_(Src &s)                         \
  {                                            \
    if (s.coin())                              \
      name<3>(s);                              \
    else                                       \
      name<2>(s);                              \
  }
BOTH(f01)
BOTH(f02)
BOTH(f03)
BOTH(f04)
const pbt::Reg r1("F01", f01_, 150000, 3000000);
const pbt::Reg r2("F02", f02_, 500000, 10000000);
const pbt::Reg r3("F03", f03_, 300000, 6000000);
const pbt::Reg r4("F04", f04_, 600000, 12000000);
}// namespace
