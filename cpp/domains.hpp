// Random implicit domains on grids, reference measures by slicing, half-spaces known exactly.
#pragma once
#include "funcgen.hpp"
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/impl_utils.hpp>
#include <qugar/unfitted_domain.hpp>
using namespace gen;
using qugar::CartGridTP;
using qugar::impl::ImplicitFunc;
using qugar::impl::UnfittedImplDomain;
namespace {
using Ids = std::vector<std::int64_t>;
template<int dim> using Grid = std::shared_ptr<const CartGridTP<dim>>;
template<int dim> using Func = std::shared_ptr<const ImplicitFunc<dim>>;
template<int dim> using Dom = UnfittedImplDomain<dim>;
template<int dim> Grid<dim> grid(Src &s, const std::array<int, dim> &n, double lo, double hi)
{
  std::array<std::vector<real>, dim> b;
  const bool uniform = s.coin();
  for (int i = 0; i < dim; ++i) {
    std::vector<double> w;
    for (int k = 0; k < n[i]; ++k) w.push_back(uniform ? 1.0 : s.generic(0.5, 1.5));
    double sum = 0;
    for (double x : w) sum += x;
    b[i].push_back(lo);
    double a = 0;
    for (int k = 0; k + 1 < n[i]; ++k) b[i].push_back(lo + (hi - lo) * ((a += w[k]) / sum));
    b[i].push_back(hi);
  }
  return std::make_shared<const CartGridTP<dim>>(b);
}
template<int dim> std::string grid_str(const CartGridTP<dim> &g)
{
  std::ostringstream o;
  o << std::setprecision(17);
  for (int i = 0; i < dim; ++i) {
    o << (i ? " x " : "") << "[";
    for (const double x : g.get_breaks(i)) o << (x == g.get_breaks(i).front() ? "" : ",") << x;
    o << "]";
  }
  return o.str();
}
template<int dim> Point<dim> at01(const BoundBox<dim> &b, const Point<dim> &u)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = b.min(i) + u(i) * (b.max(i) - b.min(i));
  return p;
}
template<int dim> double length(const BoundBox<dim> &b, int i) { return b.max(i) - b.min(i); }
// A domain: smooth function and grid, in general position.
template<int dim> struct Case
{
  Fn<dim> f;
  Grid<dim> g;
  std::shared_ptr<const Dom<dim>> d;
  int n_cells;
};
template<int dim> Case<dim> domain(Src &s, int max_cells, bool general_too = false)
{
  Case<dim> c;
  c.f = func<dim>(s, 1, false);
  std::array<int, dim> n;
  c.n_cells = 1;
  for (int i = 0; i < dim; ++i) {
    n[i] = s.i(1, dim == 2 ? 5 : 3);
    if (c.n_cells * n[i] > max_cells) n[i] = 1;
    c.n_cells *= n[i];
  }
  if (c.f.singular) {
    // Singular points of the level set are beyond the accuracy of any rule: an offset avoids them.
    const double v = s.generic(0.02, 0.1) * s.sgn();
    c.f.f = std::make_shared<qugar::impl::funcs::AddFunctions<dim>>(c.f.f, std::make_shared<qugar::impl::funcs::Constant<dim>>(v));
    c.f.name += pbt::cat(" + ", v);
  }
  if (!c.f.singular && c.f.name.find("constant") != std::string::npos) throw pbt::Discard{};
  // The polynomial backend is slow for high degrees.
  const bool quartic = c.f.name.find("torus") != std::string::npos || c.f.name.find("annulus") != std::string::npos;
  if (dim == 3 && quartic && c.f.bzr && (general_too || !qugar::impl::is_bezier(*c.f.f) || !s.chance(1, 8))) throw pbt::Discard{};
  double lo = s.generic(0.001, 0.03), hi = 1 - s.generic(0.001, 0.03);
  if (!c.f.bzr && s.coin()) {
    lo = s.generic(-1.0, 0.0);
    hi = s.generic(0.5, 1.5);
  }
  c.g = grid<dim>(s, n, lo, hi);
  s.note("f", c.f.name);
  s.note("grid", grid_str<dim>(*c.g));
  // Functions that oscillate several times per cell are beyond the accuracy of any rule.
  double h = 0;
  for (int i = 0; i < dim; ++i)
    for (std::size_t k = 0; k + 1 < c.g->get_breaks(i).size(); ++k) h = std::max(h, c.g->get_breaks(i)[k + 1] - c.g->get_breaks(i)[k]);
  if (c.f.freq * h > 12) throw pbt::Discard{};
  c.d = std::make_shared<const Dom<dim>>(c.f.f, c.g);
  return c;
}
// In a share of the cases, a multiple of the function if it is a polynomial: the domain is the same.
template<int dim> Case<dim> amplified(Src &s, Case<dim> c, int lo = -45, int hi = 45)
{
  const auto *b = dynamic_cast<const qugar::impl::BezierTP<dim, 1> *>(c.f.f.get());
  if (!b || (hi == 45 && !s.chance(1, 3))) return c;
  const double k = std::ldexp(1, s.i(lo, hi));
  s.note("factor", k);
  s.count("multiple");
  const auto m = std::make_shared<qugar::impl::BezierTP<dim, 1>>(*b);
  for (int i = 0; i < static_cast<int>(m->get_num_coefs()); ++i) m->get_coef(i) *= k;
  c.f.f = m;
  c.f.size *= k;
  c.f.name += pbt::cat(" * ", k);
  c.d = std::make_shared<const Dom<dim>>(c.f.f, c.g);
  return c;
}
// Fraction of a box (and first moments in reference coordinates) where f is negative, by slices.
template<int dim> struct Measure
{
  double vol{ 0 };
  std::array<double, dim> mom{};
  double max_abs_diff(const Measure &o) const
  {
    double e = std::fabs(vol - o.vol);
    for (int i = 0; i < dim; ++i) e = std::max(e, std::fabs(mom[i] - o.mom[i]));
    return e;
  }
};
template<int dim, typename F> Measure<dim> slices(F f, int lines, int samples)
{
  Measure<dim> m;
  const int total = dim == 1 ? 1 : dim == 2 ? lines : lines * lines;
  const double w = 1.0 / total;
  for (int l = 0; l < total; ++l) {
    Point<dim> p(0.0);
    if constexpr (dim == 2) p(0) = (l + 0.5) / lines;
    if constexpr (dim == 3) {
      p(0) = (l % lines + 0.5) / lines;
      p(1) = (l / lines + 0.5) / lines;
    }
    auto g = [&](double t) {
      p(dim - 1) = t;
      return f(p);
    };
    auto add = [&](double a, double b) {
      m.vol += w * (b - a);
      for (int i = 0; i + 1 < dim; ++i) m.mom[i] += w * (b - a) * p(i);
      m.mom[dim - 1] += w * 0.5 * (b * b - a * a);
    };
    double a = 0, fa = g(0);
    for (int k = 1; k <= samples; ++k) {
      const double b = static_cast<double>(k) / samples, fb = g(b);
      if ((fa < 0) == (fb < 0)) {
        if (fa < 0) add(a, b);
      } else {
        double x = a, y = b;
        for (int it = 0; it < 45; ++it) {
          const double z = 0.5 * (x + y);
          ((g(z) < 0) == (fa < 0) ? x : y) = z;
        }
        if (fa < 0)
          add(a, x);
        else
          add(x, b);
      }
      a = b;
      fa = fb;
    }
  }
  return m;
}
// Slices along the direction in which the function changes most.
template<int dim, typename F> Measure<dim> best_slices(F f, int lines, int samples)
{
  std::array<double, dim> change{};
  for (int k = 0; k < 64; ++k) {
    Point<dim> u;
    for (int i = 0, q = k; i < dim; ++i, q /= 4) u(i) = (q % 4 + 0.5) / 4;
    const double v = f(u);
    for (int i = 0; i < dim; ++i) {
      auto w = u;
      w(i) += 0.1;
      change[i] += std::fabs(f(w) - v);
    }
  }
  const auto d = static_cast<int>(std::max_element(change.begin(), change.end()) - change.begin());
  auto m = slices<dim>(
    [&](Point<dim> u) {
      std::swap(u(d), u(dim - 1));
      return f(u);
    },
    lines,
    samples);
  std::swap(m.mom[d], m.mom[dim - 1]);
  return m;
}
template<int dim> Measure<dim> slices_cell(const ImplicitFunc<dim> &f, const BoundBox<dim> &b)
{
  return best_slices<dim>([&](const Point<dim> &u) { return f(at01<dim>(b, u)); }, dim == 2 ? 250 : 40, dim == 2 ? 32 : 16);
}
template<int dim> Measure<dim - 1> slices_facet(const ImplicitFunc<dim> &f, const BoundBox<dim> &b, int facet)
{
  return best_slices<dim - 1>(
    [&](const Point<dim - 1> &u) {
      Point<dim> x;
      for (int i = 0, k = 0; i < dim; ++i) x(i) = i == facet / 2 ? facet % 2 : u(k++);
      return f(at01<dim>(b, x));
    },
    250, dim == 2 ? 200 : 32);
}
template<int dim> Measure<dim> from_rule(const std::vector<Point<dim>> &p, const std::vector<real> &w, std::size_t a, std::size_t b)
{
  Measure<dim> m;
  for (std::size_t k = a; k < b; ++k) {
    m.vol += w[k];
    for (int i = 0; i < dim; ++i) m.mom[i] += w[k] * p[k](i);
  }
  return m;
}
template<int dim> std::string show(const Measure<dim> &m)
{
  std::ostringstream o;
  o << std::setprecision(10) << m.vol << " (";
  for (int i = 0; i < dim; ++i) o << (i ? "," : "") << m.mom[i];
  o << ")";
  return o.str();
}
// One-dimensional Gauss rule on [0, 1].
std::vector<std::pair<double, double>> gauss(int n)
{
  std::vector<std::pair<double, double>> r;
  for (int i = 0; i < n; ++i) {
    long double x = -std::cos(3.14159265358979323846264338327950288L * (i + 0.75L) / (n + 0.5L));
    long double dp = 1;
    for (int it = 0; it < 50; ++it) {
      long double p0 = 1, p1 = x;
      for (int k = 2; k <= n; ++k) {
        const long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
        p0 = p1;
        p1 = p2;
      }
      if (n == 0) p1 = 1;
      dp = n * (x * p1 - p0) / (x * x - 1);
      x -= p1 / dp;
    }
    r.emplace_back(static_cast<double>((1 + x) / 2), static_cast<double>(1 / ((1 - x * x) * dp * dp)));
  }
  return r;
}
template<int dim> void check_standard(const std::vector<Point<dim>> &p, const std::vector<real> &w, std::size_t a, std::size_t b, int n, const char *what)
{
  const auto g = gauss(n);
  std::size_t total = 1;
  for (int i = 0; i < dim; ++i) total *= n;
  REQUIRE_SIG(b - a == total, "standard", what, ": ", b - a, " points instead of ", total);
  for (std::size_t k = 0; k < total; ++k) {
    std::size_t q = k;
    double ww = 1;
    for (int i = 0; i < dim; ++i, q /= n) {
      REQUIRE_SIG(std::fabs(p[a + k](i) - g[q % n].first) < 1e-13, "standard", what, ": point ", str<dim, real>(p[a + k]), " of the standard rule should have ", g[q % n].first);
      ww *= g[q % n].second;
    }
    REQUIRE_SIG(std::fabs(w[a + k] - ww) < 1e-13, "standard", what, ": weight ", w[a + k], " instead of ", ww);
  }
}
// Random list of cells: shuffled, some missing, some repeated.
Ids cell_list(Src &s, int n)
{
  Ids r;
  const int k = s.i(0, n + 2);
  for (int i = 0; i < k; ++i) r.push_back(s.i(0, n - 1));
  return r;
}
template<int dim> double scale_at(const ImplicitFunc<dim> &f, const BoundBox<dim> &b, const Point<dim> &x)
{
  const auto g = f.grad(x);
  double v = 0;
  for (int i = 0; i < dim; ++i) v += std::fabs(g(i)) * length<dim>(b, i);
  return v;
}
// Half-space with a boundary along a grid line (or parallel to it): everything is known exactly.
template<int dim> struct Aligned
{
  Func<dim> f;
  Grid<dim> g;
  std::shared_ptr<const Dom<dim>> d;
  int n_cells, dir, k;// the boundary is at break k of direction dir, or (k negative) inside of cell -k-1
  bool below;// the domain lies below the boundary
  double cut{ 0.5 };
  bool bezier{ false };
  // Fraction of the cell inside of the domain, and whether the facet towards the outside lies on the boundary.
  double inside(std::int64_t id) const
  {
    const int t = g->to_tensor(id)(dir);
    if (k < 0 && t == -k - 1) return below ? cut : 1 - cut;
    const bool low = k < 0 ? t < -k - 1 : t < k;
    return low == below ? 1 : 0;
  }
  bool on(std::int64_t id, int facet) const
  {
    const int t = g->to_tensor(id)(dir);
    return k >= 0 && facet == 2 * dir + (below ? 1 : 0) && t == (below ? k - 1 : k);
  }
  double facet(std::int64_t id, int f) const
  {
    const double v = inside(id);
    if (f / 2 != dir || v == 0 || v == 1) return v;
    return (f % 2 == 0) == below ? 1 : 0;
  }
};
template<int dim> Aligned<dim> aligned(Src &s)
{
  Aligned<dim> c;
  // In 3D the general backend subdivides down to its limit around such boundaries.
  const bool slow = dim == 3 && s.chance(1, 12);
  std::array<int, dim> n;
  c.n_cells = 1;
  c.dir = s.i(0, dim - 1);
  for (int i = 0; i < dim; ++i) n[i] = s.i(1, dim == 2 ? 4 : i == c.dir ? 2 : 1);
  if (dim == 3 && s.chance(1, 3)) n[(c.dir + 1) % dim] = 2;
  // Small cells, compared with which the rounding errors of the coordinates are larger.
  if (dim == 2 && s.chance(1, 6)) {
    n[c.dir] = s.i(5, 60);
    n[1 - c.dir] = 1;
  }
  for (int i = 0; i < dim; ++i) c.n_cells *= n[i];
  const double scale = (dim == 2 || slow) && s.chance(1, 4) ? std::pow(10.0, s.i(-6, 3)) : 1.0;
  // Away from the origin, the rounding errors are larger than for its size.
  const double shift = dim == 2 && scale == 1.0 && s.chance(1, 6) ? s.sgn() * std::pow(10.0, s.i(0, 4)) : 0.0;
  const double lo = (s.coin() ? 0.0 : s.real(-0.5, 0.2)) * scale + shift, hi = (s.coin() ? 1.0 : s.real(0.8, 1.3)) * scale + shift;
  c.g = grid<dim>(s, n, lo, hi);
  c.below = s.coin();
  const auto &b = c.g->get_breaks(c.dir);
  c.k = s.chance(3, 4) ? s.i(0, n[c.dir]) : -1 - s.i(0, n[c.dir] - 1);
  Point<dim> o(0.0), v(0.0);
  for (int i = 0; i < dim; ++i) o(i) = s.real(-1, 1) * scale;
  if (c.k >= 0) {
    // On the line of the grid up to the rounding of its coordinates.
    o(c.dir) = b[static_cast<std::size_t>(c.k)];
    for (int i = s.chance(1, 3) ? s.i(-2, 2) : 0; i != 0; i += i > 0 ? -1 : 1) o(c.dir) = std::nextafter(o(c.dir), i > 0 ? 1e9 : -1e9);
  }
  else {
    const double l = b[static_cast<std::size_t>(-c.k - 1)], h = b[static_cast<std::size_t>(-c.k)];
    o(c.dir) = l + (h - l) * s.generic(0.1, 0.9);
    c.cut = (o(c.dir) - l) / (h - l);
  }
  v(c.dir) = (c.below ? 1 : -1) * (s.coin() ? 1.0 : s.real(0.5, 3));
  const bool bzr = c.bezier = scale == 1.0 && shift == 0.0 && (dim == 2 ? s.coin() : !slow);
  if (bzr)
    c.f = std::make_shared<qugar::impl::funcs::PlaneBzr<dim>>(o, v);
  else
    c.f = std::make_shared<qugar::impl::funcs::Plane<dim>>(o, v);
  s.note("kind", "aligned");
  s.note("bezier", bzr);
  s.note("plane", str<dim, real>(o) + " " + str<dim, real>(v));
  s.note("grid", grid_str<dim>(*c.g));
  c.d = std::make_shared<const Dom<dim>>(c.f, c.g);
  s.nontrivial();
  s.count("aligned");
  return c;
}
// Product of the distances to two parallel planes.
template<int dim> struct SlabFn : public ImplicitFunc<dim>
{
  int dir;
  double a, b, c;
  SlabFn(int dir_, double a_, double b_, double c_) : dir(dir_), a(a_), b(b_), c(c_) {}
  using I = ::algoim::Interval<dim>;
  template<typename T> T val(const Point<dim, T> &x) const { return (x(dir) - a) * (x(dir) - b) * c; }
  template<typename T> Vector<T, dim> der(const Point<dim, T> &x) const
  {
    Vector<T, dim> g(0.0);
    g(dir) = (x(dir) * 2.0 - (a + b)) * c;
    return g;
  }
  real operator()(const Point<dim> &x) const override { return val<real>(x); }
  I operator()(const Point<dim, I> &x) const override { return val<I>(x); }
  Vector<real, dim> grad(const Point<dim> &x) const override { return der<real>(x); }
  Vector<I, dim> grad(const Point<dim, I> &x) const override { return der<I>(x); }
  typename ImplicitFunc<dim>::template Hessian<real> hessian(const Point<dim> &) const override
  {
    typename ImplicitFunc<dim>::template Hessian<real> h(0.0);
    int k = 0;
    for (int i = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j, ++k)
        if (i == dir && j == dir) h(k) = 2 * c;
    return h;
  }
};
// Slab between two planes, or its outside, with the planes along grid lines or parallel to them.
template<int dim> struct Slab
{
  Func<dim> f;
  Grid<dim> g;
  std::shared_ptr<const Dom<dim>> d;
  int n_cells, dir;
  double a, b;
  bool outside, bezier;
  double inside(std::int64_t id) const
  {
    const auto c = g->get_cell_domain(id);
    const double l = c.min(dir), h = c.max(dir), v = std::max(0.0, std::min(b, h) - std::max(a, l)) / (h - l);
    return outside ? 1 - v : v;
  }
  double at(std::int64_t id, int side) const
  {
    const auto c = g->get_cell_domain(id);
    return side ? c.max(dir) : c.min(dir);
  }
  // The facet lies on the boundary, with the cell inside.
  bool on(std::int64_t id, int f) const
  {
    if (f / 2 != dir) return false;
    const double x = at(id, f % 2);
    return x == a ? (f % 2 == 1) == outside : x == b ? (f % 2 == 0) == outside : false;
  }
  double facet(std::int64_t id, int f) const
  {
    if (f / 2 != dir) return inside(id);
    const double x = at(id, f % 2);
    if (x == a || x == b) return 0;
    return (x > a && x < b) != outside ? 1 : 0;
  }
};
template<int dim> Slab<dim> slab(Src &s)
{
  Slab<dim> c;
  std::array<int, dim> n;
  c.n_cells = 1;
  c.dir = s.i(0, dim - 1);
  for (int i = 0; i < dim; ++i) c.n_cells *= n[i] = s.i(1, dim == 2 ? 4 : i == c.dir ? 3 : 1);
  c.g = grid<dim>(s, n, s.coin() ? 0.0 : s.real(-0.5, 0.2), s.coin() ? 1.0 : s.real(0.8, 1.3));
  c.outside = s.coin();
  const auto &b = c.g->get_breaks(c.dir);
  auto pick = [&] {
    const int k = s.i(0, n[c.dir]), q = std::min(k, n[c.dir] - 1);
    if (s.chance(2, 3)) return b[static_cast<std::size_t>(k)];
    return b[static_cast<std::size_t>(q)] + (b[static_cast<std::size_t>(q) + 1] - b[static_cast<std::size_t>(q)]) * s.generic(0.1, 0.9);
  };
  c.a = pick();
  c.b = pick();
  if (c.b < c.a) std::swap(c.a, c.b);
  if (c.b - c.a < 0.02) throw pbt::Discard();
  const double w = (c.outside ? -1 : 1) * (s.coin() ? 1.0 : s.real(0.5, 3));
  // In 3D the general backend subdivides down to its limit around such boundaries.
  c.bezier = dim == 3 || s.coin();
  const std::array<double, 2> x{ c.a, c.b };
  if (c.bezier) {
    TensorIndexTP<dim> o;
    for (int i = 0; i < dim; ++i) o(i) = i == c.dir ? 3 : 1;
    auto z = std::make_shared<qugar::impl::BezierTP<dim>>(TensorSizeTP<dim>(o));
    z->get_coef(0) = w * x[0] * x[1];
    z->get_coef(1) = w * (x[0] * x[1] - (x[0] + x[1]) / 2);
    z->get_coef(2) = w * (1 - x[0]) * (1 - x[1]);
    c.f = z;
  } else
    c.f = std::make_shared<SlabFn<dim>>(c.dir, x[0], x[1], w);
  s.note("kind", "slab");
  s.note("bezier", c.bezier);
  s.note("slab", pbt::cat(c.outside ? "outside of " : "", "[", c.a, ",", c.b, "] along ", c.dir));
  s.note("grid", grid_str<dim>(*c.g));
  c.d = std::make_shared<const Dom<dim>>(c.f, c.g);
  s.nontrivial();
  s.count("slab");
  return c;
}
}// namespace
