// B01 evaluation and conversion, B02 algebra, B03 sign bounds of tensor-product polynomials.
#include "gen.hpp"
using namespace gen;
using qugar::impl::BezierTP;
using qugar::impl::MonomialsTP;
namespace {
template<typename Fn> void dispatch_dim(Src &s, Fn fn)
{
  switch (s.i(1, 3)) {
  case 1: fn(std::integral_constant<int, 1>{}); break;
  case 2: fn(std::integral_constant<int, 2>{}); break;
  default: fn(std::integral_constant<int, 3>{}); break;
  }
}
int max_order(int dim) { return dim == 1 ? 9 : (dim == 2 ? 6 : 4); }

template<int dim, int range, typename Poly> void check_eval(Src &s, bool bern, const Poly &p, const char *what)
{
  for (int rep = 0; rep < 3; ++rep) {
    const auto pt = s.coin() ? unit_point<dim>(s) : point<dim>(s, -0.5, 1.5);
    const auto v = p(pt);
    const auto g = p.grad(pt);
    const auto h = p.hessian(pt);
    for (int k = 0; k < range; ++k) {
      std::array<int, dim> der{};
      auto r = eval<dim, range>(bern, p.get_order(), p.get_coefs(), k, pt, der);
      const double vv = comp<range>(v, k);
      const double boost = bern ? 64.0 : 1.0;// points outside [0,1]
      REQUIRE_SIG(close(vv, r.value, boost * r.scale), "value", what, " value ", vv, " expected ", r.value, " at ", str<dim, real>(pt));
      int q = 0;
      for (int i = 0; i < dim; ++i) {
        der = {};
        der[i] = 1;
        r = eval<dim, range>(bern, p.get_order(), p.get_coefs(), k, pt, der);
        const double gv = comp<range>(g(i), k);
        REQUIRE_SIG(close(gv, r.value, boost * r.scale), "gradient", what, " gradient ", i, " is ", gv, " expected ", r.value, " at ", str<dim, real>(pt));
        for (int j = i; j < dim; ++j, ++q) {
          der = {};
          ++der[i];
          ++der[j];
          r = eval<dim, range>(bern, p.get_order(), p.get_coefs(), k, pt, der);
          const double hv = comp<range>(h(q), k);
          REQUIRE_SIG(close(hv, r.value, boost * r.scale), "hessian", what, " hessian ", q, " is ", hv, " expected ", r.value, " at ", str<dim, real>(pt));
        }
      }
    }
  }
}
template<int dim, int range> void b01(Src &s)
{
  const auto o = order<dim>(s, 1, max_order(dim));
  const auto c = coefs<dim, range>(s, o);
  s.note("dim", dim);
  s.note("range", range);
  s.note("order", str<dim, int>(o));
  s.note("c0", comp<range>(c.back(), 0));
  if (size<dim>(o) > 1) s.nontrivial();
  const MonomialsTP<dim, range> m(o, c);
  check_eval<dim, range>(s, false, m, "monomials");
  const BezierTP<dim, range> b(o, c);
  check_eval<dim, range>(s, true, b, "Bezier");
  // Conversion.
  const BezierTP<dim, range> mb(m);
  REQUIRE_SIG(mb.get_order() == m.get_order(), "conversion-order", "orders differ");
  for (int rep = 0; rep < 4; ++rep) {
    const auto pt = unit_point<dim>(s);
    for (int k = 0; k < range; ++k) {
      const auto r = eval<dim, range>(false, o, c, k, pt, {});
      double all = 0;
      for (const auto &cc : c) all += std::fabs(comp<range>(cc, k));
      const double v = comp<range>(mb(pt), k);
      REQUIRE_SIG(close(v, r.value, 100 * all), "conversion", "Bezier from monomials gives ", v, " expected ", r.value, " at ", str<dim, real>(pt));
    }
  }
  // Copies and constants.
  const BezierTP<dim, range> copy(b);
  const MonomialsTP<dim, range> mcopy(m);
  const auto pt = unit_point<dim>(s);
  for (int k = 0; k < range; ++k) REQUIRE_SIG(comp<range>(mcopy(pt), k) == comp<range>(m(pt), k) && mcopy.get_order() == m.get_order(), "copy", "a copy differs");
  for (int k = 0; k < range; ++k) REQUIRE_SIG(comp<range>(copy(pt), k) == comp<range>(b(pt), k), "copy", "a copy differs");
  const BezierTP<dim, range> cst(o, c.front());
  for (int k = 0; k < range; ++k)
    REQUIRE_SIG(close(comp<range>(cst(pt), k), comp<range>(c.front(), k), 4), "constant", "a constant polynomial is not constant");
  // 1D Bernstein functions.
  const int n = s.i(1, 10), d = s.i(0, 3);
  const double x = s.real(0, 1);
  std::vector<real> vals(static_cast<std::size_t>(n), 7.0);// the caller sizes the vector
  qugar::impl::evaluate_Bernstein<real>(x, n, d, vals);
  REQUIRE_SIG(static_cast<int>(vals.size()) == n, "bernstein-size", "number of basis functions");
  double sc = 1;
  for (int r = 0; r < d; ++r) sc *= 2.0 * n;
  for (int i = 0; i < n; ++i) {
    const double e = static_cast<double>(basis1(true, i, n, d, x));
    REQUIRE_SIG(close(vals[static_cast<std::size_t>(i)], e, sc), "bernstein", "order ", n, " function ", i, " derivative ", d, " at ", x, " is ", vals[static_cast<std::size_t>(i)], " expected ", e);
  }
}

template<int dim, int range> double value(const BezierTP<dim, range> &b, const Point<dim> &p, int k) { return comp<range>(b(p), k); }
template<int dim, int range, typename P> double cmax(const P &p)
{
  double m = 0;
  for (const auto &c : p.get_coefs())
    for (int k = 0; k < range; ++k) m = std::max(m, std::fabs(comp<range>(c, k)));
  return m;
}

template<int dim, int range> void b02(Src &s)
{
  const int mo = dim == 1 ? 7 : (dim == 2 ? 5 : 3);
  const auto oa = order<dim>(s, 1, mo);
  const auto ob = s.chance(1, 3) ? oa : order<dim>(s, 1, mo);
  const BezierTP<dim, range> a(oa, coefs<dim, range>(s, oa));
  const BezierTP<dim, range> b(ob, coefs<dim, range>(s, ob));
  s.note("dim", dim);
  s.note("range", range);
  s.note("oa", str<dim, int>(oa));
  s.note("ob", str<dim, int>(ob));
  s.note("c", comp<range>(a.get_coefs().back(), 0));
  if (size<dim>(oa) > 1 && size<dim>(ob) > 1) s.nontrivial();
  const auto sum = a + b;
  const auto diff = a - b;
  const auto prod = a * b;
  const auto neg = a.negate();
  Vector<int, dim> no;
  for (int d = 0; d < dim; ++d) no(d) = oa(d) + s.i(0, 2);
  const auto raised = a.raise_order(TensorSizeTP<dim>(no));
  REQUIRE_SIG(raised->get_order() == TensorSizeTP<dim>(no), "raise-order", "order after raising");
  BezierTP<dim, range> lin(a);
  const double scale = s.real(-2, 2);
  Coef<dim, range> shift;
  if constexpr (range == 1)
    shift = s.real(-2, 2);
  else
    for (int k = 0; k < range; ++k) shift(k) = s.real(-2, 2);
  lin.coefs_linear_transform(scale, shift);
  BezierTP<dim, range> img(a);
  const auto ob1 = box<range>(s), ob2 = box<range>(s);
  img.transform_image(ob1, ob2);
  for (int rep = 0; rep < 4; ++rep) {
    const auto p = unit_point<dim>(s);
    for (int k = 0; k < range; ++k) {
      const double va = value(a, p, k), vb = value(b, p, k);
      REQUIRE_SIG(close(value(*sum, p, k), va + vb, 10), "sum", "sum ", value(*sum, p, k), " expected ", va + vb);
      REQUIRE_SIG(close(value(*diff, p, k), va - vb, 10), "difference", "difference ", value(*diff, p, k), " expected ", va - vb);
      REQUIRE_SIG(close(value(*prod, p, k), va * vb, 40), "product", "product ", value(*prod, p, k), " expected ", va * vb);
      REQUIRE_SIG(close(value(*neg, p, k), -va, 10), "negation", "negation ", value(*neg, p, k), " expected ", -va);
      REQUIRE_SIG(close(value(*raised, p, k), va, 10), "raise", "raised ", value(*raised, p, k), " expected ", va);
      REQUIRE_SIG(close(value(lin, p, k), scale * va + comp<range>(shift, k), 10), "linear-transform", value(lin, p, k));
      const double e = (va - ob1.min(k)) * ob2.length(k) / ob1.length(k) + ob2.min(k);
      REQUIRE_SIG(close(value(img, p, k), e, 40), "image-transform", value(img, p, k), " expected ", e);
    }
  }
  // Derivatives of monomials.
  const MonomialsTP<dim, range> m(oa, a.get_coefs());
  for (int d = 0; d < dim; ++d) {
    const auto md = m.create_derivative(d);
    const auto p = point<dim>(s, -1, 1);
    if (oa(d) == 1) {
      // Documented: a clone is returned.
      REQUIRE_SIG(md->get_order() == oa, "derivative clone", "orders differ");
      for (int k = 0; k < range; ++k) REQUIRE_SIG(comp<range>((*md)(p), k) == comp<range>(m(p), k), "derivative clone", "values differ");
      continue;
    }
    for (int k = 0; k < range; ++k) {
      std::array<int, dim> der{};
      der[d] = 1;
      const auto r = eval<dim, range>(false, oa, m.get_coefs(), k, p, der);
      REQUIRE_SIG(close(comp<range>((*md)(p), k), r.value, r.scale), "derivative", "derivative along ", d, " is ", comp<range>((*md)(p), k), " expected ", r.value);
    }
  }
  // Facets.
  if constexpr (dim > 1) {
    for (int f = 0; f < 2 * dim; ++f) {
      const auto fa = a.template extract_facet<dim>(f);
      const auto fm = m.template extract_facet<dim>(f);
      const auto q = unit_point<dim - 1>(s);
      Point<dim> p;
      for (int d = 0, e = 0; d < dim; ++d) p(d) = d == f / 2 ? static_cast<double>(f % 2) : q(e++);
      for (int k = 0; k < range; ++k) {
        REQUIRE_SIG(close(comp<range>((*fa)(q), k), value(a, p, k), 10), "facet", "Bezier facet ", f, " gives ", comp<range>((*fa)(q), k), " expected ", value(a, p, k));
        const auto r = eval<dim, range>(false, oa, m.get_coefs(), k, p, {});
        REQUIRE_SIG(close(comp<range>((*fm)(q), k), r.value, r.scale), "monomial-facet", "monomial facet ", f, " gives ", comp<range>((*fm)(q), k), " expected ", r.value);
      }
    }
  }
  if constexpr (range == 1) {
    Point<dim> lo, hi;
    for (int d = 0; d < dim; ++d) {
      lo(d) = s.real(-0.5, 1.0);
      hi(d) = lo(d) + s.real(0.1, 1.0);
    }
    const BoundBox<dim> nb(lo, hi);
    BezierTP<dim, 1> r(a);
    r.rescale_domain(nb);
    const auto u = unit_point<dim>(s);
    Point<dim> p;
    for (int d = 0; d < dim; ++d) p(d) = lo(d) + u(d) * (hi(d) - lo(d));
    const auto e = eval<dim, 1>(true, oa, a.get_coefs(), 0, p, {});
    REQUIRE_SIG(close(r(u), e.value, 64 * e.scale + 100, 1e-9), "rescale", "rescaled to ", str(nb), " gives ", r(u), " expected ", e.value);
  }
}
// Composition: lhs of `inner` variables into range; rhs from dim to inner.
template<int dim, int inner, int range> void compose(Src &s)
{
  const int mo = (dim == 3 && inner == 3) ? 2 : (dim + inner >= 5 ? 3 : 4);
  const auto ol = order<inner>(s, 1, mo);
  const auto orr = order<dim>(s, 1, std::min(mo, 3));
  const BezierTP<inner, range> l(ol, coefs<inner, range>(s, ol));
  auto cr = coefs<dim, inner>(s, orr);
  const BezierTP<dim, inner> r(orr, cr);
  s.note("compose", pbt::cat(dim, "->", inner, "->", range));
  s.note("ol", str<inner, int>(ol));
  s.note("or", str<dim, int>(orr));
  s.note("c", comp<range>(l.get_coefs().back(), 0));
  if (size<inner>(ol) > 1 && size<dim>(orr) > 1) s.nontrivial();
  const auto c = l.compose(r);
  for (int rep = 0; rep < 3; ++rep) {
    const auto p = unit_point<dim>(s);
    Point<inner> q;
    for (int k = 0; k < inner; ++k) q(k) = comp<inner>(r(p), k);
    for (int k = 0; k < range; ++k) {
      const auto e = eval<inner, range>(true, ol, l.get_coefs(), k, q, {});
      double sc = 1;
      for (int d = 0; d < inner; ++d) sc *= std::pow(5.0, ol(d) - 1);
      const double v = comp<range>((*c)(p), k);
      REQUIRE_SIG(close(v, e.value, 2 * sc), "composition", "composition gives ", v, " expected ", e.value);
    }
  }
}
template<int dim> void b03(Src &s)
{
  const auto o = order<dim>(s, 1, max_order(dim));
  auto c = coefs<dim, 1>(s, o);
  const double off = s.chance(1, 2) ? s.real(-3, 3) : 0.0;
  for (auto &x : c) x += off;
  // Polynomials that vanish at corners, edges, ... without changing sign.
  const int zeros = s.chance(1, 4) ? s.i(1, 3) : 0;
  if (zeros > 0) {
    const double side = s.coin() ? 1 : -1;
    for (auto &x : c) x = side * std::fabs(x);
    for (int k = 0; k < zeros; ++k) {
      std::array<int, dim> fix;
      for (int d = 0; d < dim; ++d) fix[d] = s.pick(std::vector<int>{ 0, o(d) - 1, -1 });
      for (std::size_t f = 0; f < c.size(); ++f) {
        std::size_t r = f;
        bool in = true;
        for (int d = 0; d < dim; ++d) {
          const auto od = static_cast<std::size_t>(o(d));
          in = in && (fix[d] < 0 || static_cast<int>(r % od) == fix[d]);
          r /= od;
        }
        if (in) c[f] = 0;
      }
    }
  }
  const BezierTP<dim, 1> b(o, c);
  const auto sg = b.sign();
  s.note("dim", dim);
  s.note("order", str<dim, int>(o));
  s.note("off", off);
  s.note("c", c.back());
  s.count(sg == qugar::impl::FuncSign::undetermined ? "undetermined" : "signed");
  if (sg != qugar::impl::FuncSign::undetermined) s.nontrivial();
  const auto neg = b.negate()->sign();
  REQUIRE_SIG((sg == qugar::impl::FuncSign::undetermined) == (neg == qugar::impl::FuncSign::undetermined) && (sg == qugar::impl::FuncSign::undetermined || neg != sg), "negated-sign", "sign of the negation");
  // The coefficients at the corners are the values there.
  for (int k = 0; k < (1 << dim); ++k) {
    std::size_t f = 0, w = 1;
    for (int d = 0; d < dim; ++d) {
      f += (k >> d & 1) ? w * static_cast<std::size_t>(o(d) - 1) : 0;
      w *= static_cast<std::size_t>(o(d));
    }
    REQUIRE_SIG(sg == qugar::impl::FuncSign::undetermined || (sg == qugar::impl::FuncSign::positive ? c[f] > 0 : c[f] < 0), "sign at a corner", "corner ", k, " has the value ", c[f]);
  }
  for (int rep = 0; rep < 12; ++rep) {
    Point<dim> p;
    for (int d = 0; d < dim; ++d) p(d) = s.chance(1, 3) ? static_cast<double>(s.i(0, 1)) : s.unit();
    const auto r = eval<dim, 1>(true, o, c, 0, p, {});
    if (sg == qugar::impl::FuncSign::positive) REQUIRE_SIG(r.value > -1e-12 * (1 + r.scale), "positive", "reported positive, value ", r.value, " at ", str<dim, real>(p));
    if (sg == qugar::impl::FuncSign::negative) REQUIRE_SIG(r.value < 1e-12 * (1 + r.scale), "negative", "reported negative, value ", r.value, " at ", str<dim, real>(p));
  }
  if (std::all_of(c.begin(), c.end(), [](double x) { return x > 1e-3; })) REQUIRE_SIG(sg == qugar::impl::FuncSign::positive, "all-positive", "all coefficients are positive");
  if (std::all_of(c.begin(), c.end(), [](double x) { return x < -1e-3; })) REQUIRE_SIG(sg == qugar::impl::FuncSign::negative, "all-negative", "all coefficients are negative");
  // Interval evaluation over a random sub-box.
  using Itv = algoim::Interval<dim>;
  Vector<Itv, dim> x;
  Point<dim> mid, half;
  for (int d = 0; d < dim; ++d) {
    mid(d) = s.unit();
    half(d) = 0.5 * s.unit();
    Itv::delta(d) = half(d);
    Vector<real, dim> beta(0.0);
    beta(d) = 1.0;
    x(d) = Itv(mid(d), beta);
  }
  const MonomialsTP<dim, 1> m(o, c);
  const Itv vb = b(x), vm = m(x);
  const auto gb = b.grad(x), gm = m.grad(x);
  for (int rep = 0; rep < 6; ++rep) {
    Point<dim> p;
    for (int d = 0; d < dim; ++d) p(d) = mid(d) + half(d) * (2 * s.unit() - 1);
    const auto inside = [&](const Itv &i, double v, const char *what) {
      double lin = i.alpha;
      for (int d = 0; d < dim; ++d) lin += i.beta(d) * (p(d) - mid(d));
      REQUIRE_SIG(!(std::fabs(v - lin) > i.eps + 1e-9 * (1 + std::fabs(v) + std::fabs(lin))), "interval", what, " ", v, " outside its enclosure ", lin, " +- ", i.eps);
    };
    inside(vb, eval<dim, 1>(true, o, c, 0, p, {}).value, "Bezier value");
    inside(vm, eval<dim, 1>(false, o, c, 0, p, {}).value, "monomial value");
    for (int d = 0; d < dim; ++d) {
      std::array<int, dim> der{};
      der[d] = 1;
      inside(gb(d), eval<dim, 1>(true, o, c, 0, p, der).value, "Bezier gradient");
      inside(gm(d), eval<dim, 1>(false, o, c, 0, p, der).value, "monomial gradient");
    }
  }
}
template<template<int, int> class F> struct Disp;
pbt::Reg r1("B01", [](Src &s) {
  dispatch_dim(s, [&](auto d) {
    dispatch_dim(s, [&](auto r) { b01<d.value, r.value>(s); });
  });
}, 400000, 20000000);
pbt::Reg r2("B02", [](Src &s) {
  if (s.chance(1, 3)) {
    dispatch_dim(s, [&](auto d) {
      dispatch_dim(s, [&](auto i) {
        dispatch_dim(s, [&](auto r) { compose<d.value, i.value, r.value>(s); });
      });
    });
  } else
    dispatch_dim(s, [&](auto d) {
      dispatch_dim(s, [&](auto r) { b02<d.value, r.value>(s); });
    });
}, 400000, 20000000);
pbt::Reg r3("B03", [](Src &s) { dispatch_dim(s, [&](auto d) { b03<d.value>(s); }); }, 400000, 20000000);
}// namespace
