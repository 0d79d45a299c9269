// Q06, G01, G02, G03, L01: quadrature rules, tensor indices, grids, boxes, tolerances, Lagrange bases.
#include "gen.hpp"
#include <algoim/bernstein.hpp>
#include <map>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
using namespace gen;
using pbt::cat;
namespace {
template<typename F> void with_dim(Src &s, int lo, F &&f)
{
  const int d = s.i(lo, 3);
  s.note("dim", d);
  if (d == 1)
    f(std::integral_constant<int, 1>{});
  else if (d == 2)
    f(std::integral_constant<int, 2>{});
  else
    f(std::integral_constant<int, 3>{});
}

// ---------------------------------------------------------------- Q06
long double power_sum(bool gauss, int n, int k)
{
  long double v = 0;
  for (int i = 0; i < n; ++i) {
    const long double x = gauss ? qugar::Gauss::get_abscissa(n, i) : qugar::TanhSinh::get_abscissa(n, i);
    const long double w = gauss ? qugar::Gauss::get_weight(n, i) : qugar::TanhSinh::get_weight(n, i);
    v += w * std::pow(x, static_cast<long double>(k));
  }
  return v;
}
void rule_1d(Src &s)
{
  const bool gauss = !s.chance(1, 3);
  const int n = s.i(1, 100);
  s.note("rule", gauss ? "gauss" : "tanh-sinh");
  s.note("n", n);
  const auto x = [&](int i) { return gauss ? qugar::Gauss::get_abscissa(n, i) : qugar::TanhSinh::get_abscissa(n, i); };
  const auto w = [&](int i) { return gauss ? qugar::Gauss::get_weight(n, i) : qugar::TanhSinh::get_weight(n, i); };
  for (int i = 0; i < n; ++i) {
    REQUIRE_SIG(w(i) > 0, "rule weights", "weight ", i, " = ", w(i));
    REQUIRE_SIG(x(i) >= 0 && x(i) <= 1, "rule points", "abscissa ", i, " = ", x(i));
    if (gauss) REQUIRE_SIG(x(i) > 0 && x(i) < 1, "rule points", "abscissa ", i, " = ", x(i));
    if (i > 0) REQUIRE_SIG(gauss ? x(i) > x(i - 1) : x(i) >= x(i - 1), "rule points", "abscissae ", i - 1, " and ", i, ": ", x(i - 1), " ", x(i));
    REQUIRE_SIG(std::fabs(x(i) + x(n - 1 - i) - 1) < 1e-14, "rule symmetry", "abscissae ", i, ": ", x(i), " ", x(n - 1 - i));
    REQUIRE_SIG(std::fabs(w(i) - w(n - 1 - i)) < 1e-14, "rule symmetry", "weights ", i, ": ", w(i), " ", w(n - 1 - i));
  }
  const int k = gauss ? s.i(0, 2 * n - 1) : s.i(0, 8);
  s.note("power", k);
  const double err = std::fabs(static_cast<double>(power_sum(gauss, n, k) - 1.0L / (k + 1)));
  double tol = 5e-14;
  if (!gauss && k > 1) tol = n >= 30 ? 1e-11 : (n >= 20 ? 1e-7 : (n >= 10 ? 1e-3 : 1));
  REQUIRE_SIG(err <= tol, "rule exactness", "integral of x^", k, " over (0,1) is off by ", err);
  if (n > 1) s.nontrivial();
}
template<int dim> void rule_tp(Src &s)
{
  std::array<int, dim> n{};
  for (auto &k : n) k = s.i(1, dim == 3 ? 6 : 10);
  const auto b = box<dim>(s);
  s.note("box", str<dim>(b));
  for (const int k : n) s.note("n", k);
  const bool gauss = !s.chance(1, 3);
  s.note("gauss", gauss);
  const int how = s.i(0, 2);
  std::shared_ptr<qugar::Quadrature<dim>> q;
  BoundBox<dim> dom(0.0, 1.0);
  if (how == 0) {
    dom = b;
    if constexpr (dim == 1) {
      const qugar::Interval iv(b.min(0), b.max(0));
      q = gauss ? qugar::Quadrature<1>::create_Gauss(n, iv) : qugar::Quadrature<1>::create_tanh_sinh(n, iv);
    } else
      q = gauss ? qugar::Quadrature<dim>::create_Gauss(n, b) : qugar::Quadrature<dim>::create_tanh_sinh(n, b);
  } else if (how == 1)
    q = gauss ? qugar::Quadrature<dim>::create_Gauss_01(n) : qugar::Quadrature<dim>::create_tanh_sinh_01(n);
  else {
    n.fill(n[0]);
    q = gauss ? qugar::Quadrature<dim>::create_Gauss_01(n[0]) : qugar::Quadrature<dim>::create_tanh_sinh_01(n[0]);
  }
  s.note("how", how);
  std::size_t tot = 1;
  for (const int k : n) tot *= static_cast<std::size_t>(k);
  REQUIRE_SIG(q->get_num_points() == tot && q->points().size() == tot && q->weights().size() == tot, "tensor rule size", q->get_num_points(), " points instead of ", tot);
  TensorSizeTP<dim> o;
  for (int d = 0; d < dim; ++d) o(d) = n[d];
  for (std::size_t f = 0; f < tot; ++f) {
    const auto t = tensor<dim>(static_cast<std::int64_t>(f), o);
    double w = 1;
    for (int d = 0; d < dim; ++d) {
      const double x = gauss ? qugar::Gauss::get_abscissa(n[d], t[d]) : qugar::TanhSinh::get_abscissa(n[d], t[d]);
      const double y = dom.min(d) + dom.length(d) * x;
      REQUIRE_SIG(std::fabs(q->points()[f](d) - y) < 1e-13, "tensor rule points", "point ", f, " = ", str<dim, real>(q->points()[f]), ", component ", d, " should be ", y);
      w *= dom.length(d) * (gauss ? qugar::Gauss::get_weight(n[d], t[d]) : qugar::TanhSinh::get_weight(n[d], t[d]));
    }
    REQUIRE_SIG(std::fabs(q->weights()[f] - w) < 1e-13 * (1 + w), "tensor rule weights", "weight ", f, " = ", q->weights()[f], " should be ", w);
  }
  const double r = s.real(-3, 3);
  auto before = q->weights();
  q->scale_weights(r);
  for (std::size_t f = 0; f < tot; ++f)
    REQUIRE_SIG(std::fabs(q->weights()[f] - r * before[f]) <= 1e-15 * std::fabs(r * before[f]), "scale weights", f);
  if (tot > 1) s.nontrivial();
}
pbt::Reg q06("Q06",
  [](Src &s) {
    if (s.coin())
      rule_1d(s);
    else
      with_dim(s, 1, [&](auto d) { rule_tp<decltype(d)::value>(s); });
  },
  3000000, 60000000);

// ---------------------------------------------------------------- G01
template<int dim> TensorIndexTP<dim> tid(const std::array<int, dim> &a)
{
  Vector<int, dim> v;
  for (int d = 0; d < dim; ++d) v(d) = a[d];
  return TensorIndexTP<dim>(v);
}
template<int dim> void indexing(Src &s)
{
  TensorSizeTP<dim> size;
  const bool big = s.chance(1, 8);
  for (int d = 0; d < dim; ++d) size(d) = big ? s.i(1, dim == 3 ? 200000 : 1000000000) : s.i(1, dim == 1 ? 60 : (dim == 2 ? 12 : 6));
  for (int d = 0; d < dim; ++d) s.note("size", size(d));
  std::int64_t tot = 1;
  for (int d = 0; d < dim; ++d) tot *= size(d);
  REQUIRE_SIG(static_cast<std::int64_t>(size.size()) == tot, "tensor size", size.size());
  const auto random_index = [&] {
    std::array<int, dim> a{};
    for (int d = 0; d < dim; ++d) a[d] = s.chance(1, 4) ? size(d) - 1 : s.i(0, size(d) - 1);
    return a;
  };
  const auto a = random_index();
  auto b = random_index();
  // Often share components, so that order is decided by a later one.
  for (int d = 0; d < dim; ++d)
    if (s.chance(1, 3)) b[d] = a[d];
  std::int64_t fa = 0, fb = 0, m = 1;
  for (int d = 0; d < dim; ++d) {
    fa += a[d] * m;
    fb += b[d] * m;
    m *= size(d);
  }
  const auto ta = tid<dim>(a), tb = tid<dim>(b);
  {
    TensorSizeTP<dim> x, y;
    for (int d = 0; d < dim; ++d) {
      x.as_Vector()(d) = a[d];
      y.as_Vector()(d) = b[d];
    }
    const auto z = x + y;
    for (int d = 0; d < dim; ++d) REQUIRE_SIG(x(d) == a[d] && z(d) == a[d] + b[d], "sum of sizes", z(d));
    auto w = ta;
    w.as_Vector()(dim - 1) = b[dim - 1];
    REQUIRE_SIG(w(dim - 1) == b[dim - 1] && (w == ta) == (a[dim - 1] == b[dim - 1]), "index as a vector", w(dim - 1));
  }
  s.note("a", str<dim>(ta));
  s.note("b", str<dim>(tb));
  REQUIRE_SIG(ta.flat(size) == fa, "flat index", ta.flat(size), " should be ", fa);
  REQUIRE_SIG(ta.flat(TensorIndexTP<dim>(size)) == fa, "flat index", ta.flat(TensorIndexTP<dim>(size)), " should be ", fa);
  REQUIRE_SIG(TensorIndexTP<dim>(fa, size) == ta, "tensor index from flat", str<dim>(TensorIndexTP<dim>(fa, size)), " from ", fa);
  REQUIRE_SIG((ta == tb) == (fa == fb) && (ta != tb) == (fa != fb), "index equality", fa, " ", fb);
  REQUIRE_SIG((ta < tb) == (fa < fb), "index order", "(a < b) = ", ta < tb, " flat indices ", fa, " ", fb);
  REQUIRE_SIG((tb < ta) == (fb < fa), "index order", "(b < a) = ", tb < ta, " flat indices ", fb, " ", fa);
  if (fa == fb) REQUIRE_SIG(ta.hash() == tb.hash(), "index hash", "equal indices with different hashes");
  REQUIRE_SIG(std::hash<TensorIndexTP<dim>>{}(ta) == ta.hash(), "index hash", "std::hash");
  // Sub-range.
  std::array<int, dim> lo{}, up{};
  std::int64_t n = 1;
  for (int d = 0; d < dim; ++d) {
    lo[d] = std::min(a[d], b[d]);
    up[d] = std::max(a[d], b[d]) + (s.chance(1, 6) ? 0 : 1);
    n *= up[d] - lo[d];
  }
  const TensorIndexRangeTP<dim> range(tid<dim>(lo), tid<dim>(up));
  s.note("range", str<dim>(tid<dim>(lo)) + ":" + str<dim>(tid<dim>(up)));
  REQUIRE_SIG(static_cast<std::int64_t>(range.size()) == n, "range size", range.size(), " should be ", n);
  const auto c = tid<dim>(random_index());
  const auto inside = [&](const TensorIndexTP<dim> &t) {
    for (int d = 0; d < dim; ++d)
      if (t(d) < lo[d] || t(d) >= up[d]) return false;
    return true;
  };
  REQUIRE_SIG(range.is_in_range(c) == inside(c), "is_in_range", str<dim>(c));
  REQUIRE_SIG(range.is_in_range(c.flat(size), size) == inside(c), "is_in_range flat", str<dim>(c));
  REQUIRE_SIG(!range.is_in_range(tot + s.i(0, 3), size), "is_in_range flat", "index beyond the total size");
  REQUIRE_SIG(range.get_lower_bound() == tid<dim>(lo) && range.get_upper_bound() == tid<dim>(up), "range bounds", "");
  if (n <= 4000) {
    std::int64_t k = 0, last = -1;
    for (auto it = range.begin(); it != range.end(); ++it) {
      REQUIRE_SIG(k < n, "range iteration", "more than ", n, " indices visited");
      const auto t = *it;
      REQUIRE_SIG(inside(t), "range iteration", str<dim>(t), " is outside the range");
      REQUIRE_SIG(t.flat(size) > last, "range iteration", str<dim>(t), " out of order");
      REQUIRE_SIG(it->flat(size) == t.flat(size), "range iteration", "operator->");
      REQUIRE_SIG(it.flat() == t.flat(range.get_upper_bound()), "range iteration", "flat() is not relative to the upper bound");
      last = t.flat(size);
      ++k;
    }
    REQUIRE_SIG(k == n, "range iteration", k, " indices visited of ", n);
    auto it = range.begin();
    if (n > 0) {
      const auto t0 = *it;
      const auto old = it++;
      REQUIRE_SIG(*old == t0, "range iteration", "post-increment");
    }
  }
  // Repeated splitting.
  if (n > 1) {
    std::vector<TensorIndexRangeTP<dim>> parts{ range };
    for (int k = 0; k < 4; ++k) {
      std::vector<TensorIndexRangeTP<dim>> next;
      for (const auto &p : parts) {
        if (p.size() < 2) {
          next.push_back(p);
          continue;
        }
        const auto sp = p.split();
        REQUIRE_SIG(sp[0].size() + sp[1].size() == p.size() && sp[0].size() > 0 && sp[1].size() > 0, "range split", sp[0].size(), "+", sp[1].size(), " of ", p.size());
        next.push_back(sp[0]);
        next.push_back(sp[1]);
        // The parts differ along a single direction: one with the largest number of indices.
        const auto &l = sp[0], &r = sp[1];
        const auto sz = p.get_sizes();
        int cut = -1;
        for (int d = 0; d < dim; ++d)
          if (l.get_lower_bound()(d) != r.get_lower_bound()(d) || l.get_upper_bound()(d) != r.get_upper_bound()(d)) {
            REQUIRE_SIG(cut < 0, "range split direction", "the parts differ along ", cut, " and ", d);
            cut = d;
          }
        REQUIRE_SIG(cut >= 0, "range split direction", "equal parts");
        for (int d = 0; d < dim; ++d) REQUIRE_SIG(sz(d) <= sz(cut), "range split direction", "split along ", cut, " with ", sz(cut), " indices, but ", sz(d), " along ", d);
      }
      parts = next;
    }
    for (int k = 0; k < 8; ++k) {
      const auto t = tid<dim>(random_index());
      int hits = 0;
      for (const auto &p : parts) hits += p.is_in_range(t) ? 1 : 0;
      REQUIRE_SIG(hits == (inside(t) ? 1 : 0), "range split", str<dim>(t), " is in ", hits, " of the parts");
    }
  }
  if (n > 1) s.nontrivial();
}
pbt::Reg g01("G01", [](Src &s) { with_dim(s, 1, [&](auto d) { indexing<decltype(d)::value>(s); }); }, 4000000, 120000000);

// ---------------------------------------------------------------- G02
// A grid of equal cells over a box, or over the unit box.
template<int dim> void equal_cells(Src &s)
{
  std::array<std::size_t, dim> n{};
  for (auto &k : n) k = static_cast<std::size_t>(s.i(1, 9));
  const bool unit = s.coin();
  const auto b = unit ? BoundBox<dim>(0.0, 1.0) : box<dim>(s);
  const auto g = unit ? qugar::CartGridTP<dim>(n) : qugar::CartGridTP<dim>(b, n);
  s.note("equal cells", cat(str<dim>(b), " ", unit));
  for (int d = 0; d < dim; ++d) {
    const auto &br = g.get_breaks(d);
    const auto k = n[static_cast<std::size_t>(d)];
    const double size = std::max({ std::abs(b.min(d)), std::abs(b.max(d)) });
    REQUIRE_SIG(br.size() == k + 1 && g.get_num_cells_dir()(d) == static_cast<int>(k), "number of equal cells", d);
    for (std::size_t i = 0; i <= k; ++i)
      REQUIRE_SIG(close(br[i], b.min(d) + (b.max(d) - b.min(d)) * static_cast<double>(i) / static_cast<double>(k), size, 1e-12), "equal cells", "break ", i, " along ", d, ": ", br[i]);
  }
}
template<int dim> void grids(Src &s)
{
  if (s.chance(1, 4)) equal_cells<dim>(s);
  const auto g = grid<dim>(s, dim == 2 ? 7 : 4, box<dim>(s));
  s.note("grid", str<dim>(*g));
  const auto n = g->get_num_cells_dir();
  std::int64_t tot = 1;
  double vol = 0;
  for (int d = 0; d < dim; ++d) {
    REQUIRE_SIG(n(d) == static_cast<int>(g->get_breaks(d).size()) - 1, "grid size", d);
    tot *= n(d);
    REQUIRE_SIG(g->get_domain().min(d) == g->get_breaks(d).front() && g->get_domain().max(d) == g->get_breaks(d).back(), "grid domain", d);
    for (std::size_t i = 0; i + 1 < g->get_breaks(d).size(); ++i)
      REQUIRE_SIG(g->get_breaks(d)[i] < g->get_breaks(d)[i + 1], "grid breaks", d);
  }
  REQUIRE_SIG(static_cast<std::int64_t>(g->get_num_cells()) == tot, "grid size", g->get_num_cells());
  for (std::int64_t c = 0; c < tot; ++c) {
    const auto t = tensor<dim>(c, n);
    const auto b = g->get_cell_domain(c);
    double v = 1;
    for (int d = 0; d < dim; ++d) {
      const auto &br = g->get_breaks(d);
      REQUIRE_SIG(b.min(d) == br[static_cast<std::size_t>(t[d])] && b.max(d) == br[static_cast<std::size_t>(t[d] + 1)], "cell box", "cell ", c, " ", str<dim>(b));
      v *= b.length(d);
      for (int side = 0; side < 2; ++side)
        REQUIRE_SIG(g->on_boundary(c, 2 * d + side) == (t[d] == (side == 0 ? 0 : n(d) - 1)), "on_boundary", "cell ", c, " facet ", 2 * d + side);
    }
    vol += v;
    const auto tt = g->to_tensor(c);
    for (int d = 0; d < dim; ++d) REQUIRE_SIG(tt(d) == t[d], "to_tensor", "cell ", c);
    REQUIRE_SIG(g->to_flat(tt) == c, "to_flat", "cell ", c);
  }
  REQUIRE_SIG(close(vol, g->get_domain().volume(), vol, 1e-12), "cells tile the domain", vol, " ", g->get_domain().volume());
  for (int f = 0; f < 2 * dim; ++f) {
    std::vector<std::int64_t> want;
    for (std::int64_t c = 0; c < tot; ++c)
      if (g->on_boundary(c, f)) want.push_back(c);
    REQUIRE_SIG(g->get_boundary_cells(f) == want, "get_boundary_cells", "facet ", f);
  }
  // Location of a point: strictly inside a cell, on breaks, or on the boundary.
  const qugar::Tolerance tol = s.coin() ? qugar::Tolerance() : qugar::Tolerance(std::pow(10.0, -s.i(5, 13)));
  Point<dim> p;
  std::array<int, dim> lo{}, hi{};
  bool on_break = false;
  for (int d = 0; d < dim; ++d) {
    const auto &br = g->get_breaks(d);
    const int i = s.i(0, n(d));
    if (s.chance(1, 3) || i == n(d)) {
      p(d) = br[static_cast<std::size_t>(i)];
      lo[d] = std::max(i - 1, 0);
      hi[d] = std::min(i, n(d) - 1);
      on_break = on_break || (i > 0 && i < n(d));
      if (s.chance(1, 3)) {
        p(d) += s.sgn() * 0.5 * tol.value();
        // Near a break, within tolerance.
      }
    } else {
      p(d) = br[static_cast<std::size_t>(i)] + (0.01 + 0.98 * s.unit()) * (br[static_cast<std::size_t>(i) + 1] - br[static_cast<std::size_t>(i)]);
      lo[d] = hi[d] = i;
    }
    if (p(d) < br.front()) p(d) = br.front();
    if (p(d) > br.back()) p(d) = br.back();
  }
  s.note("point", str<dim, real>(p));
  const auto c = g->get_cell_id(p, tol);
  REQUIRE_SIG(c >= 0 && c < tot, "get_cell_id", c);
  const auto t = tensor<dim>(c, n);
  for (int d = 0; d < dim; ++d) REQUIRE_SIG(t[d] >= lo[d] && t[d] <= hi[d], "get_cell_id", "cell ", c, " does not contain the point along direction ", d);
  const auto at = g->at_cells_boundary(p, tol);
  REQUIRE_SIG(at.has_value() == on_break, "at_cells_boundary", at.has_value());
  if (at) REQUIRE_SIG(lo[*at] != hi[*at], "at_cells_boundary", "direction ", *at);
  // Sub-grids and their splits.
  std::array<int, dim> a{}, b{};
  std::int64_t ns = 1;
  for (int d = 0; d < dim; ++d) {
    a[d] = s.i(0, n(d) - 1);
    b[d] = s.i(a[d] + 1, n(d));
    ns *= b[d] - a[d];
  }
  const bool whole = s.chance(1, 4);
  if (whole) {
    ns = tot;
    for (int d = 0; d < dim; ++d) {
      a[d] = 0;
      b[d] = n(d);
    }
  }
  const auto sub = whole ? std::make_shared<const qugar::SubCartGridTP<dim>>(g) : std::make_shared<const qugar::SubCartGridTP<dim>>(g, tid<dim>(a), tid<dim>(b));
  REQUIRE_SIG(static_cast<std::int64_t>(sub->get_num_cells()) == ns, "sub-grid size", sub->get_num_cells(), " of ", ns);
  REQUIRE_SIG(sub->is_full() == (ns == tot) && sub->is_unique_cell() == (ns == 1), "sub-grid kind", ns);
  REQUIRE_SIG(sub->get_grid() == g, "sub-grid parent", "");
  std::function<std::set<std::int64_t>(const qugar::SubCartGridTP<dim> &)> cells = [&](const qugar::SubCartGridTP<dim> &x) {
    std::set<std::int64_t> o;
    if (x.is_unique_cell()) {
      const auto id = x.get_single_cell();
      const auto bb = x.get_domain(), cb = g->get_cell_domain(id);
      for (int d = 0; d < dim; ++d) REQUIRE_SIG(bb.min(d) == cb.min(d) && bb.max(d) == cb.max(d), "single cell", id);
      o.insert(id);
      return o;
    }
    const auto parts = x.split();
    int cut = 0, dirs = 0;
    for (int d = 0; d < dim; ++d)
      if (parts[0]->get_num_cells_dir()(d) != x.get_num_cells_dir()(d)) {
        cut = d;
        ++dirs;
      }
    REQUIRE_SIG(dirs == 1, "sub-grid split direction", dirs, " directions split");
    for (int d = 0; d < dim; ++d)
      REQUIRE_SIG(x.get_num_cells_dir()(d) <= x.get_num_cells_dir()(cut), "sub-grid split direction", "split along ", cut, " with ", x.get_num_cells_dir()(cut), " cells, but ", x.get_num_cells_dir()(d), " along ", d);
    for (const auto &q : parts)
      for (const auto id : cells(*q)) REQUIRE_SIG(o.insert(id).second, "sub-grid split", "cell ", id, " twice");
    double v = 0;
    for (const auto &q : parts) v += q->get_domain().volume();
    REQUIRE_SIG(close(v, x.get_domain().volume(), v, 1e-12), "sub-grid split", "boxes do not tile");
    return o;
  };
  const auto got = cells(*sub);
  std::set<std::int64_t> want;
  for (std::int64_t id = 0; id < tot; ++id) {
    const auto q = tensor<dim>(id, n);
    bool in = true;
    for (int d = 0; d < dim; ++d) in = in && q[d] >= a[d] && q[d] < b[d];
    if (in) {
      want.insert(id);
      REQUIRE_SIG(sub->to_flat(tid<dim>(q)) == id, "sub-grid to_flat", id);
    }
  }
  REQUIRE_SIG(got == want, "sub-grid cells", got.size(), " of ", want.size());
  for (int d = 0; d < dim; ++d)
    REQUIRE_SIG(sub->get_domain().min(d) == g->get_breaks(d)[static_cast<std::size_t>(a[d])] && sub->get_domain().max(d) == g->get_breaks(d)[static_cast<std::size_t>(b[d])], "sub-grid domain", d);
  if (tot > 1) s.nontrivial();
}
// Grids with more cells than an int can count.
void huge_grid(Src &s)
{
  std::array<std::size_t, 2> n{ static_cast<std::size_t>(s.i(40000, 70000)), static_cast<std::size_t>(s.i(40000, 70000)) };
  s.note("huge", cat(n[0], "x", n[1]));
  const qugar::CartGridTP<2> g(n);
  const std::int64_t i = s.i(0, static_cast<int>(n[0]) - 1), j = s.i(0, static_cast<int>(n[1]) - 1), id = i + j * static_cast<std::int64_t>(n[0]);
  const auto t = g.to_tensor(id);
  REQUIRE_SIG(t(0) == i && t(1) == j && g.to_flat(t) == id, "huge grid", id, " ", str<2>(t));
  REQUIRE_SIG(g.get_cell_id(g.get_cell_domain(id).mid_point()) == id, "huge grid", id);
  const auto c = g.get_boundary_cells(3);
  REQUIRE_SIG(c.size() == n[0] && c[static_cast<std::size_t>(i)] == i + (static_cast<std::int64_t>(n[1]) - 1) * static_cast<std::int64_t>(n[0]), "huge grid boundary cells", c[static_cast<std::size_t>(i)]);
  s.nontrivial();
}
pbt::Reg g02("G02",
  [](Src &s) {
    if (s.chance(1, 600)) return huge_grid(s);
    with_dim(s, 2, [&](auto d) {
      if constexpr (decltype(d)::value > 1) grids<decltype(d)::value>(s);
    });
  },
  800000, 24000000);

// ---------------------------------------------------------------- G03
template<int dim> void merging(Src &s)
{
  const double tol = std::pow(10.0, -s.i(4, 12));
  const int n = s.i(0, 24);
  s.note("n", n);
  s.note("tol", tol);
  // Clusters: representatives on a lattice far apart; members within tolerance of each other (or not).
  std::vector<Point<dim>> pts;
  std::vector<std::array<int, dim>> key;
  const bool chains = s.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    Point<dim> p;
    std::array<int, dim> k{};
    for (int d = 0; d < dim; ++d) {
      k[d] = s.i(0, 3);
      p(d) = k[d] * 0.25 + tol * (chains ? 0.8 * s.i(0, 4) : (s.chance(1, 2) ? 0.9 * s.unit() : 0.0));
    }
    if (i > 0 && s.chance(1, 5)) {
      const auto j = static_cast<std::size_t>(s.i(0, i - 1));
      p = pts[j];
      k = key[j];
    }
    pts.push_back(p);
    key.push_back(k);
  }
  if (s.chance(1, 3)) {
    // Two points at a controlled distance beyond the tolerance, in one direction only.
    Point<dim> p(7.0), q(7.0);
    const int d = s.i(0, dim - 1);
    q(d) += tol * (1.5 + 3 * s.unit());
    std::array<int, dim> k{}, l{};
    k.fill(28);
    l.fill(28);
    l[d] = 29;
    pts.push_back(p);
    key.push_back(k);
    pts.push_back(q);
    key.push_back(l);
  }
  const auto N = pts.size();
  std::vector<std::size_t> map;
  qugar::find_coincident_points<dim>(pts, qugar::Tolerance(tol), map);
  REQUIRE_SIG(map.size() == N, "coincident map size", map.size());
  auto uni = pts;
  std::vector<std::size_t> o2n;
  qugar::make_points_unique<dim>(uni, qugar::Tolerance(tol), o2n);
  REQUIRE_SIG(o2n.size() == N, "unique map size", o2n.size());
  std::set<std::size_t> used;
  const qugar::Tolerance T(tol);
  bool merged = false;
  for (std::size_t i = 0; i < N; ++i) {
    REQUIRE_SIG(map[i] < N && map[map[i]] == map[i], "coincident map", "point ", i, " maps to ", map[i]);
    REQUIRE_SIG(o2n[i] < uni.size(), "unique map", "point ", i, " maps to ", o2n[i], " of ", uni.size());
    used.insert(o2n[i]);
    for (int d = 0; d < dim; ++d) {
      const double gap = std::fabs(uni[o2n[i]](d) - pts[i](d));
      REQUIRE_SIG(gap <= (chains ? 5 : 1.0000001) * tol, "merged too far", "point ", i, " moved by ", gap);
    }
    for (std::size_t j = 0; j < i; ++j) {
      const bool same = o2n[i] == o2n[j];
      REQUIRE_SIG(same == (map[i] == map[j]), "maps disagree", i, " ", j);
      if (T.coincident<dim, real>(pts[i], pts[j])) REQUIRE_SIG(same, "coincident points kept apart", i, " ", j);
      if (key[i] != key[j]) REQUIRE_SIG(!same, "distant points merged", str<dim, real>(pts[i]), " ", str<dim, real>(pts[j]));
      if (key[i] == key[j] && !chains) REQUIRE_SIG(same, "coincident points kept apart", i, " ", j);
      merged = merged || same;
    }
  }
  REQUIRE_SIG(used.size() == uni.size(), "unused representatives", used.size(), " of ", uni.size());
  if (merged && uni.size() > 1) s.nontrivial();
}
template<int dim> void boxes(Src &s)
{
  const auto b = box<dim>(s), c = box<dim>(s);
  s.note("box", str<dim>(b));
  s.note("other", str<dim>(c));
  double v = 1;
  const auto p = point<dim>(s, -3, 3);
  s.note("p", str<dim, real>(p));
  const auto in01 = b.scale_to_0_1(p), back = b.scale_from_0_1(in01), moved = b.scale_to_new_domain(c, p), home = c.scale_to_new_domain(b, moved);
  const auto mid = b.mid_point(), len = b.get_lengths();
  const double delta = s.real(0, 1);
  const auto big = b.extend(delta);
  auto grown = b;
  grown.extend(p);
  const auto hr = b.to_hyperrectangle();
  const BoundBox<dim> rt(hr);
  std::array<real, static_cast<std::size_t>(dim)> am{}, aM{};
  for (int d = 0; d < dim; ++d) {
    am[static_cast<std::size_t>(d)] = b.min(d);
    aM[static_cast<std::size_t>(d)] = b.max(d);
  }
  const BoundBox<dim> ar(am, aM);
  for (int d = 0; d < dim; ++d) REQUIRE_SIG(ar.min(d) == b.min(d) && ar.max(d) == b.max(d), "box from arrays", d);
  for (int d = 0; d < dim; ++d) {
    const double L = b.max(d) - b.min(d);
    v *= L;
    REQUIRE_SIG(b.length(d) == L && len(d) == L, "box length", d);
    REQUIRE_SIG(std::fabs(mid(d) - (b.min(d) + L / 2)) < 1e-14, "box midpoint", d);
    REQUIRE_SIG(std::fabs(in01(d) - (p(d) - b.min(d)) / L) < 1e-13, "scale to 0-1", d, " ", in01(d));
    REQUIRE_SIG(std::fabs(back(d) - p(d)) < 1e-13, "scale round trip", d, " ", back(d));
    REQUIRE_SIG(std::fabs(moved(d) - (c.min(d) + in01(d) * (c.max(d) - c.min(d)))) < 1e-12, "scale to new domain", d, " ", moved(d));
    REQUIRE_SIG(std::fabs(home(d) - p(d)) < 1e-12, "scale round trip", d, " ", home(d));
    REQUIRE_SIG(big.min(d) == b.min(d) - delta && big.max(d) == b.max(d) + delta, "extend by delta", d);
    REQUIRE_SIG(grown.min(d) == std::min(b.min(d), p(d)) && grown.max(d) == std::max(b.max(d), p(d)), "extend by point", d);
    REQUIRE_SIG(b.min_corner()(d) == b.min(d) && b.max_corner()(d) == b.max(d), "corners", d);
    REQUIRE_SIG(rt.min(d) == b.min(d) && rt.max(d) == b.max(d), "hyperrectangle round trip", d);
  }
  REQUIRE_SIG(close(b.volume(), v, v, 1e-14), "box volume", b.volume(), " ", v);
  if constexpr (dim == 1) REQUIRE_SIG(b.length() == b.length(0) && b.min() == b.min(0) && b.max() == b.max(0), "interval", "");
  if constexpr (dim > 1) {
    const int k = s.i(0, dim - 1);
    const auto sl = b.slice(k);
    for (int d = 0, e = 0; d < dim; ++d)
      if (d != k) {
        REQUIRE_SIG(sl.min(e) == b.min(d) && sl.max(e) == b.max(d), "box slice", "direction ", k);
        ++e;
      }
  }
  s.nontrivial();
}
void tolerances(Src &s)
{
  const double t0 = s.chance(1, 8) ? 0.0 : std::pow(10.0, -s.real(0, 14)), t1 = std::pow(10.0, -s.real(0, 14));
  const qugar::Tolerance T(t0), R(t1);
  const double a = s.sgn() * s.real(0, 3) * (s.coin() ? 1 : t0), f = s.real(-3, 3), b = s.chance(1, 6) ? a : a + f * t0;
  s.note("tol", t0);
  s.note("a", a);
  s.note("b", b);
  const double diff = a - b, mx = std::max(std::fabs(a), std::fabs(b));
  REQUIRE_SIG(T.value() == t0, "tolerance value", T.value());
  REQUIRE_SIG(T.is_zero(a) == (std::fabs(a) <= t0) && T.is_negative(a) == (a < -t0) && T.is_positive(a) == (a > t0), "tolerance sign", a);
  REQUIRE_SIG(T.is_zero(a) + T.is_negative(a) + T.is_positive(a) == 1, "tolerance sign", "not exactly one");
  REQUIRE_SIG(T.equal(a, b) == (std::fabs(diff) <= t0) && T.equal(b, a) == T.equal(a, b), "tolerance equal", diff);
  REQUIRE_SIG(T.greater_than(a, b) == (diff > t0) && T.smaller_than(a, b) == (-diff > t0), "tolerance order", diff);
  REQUIRE_SIG(T.greater_equal_than(a, b) == !T.smaller_than(a, b) && T.smaller_equal_than(a, b) == !T.greater_than(a, b), "tolerance order", diff);
  REQUIRE_SIG(T.equal(a, b) + T.greater_than(a, b) + T.smaller_than(a, b) == 1, "tolerance trichotomy", diff);
  REQUIRE_SIG(T.equal_rel(a, b) == (std::fabs(diff) <= mx * t0), "relative equal", diff);
  REQUIRE_SIG(T.equal_rel(a, b, R) == (std::fabs(diff) <= t0 + t1 * mx), "relative equal", diff);
  REQUIRE_SIG(T.greater_than_rel(a, b) == (diff > mx * t0) && T.smaller_than_rel(a, b) == (-diff > mx * t0), "relative order", diff);
  qugar::Tolerance U(t0);
  U.update(t1);
  REQUIRE_SIG(U.value() == std::max(t0, t1) && qugar::Tolerance(T, R).value() == U.value() && qugar::Tolerance(t0, t1).value() == U.value(), "tolerance update", U.value());
  // Unique values: sorted, no two within tolerance, every value represented through a chain.
  const double tt = std::max(t0, 1e-12);
  std::vector<double> v;
  for (int i = s.i(0, 12); i > 0; --i) v.push_back(s.i(0, 3) + (s.coin() ? 0.9 * tt * s.unit() * 0.2 : 0.0));
  auto u = v;
  const qugar::Tolerance W(std::min(tt, 0.1));
  W.unique(u);
  const auto wt = W.value();
  for (std::size_t i = 1; i < u.size(); ++i) REQUIRE_SIG(u[i] - u[i - 1] > wt, "unique values", u[i - 1], " ", u[i]);
  for (const double x : v) {
    double best = 1e9;
    for (const double y : u) best = std::min(best, std::fabs(x - y));
    REQUIRE_SIG(best <= wt, "unique values", x, " is not represented");
  }
  for (const double y : u) REQUIRE_SIG(std::find(v.begin(), v.end(), y) != v.end(), "unique values", y, " is new");
  s.nontrivial();
}
pbt::Reg g03("G03",
  [](Src &s) {
    const int k = s.i(0, 3);
    if (k == 0) return tolerances(s);
    if (k == 1) return with_dim(s, 1, [&](auto d) { boxes<decltype(d)::value>(s); });
    with_dim(s, 2, [&](auto d) {
      if constexpr (decltype(d)::value > 1) merging<decltype(d)::value>(s);
    });
  },
  5000000, 150000000);

// ---------------------------------------------------------------- G04
// Histories of branchings and status settings, against a status per cell and the set of leaves.
template<int dim> void partition(Src &s)
{
  using Part = qugar::UnfittedBinarySpacePart<dim>;
  using Status = qugar::ImmersedCellStatus;
  using Box = std::array<std::array<int, dim>, 2>;
  const auto g = grid<dim>(s, dim == 2 ? 6 : 4, box<dim>(s));
  const auto n = g->get_num_cells_dir();
  s.note("grid", str<dim>(*g));
  const auto tot = static_cast<std::int64_t>(g->get_num_cells());
  Box all{};
  const bool whole = s.chance(2, 3);
  for (int d = 0; d < dim; ++d) {
    all[0][d] = whole ? 0 : s.i(0, n(d) - 1);
    all[1][d] = whole ? n(d) : s.i(all[0][d] + 1, n(d));
  }
  const auto inside = [&](const Box &b, std::int64_t c) {
    const auto t = tensor<dim>(c, n);
    for (int d = 0; d < dim; ++d)
      if (t[d] < b[0][d] || t[d] >= b[1][d]) return false;
    return true;
  };
  const std::shared_ptr<Part> root = whole ? std::make_shared<Part>(g) : std::make_shared<Part>(std::make_shared<const qugar::SubCartGridTP<dim>>(g, tid<dim>(all[0]), tid<dim>(all[1])));
  struct Leaf
  {
    std::shared_ptr<Part> part;
    Box box;
    Status status;
  };
  std::vector<Leaf> leaves{ { root, all, Status::unknown } };
  const std::array<Status, 4> kinds{ Status::unknown, Status::cut, Status::full, Status::empty };
  std::vector<std::int64_t> ids;
  for (std::int64_t c = 0; c < tot; ++c)
    if (inside(all, c)) ids.push_back(c);
  const auto look = [&] {
    std::map<std::int64_t, std::size_t> owner;
    for (std::size_t l = 0; l < leaves.size(); ++l) {
      const auto &lf = leaves[l];
      REQUIRE_SIG(lf.part->is_leaf() && lf.part->get_status() == lf.status, "leaf status", "leaf ", l);
      REQUIRE_SIG(lf.part->get_grid() == g, "partition grid", l);
      const auto &r = lf.part->get_subgrid()->get_range();
      for (int d = 0; d < dim; ++d) REQUIRE_SIG(r.get_lower_bound()(d) == lf.box[0][d] && r.get_upper_bound()(d) == lf.box[1][d], "leaf range", "leaf ", l);
      for (const auto c : ids)
        if (inside(lf.box, c)) REQUIRE_SIG(owner.emplace(c, l).second, "leaves overlap", "cell ", c);
    }
    REQUIRE_SIG(owner.size() == ids.size(), "leaves do not cover the cells", owner.size(), " of ", ids.size());
    for (std::int64_t c = 0; c < tot; ++c) REQUIRE_SIG(root->is_in_tree(c) == inside(all, c), "is_in_tree", "cell ", c);
    for (const auto c : ids) {
      const auto &lf = leaves[owner[c]];
      REQUIRE_SIG(root->find_leaf(c) == lf.part, "find_leaf", "cell ", c);
      for (const auto k : kinds) REQUIRE_SIG(root->is_cell(k, c) == (lf.status == k), "is_cell", "cell ", c);
    }
    // Any cells, in any order.
    std::vector<std::int64_t> asked;
    const bool repeat = s.chance(1, 3);
    for (int k = s.i(0, repeat && s.coin() ? static_cast<int>(ids.size()) + 4 : 8); k > 0; --k) {
      const auto c = ids[s.raw(ids.size() - 1)];
      if (repeat || std::find(asked.begin(), asked.end(), c) == asked.end()) asked.push_back(c);
    }
    std::size_t n_cells = 0, n_leaves = 0;
    for (const auto k : kinds) {
      std::vector<std::int64_t> want, wanted, got{ 1, 2, 3 }, got2{ 4 };
      for (const auto c : ids)
        if (leaves[owner[c]].status == k) want.push_back(c);
      for (const auto c : asked)
        if (leaves[owner[c]].status == k) wanted.push_back(c);
      std::sort(wanted.begin(), wanted.end());
      root->get_cell_ids(k, got);
      root->get_cell_ids(k, asked, got2);
      if (repeat) {
        // Whether repeated cells are repeated in the answer does not matter.
        for (auto *v : { &wanted, &got2 }) v->erase(std::unique(v->begin(), v->end()), v->end());
      }
      REQUIRE_SIG(got == want, "cells of a status", got.size(), " of ", want.size());
      REQUIRE_SIG(got2 == wanted, "target cells of a status", got2.size(), " of ", wanted.size());
      REQUIRE_SIG(root->get_num_cells(k) == want.size(), "number of cells", root->get_num_cells(k), " instead of ", want.size());
      std::vector<std::shared_ptr<const Part>> ls(2);
      root->get_leaves(k, ls);
      std::set<const Part *> a, b;
      for (const auto &l : ls) a.insert(l.get());
      for (const auto &l : leaves)
        if (l.status == k) b.insert(l.part.get());
      REQUIRE_SIG(a == b && ls.size() == b.size() && root->get_num_leaves(k) == b.size(), "leaves of a status", ls.size(), " and ", root->get_num_leaves(k), " instead of ", b.size());
      n_cells += want.size();
      n_leaves += b.size();
    }
    REQUIRE_SIG(n_cells == ids.size() && n_leaves == leaves.size(), "every cell has one status", n_cells);
  };
  look();
  std::string hist;
  bool branched = false, set = false;
  for (int step = s.i(1, 24); step > 0; --step) {
    std::vector<std::size_t> open;
    for (std::size_t l = 0; l < leaves.size(); ++l)
      if (leaves[l].status == Status::unknown) open.push_back(l);
    if (open.empty()) break;
    const auto l = open[s.raw(open.size() - 1)];
    const auto part = leaves[l].part;
    const bool unique = part->get_subgrid()->is_unique_cell();
    if (!unique && s.chance(2, 3)) {
      hist += cat(" b", l);
      part->branch();
      REQUIRE_SIG(!part->is_leaf() && part->get_child(0) && part->get_child(1), "branch", "no children");
      const auto box0 = leaves[l].box;
      leaves.erase(leaves.begin() + static_cast<std::ptrdiff_t>(l));
      std::int64_t cells = 0;
      for (int k = 0; k < 2; ++k) {
        const auto child = part->get_child(k);
        const auto &r = child->get_subgrid()->get_range();
        Box b{};
        std::int64_t m = 1;
        for (int d = 0; d < dim; ++d) {
          b[0][d] = r.get_lower_bound()(d);
          b[1][d] = r.get_upper_bound()(d);
          REQUIRE_SIG(b[0][d] >= box0[0][d] && b[1][d] <= box0[1][d] && b[0][d] < b[1][d], "branch", "child ", k, " leaves the parent");
          m *= b[1][d] - b[0][d];
        }
        cells += m;
        leaves.push_back({ child, b, Status::unknown });
      }
      std::int64_t m = 1;
      for (int d = 0; d < dim; ++d) m *= box0[1][d] - box0[0][d];
      REQUIRE_SIG(cells == m, "branch", cells, " cells of ", m);
      branched = true;
    } else {
      const auto k = kinds[static_cast<std::size_t>(unique ? s.i(1, 3) : s.i(2, 3))];
      hist += cat(" s", l, "=", static_cast<int>(k));
      part->set_status(k);
      leaves[l].status = k;
      set = true;
    }
    if (s.chance(1, 3)) look();
  }
  s.note("history", hist);
  look();
  if (branched && set) s.nontrivial();
}
pbt::Reg g04("G04",
  [](Src &s) {
    with_dim(s, 2, [&](auto d) {
      if constexpr (decltype(d)::value > 1) partition<decltype(d)::value>(s);
    });
  },
  200000, 6000000);

// ---------------------------------------------------------------- L01
template<int dim> void lagrange(Src &s)
{
  const bool cheb = s.coin();
  s.note("chebyshev", cheb);
  const int top = dim == 1 ? 10 : (dim == 2 ? 6 : 4);
  const auto o = order<dim>(s, 2, top);
  for (int d = 0; d < dim; ++d) s.note("order", o(d));
  const auto node = [&](int i, int n) { return cheb ? static_cast<double>(::algoim::bernstein::modifiedChebyshevNode(i, n)) : i / (n - 1.0); };
  // Nodal property.
  const auto tot = size<dim>(o);
  const auto f = static_cast<std::int64_t>(s.raw(static_cast<std::uint64_t>(tot - 1)));
  const auto t = tensor<dim>(f, o);
  Point<dim> x;
  for (int d = 0; d < dim; ++d) x(d) = node(t[d], o(d));
  std::vector<real> v(s.coin() ? 3 : 0, 7.0);
  qugar::impl::evaluate_Lagrange_basis<dim>(x, o, cheb, v);
  REQUIRE_SIG(static_cast<std::int64_t>(v.size()) == tot, "basis size", v.size());
  for (std::int64_t g = 0; g < tot; ++g)
    REQUIRE_SIG(std::fabs(v[static_cast<std::size_t>(g)] - (g == f ? 1 : 0)) < 1e-11, "nodal basis", "function ", g, " at node ", f, " is ", v[static_cast<std::size_t>(g)]);
  // Reproduction of a polynomial and its derivatives.
  const auto p = point<dim>(s, -0.2, 1.2);
  s.note("p", str<dim, real>(p));
  const auto c = coefs<dim, 1>(s, o);
  qugar::impl::evaluate_Lagrange_basis<dim>(p, o, cheb, v);
  Vector<std::vector<real>, dim> dv;
  qugar::impl::evaluate_Lagrange_derivative<dim>(p, o, cheb, dv);
  const std::array<int, dim> none{};
  double sum = 0, val = 0;
  std::array<double, dim> dsum{}, dval{};
  double mag = 1;
  for (std::int64_t g = 0; g < tot; ++g) {
    const auto q = tensor<dim>(g, o);
    Point<dim> y;
    for (int d = 0; d < dim; ++d) y(d) = node(q[d], o(d));
    const double at = eval<dim, 1>(false, o, c, 0, y, none).value;
    sum += v[static_cast<std::size_t>(g)];
    val += at * v[static_cast<std::size_t>(g)];
    mag += std::fabs(at * v[static_cast<std::size_t>(g)]);
    for (int d = 0; d < dim; ++d) {
      REQUIRE_SIG(static_cast<std::int64_t>(dv(d).size()) == tot, "basis derivative size", dv(d).size());
      dsum[d] += dv(d)[static_cast<std::size_t>(g)];
      dval[d] += at * dv(d)[static_cast<std::size_t>(g)];
      mag += std::fabs(at * dv(d)[static_cast<std::size_t>(g)]);
    }
  }
  REQUIRE_SIG(close(sum, 1, mag, 1e-12), "partition of unity", sum);
  const auto r = eval<dim, 1>(false, o, c, 0, p, none);
  REQUIRE_SIG(close(val, r.value, mag, 1e-11), "polynomial reproduction", val, " instead of ", r.value);
  for (int d = 0; d < dim; ++d) {
    auto der = none;
    der[d] = 1;
    const auto e = eval<dim, 1>(false, o, c, 0, p, der);
    REQUIRE_SIG(close(dval[d], e.value, mag, 1e-10), "derivative reproduction", "direction ", d, ": ", dval[d], " instead of ", e.value);
    REQUIRE_SIG(close(dsum[d], 0, mag, 1e-10), "derivative sum", "direction ", d, ": ", dsum[d]);
  }
  // One-dimensional functions.
  std::vector<real> w, dw;
  qugar::impl::evaluate_Lagrange_basis_1D(p(0), o(0), cheb, w);
  qugar::impl::evaluate_Lagrange_basis_der_1D(p(0), o(0), cheb, dw);
  REQUIRE_SIG(static_cast<int>(w.size()) == o(0) && static_cast<int>(dw.size()) == o(0), "1D basis size", w.size(), " ", dw.size());
  for (int i = 0; i < o(0); ++i) {
    const auto L = [&](long double z) {
      long double q = 1;
      for (int j = 0; j < o(0); ++j)
        if (j != i) q *= (z - node(j, o(0))) / (static_cast<long double>(node(i, o(0))) - node(j, o(0)));
      return q;
    };
    const long double h = 1e-5L;
    REQUIRE_SIG(close(w[static_cast<std::size_t>(i)], static_cast<double>(L(p(0))), w[static_cast<std::size_t>(i)], 1e-11), "1D basis", i);
    const double fd = static_cast<double>((L(p(0) + h) - L(p(0) - h)) / (2 * h));
    REQUIRE_SIG(close(dw[static_cast<std::size_t>(i)], fd, 1e3 + std::fabs(fd), 1e-8), "1D basis derivative", i, ": ", dw[static_cast<std::size_t>(i)], " ", fd);
  }
  if (tot > 2) s.nontrivial();
}
pbt::Reg l01("L01", [](Src &s) { with_dim(s, 1, [&](auto d) { lagrange<decltype(d)::value>(s); }); }, 600000, 20000000);
}// namespace
