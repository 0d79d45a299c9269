// Q01 volume, Q02 unfitted boundary and Q03 facet quadratures, Q04 classification, Q05 complements and backends.
#include "domains.hpp"
namespace {
template<int dim> void q01_aligned(Src &s)
{
  const auto c = aligned<dim>(s);
  const int n = s.i(1, 4);
  Ids all;
  for (std::int64_t i = 0; i < c.n_cells; ++i) all.push_back(i);
  const auto q = qugar::create_quadrature<dim>(*c.d, all, n);
  std::size_t a = 0;
  for (std::int64_t i = 0; i < c.n_cells; ++i) {
    const std::size_t b = a + static_cast<std::size_t>(q->n_pts_per_cell[static_cast<std::size_t>(i)]);
    const auto m = from_rule<dim>(q->points, q->weights, a, b);
    REQUIRE_SIG(std::fabs(m.vol - c.inside(i)) < 1e-9, "aligned", "cell ", i, " has measure ", m.vol, " instead of ", c.inside(i));
    a = b;
  }
}
template<int dim> void q02_aligned(Src &s)
{
  const auto c = aligned<dim>(s);
  const int n = s.i(1, 4);
  const bool inc = s.coin(), exc = s.coin();
  s.note("flags", inc + 2 * exc);
  Ids all;
  for (std::int64_t i = 0; i < c.n_cells; ++i) all.push_back(i);
  const auto q = qugar::create_unfitted_bound_quadrature<dim>(*c.d, all, n, inc, exc);
  std::size_t a = 0;
  for (std::int64_t i = 0; i < c.n_cells; ++i) {
    const std::size_t b = a + static_cast<std::size_t>(q->n_pts_per_cell[static_cast<std::size_t>(i)]);
    double area = 0;
    for (std::size_t p = a; p < b; ++p) {
      area += q->weights[p];
      for (int j = 0; j < dim; ++j) REQUIRE_SIG(std::fabs(q->normals[p](j) - (j == c.dir ? c.below ? 1 : -1 : 0)) < 1e-12, "aligned normal", "cell ", i, ": normal ", str<dim, real>(q->normals[p]));
      const int t = c.g->to_tensor(i)(c.dir);
      const double x = c.k < 0 ? c.cut : t == c.k ? 0.0 : 1.0;
      REQUIRE_SIG(std::fabs(q->points[p](c.dir) - x) < 1e-9, "aligned point", "cell ", i, ": point ", str<dim, real>(q->points[p]));
    }
    const double v = c.inside(i);
    double want = v > 0 && v < 1 ? 1 : 0;
    for (int f = 0; f < 2 * dim; ++f)
      if (c.on(i, f) && inc && !(exc && c.g->on_boundary(i, f))) want = 1;
    REQUIRE_SIG(std::fabs(area - want) < 1e-9, "aligned", "cell ", i, " has boundary measure ", area, " instead of ", want);
    a = b;
  }
}
template<int dim> void q03_aligned(Src &s)
{
  const auto c = aligned<dim>(s);
  const int n = s.i(1, 4);
  Ids cells;
  std::vector<int> facets;
  for (std::int64_t i = 0; i < c.n_cells; ++i)
    for (int f = 0; f < 2 * dim; ++f) {
      cells.push_back(i);
      facets.push_back(f);
    }
  const auto qi = qugar::create_facets_quadrature_interior_integral<dim>(*c.d, cells, facets, n);
  const auto qe = qugar::create_facets_quadrature_exterior_integral<dim>(*c.d, cells, facets, n);
  std::size_t ai = 0, ae = 0;
  for (std::size_t k = 0; k < cells.size(); ++k) {
    const std::size_t bi = ai + static_cast<std::size_t>(qi->n_pts_per_facet[k]), be = ae + static_cast<std::size_t>(qe->n_pts_per_facet[k]);
    const auto i = cells[k];
    const int f = facets[k];
    const bool bdry = c.g->on_boundary(i, f);
    double wi = bdry ? 0 : c.facet(i, f), we = bdry ? c.facet(i, f) : 0;
    if (c.on(i, f)) {
      wi = 0;
      we = 1;
    }
    const double vi = from_rule<dim - 1>(qi->points, qi->weights, ai, bi).vol, ve = from_rule<dim - 1>(qe->points, qe->weights, ae, be).vol;
    REQUIRE_SIG(std::fabs(vi - wi) < 1e-9, "aligned interior", "facet ", f, " of cell ", i, " has measure ", vi, " instead of ", wi, " for interior integrals");
    REQUIRE_SIG(std::fabs(ve - we) < 1e-9, "aligned exterior", "facet ", f, " of cell ", i, " has measure ", ve, " instead of ", we, " for exterior integrals");
    ai = bi;
    ae = be;
  }
}
template<int dim> void q01_slab(Src &s)
{
  const auto c = slab<dim>(s);
  const int n = s.i(1, 4);
  for (std::int64_t i = 0; i < c.n_cells; ++i) {
    const auto q = qugar::create_quadrature<dim>(*c.d, { i }, n);
    const auto m = from_rule<dim>(q->points, q->weights, 0, q->points.size());
    REQUIRE_SIG(std::fabs(m.vol - c.inside(i)) < 1e-8, "slab", "cell ", i, " has measure ", m.vol, " instead of ", c.inside(i));
  }
}
template<int dim> void q02_slab(Src &s)
{
  const auto c = slab<dim>(s);
  const int n = s.i(1, 4);
  const bool inc = s.coin(), exc = s.coin();
  s.note("flags", inc + 2 * exc);
  for (std::int64_t i = 0; i < c.n_cells; ++i) {
    const auto q = qugar::create_unfitted_bound_quadrature<dim>(*c.d, { i }, n, inc, exc);
    // Measures of both planes, told apart by their normals.
    std::array<double, 2> got{}, want{};
    for (std::size_t p = 0; p < q->points.size(); ++p) {
      const double m = q->normals[p](c.dir) * (c.outside ? -1 : 1);
      for (int j = 0; j < dim; ++j) REQUIRE_SIG(std::fabs(std::fabs(q->normals[p](j)) - (j == c.dir ? 1 : 0)) < 1e-9, "slab normal", "cell ", i, ": normal ", str<dim, real>(q->normals[p]));
      const double x = c.at(i, 0) + q->points[p](c.dir) * (c.at(i, 1) - c.at(i, 0));
      REQUIRE_SIG(std::fabs(x - (m < 0 ? c.a : c.b)) < 1e-8, "slab point", "cell ", i, ": point ", str<dim, real>(q->points[p]), " with normal ", str<dim, real>(q->normals[p]));
      got[m > 0] += q->weights[p];
    }
    for (int e = 0; e < 2; ++e) {
      const double x = e ? c.b : c.a;
      if (x > c.at(i, 0) && x < c.at(i, 1)) want[e] = 1;
      for (int f = 2 * c.dir; f < 2 * c.dir + 2; ++f)
        if (c.on(i, f) && c.at(i, f % 2) == x && inc && !(exc && c.g->on_boundary(i, f))) want[e] = 1;
      REQUIRE_SIG(std::fabs(got[e] - want[e]) < 1e-8, "slab", "cell ", i, " has measure ", got[e], " instead of ", want[e], " of the plane at ", x);
    }
  }
}
template<int dim> void q03_slab(Src &s)
{
  const auto c = slab<dim>(s);
  const int n = s.i(1, 4);
  for (std::int64_t i = 0; i < c.n_cells; ++i)
    for (int f = 0; f < 2 * dim; ++f) {
      const auto qi = qugar::create_facets_quadrature_interior_integral<dim>(*c.d, { i }, { f }, n);
      const auto qe = qugar::create_facets_quadrature_exterior_integral<dim>(*c.d, { i }, { f }, n);
      const bool bdry = c.g->on_boundary(i, f);
      const double wi = bdry || c.on(i, f) ? 0 : c.facet(i, f), we = c.on(i, f) ? 1 : bdry ? c.facet(i, f) : 0;
      const double vi = from_rule<dim - 1>(qi->points, qi->weights, 0, qi->points.size()).vol, ve = from_rule<dim - 1>(qe->points, qe->weights, 0, qe->points.size()).vol;
      REQUIRE_SIG(std::fabs(vi - wi) < 1e-8, "slab interior", "facet ", f, " of cell ", i, " has measure ", vi, " instead of ", wi, " for interior integrals");
      REQUIRE_SIG(std::fabs(ve - we) < 1e-8, "slab exterior", "facet ", f, " of cell ", i, " has measure ", ve, " instead of ", we, " for exterior integrals");
    }
}
// ---------------------------------------------------------------- Q01
template<int dim> void q01(Src &s)
{
  if (dim == 2 && s.chance(1, 6)) return q01_slab<2>(s);
  if (s.chance(1, dim == 2 ? 4 : 40)) return q01_aligned<dim>(s);
  const auto c = amplified<dim>(s, domain<dim>(s, 16));
  const int n = s.i(1, 6);
  const auto cells = cell_list(s, c.n_cells);
  s.note("n", n);
  const auto q = qugar::create_quadrature<dim>(*c.d, cells, n);
  REQUIRE_SIG(q->cells == cells && q->n_pts_per_cell.size() == cells.size(), "layout", "cells of the quadrature");
  std::size_t a = 0;
  int cut = 0;
  std::set<std::int64_t> done;
  for (std::size_t k = 0; k < cells.size(); ++k) {
    const std::size_t b = a + static_cast<std::size_t>(q->n_pts_per_cell[k]);
    REQUIRE_SIG(b <= q->points.size() && q->points.size() == q->weights.size(), "layout", "points per cell");
    const auto id = cells[k];
    const auto box = c.g->get_cell_domain(id);
    if (c.d->is_full_cell(id))
      check_standard<dim>(q->points, q->weights, a, b, n, "full cell");
    else if (c.d->is_empty_cell(id))
      REQUIRE_SIG(a == b, "empty", "empty cell ", id, " has ", b - a, " points");
    else {
      for (std::size_t i = a; i < b; ++i) {
        const auto &u = q->points[i];
        for (int j = 0; j < dim; ++j) REQUIRE_SIG(u(j) >= -1e-12 && u(j) <= 1 + 1e-12, "inside", "point ", str<dim, real>(u), " outside of the reference cell");
        const auto x = at01<dim>(box, u);
        const double v = (*c.f.f)(x);
        REQUIRE_SIG(v <= 1e-9 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), "negative", "cell ", id, ": point ", str<dim, real>(u), " outside of the domain, value ", v);
        REQUIRE_SIG(q->weights[i] > 0, "positive", "cell ", id, ": weight ", q->weights[i]);
      }
      if (cut < (dim == 2 ? 6 : 2) && done.insert(id).second) {
        ++cut;
        const auto ref = slices_cell<dim>(*c.f.f, box);
        const auto r8 = qugar::create_quadrature<dim>(*c.d, { id }, 8);
        const auto r11 = qugar::create_quadrature<dim>(*c.d, { id }, 11);
        const auto m = from_rule<dim>(q->points, q->weights, a, b);
        const auto m8 = from_rule<dim>(r8->points, r8->weights, 0, r8->points.size());
        const auto m11 = from_rule<dim>(r11->points, r11->weights, 0, r11->points.size());
        const double err = m11.max_abs_diff(ref), conv = m8.max_abs_diff(m11);
        REQUIRE_SIG(err <= (dim == 2 ? 3e-3 : 1.3e-2) + 5 * conv, "measure", "cell ", id, ": ", show<dim>(m11), " instead of ", show<dim>(ref), ", convergence ", conv);
        // Rules with fewer points approximate the same integrals.
        const double tol = n >= 4 ? 0.03 : n >= 2 ? 0.1 : 0.35;
        REQUIRE_SIG(m.max_abs_diff(m11) <= tol, "accuracy", "cell ", id, " with ", n, " points: ", show<dim>(m), " instead of ", show<dim>(m11));
        s.count(conv < 1e-6 ? "converged" : conv < 1e-3 ? "almost converged" : "not converged");
      }
    }
    a = b;
  }
  REQUIRE_SIG(a == q->points.size(), "layout", "points left over");
  if (cut) s.nontrivial();
}
// ---------------------------------------------------------------- Q02
template<int dim> std::array<double, dim> field(int k, const Point<dim> &x, double &div)
{
  std::array<double, dim> F{};
  div = 0;
  if (k < dim)
    F[k] = 1;
  else if (k == dim) {
    for (int i = 0; i < dim; ++i) F[i] = x(i);
    div = dim;
  } else {
    F[0] = x(0) * x(1);
    F[1] = x(dim - 1) * x(0) - x(1) * x(1);
    div = x(1) - 2 * x(1) + (dim == 2 ? x(0) : 0);
  }
  return F;
}
// Whether the quadratures of a cell change noticeably when it is split: thin features compared with the bounds
// the general backend gets on intervals exhaust its subdivisions, and are then integrated with a low order.
template<int dim> bool unresolved(const Func<dim> &f, const qugar::BoundBox<dim> &box, double vol, double area, double tol)
{
  std::array<std::vector<real>, dim> breaks;
  for (int i = 0; i < dim; ++i) breaks[i] = { box.min(i), 0.5 * (box.min(i) + box.max(i)), box.max(i) };
  const auto g = std::make_shared<const qugar::CartGridTP<dim>>(breaks);
  const auto d = std::make_shared<const Dom<dim>>(f, g);
  Ids all;
  for (std::int64_t i = 0; i < (1 << dim); ++i) all.push_back(i);
  double v = 0, a = 0;
  for (const double w : qugar::create_quadrature<dim>(*d, all, 8)->weights) v += w / (1 << dim);
  for (const double w : qugar::create_unfitted_bound_quadrature<dim>(*d, all, 8, true, false)->weights) a += w / (1 << (dim - 1));
  return std::fabs(v - vol) > tol || std::fabs(a - area) > tol;
}
template<int dim> void q02(Src &s)
{
  if (dim == 2 && s.chance(1, 6)) return q02_slab<2>(s);
  if (s.chance(1, dim == 2 ? 4 : 40)) return q02_aligned<dim>(s);
  const auto c = amplified<dim>(s, domain<dim>(s, 16));
  const int n = s.i(1, 5);
  const auto cells = cell_list(s, c.n_cells);
  const bool inc = s.coin(), exc = s.coin();
  s.note("n", n);
  const auto q = qugar::create_unfitted_bound_quadrature<dim>(*c.d, cells, n, inc, exc);
  REQUIRE_SIG(q->cells == cells && q->n_pts_per_cell.size() == cells.size() && q->points.size() == q->weights.size() && q->points.size() == q->normals.size(), "layout", "cells of the quadrature");
  std::size_t a = 0;
  int cut = 0;
  std::set<std::int64_t> done;
  for (std::size_t k = 0; k < cells.size(); ++k) {
    const std::size_t b = a + static_cast<std::size_t>(q->n_pts_per_cell[k]);
    REQUIRE_SIG(b <= q->points.size(), "layout", "points per cell");
    const auto id = cells[k];
    const auto box = c.g->get_cell_domain(id);
    if (!c.d->is_cell_with_unf_bdry(id)) REQUIRE_SIG(a == b, "no boundary", "cell ", id, " has ", b - a, " boundary points");
    for (std::size_t i = a; i < b; ++i) {
      const auto &u = q->points[i];
      for (int j = 0; j < dim; ++j) REQUIRE_SIG(u(j) >= -1e-12 && u(j) <= 1 + 1e-12, "inside", "point ", str<dim, real>(u), " outside of the reference cell");
      const auto x = at01<dim>(box, u);
      const double v = (*c.f.f)(x);
      REQUIRE_SIG(std::fabs(v) <= 1e-8 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), "level set", "cell ", id, ": point ", str<dim, real>(u), " off the level set, value ", v);
      REQUIRE_SIG(q->weights[i] > 0, "positive", "cell ", id, ": weight ", q->weights[i]);
      const auto g = c.f.f->grad(x);
      double nn = 0, gg = 0;
      for (int j = 0; j < dim; ++j) {
        nn += q->normals[i](j) * q->normals[i](j);
        gg += std::pow(g(j) * length<dim>(box, j), 2);
      }
      REQUIRE_SIG(std::fabs(nn - 1) < 1e-10, "normal", "cell ", id, ": normal of length ", std::sqrt(nn));
      if (gg > 1e-6 * c.f.size * c.f.size)
        for (int j = 0; j < dim; ++j)
          REQUIRE_SIG(std::fabs(q->normals[i](j) - g(j) * length<dim>(box, j) / std::sqrt(gg)) < 1e-6, "normal", "cell ", id, ": normal ", str<dim, real>(q->normals[i]), " is not along the gradient at ", str<dim, real>(u));
    }
    a = b;
    if (!c.d->is_cut_cell(id) || cut >= (dim == 2 ? 6 : 2) || !done.insert(id).second) continue;
    ++cut;
    // Divergence theorem over the part of the cell inside the domain.
    double vol = 0;
    auto residual = [&](int m, std::array<double, dim + 2> &r) {
      r.fill(0);
      double area = 0;
      const auto v = qugar::create_quadrature<dim>(*c.d, { id }, m);
      const auto u = qugar::create_unfitted_bound_quadrature<dim>(*c.d, { id }, m, true, false);
      for (int t = 0; t < dim + 2; ++t) {
        double div;
        for (std::size_t i = 0; i < v->points.size(); ++i) {
          field<dim>(t, v->points[i], div);
          r[t] += v->weights[i] * div;
        }
        for (std::size_t i = 0; i < u->points.size(); ++i) {
          const auto F = field<dim>(t, u->points[i], div);
          for (int j = 0; j < dim; ++j) r[t] -= u->weights[i] * F[j] * u->normals[i](j);
        }
      }
      for (const double w : u->weights) area += w;
      vol = 0;
      for (const double w : v->weights) vol += w;
      for (int fc = 0; fc < 2 * dim; ++fc) {
        const auto fq = c.g->on_boundary(id, fc) ? qugar::create_facets_quadrature_exterior_integral<dim>(*c.d, { id }, { fc }, m) : qugar::create_facets_quadrature_interior_integral<dim>(*c.d, { id }, { fc }, m);
        for (std::size_t i = 0; i < fq->points.size(); ++i) {
          Point<dim> x;
          for (int j = 0, l = 0; j < dim; ++j) x(j) = j == fc / 2 ? fc % 2 : fq->points[i](l++);
          for (int t = 0; t < dim + 2; ++t) {
            double div;
            const auto F = field<dim>(t, x, div);
            r[t] -= fq->weights[i] * F[fc / 2] * (fc % 2 ? 1 : -1);
          }
        }
      }
      return area;
    };
    std::array<double, dim + 2> r8, r12;
    const double a8 = residual(6, r8), a12 = residual(10, r12);
    double best = 0, conv = std::fabs(a8 - a12);
    for (int t = 0; t < dim + 2; ++t) {
      best = std::max(best, std::min(std::fabs(r8[t]), std::fabs(r12[t])));
      conv = std::max(conv, std::fabs(r8[t] - r12[t]));
    }
    if (getenv("QDBG")) fprintf(stderr, "RES %g %g\n", best, conv);
    const double limit = (c.f.singular ? 1e-2 : 1e-3) + 3 * conv;
    if (best > limit && unresolved<dim>(c.f.f, box, vol, a12, limit / 4)) {
      s.count("unresolved");
      continue;
    }
    REQUIRE_SIG(best <= limit, "divergence", "cell ", id, ": residual ", best, " of the divergence theorem, convergence ", conv);
    s.count(best < 1e-8 ? "res<1e-8" : best < 1e-5 ? "res<1e-5" : best < 1e-3 ? "res<1e-3" : "res>1e-3");
  }
  REQUIRE_SIG(a == q->points.size(), "layout", "points left over");
  if (cut) s.nontrivial();
}
// ---------------------------------------------------------------- Q03
template<int dim> void q03(Src &s)
{
  if (dim == 2 && s.chance(1, 6)) return q03_slab<2>(s);
  if (s.chance(1, dim == 2 ? 4 : 40)) return q03_aligned<dim>(s);
  const auto c = amplified<dim>(s, domain<dim>(s, 16));
  const int n = s.i(1, 6);
  s.note("n", n);
  Ids cells;
  std::vector<int> facets;
  const int k = s.i(0, 12);
  for (int i = 0; i < k; ++i) {
    cells.push_back(s.i(0, c.n_cells - 1));
    facets.push_back(s.i(0, 2 * dim - 1));
  }
  int cut = 0;
  for (const bool interior : { true, false }) {
    auto make = [&](const Ids &cc, const std::vector<int> &ff, int m) { return interior ? qugar::create_facets_quadrature_interior_integral<dim>(*c.d, cc, ff, m) : qugar::create_facets_quadrature_exterior_integral<dim>(*c.d, cc, ff, m); };
    const auto q = make(cells, facets, n);
    REQUIRE_SIG(q->cells == cells && q->local_facet_ids == facets && q->n_pts_per_facet.size() == cells.size() && q->points.size() == q->weights.size(), "layout", "facets of the quadrature");
    std::size_t a = 0;
    for (std::size_t i = 0; i < cells.size(); ++i) {
      const std::size_t b = a + static_cast<std::size_t>(q->n_pts_per_facet[i]);
      REQUIRE_SIG(b <= q->points.size(), "layout", "points per facet");
      const auto id = cells[i];
      const int fc = facets[i];
      const auto box = c.g->get_cell_domain(id);
      const bool bdry = c.g->on_boundary(id, fc);
      const std::string where = pbt::cat(interior ? "interior" : "exterior", " integral, cell ", id, " facet ", fc);
      if (bdry == interior) {
        if (!c.d->has_unfitted_boundary(id, fc)) REQUIRE_SIG(a == b, "kind", where, " has ", b - a, " points");
      } else if (c.d->is_full_facet(id, fc))
        check_standard<dim - 1>(q->points, q->weights, a, b, n, "full facet");
      else if (c.d->is_empty_facet(id, fc))
        REQUIRE_SIG(a == b, "empty", where, " is empty and has ", b - a, " points");
      else if (c.d->is_cut_facet(id, fc)) {
        for (std::size_t p = a; p < b; ++p) {
          const auto &u = q->points[p];
          Point<dim> x;
          for (int j = 0, l = 0; j < dim; ++j) x(j) = j == fc / 2 ? fc % 2 : u(l++);
          for (int j = 0; j < dim; ++j) REQUIRE_SIG(x(j) >= -1e-12 && x(j) <= 1 + 1e-12, "inside", where, ": point ", str<dim - 1, real>(u));
          x = at01<dim>(box, x);
          const double v = (*c.f.f)(x);
          REQUIRE_SIG(v <= 1e-9 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), "negative", where, ": point ", str<dim - 1, real>(u), " outside of the domain, value ", v);
          REQUIRE_SIG(q->weights[p] > 0, "positive", where, ": weight ", q->weights[p]);
        }
        if (cut < 6) {
          ++cut;
          const auto ref = slices_facet<dim>(*c.f.f, box, fc);
          const auto r8 = make({ id }, { fc }, 8), r11 = make({ id }, { fc }, 11);
          const auto m = from_rule<dim - 1>(q->points, q->weights, a, b);
          const auto m8 = from_rule<dim - 1>(r8->points, r8->weights, 0, r8->points.size());
          const auto m11 = from_rule<dim - 1>(r11->points, r11->weights, 0, r11->points.size());
          const double conv = m8.max_abs_diff(m11);
          REQUIRE_SIG(m11.max_abs_diff(ref) <= (dim == 2 ? 1e-6 : 2e-3) + 5 * conv, "measure", where, ": ", show<dim - 1>(m11), " instead of ", show<dim - 1>(ref), ", convergence ", conv);
          const double tol = n >= 4 ? 0.03 : n >= 2 ? 0.1 : 0.35;
          REQUIRE_SIG(m.max_abs_diff(m11) <= tol, "accuracy", where, " with ", n, " points: ", show<dim - 1>(m), " instead of ", show<dim - 1>(m11));
          // The same facet seen from its other cell.
          if (interior) {
            const auto t = c.g->to_tensor(id);
            auto u = t;
            u(fc / 2) += fc % 2 ? 1 : -1;
            const auto other = make({ c.g->to_flat(u) }, { fc ^ 1 }, 11);
            const auto mo = from_rule<dim - 1>(other->points, other->weights, 0, other->points.size());
            REQUIRE_SIG(mo.max_abs_diff(m11) <= 1e-9 + 5 * conv, "sides", where, ": ", show<dim - 1>(m11), " from one side, ", show<dim - 1>(mo), " from the other one");
          }
        }
      }
      a = b;
    }
    REQUIRE_SIG(a == q->points.size(), "layout", "points left over");
  }
  if (cut) s.nontrivial();
}
// ---------------------------------------------------------------- Q04
using Facets = std::vector<std::pair<std::int64_t, int>>;
Facets facet_pairs(const Ids &c, const std::vector<int> &f)
{
  REQUIRE_SIG(c.size() == f.size(), "facet lists", "lists of different lengths");
  Facets r;
  for (std::size_t i = 0; i < c.size(); ++i) r.emplace_back(c[i], f[i]);
  return r;
}
template<int dim> void consistency(Src &s, const Dom<dim> &d, const CartGridTP<dim> &g, const std::vector<char> *target = nullptr)
{
  const auto N = static_cast<std::int64_t>(g.get_num_cells());
  Ids full, empty, cut;
  d.get_full_cells(full);
  d.get_empty_cells(empty);
  d.get_cut_cells(cut);
  std::vector<int> seen(static_cast<std::size_t>(N), 0);
  int which = 0;
  for (const auto *l : { &full, &empty, &cut }) {
    REQUIRE_SIG(std::is_sorted(l->begin(), l->end()), "cell lists", "unsorted list of cells");
    for (const auto c : *l) {
      REQUIRE_SIG(c >= 0 && c < N && !seen[static_cast<std::size_t>(c)], "cell lists", "cell ", c, " twice or out of range");
      seen[static_cast<std::size_t>(c)] = 1 + which;
    }
    ++which;
  }
  REQUIRE_SIG(d.get_num_full_cells() == full.size() && d.get_num_empty_cells() == empty.size() && d.get_num_cut_cells() == cut.size() && d.get_num_total_cells() == static_cast<std::size_t>(N), "cell counts", full.size(), " ", empty.size(), " ", cut.size());
  for (std::int64_t c = 0; c < N; ++c) {
    const int k = seen[static_cast<std::size_t>(c)];
    if (target)
      REQUIRE_SIG((k != 0) == ((*target)[static_cast<std::size_t>(c)] != 0), "targets", "cell ", c, k ? " is classified" : " is not classified");
    else
      REQUIRE_SIG(k != 0, "cell lists", "cell ", c, " in no list");
    REQUIRE_SIG(d.is_full_cell(c) == (k == 1) && d.is_empty_cell(c) == (k == 2) && d.is_cut_cell(c) == (k == 3), "predicates", "cell ", c, " in list ", k);
    REQUIRE_SIG(!d.is_full_with_unf_bdry_cell(c) || k == 1, "predicates", "cell ", c, " full with unfitted boundary in list ", k);
    REQUIRE_SIG(d.is_cell_with_unf_bdry(c) == (k == 3 || d.is_full_with_unf_bdry_cell(c)), "predicates", "cell ", c, " with unfitted boundary");
  }
  // Facets.
  std::array<Facets, 5> all;
  auto get = [&](int q, Ids &c, std::vector<int> &f) { q == 0 ? d.get_full_facets(c, f) : q == 1 ? d.get_empty_facets(c, f) : q == 2 ? d.get_cut_facets(c, f) : q == 3 ? d.get_full_unfitted_facets(c, f) : d.get_unfitted_facets(c, f); };
  auto gett = [&](int q, const Ids &tc, const std::vector<int> &tf, Ids &c, std::vector<int> &f) { q == 0 ? d.get_full_facets(tc, tf, c, f) : q == 1 ? d.get_empty_facets(tc, tf, c, f) : q == 2 ? d.get_cut_facets(tc, tf, c, f) : q == 3 ? d.get_full_unfitted_facets(tc, tf, c, f) : d.get_unfitted_facets(tc, tf, c, f); };
  auto is = [&](int q, std::int64_t c, int f) { return q == 0 ? d.is_full_facet(c, f) : q == 1 ? d.is_empty_facet(c, f) : q == 2 ? d.is_cut_facet(c, f) : q == 3 ? d.is_full_unfitted_facet(c, f) : d.has_unfitted_boundary(c, f); };
  bool any_unf = false;
  for (int q = 0; q < 5; ++q) {
    Ids c{ 5, 5 };
    std::vector<int> f{ 7 };
    get(q, c, f);
    all[q] = facet_pairs(c, f);
    std::sort(all[q].begin(), all[q].end());
    Facets want;
    for (std::int64_t e = 0; e < N; ++e)
      for (int l = 0; l < 2 * dim; ++l)
        if (is(q, e, l)) want.emplace_back(e, l);
    REQUIRE_SIG(all[q] == want, "facet lists", "query ", q, " lists ", all[q].size(), " facets, predicates hold for ", want.size());
    if (q == 4) any_unf = !want.empty();
  }
  REQUIRE_SIG(d.has_facets_with_unf_bdry() == any_unf, "predicates", "has_facets_with_unf_bdry");
  for (std::int64_t e = 0; e < N; ++e)
    for (int l = 0; l < 2 * dim; ++l) {
      if (target && !seen[static_cast<std::size_t>(e)]) continue;
      const int st = is(0, e, l) + is(1, e, l) + is(2, e, l) + is(3, e, l);
      REQUIRE_SIG(st == 1 || (st == 0 && is(4, e, l)), "facet statuses", "facet ", l, " of cell ", e, " has ", st, " statuses");
      REQUIRE_SIG(!is(3, e, l) || is(4, e, l), "facet statuses", "full unfitted facet without unfitted boundary");
      REQUIRE_SIG(d.is_exterior_facet(e, l) == (g.to_tensor(e)(l / 2) == (l % 2 ? g.get_num_cells_dir()(l / 2) - 1 : 0)), "exterior", "facet ", l, " of cell ", e);
    }
  // Restricted queries.
  const auto tc = cell_list(s, static_cast<int>(N));
  Ids r;
  for (int q = 0; q < 3; ++q) {
    r.assign(3, 0);
    q == 0 ? d.get_full_cells(tc, r) : q == 1 ? d.get_empty_cells(tc, r) : d.get_cut_cells(tc, r);
    Ids want;
    for (const auto x : tc)
      if (q == 0 ? d.is_full_cell(x) : q == 1 ? d.is_empty_cell(x) : d.is_cut_cell(x)) want.push_back(x);
    std::sort(r.begin(), r.end());
    std::sort(want.begin(), want.end());
    REQUIRE_SIG(r == want, "targets", "restricted query of cells ", q, " returned ", r.size(), " cells instead of ", want.size());
  }
  std::vector<int> tf;
  for (std::size_t i = 0; i < tc.size(); ++i) tf.push_back(s.i(0, 2 * dim - 1));
  for (int q = 0; q < 5; ++q) {
    Ids c{ 1 };
    std::vector<int> f{ 1, 2 };
    gett(q, tc, tf, c, f);
    Facets want;
    for (std::size_t i = 0; i < tc.size(); ++i)
      if (is(q, tc[i], tf[i])) want.emplace_back(tc[i], tf[i]);
    REQUIRE_SIG(facet_pairs(c, f) == want, "targets", "restricted query of facets ", q);
  }
}
template<int dim> void signs(const Fn<dim> &f, const Dom<dim> &d, const CartGridTP<dim> &g, Src &s)
{
  const int m = dim == 2 ? 12 : 6;
  for (std::int64_t c = 0; c < static_cast<std::int64_t>(g.get_num_cells()); ++c) {
    const auto box = g.get_cell_domain(c);
    int total = 1;
    for (int i = 0; i < dim; ++i) total *= m + 1;
    int pos = 0, neg = 0;
    std::array<std::array<int, 2>, 6> fs{};
    for (int k = 0; k < total; ++k) {
      Point<dim> u;
      std::array<int, dim> t;
      for (int i = 0, q = k; i < dim; ++i, q /= m + 1) {
        t[i] = q % (m + 1);
        u(i) = static_cast<double>(t[i]) / m;
      }
      const auto x = at01<dim>(box, u);
      const double v = (*f.f)(x);
      if (std::fabs(v) < 1e-9 * (f.size + scale_at<dim>(*f.f, box, x))) continue;
      ++(v > 0 ? pos : neg);
      for (int i = 0; i < dim; ++i)
        if (t[i] == 0 || t[i] == m) ++fs[static_cast<std::size_t>(2 * i + (t[i] == m))][v > 0];
    }
    if (d.is_full_cell(c)) REQUIRE_SIG(pos == 0, "full", "full cell ", c, " has points outside of the domain");
    if (d.is_empty_cell(c)) REQUIRE_SIG(neg == 0, "empty", "empty cell ", c, " has points inside of the domain");
    if (pos && neg) REQUIRE_SIG(d.is_cut_cell(c), "cut", "cell ", c, " has points of both signs and is not cut");
    if (pos && neg) s.nontrivial();
    for (int l = 0; l < 2 * dim; ++l) {
      const int fn = fs[static_cast<std::size_t>(l)][0], fp = fs[static_cast<std::size_t>(l)][1];
      if (d.is_full_facet(c, l) || d.is_full_unfitted_facet(c, l)) REQUIRE_SIG(fp == 0, "full facet", "full facet ", l, " of cell ", c, " has points outside of the domain");
      if (d.is_empty_facet(c, l)) REQUIRE_SIG(fn == 0, "empty facet", "empty facet ", l, " of cell ", c, " has points inside of the domain");
      REQUIRE_SIG(!d.has_unfitted_boundary(c, l) && !d.has_external_boundary(c, l), "facet off the boundary", "facet ", l, " of cell ", c, " is not on the boundary");
      if (fn && fp) REQUIRE_SIG(d.is_cut_facet(c, l), "cut facet", "facet ", l, " of cell ", c, " has points of both signs and is not cut");
    }
  }
}
template<int dim> void q04_aligned(Src &s)
{
  const auto c = aligned<dim>(s);
  consistency<dim>(s, *c.d, *c.g);
  for (std::int64_t i = 0; i < c.n_cells; ++i) {
    const double v = c.inside(i);
    bool touched = false;
    for (int f = 0; f < 2 * dim; ++f) touched = touched || c.on(i, f);
    // The general backend may miss by rounding that nothing is cut out of a cell with a facet on the boundary.
    const bool lax = touched && !c.bezier && c.d->is_cut_cell(i);
    if (lax) {
      s.count("full reported as cut");
      const auto q = qugar::create_quadrature<dim>(*c.d, { i }, 3);
      REQUIRE_SIG(std::fabs(from_rule<dim>(q->points, q->weights, 0, q->points.size()).vol - 1) < 1e-9, "aligned", "cell ", i, " is inside and cut");
    } else
      REQUIRE_SIG(c.d->is_full_cell(i) == (v == 1) && c.d->is_empty_cell(i) == (v == 0), "aligned", "cell ", i, " of which ", v, " is inside");
    REQUIRE_SIG(c.d->is_full_with_unf_bdry_cell(i) == (touched && c.d->is_full_cell(i)), "aligned", "cell ", i, " full with unfitted boundary");
    for (int f = 0; f < 2 * dim; ++f) {
      REQUIRE_SIG(c.d->has_unfitted_boundary(i, f) == c.on(i, f), "aligned facet", "unfitted boundary on facet ", f, " of cell ", i);
      if (!lax) REQUIRE_SIG(c.d->is_full_unfitted_facet(i, f) == c.on(i, f), "aligned facet", "full unfitted facet ", f, " of cell ", i);
      const double w = c.facet(i, f);
      if (!c.on(i, f)) REQUIRE_SIG(c.d->is_full_facet(i, f) == (w == 1) && c.d->is_empty_facet(i, f) == (w == 0), "aligned facet", "facet ", f, " of cell ", i, " of which ", w, " is inside");
    }
  }
}
template<int dim> void q04_slab(Src &s)
{
  const auto c = slab<dim>(s);
  consistency<dim>(s, *c.d, *c.g);
  for (std::int64_t i = 0; i < c.n_cells; ++i) {
    const double v = c.inside(i);
    bool touched = false;
    for (int f = 0; f < 2 * dim; ++f) touched = touched || c.on(i, f);
    const bool lax = touched && !c.bezier && v == 1 && c.d->is_cut_cell(i);
    if (!lax) REQUIRE_SIG(c.d->is_full_cell(i) == (v == 1) && c.d->is_empty_cell(i) == (v == 0), "slab", "cell ", i, " of which ", v, " is inside");
    REQUIRE_SIG(c.d->is_full_with_unf_bdry_cell(i) == (touched && c.d->is_full_cell(i)), "slab", "cell ", i, " full with unfitted boundary");
    for (int f = 0; f < 2 * dim; ++f) {
      REQUIRE_SIG(c.d->has_unfitted_boundary(i, f) == c.on(i, f), "slab facet", "unfitted boundary on facet ", f, " of cell ", i);
      const bool plane = f / 2 == c.dir && (c.at(i, f % 2) == c.a || c.at(i, f % 2) == c.b);
      if (!lax) REQUIRE_SIG(c.d->is_full_unfitted_facet(i, f) == c.on(i, f), "slab facet", "full unfitted facet ", f, " of cell ", i);
      REQUIRE_SIG(c.d->has_external_boundary(i, f) == (plane && !c.on(i, f) && c.d->is_cut_cell(i)), "slab facet", "boundary of the neighbor on facet ", f, " of cell ", i);
      const double w = c.facet(i, f);
      if (!c.on(i, f) && c.at(i, f % 2) != c.a && c.at(i, f % 2) != c.b) REQUIRE_SIG(c.d->is_full_facet(i, f) == (w == 1) && c.d->is_empty_facet(i, f) == (w == 0), "slab facet", "facet ", f, " of cell ", i, " of which ", w, " is inside");
    }
  }
}
template<int dim> void q04(Src &s)
{
  if (dim == 2 && s.chance(1, 6)) return q04_slab<2>(s);
  const int kind = s.chance(1, dim == 2 ? 4 : 40) ? 3 : s.i(0, 2);
  if (kind <= 2) {
    const auto c = amplified<dim>(s, domain<dim>(s, dim == 2 ? 25 : 27));
    if (kind == 2) {
      s.note("kind", "targets");
      std::vector<char> in(static_cast<std::size_t>(c.n_cells), 0);
      Ids t = cell_list(s, c.n_cells);
      for (const auto x : t) in[static_cast<std::size_t>(x)] = 1;
      const Dom<dim> d(c.f.f, c.g, t);
      consistency<dim>(s, d, *c.g, &in);
      for (const auto x : t)
        REQUIRE_SIG(d.is_full_cell(x) == c.d->is_full_cell(x) && d.is_empty_cell(x) == c.d->is_empty_cell(x), "targets", "cell ", x, " is classified differently alone");
      if (!t.empty()) s.nontrivial();
    } else {
      consistency<dim>(s, *c.d, *c.g);
      signs<dim>(c.f, *c.d, *c.g, s);
    }
  } else {
    q04_aligned<dim>(s);
  }
}
// ---------------------------------------------------------------- Q05
template<int dim> struct Opaque : public ImplicitFunc<dim>
{
  explicit Opaque(Func<dim> g) : f(std::move(g)) {}
  Func<dim> f;
  using I = ::algoim::Interval<dim>;
  real operator()(const Point<dim> &x) const override { return (*f)(x); }
  I operator()(const Point<dim, I> &x) const override { return (*f)(x); }
  Vector<real, dim> grad(const Point<dim> &x) const override { return f->grad(x); }
  Vector<I, dim> grad(const Point<dim, I> &x) const override { return f->grad(x); }
  typename ImplicitFunc<dim>::template Hessian<real> hessian(const Point<dim> &x) const override { return f->hessian(x); }
};
// Volume, boundary and facet integrals of one cell.
template<int dim> struct Integrals
{
  Measure<dim> vol, srf;
  std::array<Measure<dim - 1>, 2 * dim> facets;
  double diff(const Integrals &o) const
  {
    double e = std::max(vol.max_abs_diff(o.vol), srf.max_abs_diff(o.srf));
    for (std::size_t i = 0; i < facets.size(); ++i) e = std::max(e, facets[i].max_abs_diff(o.facets[i]));
    return e;
  }
};
template<int dim> Integrals<dim> integrals(const Dom<dim> &d, std::int64_t id, int n)
{
  Integrals<dim> r;
  const auto v = qugar::create_quadrature<dim>(d, { id }, n);
  r.vol = from_rule<dim>(v->points, v->weights, 0, v->points.size());
  const auto u = qugar::create_unfitted_bound_quadrature<dim>(d, { id }, n, true, false);
  r.srf = from_rule<dim>(u->points, u->weights, 0, u->points.size());
  for (int f = 0; f < 2 * dim; ++f) {
    const auto q = d.is_exterior_facet(id, f) ? qugar::create_facets_quadrature_exterior_integral<dim>(d, { id }, { f }, n) : qugar::create_facets_quadrature_interior_integral<dim>(d, { id }, { f }, n);
    r.facets[static_cast<std::size_t>(f)] = from_rule<dim - 1>(q->points, q->weights, 0, q->points.size());
  }
  return r;
}
template<int dim> void complement(Measure<dim> &m)
{
  m.vol = 1 - m.vol;
  for (auto &x : m.mom) x = 0.5 - x;
}
template<int dim> void q05(Src &s)
{
  const bool scaled = s.chance(1, 3);
  bool backends = s.coin();
  s.note("kind", scaled ? "multiple" : backends ? "backends" : "complement");
  const auto c = domain<dim>(s, 9, !scaled);
  Func<dim> other;
  if (scaled) {
    // A multiple of a polynomial is the same domain, or its complement.
    const auto *b = dynamic_cast<const qugar::impl::BezierTP<dim, 1> *>(c.f.f.get());
    if (!b) throw pbt::Discard{};
    const double k = std::ldexp(backends ? 1 : -1, s.i(-40, 40));
    s.note("factor", k);
    const auto m = std::make_shared<qugar::impl::BezierTP<dim, 1>>(*b);
    for (int i = 0; i < static_cast<int>(m->get_num_coefs()); ++i) m->get_coef(i) *= k;
    other = m;
    s.count(backends ? "multiple" : "negative multiple");
  } else if (backends) {
    if (!qugar::impl::is_bezier(*c.f.f)) throw pbt::Discard{};
    other = std::make_shared<Opaque<dim>>(c.f.f);
  } else
    other = std::make_shared<qugar::impl::funcs::Negative<dim>>(c.f.f);
  const Dom<dim> d(other, c.g);
  // Classifications may differ only where the integrals agree anyway (a cell or facet may be reported as cut with nothing cut out).
  for (std::int64_t id = 0; id < c.n_cells; ++id) {
    const auto &e = *c.d;
    const bool f1 = e.is_full_cell(id), e1 = e.is_empty_cell(id), f2 = backends ? d.is_full_cell(id) : d.is_empty_cell(id), e2 = backends ? d.is_empty_cell(id) : d.is_full_cell(id);
    REQUIRE_SIG(!(f1 && e2) && !(e1 && f2), "classification", "cell ", id, " is full and empty");
    for (int f = 0; f < 2 * dim; ++f) {
      const bool g1 = e.is_full_facet(id, f), h1 = e.is_empty_facet(id, f), g2 = backends ? d.is_full_facet(id, f) : d.is_empty_facet(id, f), h2 = backends ? d.is_empty_facet(id, f) : d.is_full_facet(id, f);
      REQUIRE_SIG(!(g1 && h2) && !(h1 && g2), "classification", "facet ", f, " of cell ", id, " is full and empty");
    }
  }
  int cut = 0;
  for (std::int64_t id = 0; id < c.n_cells && cut < (dim == 2 ? 4 : 2); ++id) {
    if (!c.d->is_cut_cell(id) && !d.is_cut_cell(id)) continue;
    ++cut;
    const auto a8 = integrals<dim>(*c.d, id, 7), a12 = integrals<dim>(*c.d, id, 10);
    auto b8 = integrals<dim>(d, id, 7), b12 = integrals<dim>(d, id, 10);
    if (!backends)
      for (auto *b : { &b8, &b12 }) {
        complement<dim>(b->vol);
        for (auto &f : b->facets) complement<dim - 1>(f);
      }
    const double conv = a8.diff(a12) + b8.diff(b12), err = std::min(a8.diff(b8), a12.diff(b12));
    if (getenv("QDBG")) fprintf(stderr, "RES %g %g\n", err, conv);
    REQUIRE_SIG(err <= 1e-4 + 2 * conv, "integrals", "cell ", id, ": integrals differ by ", err, " (volume ", show<dim>(a12.vol), " and ", show<dim>(b12.vol), ", boundary ", show<dim>(a12.srf), " and ", show<dim>(b12.srf), "), convergence ", conv);
    s.count(conv < 1e-6 ? "converged" : conv < 1e-3 ? "almost converged" : "not converged");
  }
  if (cut) s.nontrivial();
}
#define BOTH(name)       \
  void name##_(Src &s)   \
  {                      \
    if (s.chance(1, 3))  \
      name<3>(s);        \
    else                 \
      name<2>(s);        \
  }
BOTH(q01)
BOTH(q02)
BOTH(q03)
BOTH(q04)
BOTH(q05)
const pbt::Reg r1("Q01", q01_, 3000, 40000, 120);
const pbt::Reg r2("Q02", q02_, 2500, 40000, 120);
const pbt::Reg r3("Q03", q03_, 8000, 40000, 120);
const pbt::Reg r4("Q04", q04_, 8000, 40000, 120);
const pbt::Reg r5("Q05", q05_, 3000, 40000, 120);
}// namespace
