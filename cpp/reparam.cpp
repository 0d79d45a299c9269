// R01 reparameterizations of implicit domains, R02 reparameterization meshes.
#include "domains.hpp"
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <filesystem>
#include <set>
namespace {
using qugar::ReparamMesh;
using qugar::impl::ImplReparamMesh;
// ---------------------------------------------------------------- geometry of the cells of a mesh
// One-dimensional Lagrange bases on the nodes 0..n-1: equally spaced, or (from seven nodes on) Chebyshev nodes of the second kind.
std::vector<double> nodes(int n)
{
  std::vector<double> t;
  for (int i = 0; i < n; ++i) t.push_back(n < 7 ? static_cast<double>(i) / (n - 1) : 0.5 - 0.5 * std::cos(3.14159265358979323846 * i / (n - 1)));
  return t;
}
void lagrange(const std::vector<double> &t, double x, std::vector<double> &v, std::vector<double> &d)
{
  const std::size_t n = t.size();
  v.assign(n, 1);
  d.assign(n, 0);
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t k = 0; k < n; ++k) {
      if (k == i) continue;
      double p = 1 / (t[i] - t[k]);
      for (std::size_t j = 0; j < n; ++j)
        if (j != i && j != k) p *= (x - t[j]) / (t[i] - t[j]);
      d[i] += p;
      v[i] *= (x - t[k]) / (t[i] - t[k]);
    }
  }
}
// Bases of a cell at the points of a rule, evaluated once.
template<int dim> struct Element
{
  struct At
  {
    double w{ 1 };
    std::vector<double> v;
    std::array<std::vector<double>, dim> d;
  };
  std::vector<At> q;
  At mid;
  explicit Element(int n)
  {
    const auto t = nodes(n);
    auto fill = [&](const std::array<double, dim> &x, At &a) {
      std::array<std::vector<double>, dim> v, d;
      for (int i = 0; i < dim; ++i) lagrange(t, x[i], v[i], d[i]);
      std::size_t total = 1;
      for (int i = 0; i < dim; ++i) total *= n;
      for (std::size_t k = 0; k < total; ++k) {
        std::array<std::size_t, dim> id;
        std::size_t r = k;
        for (int i = 0; i < dim; ++i, r /= n) id[i] = r % n;
        double p = 1;
        for (int i = 0; i < dim; ++i) p *= v[i][id[i]];
        a.v.push_back(p);
        for (int l = 0; l < dim; ++l) {
          double g = 1;
          for (int i = 0; i < dim; ++i) g *= i == l ? d[i][id[i]] : v[i][id[i]];
          a.d[l].push_back(g);
        }
      }
    };
    const auto g = gauss(n + 1);
    std::size_t total = 1;
    for (int i = 0; i < dim; ++i) total *= g.size();
    for (std::size_t k = 0; k < total; ++k) {
      At a;
      std::array<double, dim> x;
      std::size_t r = k;
      for (int i = 0; i < dim; ++i, r /= g.size()) {
        x[i] = g[r % g.size()].first;
        a.w *= g[r % g.size()].second;
      }
      fill(x, a);
      q.push_back(a);
    }
    std::array<double, dim> h;
    h.fill(0.5);
    fill(h, mid);
  }
};
// Position, Jacobian determinant (or surface element) and normal of a cell at a point.
template<int dim, int range> struct Local
{
  Point<range> x{ 0.0 }, normal{ 0.0 };
  double det{ 0 };
};
template<int dim, int range> Local<dim, range> local(const typename Element<dim>::At &a, const std::vector<Point<range>> &P, const std::size_t *c)
{
  Local<dim, range> r;
  double J[3][3] = {};
  for (std::size_t k = 0; k < a.v.size(); ++k)
    for (int j = 0; j < range; ++j) {
      r.x(j) += a.v[k] * P[c[k]](j);
      for (int i = 0; i < dim; ++i) J[i][j] += a.d[i][k] * P[c[k]](j);
    }
  if constexpr (dim == range) {
    if constexpr (dim == 2)
      r.det = J[0][0] * J[1][1] - J[0][1] * J[1][0];
    else
      r.det = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
  } else {
    if constexpr (dim == 1) {
      r.normal(0) = J[0][1];
      r.normal(1) = -J[0][0];
    } else
      for (int i = 0; i < 3; ++i) r.normal(i) = J[0][(i + 1) % 3] * J[1][(i + 2) % 3] - J[0][(i + 2) % 3] * J[1][(i + 1) % 3];
    for (int i = 0; i < range; ++i) r.det += r.normal(i) * r.normal(i);
    r.det = std::sqrt(r.det);
    if (r.det > 0)
      for (int i = 0; i < range; ++i) r.normal(i) /= r.det;
  }
  return r;
}
template<int dim, int range> void check_ids(const ReparamMesh<dim, range> &m)
{
  const auto n = m.get_points().size();
  REQUIRE_SIG(m.get_num_points() == n && m.get_connectivity().size() == m.get_num_cells() * m.get_num_points_per_cell(), "ids", "sizes of the mesh");
  for (const auto i : m.get_connectivity()) REQUIRE_SIG(i < n, "ids", "point ", i, " of ", n);
  REQUIRE_SIG(m.get_wires_connectivity().size() % static_cast<std::size_t>(m.get_order()) == 0, "ids", "wires");
  for (const auto i : m.get_wires_connectivity()) REQUIRE_SIG(i < n, "ids", "point ", i, " of ", n, " in a wire");
}
// ---------------------------------------------------------------- R02
// Model: coordinates of every cell and of every wire.
template<int dim, int range> struct Model
{
  using Poly = std::vector<Point<range>>;
  std::vector<Poly> cells, wires;
};
template<int range> double dist(const Point<range> &a, const Point<range> &b)
{
  double d = 0;
  for (int i = 0; i < range; ++i) d = std::max(d, std::fabs(a(i) - b(i)));
  return d;
}
template<int range> bool near(const std::vector<Point<range>> &a, const std::vector<Point<range>> &b, double tol)
{
  bool fwd = a.size() == b.size(), bwd = fwd;
  for (std::size_t i = 0; i < a.size() && (fwd || bwd); ++i) {
    fwd = fwd && dist<range>(a[i], b[i]) <= tol;
    bwd = bwd && dist<range>(a[a.size() - 1 - i], b[i]) <= tol;
  }
  return fwd || bwd;
}
template<int dim, int range> void compare(const ReparamMesh<dim, range> &m, const Model<dim, range> &r, double tol)
{
  check_ids<dim, range>(m);
  const auto npc = m.get_num_points_per_cell();
  const auto &P = m.get_points();
  REQUIRE_SIG(m.get_num_cells() == r.cells.size(), "cells", m.get_num_cells(), " cells instead of ", r.cells.size());
  for (std::size_t c = 0; c < r.cells.size(); ++c)
    for (std::size_t k = 0; k < npc; ++k) {
      const auto &p = P[m.get_connectivity()[c * npc + k]];
      REQUIRE_SIG(dist<range>(p, r.cells[c][k]) <= tol, "coordinates", "point ", k, " of cell ", c, " is ", str<range, real>(p), " instead of ", str<range, real>(r.cells[c][k]));
    }
  const auto n = static_cast<std::size_t>(m.get_order());
  REQUIRE_SIG(m.get_wires_connectivity().size() == n * r.wires.size(), "wires", m.get_wires_connectivity().size() / n, " wires instead of ", r.wires.size());
  // Wires are a set of undirected lines.
  std::vector<char> used(r.wires.size(), 0);
  for (std::size_t w = 0; w < r.wires.size(); ++w) {
    std::vector<Point<range>> l;
    for (std::size_t k = 0; k < n; ++k) l.push_back(P[m.get_wires_connectivity()[w * n + k]]);
    bool found = false;
    for (std::size_t j = 0; j < r.wires.size() && !found; ++j)
      if (!used[j] && near<range>(l, r.wires[j], tol)) used[j] = found = true;
    REQUIRE_SIG(found, "wires", "wire ", w, " from ", str<range, real>(l.front()), " to ", str<range, real>(l.back()), " is not expected");
  }
}
// Edges of a cell as a list of its nodes: index of the node along the edge varies, the others are at one end.
template<int dim> std::vector<std::vector<std::size_t>> cell_edges(int n)
{
  std::vector<std::vector<std::size_t>> e;
  std::array<std::size_t, dim> stride;
  std::size_t p = 1;
  for (int i = 0; i < dim; ++i, p *= n) stride[i] = p;
  for (int d = 0; d < dim; ++d)
    for (int c = 0; c < (1 << (dim - 1)); ++c) {
      std::size_t o = 0;
      for (int i = 0, k = 0; i < dim; ++i)
        if (i != d && (c >> k++ & 1)) o += stride[i] * (n - 1);
      std::vector<std::size_t> l;
      for (int k = 0; k < n; ++k) l.push_back(o + k * stride[d]);
      e.push_back(l);
    }
  return e;
}
template<int dim> void model_full(Model<dim, dim> &r, const BoundBox<dim> &b, int n, bool wires)
{
  const auto t = nodes(n);
  std::vector<Point<dim>> c;
  std::size_t total = 1;
  for (int i = 0; i < dim; ++i) total *= n;
  for (std::size_t k = 0; k < total; ++k) {
    Point<dim> p;
    std::size_t q = k;
    for (int i = 0; i < dim; ++i, q /= n) p(i) = b.min(i) + t[q % n] * (b.max(i) - b.min(i));
    c.push_back(p);
  }
  if (wires)
    for (const auto &e : cell_edges<dim>(n)) {
      r.wires.emplace_back();
      for (const auto k : e) r.wires.back().push_back(c[k]);
    }
  r.cells.push_back(c);
}
template<int dim> BoundBox<dim> lattice_box(Src &s)
{
  Point<dim> a, b;
  for (int i = 0; i < dim; ++i) {
    a(i) = s.i(0, 2);
    b(i) = a(i) + s.i(1, 2);
  }
  return BoundBox<dim>(a, b);
}
// Reads the numbers of a DataArray.
std::vector<double> data_array(const std::string &t, const std::string &name)
{
  auto i = t.find("Name=\"" + name + "\"");
  REQUIRE_SIG(i != std::string::npos, "vtk", "no array ", name);
  i = t.find('>', i) + 1;
  std::istringstream in(t.substr(i, t.find('<', i) - i));
  std::vector<double> v;
  std::string w;
  while (in >> w) v.push_back(std::strtod(w.c_str(), nullptr));
  return v;
}
std::string slurp(const std::string &f)
{
  std::ifstream in(f);
  REQUIRE_SIG(in.good(), "vtk", "missing file ", f.substr(f.rfind('/') + 1));
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
// Position in VTK's Lagrange cells (file versions before 2.0) of the node with the given indices.
template<int dim> std::size_t vtk_position(const std::array<int, dim> &id, int n)
{
  const int o = n - 1;// order
  std::array<bool, dim> b;
  int nb = 0;
  for (int i = 0; i < dim; ++i) nb += b[i] = id[i] == 0 || id[i] == o;
  if constexpr (dim == 1) return static_cast<std::size_t>(id[0] == 0 ? 0 : id[0] == o ? 1 : id[0] + 1);
  if constexpr (dim == 2) {
    const int i = id[0], j = id[1];
    if (nb == 2) return static_cast<std::size_t>(i ? (j ? 2 : 1) : (j ? 3 : 0));
    int off = 4;
    if (!b[0] && b[1]) return static_cast<std::size_t>((i - 1) + (j ? o - 1 + o - 1 : 0) + off);
    if (b[0] && !b[1]) return static_cast<std::size_t>((j - 1) + (i ? o - 1 : 2 * (o - 1) + o - 1) + off);
    off += 4 * (o - 1);
    return static_cast<std::size_t>(off + (i - 1) + (o - 1) * (j - 1));
  }
  if constexpr (dim == 3) {
    const int i = id[0], j = id[1], k = id[2];
    if (nb == 3) return static_cast<std::size_t>((i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0));
    int off = 8;
    const int e = o - 1;
    if (nb == 2) {
      if (!b[0]) return static_cast<std::size_t>((i - 1) + (j ? 2 * e : 0) + (k ? 4 * e : 0) + off);
      if (!b[1]) return static_cast<std::size_t>((j - 1) + (i ? e : 3 * e) + (k ? 4 * e : 0) + off);
      off += 8 * e;
      return static_cast<std::size_t>((k - 1) + e * (i ? (j ? 3 : 1) : (j ? 2 : 0)) + off);
    }
    off += 12 * e;
    if (nb == 1) {
      if (b[0]) return static_cast<std::size_t>((j - 1) + e * (k - 1) + (i ? e * e : 0) + off);
      off += 2 * e * e;
      if (b[1]) return static_cast<std::size_t>((i - 1) + e * (k - 1) + (j ? e * e : 0) + off);
      off += 2 * e * e;
      return static_cast<std::size_t>((i - 1) + e * (j - 1) + (k ? e * e : 0) + off);
    }
    off += 6 * e * e;
    return static_cast<std::size_t>(off + (i - 1) + e * ((j - 1) + e * (k - 1)));
  }
}
template<int dim, int range> void check_vtu(const std::string &file, const ReparamMesh<dim == 1 ? (range == 2 ? 1 : 2) : dim, range> &m, const std::vector<std::size_t> &conn)
{
  const auto t = slurp(file);
  const int n = m.get_order();
  std::size_t npc = 1;
  for (int i = 0; i < dim; ++i) npc *= n;
  const auto x = data_array(t, "Points"), c = data_array(t, "connectivity"), o = data_array(t, "offsets"), ty = data_array(t, "types");
  REQUIRE_SIG(x.size() == 3 * m.get_num_points(), "vtk", "points");
  for (std::size_t p = 0; p < m.get_num_points(); ++p)
    for (int i = 0; i < 3; ++i) REQUIRE_SIG(x[3 * p + i] == (i < range ? m.get_points()[p](i) : 0.0), "vtk", "coordinate ", i, " of point ", p);
  const std::size_t cells = conn.size() / npc;
  REQUIRE_SIG(c.size() == conn.size() && o.size() == cells && ty.size() == cells, "vtk", "sizes");
  const int type = n == 2 ? (dim == 1 ? 3 : dim == 2 ? 9 : 12) : (dim == 1 ? 68 : dim == 2 ? 70 : 72);
  for (std::size_t k = 0; k < cells; ++k) {
    REQUIRE_SIG(o[k] == static_cast<double>((k + 1) * npc) && ty[k] == type, "vtk", "offset or type of cell ", k);
    for (std::size_t q = 0; q < npc; ++q) {
      std::array<int, dim> id;
      std::size_t r = q;
      for (int i = 0; i < dim; ++i, r /= n) id[i] = static_cast<int>(r % n);
      const auto v = vtk_position<dim>(id, n);
      REQUIRE_SIG(c[k * npc + v] == static_cast<double>(conn[k * npc + q]), "vtk", "node ", q, " of cell ", k, " is not at the position ", v, " of VTK's cell");
    }
  }
  REQUIRE_SIG(t.find("NumberOfPoints=\"" + std::to_string(m.get_num_points()) + "\" NumberOfCells=\"" + std::to_string(cells) + "\"") != std::string::npos, "vtk", "numbers of points and cells");
}
template<int dim, int range> void check_vtk(const ReparamMesh<dim, range> &m)
{
  char tpl[] = "/tmp/qugar_vtk_XXXXXX";
  const char *d = mkdtemp(tpl);
  if (d == nullptr) throw pbt::Discard{};
  struct Clean
  {
    std::string d;
    ~Clean()
    {
      std::error_code e;
      std::filesystem::remove_all(d, e);
    }
  } clean{ d };
  const std::string f = std::string(d) + "/out";
  m.write_VTK_file(f);
  check_vtu<dim, range>(f + ".vtu", m, m.get_connectivity());
  const auto t = slurp(f + ".vtmb");
  REQUIRE_SIG(t.find("out.vtu\"") != std::string::npos && t.find("out_wb.vtu\"") != std::string::npos, "vtk", "blocks");
  const auto w = data_array(slurp(f + "_wb.vtu"), "connectivity"), o = data_array(slurp(f + "_wb.vtu"), "offsets");
  const auto n = static_cast<std::size_t>(m.get_order());
  const auto &W = m.get_wires_connectivity();
  REQUIRE_SIG(w.size() == W.size() && o.size() == W.size() / n, "vtk", "wires");
  for (std::size_t k = 0; k < W.size(); ++k) {
    const auto pos = (k / n) * n + vtk_position<1>({ static_cast<int>(k % n) }, static_cast<int>(n));
    REQUIRE_SIG(w[pos] == static_cast<double>(W[k]), "vtk", "node ", k, " of the wires");
  }
}
// Random operations on a mesh and its model.
template<int dim, int range> void history(Src &s, ImplReparamMesh<dim, range> &m, Model<dim, range> &r, int steps, bool nested, bool &merged)
{
  const int n = m.get_order();
  const auto npc = m.get_num_points_per_cell();
  const double tol = 1e-10;
  bool shared = false;
  for (int step = 0; step < steps; ++step) {
    const int op = s.i(0, nested ? 3 : 10);
    s.note("op", op);
    if (op == 0 || op == 1) {
      if constexpr (dim == range) {
        const bool w = s.coin();
        if (op == 0) {
          const auto b = lattice_box<dim>(s);
          m.template add_full_cell<dim>(b, w);
          model_full<dim>(r, b, n, w);
        } else {
          std::array<std::vector<real>, dim> br;
          int total = 1;
          for (int i = 0; i < dim; ++i) {
            const int k = s.i(1, 2);
            total *= k;
            const double lo = s.i(0, 2);
            for (int j = 0; j <= k; ++j) br[i].push_back(lo + j);
          }
          const CartGridTP<dim> g(br);
          const auto ids = cell_list(s, total);
          m.template add_full_cells<dim>(g, ids, w);
          for (const auto id : ids) {
            Point<dim> a, b;
            std::int64_t q = id;
            for (int i = 0; i < dim; ++i) {
              const auto k = static_cast<std::int64_t>(br[i].size() - 1);
              a(i) = br[i][static_cast<std::size_t>(q % k)];
              b(i) = br[i][static_cast<std::size_t>(q % k + 1)];
              q /= k;
            }
            model_full<dim>(r, BoundBox<dim>(a, b), n, w);
          }
        }
      }
    }
    if (op == 2 || (op <= 1 && dim != range)) {
      // Cells inserted point by point, in any order.
      const int k = s.i(1, 2);
      if (s.coin()) m.reserve_cells(static_cast<std::size_t>(s.i(0, 3)));
      const int first = m.allocate_cells(static_cast<std::size_t>(k));
      REQUIRE_SIG(first == static_cast<int>(r.cells.size()), "allocate", "first new cell ", first, " instead of ", r.cells.size());
      std::vector<std::pair<int, int>> order;
      for (int c = 0; c < k; ++c) {
        // A lattice box or one of its faces, whose directions may be swapped.
        Point<range> o;
        std::array<int, dim> axis;
        std::array<double, dim> len;
        for (int i = 0; i < range; ++i) o(i) = s.i(0, 3);
        const int fix = dim == range ? -1 : s.i(0, range - 1);
        for (int i = 0, j = 0; i < range; ++i)
          if (i != fix) axis[j++] = i;
        if (dim > 1 && s.coin()) std::swap(axis[0], axis[dim - 1]);
        for (int j = 0; j < dim; ++j) len[j] = s.i(1, 2) * s.sgn();
        const auto t = nodes(n);
        std::vector<Point<range>> pts;
        for (std::size_t q = 0; q < npc; ++q) {
          Point<range> p = o;
          std::size_t z = q;
          for (int j = 0; j < dim; ++j, z /= n) p(axis[j]) += t[z % n] * len[j];
          for (int i = 0; i < range; ++i) p(i) += s.i(-1, 1) * 1e-13;
          pts.push_back(p);
          order.emplace_back(c, static_cast<int>(q));
        }
        r.cells.push_back(pts);
      }
      for (std::size_t q = order.size(); q > 1; --q) std::swap(order[q - 1], order[static_cast<std::size_t>(s.raw(q - 1))]);
      for (const auto &[c, q] : order) m.insert_cell_point(r.cells[static_cast<std::size_t>(first + c)][static_cast<std::size_t>(q)], first + c, q);
    }
    if (op == 3) {
      if (r.cells.empty()) continue;
      const auto c = static_cast<std::size_t>(s.raw(r.cells.size() - 1));
      m.permute_cell_directions(c);
      auto old = r.cells[c];
      for (std::size_t q = 0; q < npc; ++q) {
        const std::size_t i = q % n, j = q / n % n, k = q / (static_cast<std::size_t>(n) * n);
        r.cells[c][q] = old[dim == 1 ? n - 1 - i : j + n * i + static_cast<std::size_t>(n) * n * k];
      }
    }
    if (op == 4) {
      ImplReparamMesh<dim, range> other(n);
      Model<dim, range> om;
      bool dummy = false;
      history<dim, range>(s, other, om, s.i(0, 2), true, dummy);
      m.merge(other);
      r.cells.insert(r.cells.end(), om.cells.begin(), om.cells.end());
      r.wires.insert(r.wires.end(), om.wires.begin(), om.wires.end());
    }
    if (op == 5 || op == 6) {
      const bool had = m.get_points().size() >= 2;
      const auto before = m.get_points().size();
      // Reference number of points and wires.
      std::vector<Point<range>> u;
      for (const auto &p : m.get_points())
        if (std::none_of(u.begin(), u.end(), [&](const auto &x) { return dist<range>(x, p) < 1e-8; })) u.push_back(p);
      m.merge_coincident_points(Tolerance(tol));
      shared = true;
      REQUIRE_SIG(m.get_points().size() == u.size(), "merge", m.get_points().size(), " points instead of ", u.size(), " after merging the ", before);
      for (std::size_t i = 0; i < u.size(); ++i)
        for (std::size_t j = 0; j < i; ++j)
          REQUIRE_SIG(dist<range>(m.get_points()[i], m.get_points()[j]) > tol, "merge", "two points coincide");
      if (had) {
        std::vector<std::vector<Point<range>>> w;
        for (const auto &l : r.wires)
          if (std::none_of(w.begin(), w.end(), [&](const auto &x) { return near<range>(x, l, 1e-8); })) w.push_back(l);
        if (w.size() < r.wires.size()) merged = true;
        r.wires = w;
      }
      if (u.size() < before) merged = true;
    }
    if (op == 7) {
      Point<range> a, b;
      for (int i = 0; i < range; ++i) {
        a(i) = s.i(-1, 1);
        b(i) = a(i) + s.i(1, 2);
      }
      const BoundBox<range> from = lattice_box<range>(s), to(a, b);
      auto map = [&](const Point<range> &p) {
        Point<range> q;
        for (int i = 0; i < range; ++i) q(i) = to.min(i) + (p(i) - from.min(i)) / (from.max(i) - from.min(i)) * (to.max(i) - to.min(i));
        return q;
      };
      // The points of some of the cells, if no other cell nor wire uses them.
      std::vector<int> ids;
      std::vector<char> sel(r.cells.size(), 1);
      const bool some = !shared && r.wires.empty() && s.coin();
      for (std::size_t c = 0; c < r.cells.size() && some; ++c)
        if ((sel[c] = s.coin()))
          for (std::size_t q = 0; q < npc; ++q) ids.push_back(static_cast<int>(m.get_connectivity()[c * npc + q]));
      if (some)
        m.scale_points(ids, from, to);
      else
        m.scale_points(from, to);
      for (std::size_t c = 0; c < r.cells.size(); ++c)
        if (sel[c])
          for (auto &p : r.cells[c]) p = map(p);
      for (auto &c : r.wires)
        for (auto &p : c) p = map(p);
    }
    if (op == 8 || op == 9) {
      if (r.cells.empty()) continue;
      // Orient all the cells, or some of them.
      std::vector<int> ids;
      const bool all = s.coin();
      for (std::size_t c = 0; c < r.cells.size(); ++c)
        if (all || s.coin()) ids.push_back(static_cast<int>(c));
      Point<range> target(0.0);
      const int facet = s.i(0, 2 * range - 1);
      std::vector<char> sel(r.cells.size(), 0);
      for (const int c : ids) sel[static_cast<std::size_t>(c)] = 1;
      if constexpr (dim == range) {
        if (all)
          m.template orient_cells_positively<dim>();
        else
          m.template orient_cells_positively<dim>(ids);
      } else {
        if (op == 8) {
          target(facet / 2) = facet % 2 ? 1 : -1;
          if (all)
            m.template orient_facet_cells_positively<dim>(facet);
          else
            m.template orient_facet_cells_positively<dim>(facet, ids);
        } else {
          for (int i = 0; i < range; ++i) target(i) = s.generic(0.2, 1) * s.sgn();
          const qugar::impl::funcs::Plane<range> f(Point<range>(0.5), target);
          const std::vector<std::reference_wrapper<const ImplicitFunc<range>>> fs{ f };
          if (all)
            m.template orient_levelset_cells_positively<dim>(fs);
          else
            m.template orient_levelset_cells_positively<dim>(fs, ids);
        }
      }
      const Element<dim> e(n);
      std::vector<std::size_t> id(npc);
      for (std::size_t q = 0; q < npc; ++q) id[q] = q;
      for (std::size_t c = 0; c < r.cells.size(); ++c) {
        if (!sel[c]) continue;
        const auto l = local<dim, range>(e.mid, r.cells[c], id.data());
        double sign = l.det;
        if constexpr (dim != range) {
          sign = 0;
          for (int i = 0; i < range; ++i) sign += l.normal(i) * target(i);
        }
        const auto old = r.cells[c];
        if (sign < -1e-9)
          for (std::size_t q = 0; q < npc; ++q) {
            const std::size_t i = q % n, j = q / n % n, k = q / (static_cast<std::size_t>(n) * n);
            r.cells[c][q] = old[dim == 1 ? n - 1 - i : j + n * i + static_cast<std::size_t>(n) * n * k];
          }
        else if (std::fabs(sign) < 1e-9) {
          // Either orientation: follow the mesh.
          for (std::size_t q = 0; q < npc; ++q) r.cells[c][q] = m.get_points()[m.get_connectivity()[c * npc + q]];
          std::vector<Point<range>> flip(npc);
          for (std::size_t q = 0; q < npc; ++q) {
            const std::size_t i = q % n, j = q / n % n, k = q / (static_cast<std::size_t>(n) * n);
            flip[q] = old[dim == 1 ? n - 1 - i : j + n * i + static_cast<std::size_t>(n) * n * k];
          }
          bool same = true, flipped = true;
          for (std::size_t q = 0; q < npc; ++q) {
            same = same && dist<range>(r.cells[c][q], old[q]) < 1e-8;
            flipped = flipped && dist<range>(r.cells[c][q], flip[q]) < 1e-8;
          }
          REQUIRE_SIG(same || flipped, "orient", "cell ", c, " is another one after orienting it");
        }
      }
    }
    if (op == 10) check_vtk<dim, range>(m);
    compare<dim, range>(m, r, 1e-8);
  }
}
template<int dim, int range> void r02(Src &s)
{
  const int n = s.i(2, dim == 3 ? 5 : 8);
  s.note("dim", dim);
  s.note("range", range);
  s.note("order", n);
  ImplReparamMesh<dim, range> m(n);
  REQUIRE_SIG(m.get_order() == n && m.get_num_cells() == 0 && m.get_num_points() == 0, "empty", "new mesh");
  Model<dim, range> r;
  bool merged = false;
  history<dim, range>(s, m, r, s.i(2, 12), false, merged);
  if (merged) s.nontrivial();
  if (merged) s.count("merged");
}
void r02_(Src &s)
{
  switch (s.i(0, 3)) {
    case 0: return r02<2, 2>(s);
    case 1: return r02<1, 2>(s);
    case 2: return r02<2, 3>(s);
    default: return r02<3, 3>(s);
  }
}
// ---------------------------------------------------------------- R01
// Elements are costly to set up: one per order.
template<int dim> const Element<dim> &element(int n)
{
  static std::map<int, Element<dim>> all;
  const auto it = all.find(n);
  return it != all.end() ? it->second : all.emplace(n, Element<dim>(n)).first->second;
}
// Accuracy expected of a reparameterization with n points per direction (none for curves replaced with lines).
double accuracy(int n, int dim, bool plane, bool singular)
{
  if (plane) return dim == 2 ? 1e-4 : 2e-3;
  const double a[] = { 10, 0.1, 0.06, 0.035, 0.02, 0.01, 0.01 };
  return singular ? 10 : a[n - 2] * (dim - 1);
}
// Cell of the grid a cell of the mesh belongs to, by the average of its nodes: one of the requested ones if it lies on a facet.
template<int dim> std::int64_t owner(const CartGridTP<dim> &g, const Point<dim> &x, const Ids &cells)
{
  std::array<std::vector<int>, dim> k;
  for (int i = 0; i < dim; ++i) {
    const auto &b = g.get_breaks(i);
    const double d = 1e-9 * (b.back() - b.front());
    for (int j = 0; j + 1 < static_cast<int>(b.size()); ++j)
      if (x(i) >= b[static_cast<std::size_t>(j)] - d && x(i) <= b[static_cast<std::size_t>(j) + 1] + d) k[i].push_back(j);
    if (k[i].empty()) return -1;
  }
  std::int64_t r = -1;
  std::array<std::size_t, dim> at{};
  while (true) {
    TensorIndexTP<dim> t;
    for (int i = 0; i < dim; ++i) t(i) = k[i][at[i]];
    r = g.to_flat(t);
    if (std::find(cells.begin(), cells.end(), r) != cells.end()) return r;
    int i = 0;
    while (i < dim && ++at[i] == k[i].size()) at[i++] = 0;
    if (i == dim) return r;
  }
}
template<int dim> struct Totals
{
  double measure{ 0 };
  std::array<double, dim> mom{};
};
// Checks of every cell of a mesh and totals per grid cell.
template<int dim, int range, typename F> std::map<std::int64_t, Totals<range>> cells_of(const ReparamMesh<dim, range> &m, const CartGridTP<range> &g, const Ids &cells, F check, double slack = 1e-9)
{
  std::map<std::int64_t, Totals<range>> r;
  const auto &e = element<dim>(m.get_order());
  const auto npc = m.get_num_points_per_cell();
  for (std::size_t c = 0; c < m.get_num_cells(); ++c) {
    const auto *ids = m.get_connectivity().data() + c * npc;
    Point<range> mean(0.0);
    for (std::size_t k = 0; k < npc; ++k)
      for (int i = 0; i < range; ++i) mean(i) += m.get_points()[ids[k]](i) / static_cast<double>(npc);
    const auto id = owner<range>(g, mean, cells);
    REQUIRE_SIG(id >= 0, "inside", "cell ", c, " lies outside of the grid");
    const auto box = g.get_cell_domain(id);
    for (std::size_t k = 0; k < npc; ++k)
      for (int i = 0; i < range; ++i) {
        const double x = m.get_points()[ids[k]](i), d = slack * length<range>(box, i);
        REQUIRE_SIG(x >= box.min(i) - d && x <= box.max(i) + d, "inside", "cell ", c, ": node ", str<range, real>(m.get_points()[ids[k]]), " outside of the cell ", id, " of the grid");
      }
    check(c, ids, id, box, local<dim, range>(e.mid, m.get_points(), ids));
    // A cell much thinner in its middle than the curves are resolved may fold there and have the opposite sign elsewhere.
    Totals<range> own;
    double lo = 0, hi = 0;
    for (const auto &q : e.q) {
      const auto l = local<dim, range>(q, m.get_points(), ids);
      own.measure += q.w * l.det;
      lo = std::min(lo, l.det);
      hi = std::max(hi, l.det);
      for (int i = 0; i < range; ++i) own.mom[i] += q.w * l.det * l.x(i);
    }
    const double sign = lo < 0 && hi > 0 && own.measure < 0 ? -1 : 1;
    auto &t = r[id];
    t.measure += sign * own.measure;
    for (int i = 0; i < range; ++i) t.mom[i] += sign * own.mom[i];
  }
  return r;
}
template<int dim> double volume(const BoundBox<dim> &b)
{
  double v = 1;
  for (int i = 0; i < dim; ++i) v *= length<dim>(b, i);
  return v;
}
// Wires lie on the boundary of the domain: each on two facets of a cell (3D), on one of them (2D), or on the level set.
template<int dim, int range> void check_wires(const ReparamMesh<dim, range> &m, const CartGridTP<range> &g, const Ids &cells, const ImplicitFunc<range> &f, double size)
{
  const auto n = static_cast<std::size_t>(m.get_order());
  const auto &W = m.get_wires_connectivity();
  for (std::size_t w = 0; w < W.size(); w += n) {
    Point<range> mean(0.0);
    for (std::size_t k = 0; k < n; ++k)
      for (int i = 0; i < range; ++i) mean(i) += m.get_points()[W[w + k]](i) / static_cast<double>(n);
    const auto id = owner<range>(g, mean, cells);
    REQUIRE_SIG(id >= 0, "wires", "a wire lies outside of the grid");
    const auto box = g.get_cell_domain(id);
    int facets = 0;
    bool zero = true;
    for (int fc = 0; fc < 2 * range; ++fc) {
      bool on = true;
      for (std::size_t k = 0; k < n; ++k) on = on && std::fabs(m.get_points()[W[w + k]](fc / 2) - (fc % 2 ? box.max(fc / 2) : box.min(fc / 2))) < 1e-9 * length<range>(box, fc / 2);
      facets += on;
    }
    for (std::size_t k = 0; k < n; ++k) {
      const auto &x = m.get_points()[W[w + k]];
      zero = zero && std::fabs(f(x)) <= 1e-8 * (scale_at<range>(f, box, x) + size);
    }
    REQUIRE_SIG(facets + (zero ? 1 : 0) >= range - 1, "wires-inside", "a wire around ", str<range, real>(mean), " is inside of the domain");
  }
  // All the edges of the cells that lie on the edges of a cell of the grid (3D), or on its facets (2D), are wires.
  if constexpr (dim > 1) {
    std::set<std::vector<std::size_t>> known;
    for (std::size_t w = 0; w < W.size(); w += n) {
      std::vector<std::size_t> l(W.begin() + static_cast<std::ptrdiff_t>(w), W.begin() + static_cast<std::ptrdiff_t>(w + n));
      std::sort(l.begin(), l.end());
      known.insert(l);
    }
    const auto np = m.get_num_points_per_cell();
    for (std::size_t k = 0; k < m.get_num_cells(); ++k)
      for (int along = 0; along < dim; ++along)
        for (int side = 0; side < (1 << (dim - 1)); ++side) {
          std::size_t start = 0, step = 1;
          for (int i = 0, st = 1, b = 0; i < dim; ++i, st *= static_cast<int>(n)) {
            if (i == along) step = static_cast<std::size_t>(st);
            else if (side >> b++ & 1) start += static_cast<std::size_t>(st) * (n - 1);
          }
          std::vector<std::size_t> l;
          Point<range> mean(0.0), first(0.0), last(0.0);
          for (std::size_t q = 0; q < n; ++q) {
            l.push_back(m.get_connectivity()[k * np + start + q * step]);
            const auto &x = m.get_points()[l.back()];
            for (int i = 0; i < range; ++i) mean(i) += x(i) / static_cast<double>(n);
            if (q == 0) first = x;
            last = x;
          }
          const auto id = owner<range>(g, mean, cells);
          if (id < 0) continue;
          const auto box = g.get_cell_domain(id);
          double ext = 0;
          for (int i = 0; i < range; ++i) ext = std::max(ext, std::fabs(first(i) - last(i)) / length<range>(box, i));
          if (ext < 1e-6) continue;
          int facets = 0;
          for (int fc = 0; fc < 2 * range; ++fc) {
            const double y = fc % 2 ? box.max(fc / 2) : box.min(fc / 2);
            facets += std::all_of(l.begin(), l.end(), [&](auto p) { return std::fabs(m.get_points()[p](fc / 2) - y) <= 4e-16 * std::max(1.0, std::fabs(y)); });
          }
          std::sort(l.begin(), l.end());
          if (facets >= range - 1) REQUIRE_SIG(known.count(l) > 0, "wires", "the edge of the cell ", k, " from ", str<range, real>(first), " to ", str<range, real>(last), " on the edges of the cell ", id, " of the grid is not a wire");
        }
  }
}
template<int dim, int range> void check_merged(const ReparamMesh<dim, range> &m, const ReparamMesh<dim, range> &u)
{
  check_ids<dim, range>(m);
  REQUIRE_SIG(m.get_connectivity().size() == u.get_connectivity().size() && m.get_num_points() <= u.get_num_points(), "merged", "sizes of the merged mesh");
  for (std::size_t k = 0; k < u.get_connectivity().size(); ++k) {
    const auto &a = m.get_points()[m.get_connectivity()[k]], &b = u.get_points()[u.get_connectivity()[k]];
    REQUIRE_SIG(dist<range>(a, b) <= 1e-10, "merged", "node ", k, " moves from ", str<range, real>(b), " to ", str<range, real>(a), " when merging");
  }
  std::vector<Point<range>> p = m.get_points();
  std::sort(p.begin(), p.end(), [](const auto &a, const auto &b) { return a(0) < b(0); });
  for (std::size_t i = 0; i < p.size(); ++i)
    for (std::size_t j = i + 1; j < p.size() && p[j](0) - p[i](0) < 1e-14; ++j) REQUIRE_SIG(dist<range>(p[i], p[j]) > 1e-14, "merged", "the point ", str<range, real>(p[i]), " is repeated");
}
// Nodes out of place. In 3D, or near to singular points, the library announces that it may fail to follow the surface where
// it is tangent to the lines it works along: some nodes out of place are accepted there, and those cells are left out.
struct Off
{
  bool some;
  std::size_t total{ 0 }, off{ 0 };
  std::string first;
  std::set<std::int64_t> cells;
  template<typename M> void add(bool ok, std::int64_t id, M message)
  {
    ++total;
    if (ok) return;
    if (!off++) first = message();
    cells.insert(id);
  }
  void check(Src &s) const
  {
    if (off) s.count("tangent");
    REQUIRE_SIG(off <= (some ? std::max<std::size_t>(8, total / 4) : 0), "nodes", off, " nodes of ", total, ": ", first);
  }
};
template<int dim> void volume_mesh(Src &s, const Case<dim> &c, const Ids &cells, int n, bool plane, bool merge)
{
  const auto m = qugar::impl::create_reparameterization<dim, false>(*c.d, cells, n, false);
  check_ids<dim, dim>(*m);
  Off off{ !plane && (dim == 3 || c.f.singular) };
  auto t = cells_of<dim, dim>(*m, *c.g, cells, [&](std::size_t k, const std::size_t *ids, std::int64_t id, const BoundBox<dim> &box, const Local<dim, dim> &l) {
    REQUIRE_SIG(l.det >= -1e-10 * volume<dim>(box), "orientation", "cell ", k, " has determinant ", l.det, " in its middle");
    REQUIRE_SIG(std::find(cells.begin(), cells.end(), id) != cells.end(), "cells", "cell ", k, " lies in the cell ", id, " of the grid, which is not requested");
    for (std::size_t q = 0; q < m->get_num_points_per_cell(); ++q) {
      const auto &x = m->get_points()[ids[q]];
      const double v = (*c.f.f)(x);
      off.add(v <= 1e-5 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), id, [&] { return pbt::cat("cell ", k, ": node ", str<dim, real>(x), " outside of the domain, value ", v); });
    }
  });
  off.check(s);
  if (off.cells.empty()) check_wires<dim, dim>(*m, *c.g, cells, *c.f.f, c.f.size);
  int left = dim == 2 ? 6 : 3;
  for (const auto id : cells) {
    const auto box = c.g->get_cell_domain(id);
    const double v = volume<dim>(box);
    const auto &got = t[id];
    if (c.d->is_full_cell(id)) REQUIRE_SIG(std::fabs(got.measure - v) < 1e-9 * v, "full", "full cell ", id, " has volume ", got.measure, " instead of ", v);
    if (c.d->is_empty_cell(id)) REQUIRE_SIG(got.measure == 0, "empty", "empty cell ", id, " has volume ", got.measure);
    if (!c.d->is_cut_cell(id) || off.cells.count(id) || left-- <= 0) continue;
    s.nontrivial();
    const auto ref = slices_cell<dim>(*c.f.f, box);
    double e = std::fabs(got.measure / v - ref.vol);
    for (int i = 0; i < dim; ++i) e = std::max(e, std::fabs((got.mom[i] - got.measure * box.min(i)) / v / length<dim>(box, i) - ref.mom[i]));
    REQUIRE_SIG(e <= accuracy(n, dim, plane, c.f.singular), "volume", "cell ", id, " has volume fraction ", got.measure / v, " with ", n, " points per direction instead of ", show<dim>(ref));
  }
  if (merge) {
    const auto mm = qugar::impl::create_reparameterization<dim, false>(*c.d, cells, n, true);
    check_merged<dim, dim>(*mm, *m);
    if (off.cells.empty()) check_wires<dim, dim>(*mm, *c.g, cells, *c.f.f, c.f.size);
  }
}
template<int dim> void surface_mesh(Src &s, const Case<dim> &c, const Ids &cells, int n, bool plane, bool merge)
{
  const auto m = qugar::impl::create_reparameterization<dim, true>(*c.d, cells, n, false);
  check_ids<dim - 1, dim>(*m);
  Off off{ !plane && (dim == 3 || c.f.singular) };
  auto t = cells_of<dim - 1, dim>(*m, *c.g, cells, [&](std::size_t k, const std::size_t *ids, std::int64_t id, const BoundBox<dim> &box, const Local<dim - 1, dim> &l) {
    REQUIRE_SIG(std::find(cells.begin(), cells.end(), id) != cells.end(), "cells", "cell ", k, " lies in the cell ", id, " of the grid, which is not requested");
    const auto g = c.f.f->grad(l.x);
    double a = 0, gg = 0, ext = 0;
    for (int i = 0; i < dim; ++i) {
      a += g(i) * l.normal(i);
      gg += g(i) * g(i);
      ext = std::max(ext, length<dim>(box, i));
    }
    if (l.det > 1e-8 && std::isfinite(l.det)) REQUIRE_SIG(a >= -1e-6 * std::sqrt(gg), "orientation", "surface cell ", k, " has its normal against the gradient");
    for (std::size_t q = 0; q < m->get_num_points_per_cell(); ++q) {
      const auto &x = m->get_points()[ids[q]];
      const double v = (*c.f.f)(x);
      off.add(std::fabs(v) <= 1e-5 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), id, [&] { return pbt::cat("surface cell ", k, ": node ", str<dim, real>(x), " off the level set, value ", v); });
    }
  });
  off.check(s);
  if (off.cells.empty()) check_wires<dim - 1, dim>(*m, *c.g, cells, *c.f.f, c.f.size);
  int left = dim == 2 ? 6 : 3;
  for (const auto id : cells) {
    const auto box = c.g->get_cell_domain(id);
    if (!c.d->is_cut_cell(id)) {
      REQUIRE_SIG(t[id].measure == 0, "uncut", "cell ", id, " is not cut and has ", t[id].measure, " of surface");
      continue;
    }
    if (off.cells.count(id) || left-- <= 0) continue;
    s.nontrivial();
    // Area of the surface from the unfitted-boundary quadrature (decided by Q02): weights and normals refer to the reference cell.
    const auto q = qugar::create_unfitted_bound_quadrature<dim>(*c.d, { id }, dim == 2 ? 10 : 8, true, false);
    double area = 0;
    for (std::size_t k = 0; k < q->points.size(); ++k) {
      double a = 0;
      for (int i = 0; i < dim; ++i) a += std::pow(q->normals[k](i) / length<dim>(box, i), 2);
      area += q->weights[k] * std::sqrt(a) * volume<dim>(box);
    }
    double face = 0;
    for (int i = 0; i < dim; ++i) face = std::max(face, volume<dim>(box) / length<dim>(box, i));
    const double e = std::fabs(t[id].measure - area) / face;
    REQUIRE_SIG(e <= (plane ? 1 : 3) * accuracy(n, dim, plane, c.f.singular), "area", "cell ", id, " has area ", t[id].measure, " with ", n, " points per direction instead of ", area);
  }
  if (merge) {
    const auto mm = qugar::impl::create_reparameterization<dim, true>(*c.d, cells, n, true);
    check_merged<dim - 1, dim>(*mm, *m);
  }
}
// Mesh of the part of a facet of a box inside of the domain.
template<int dim> void facet_mesh(Src &s, const Case<dim> &c, int id, int facet, int n, bool plane)
{
  const int dir = facet / 2;
  const auto box = c.g->get_cell_domain(id);
  const auto ref = slices_facet<dim>(*c.f.f, box, facet);
  const auto m = qugar::impl::reparam_general_facet<dim>(*c.f.f, box, facet, n);
  check_ids<dim - 1, dim>(*m);
  const double v = volume<dim>(box) / length<dim>(box, dir), at = facet % 2 ? box.max(dir) : box.min(dir);
  const Ids cells{ id };
  auto t = cells_of<dim - 1, dim>(*m, *c.g, cells, [&](std::size_t k, const std::size_t *ids, std::int64_t, const BoundBox<dim> &, const Local<dim - 1, dim> &l) {
    REQUIRE_SIG(l.normal(dir) * (facet % 2 ? 1 : -1) >= -1e-10, "orientation", "cell ", k, " of the facet has its normal inwards");
    for (std::size_t q = 0; q < m->get_num_points_per_cell(); ++q) {
      const auto &x = m->get_points()[ids[q]];
      REQUIRE_SIG(std::fabs(x(dir) - at) <= 1e-12 * length<dim>(box, dir), "facet", "cell ", k, ": node ", str<dim, real>(x), " off the facet");
      const double w = (*c.f.f)(x);
      REQUIRE_SIG(w <= 1e-5 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), "outside", "cell ", k, ": node ", str<dim, real>(x), " outside of the domain, value ", w);
    }
  });
  check_wires<dim - 1, dim>(*m, *c.g, cells, *c.f.f, c.f.size);
  const auto &got = t[id];
  double e = std::fabs(got.measure / v - ref.vol);
  for (int i = 0, k = 0; i < dim; ++i)
    if (i != dir) e = std::max(e, std::fabs((got.mom[i] - got.measure * box.min(i)) / v / length<dim>(box, i) - ref.mom[k++]));
  if (ref.vol > 0 && ref.vol < 1) s.nontrivial();
  s.count("facet");
  // In 2D the facet is a segment and its part in the domain is found exactly.
  REQUIRE_SIG(e <= (dim == 2 ? 1e-5 : accuracy(n, 2, plane, c.f.singular)), "facet measure", "facet ", facet, " has a fraction ", got.measure / v, " with ", n, " points per direction instead of ", show<dim - 1>(ref));
}
// Mesh of a box by itself: cut, or wholly inside or outside of the domain.
template<int dim> void box_mesh(Src &s, const Case<dim> &c, int id, bool surface, int n, bool plane)
{
  const auto box = c.g->get_cell_domain(id);
  const auto *bzr = dynamic_cast<const qugar::impl::BezierTP<dim, 1> *>(c.f.f.get());
  const double v = volume<dim>(box);
  const Ids cells{ id };
  const bool cut = c.d->is_cut_cell(id);
  s.count(cut ? "cut box" : c.d->is_full_cell(id) ? "full box" : "empty box");
  const auto make = [&]<bool S>() {
    if (!bzr) return qugar::impl::reparam_general<dim, S>(*c.f.f, box, n);
    qugar::impl::BezierTP<dim, 1> b(*bzr);
    b.rescale_domain(box);
    return qugar::impl::reparam_Bezier<dim, S>(b, box, n);
  };
  Off off{ !plane && (dim == 3 || c.f.singular) };
  if (surface) {
    const auto m = make.template operator()<true>();
    check_ids<dim - 1, dim>(*m);
    auto t = cells_of<dim - 1, dim>(*m, *c.g, cells, [&](std::size_t k, const std::size_t *ids, std::int64_t, const BoundBox<dim> &, const auto &) {
      for (std::size_t q = 0; q < m->get_num_points_per_cell(); ++q) {
        const auto &x = m->get_points()[ids[q]];
        const double w = (*c.f.f)(x);
        off.add(std::fabs(w) <= 1e-5 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), id, [&] { return pbt::cat("surface cell ", k, ": node ", str<dim, real>(x), " off the level set, value ", w); });
      }
    });
    off.check(s);
    if (!cut) REQUIRE_SIG(t[id].measure == 0, "uncut", "the box ", id, " is not cut and has ", t[id].measure, " of surface");
    s.nontrivial();
    return;
  }
  const auto m = make.template operator()<false>();
  check_ids<dim, dim>(*m);
  auto t = cells_of<dim, dim>(*m, *c.g, cells, [&](std::size_t k, const std::size_t *ids, std::int64_t, const BoundBox<dim> &, const auto &) {
    for (std::size_t q = 0; q < m->get_num_points_per_cell(); ++q) {
      const auto &x = m->get_points()[ids[q]];
      const double w = (*c.f.f)(x);
      off.add(w <= 1e-5 * (scale_at<dim>(*c.f.f, box, x) + c.f.size), id, [&] { return pbt::cat("cell ", k, ": node ", str<dim, real>(x), " outside of the domain, value ", w); });
    }
  });
  off.check(s);
  const auto &got = t[id];
  if (c.d->is_empty_cell(id)) REQUIRE_SIG(std::fabs(got.measure) < 1e-9 * v, "empty", "the empty box ", id, " has volume ", got.measure);
  if (c.d->is_full_cell(id)) REQUIRE_SIG(std::fabs(got.measure - v) < 1e-9 * v, "full", "the full box ", id, " has volume ", got.measure, " instead of ", v);
  s.nontrivial();
  if (!cut || off.cells.count(id)) return;
  const auto ref = slices_cell<dim>(*c.f.f, box);
  REQUIRE_SIG(std::fabs(got.measure / v - ref.vol) <= accuracy(n, dim, plane, c.f.singular), "volume", "the box ", id, " has volume fraction ", got.measure / v, " with ", n, " points per direction instead of ", show<dim>(ref));
}
template<int dim> Case<dim> half_space(Src &s)
{
  Case<dim> c;
  std::array<int, dim> n;
  c.n_cells = 1;
  for (int i = 0; i < dim; ++i) c.n_cells *= n[i] = s.i(1, dim == 2 ? 3 : 2);
  const double lo = s.generic(-1.0, 0.0), hi = s.generic(0.5, 1.5);
  c.g = grid<dim>(s, n, lo, hi);
  Point<dim> o, v;
  for (int i = 0; i < dim; ++i) {
    o(i) = lo + s.generic(0.05, 0.95) * (hi - lo);
    v(i) = s.generic(0.05, 1) * s.sgn();
  }
  if (s.coin())
    c.f.f = std::make_shared<qugar::impl::funcs::PlaneBzr<dim>>(o, v);
  else
    c.f.f = std::make_shared<qugar::impl::funcs::Plane<dim>>(o, v);
  c.f.name = pbt::cat("half-space(", str<dim, real>(o), ",", str<dim, real>(v), ")");
  s.note("f", c.f.name);
  s.note("grid", grid_str<dim>(*c.g));
  c.d = std::make_shared<const Dom<dim>>(c.f.f, c.g);
  s.count("half-space");
  return c;
}
// Quadrics that touch the lines of the grid, or have their centers or extrema on them: the parts may be wrong there, as the
// library announces, but its meshes are well formed.
template<int dim> void touching(Src &s)
{
  Case<dim> c;
  std::array<std::vector<real>, dim> b;
  Point<dim> o, r;
  const bool ball = s.coin(), bzr = s.chance(2, 3);
  for (int i = 0; i < dim; ++i) r(i) = ball && i > 0 ? r(0) : s.pick<double>({ 0.125, 0.25, 0.375, 0.5, 0.75, 1.0 });
  c.n_cells = 1;
  for (int i = 0; i < dim; ++i) {
    o(i) = s.pick<double>({ 0, 0.25, 0.5, 0.75, 1 });
    // The break is where the quadric has its extremum, its center, or any other place.
    const double x = s.pick<double>({ o(i) - r(i), o(i) + r(i), o(i), 0.5, 0.25, s.generic(0.1, 0.9) });
    b[i] = { 0 };
    if (x > 0.05 && x < 0.95 && s.chance(3, 4)) b[i].push_back(x);
    b[i].push_back(1);
    c.n_cells *= static_cast<int>(b[i].size()) - 1;
  }
  c.g = std::make_shared<const CartGridTP<dim>>(b);
  const double sign = s.sgn();
  if (ball && bzr)
    c.f.f = std::make_shared<qugar::impl::funcs::SphereBzr<dim>>(r(0), o);
  else if (ball)
    c.f.f = std::make_shared<qugar::impl::funcs::Sphere<dim>>(r(0), o);
  else if (bzr)
    c.f.f = std::make_shared<qugar::impl::funcs::EllipsoidBzr<dim>>(r, qugar::impl::RefSystem<dim>(o));
  else
    c.f.f = std::make_shared<qugar::impl::funcs::Ellipsoid<dim>>(r, qugar::impl::RefSystem<dim>(o));
  const bool neg = !bzr && sign < 0;
  if (neg) c.f.f = std::make_shared<qugar::impl::funcs::Negative<dim>>(c.f.f);
  const int n = s.i(2, dim == 2 ? 6 : 3);
  const bool surface = s.coin();
  s.note("touching", pbt::cat(neg ? "-" : "", bzr ? "Bezier " : "", "quadric of center ", str<dim, real>(o), " and radii ", str<dim, real>(r)));
  s.note("grid", grid_str<dim>(*c.g));
  s.note("n", n);
  s.note("mesh", surface ? "surface" : "volume");
  c.d = std::make_shared<const Dom<dim>>(c.f.f, c.g);
  Ids cells;
  for (int i = 0; i < c.n_cells; ++i) cells.push_back(i);
  s.count("touching");
  s.nontrivial();
  const auto none = [](const auto &...) {};
  if (surface) {
    const auto m = qugar::impl::create_reparameterization<dim, true>(*c.d, cells, n, s.coin());
    check_ids<dim - 1, dim>(*m);
    cells_of<dim - 1, dim>(*m, *c.g, cells, none, 1e-6);
  } else {
    const auto m = qugar::impl::create_reparameterization<dim, false>(*c.d, cells, n, s.coin());
    check_ids<dim, dim>(*m);
    const auto t = cells_of<dim, dim>(*m, *c.g, cells, none, 1e-6);
    for (const auto &[id, got] : t) {
      const double v = volume<dim>(c.g->get_cell_domain(id));
      if (c.d->is_full_cell(id)) REQUIRE_SIG(std::fabs(got.measure - v) < 1e-9 * v, "full", "full cell ", id, " has volume ", got.measure, " instead of ", v);
      REQUIRE_SIG(!c.d->is_empty_cell(id), "empty", "empty cell ", id, " is in the mesh");
      if (!c.d->is_cut_cell(id) || n == 2 || (dim == 2 && !bzr)) continue;
      const auto ref = slices_cell<dim>(*c.f.f, c.g->get_cell_domain(id));
      REQUIRE_SIG(std::fabs(got.measure / v - ref.vol) <= (dim == 2 ? 0.2 : 0.3), "volume", "cell ", id, " has volume fraction ", got.measure / v, " with ", n, " points per direction instead of ", show<dim>(ref));
    }
  }
}
template<int dim> void r01(Src &s)
{
  // The library tells the points of the surface by an absolute tolerance for the values of the functions: those of tiny values
  // go apart (a known finding, regarding the wires only).
  const bool plane = s.chance(1, 5), tiny = !plane && s.chance(1, 20);
  auto c = plane ? half_space<dim>(s) : amplified<dim>(s, domain<dim>(s, dim == 2 ? 9 : 4), tiny ? -45 : -8, tiny ? -36 : 45);
  const bool is_tiny = tiny && c.f.size < 1e-9;
  // Tori of the size of the cells or less are not resolved.
  if (c.f.name.find("torus") != std::string::npos) throw pbt::Discard{};
  const int n = s.i(2, dim == 2 ? 8 : 4);
  s.note("n", n);
  const int kind = s.i(0, 6), id = s.i(0, c.n_cells - 1), facet = s.i(0, 2 * dim - 1);
  const bool merge = s.chance(1, 3);
  s.note("mesh", kind == 0 ? pbt::cat("facet ", facet, " of ", id) : kind > 4 ? pbt::cat(kind == 5 ? "volume" : "surface", " of the box ", id) : kind % 2 ? "volume" : "surface");
  // Distinct cells, in any order.
  Ids cells;
  const bool all = s.coin();
  for (int i = 0; i < c.n_cells; ++i)
    if (all || s.chance(3, 4)) cells.push_back(i);
  for (std::size_t q = cells.size(); q > 1; --q) std::swap(cells[q - 1], cells[static_cast<std::size_t>(s.raw(q - 1))]);
  const auto run = [&] {
    if (kind == 0)
      facet_mesh<dim>(s, c, id, facet, n, plane);
    else if (kind > 4)
      box_mesh<dim>(s, c, id, kind == 6, n, plane);
    else if (kind % 2)
      volume_mesh<dim>(s, c, cells, n, plane, merge);
    else
      surface_mesh<dim>(s, c, cells, n, plane, merge);
  };
  try {
    run();
  } catch (const pbt::Fail &e) {
    if (is_tiny && e.sig == "wires-inside") throw pbt::Fail{ "wires-of-tiny-functions", e.msg };
    // The library announces that it may fail in corner cases (surfaces tangent to the lines it works along, or nearly so):
    // what fails has to fail for a slightly different grid too.
    if (plane) throw;
    s.count("corner case");
    const auto g = c.g;
    for (const double e : { 0.003, 0.0071 }) {
      std::array<std::vector<real>, dim> b;
      for (int i = 0; i < dim; ++i)
        for (const double x : g->get_breaks(i)) {
          const double lo = g->get_breaks(i).front(), hi = g->get_breaks(i).back();
          b[i].push_back((lo + hi) / 2 + (x - (lo + hi) / 2) * (1 - e) + (hi - lo) * e * (0.3 - 0.2 * i));
        }
      c.g = std::make_shared<const CartGridTP<dim>>(b);
      c.d = std::make_shared<const Dom<dim>>(c.f.f, c.g);
      try {
        run();
      } catch (const pbt::Fail &) {
        if (e > 0.005) throw;
        continue;
      }
      return;
    }
  }
}
void r01_(Src &s)
{
  if (s.chance(1, 6)) {
    if (s.coin())
      touching<3>(s);
    else
      touching<2>(s);
  } else if (s.chance(1, 5))
    r01<3>(s);
  else
    r01<2>(s);
}
const pbt::Reg r1("R01", r01_, 3000, 40000, 120);
const pbt::Reg r2("R02", r02_, 40000, 1000000);
}// namespace
