"""V01: the visualization data sets of grids, domains, quadratures and reparameterizations, on the real extension and a stand-in of PyVista."""
import enum, itertools, sys, types
import env, bindings
import numpy as np
import basix
from pbt import Discard, main, prop, require
Q = bindings.load()
# ---------------------------------------------------------------- PyVista
pv = types.ModuleType("pyvista")
class CellType(enum.IntEnum):
    VERTEX, LINE, PIXEL, QUAD, VOXEL, HEXAHEDRON, LAGRANGE_CURVE, LAGRANGE_QUADRILATERAL, LAGRANGE_HEXAHEDRON = 1, 3, 8, 9, 11, 12, 68, 70, 72
class Data(dict):
    """Arrays with one row per cell."""
    def __init__(self, n):
        super().__init__()
        self.n = n
    def __setitem__(self, k, v):
        v = np.array(v)
        if v.ndim == 0:
            v = np.full(self.n, v)
        if len(v) != self.n:
            raise ValueError(f"Invalid array shape. Array '{k}' has length ({len(v)}) but a length of ({self.n}) was expected.")
        super().__setitem__(k, v)
    def set_array(self, v, k):
        self[k] = v
    def update(self, other):
        for k, v in other.items():
            self[k] = v
class DataSet:
    """Cells as tuples of coordinates, in order."""
    def __init__(self, types_, cells, points):
        self.celltypes, self._cells, self.points = np.array(types_, dtype=np.uint8), [list(c) for c in cells], np.asarray(points)
        if self.points.ndim != 2 or self.points.shape[1] != 3:
            raise ValueError("Given points must be a 2D array with 3 coordinates")
        for c in self._cells:
            if any(not 0 <= k < len(self.points) for k in c):
                raise ValueError("a cell refers to points that do not exist")
        self.cell_data = Data(len(self._cells))
        self.point_data = Data(len(self.points))
    @property
    def n_cells(self):
        return len(self._cells)
    number_of_cells = n_cells
    @property
    def n_points(self):
        return len(self.points)
    def corners(self, k):
        return self.points[self._cells[k]]
    def _take(self, ids, cls=None):
        out = UnstructuredGrid.__new__(UnstructuredGrid)
        DataSet.__init__(out, [self.celltypes[k] for k in ids], [self._cells[k] for k in ids], self.points)
        for k, v in self.cell_data.items():
            out.cell_data[k] = v[list(ids)]
        return out
    def extract_cells(self, ind, invert=False, **k):
        ind = np.asarray(ind)
        ids = set((np.flatnonzero(ind) if ind.dtype == bool else ind).tolist())
        if any(not 0 <= c < self.n_cells for c in ids):
            raise IndexError("cells that do not exist")
        if invert:
            ids = set(range(self.n_cells)) - ids
        return self._take(sorted(ids))
    def threshold(self, value=None, scalars=None, invert=False, **k):
        v = self.cell_data[scalars].astype(float)
        ok = (v >= value) if np.isscalar(value) else (v >= value[0]) & (v <= value[1])
        return self._take(np.flatnonzero(ok != invert).tolist())
    def copy(self, deep=True):
        return self._take(range(self.n_cells))
    def cast_to_unstructured_grid(self):
        return self._take(range(self.n_cells))
    def explode(self, factor=0.1):
        out = self._take(range(self.n_cells))
        pts, cells = [], []
        c0 = self.points.mean(axis=0) if self.n_points else 0
        for c in self._cells:
            cells.append(list(range(len(pts), len(pts) + len(c))))
            p = self.points[c]
            pts += (p + factor * (p.mean(axis=0) - c0)).tolist()
        out.points, out._cells, out.exploded = np.array(pts).reshape(-1, 3), cells, True
        return out
    def _sides(self, dim):
        if not getattr(self, "exploded", False):
            raise NotImplementedError("sides of cells that are connected")
        sides, parents = [], []
        for k, c in enumerate(self._cells):
            x = self.points[c]
            lo, hi = x.min(axis=0), x.max(axis=0)
            for f in FACE_ORDER[dim]:
                d, side = f // 2, f % 2
                sides.append([i for i, q in zip(c, x) if q[d] == (hi if side else lo)[d]])
                parents.append(k)
        out = PolyData.__new__(PolyData)
        DataSet.__init__(out, [CellType.LINE if dim == 2 else CellType.QUAD] * len(sides), sides, self.points)
        for k, v in self.cell_data.items():
            out.cell_data[k] = v[parents]
        return out
    def extract_all_edges(self, **k):
        return self._sides(2)
    def extract_surface(self, **k):
        return self._sides(3)
# The order of the faces of a cell, as lexicg_to_VTK_faces has it: lexicographic face of every VTK face.
FACE_ORDER = {2: [2, 1, 3, 0], 3: [2, 4, 0, 1, 3, 5]}
class UnstructuredGrid(DataSet):
    def __init__(self, cells, celltypes, points, deep=True):
        flat, out, k = np.asarray(cells).reshape(-1).tolist(), [], 0
        while k < len(flat):
            out.append(flat[k + 1:k + 1 + flat[k]])
            if len(out[-1]) != flat[k]:
                raise ValueError("incomplete cell")
            k += 1 + flat[k]
        if len(out) != len(celltypes):
            raise ValueError(f"{len(out)} cells and {len(celltypes)} types of cells")
        super().__init__(celltypes, out, points)
class PolyData(DataSet):
    pass
class RectilinearGrid(DataSet):
    def __init__(self, *breaks):
        b = [np.asarray(v, dtype=np.float64) for v in breaks]
        dim = len(b)
        b += [np.zeros(1)] * (3 - dim)
        pts = np.array([(x, y, z) for z in b[2] for y in b[1] for x in b[0]])
        n = [len(v) for v in b]
        at = lambda i, j, k: i + n[0] * (j + n[1] * k)
        cells = []
        for idx in itertools.product(*[range(n[d] - 1) for d in reversed(range(dim))]):
            i = list(reversed(idx)) + [0] * (3 - dim)
            cells.append([at(*[i[d] + (o[d] if d < dim else 0) for d in range(3)]) for o in [tuple(reversed(t)) for t in itertools.product((0, 1), repeat=dim)]])
        super().__init__([[CellType.LINE, CellType.PIXEL, CellType.VOXEL][dim - 1]] * len(cells), cells, pts)
class MultiBlock(dict):
    pass
for v in (CellType, UnstructuredGrid, PolyData, RectilinearGrid, MultiBlock, DataSet):
    setattr(pv, v.__name__, v)
pv.Grid = DataSet
pv.__version__ = "0.44.0"
sys.modules["pyvista"] = pv
import qugar.utils
qugar_utils = sys.modules["qugar.utils"]
qugar_utils.has_PyVista = env.qugar.has_PyVista = True
dplot = env.mod("dolfinx.plot")
dplot.vtk_mesh = lambda m, *a: m.vtk
import qugar.plot.pyvista_tools as V
import qugar.impl.impl_function as F
from qugar.mesh.unfitted_cart_mesh import create_unfitted_impl_Cartesian_mesh
from qugar.mesh.tp_mesh import CartesianMesh
import qugar.reparam.reparam as RP
from h_mesh import positions
REF = {d: [tuple(np.round(basix.geometry(CT)[v].mean(axis=0), 6).tolist()) for v in basix.topology(CT)[d - 1]] for d, CT in ((2, basix.CellType.quadrilateral), (3, basix.CellType.hexahedron))}
def lex_centre(dim, f):
    return tuple(float(f % 2) if k == f // 2 else 0.5 for k in range(dim))
LEX, DLF = "Lexicographical cell ids", ("DOLFINx local cell ids", "DOLFINx global cell ids")
LEXF, DLFF = "Lexicographical local facets ids", "DOLFINx local facets ids"
CELLST, FACETST = "Cell status (0: full, 1: cut, 2: empty)", "Facet status (0: full, 1: cut, 2: empty)"

@prop("V01", 1200, 40000, 60)
def v01(s):
    env.Scratch.src = s
    dim = 2 if s.chance(2, 3) else 3
    n = [s.i(1, 4 if dim == 2 else 2) for _ in range(dim)]
    lo = [s.pick([0.0, -0.5, 0.25]) for _ in range(dim)]
    hi = [a + s.pick([1.0, 0.5, 2.0]) for a in lo]
    mid, ext = (np.array(lo) + hi) / 2, np.array(hi) - lo
    what = s.i(0, 4)
    if dim == 2 and what in (2, 3) and s.chance(1, 3):
        # A cross of two planes, one of them along a line of the grid: both cut facets and facets on the unfitted boundary.
        d, e = s.shuffled(range(dim))[:2]
        a, b = np.linspace(lo[d], hi[d], n[d] + 1)[s.raw(n[d])], lo[e] + s.real(0.1, 0.9) * ext[e]
        f = F.create_dim_linear([float((k >> d & 1) - a) * float((k >> e & 1) - b) for k in range(2 ** dim)])
        s.note("cross", f"{d} {a} {e} {b}")
    elif s.coin():
        o, nv = mid + np.array([s.real(-0.5, 0.5) for _ in range(dim)]) * ext, np.array([s.real(-1, 1) for _ in range(dim)])
        if s.chance(1, 3):
            nv = np.eye(dim)[s.raw(dim - 1)] * s.pick([1.0, -1.0])
            if s.coin():
                d = int(np.argmax(np.abs(nv)))
                o[d] = np.linspace(lo[d], hi[d], n[d] + 1)[s.raw(n[d])]
        elif np.linalg.norm(nv) < 0.2:
            nv[0] += 1
        f = (F.create_line if dim == 2 else F.create_plane)(o, nv, s.coin())
        s.note("half space", f"{o.tolist()} {nv.tolist()}")
    else:
        c, R = mid + np.array([s.real(-0.5, 0.5) for _ in range(dim)]) * ext, s.real(0.2, 0.8)
        f = (F.create_disk if dim == 2 else F.create_sphere)(R, c, s.coin())
        s.note("ball", f"{c.tolist()} {R}")
    if s.chance(1, 4):
        f = F.create_negative(f)
    python = s.coin()
    excl = s.chance(2, 3)
    if python:
        dom = create_unfitted_impl_Cartesian_mesh(env.Comm(), f, n, np.array(lo), np.array(hi), exclude_empty_cells=excl)
        unf, grid = dom.cpp_unf_domain_object, dom.cart_grid_tp_cpp_object
        if not dom.num_local_cells:
            raise Discard()
        orig = np.asarray(dom._cpp_object.topology.original_cell_index)
        active = np.asarray(dom.original_active_cells) if dom.has_inactive_cells else np.arange(unf.num_total_cells)
        local = {int(active[o]): k for k, o in enumerate(orig)}  # lexicographic cell -> DOLFINx cell
        require(len(local) == len(active), "cells of the mesh")
    else:
        grid = Q.create_cart_grid([np.linspace(lo[d], hi[d], n[d] + 1) for d in range(dim)])
        unf = dom = Q.create_unfitted_impl_domain(f.cpp_object, grid)
        active = np.arange(unf.num_total_cells)
        local = {int(k): None for k in active}
    breaks = [np.linspace(lo[d], hi[d], n[d] + 1) for d in range(dim)]
    s.note("", f"dim {dim} cells {n} box {lo} {hi} python {python} without empty cells {excl}")
    cut, full = set(unf.get_cut_cells().tolist()), set(unf.get_full_cells().tolist())
    status = {int(k): 1 if k in cut else 0 if k in full else 2 for k in range(unf.num_total_cells)}
    if cut:
        s.nontrivial()
    def box(c):
        a = []
        for d in range(dim):
            a.append(c % n[d])
            c //= n[d]
        return np.array([breaks[d][a[d]] for d in range(dim)]), np.array([breaks[d][a[d] + 1] for d in range(dim)])
    def same_box(x, c):
        a, b = box(c)
        x = np.asarray(x)
        return np.allclose(x[:, :dim].min(axis=0), a, atol=1e-12) and np.allclose(x[:, :dim].max(axis=0), b, atol=1e-12) and np.all(x[:, dim:] == 0)
    def ids(g, name):
        """The numbers the cells of a data set carry agree with each other."""
        lex = np.asarray(g.cell_data[LEX])
        if python:
            for k in DLF:
                require(np.array_equal(g.cell_data[k], [local.get(int(c), -2) for c in lex]), k + " of " + name, g.cell_data[k], lex, local)
        else:
            require(not any(k in g.cell_data for k in DLF), "DOLFINx cells without a mesh", name)
        return lex
    s.count(["grid", "domain", "quadrature", "facets", "reparameterization"][what])
    if what == 0:
        g = V.cart_grid_tp_to_PyVista(dom if python else grid)
        lex = ids(g, "a grid")
        require(sorted(lex.tolist()) == sorted(active.tolist()) == lex.tolist() or set(lex.tolist()) == set(active.tolist()), "cells of a grid", lex, active)
        for k, c in enumerate(lex):
            require(same_box(g.corners(k), int(c)), "position of a cell of a grid", int(c), g.corners(k).tolist())
    elif what == 1:
        flags = {"cut": s.coin(), "full": s.coin(), "empty": s.coin()}
        kw = dict(flags)
        for k, v in (("cut", True), ("full", True), ("empty", False)):
            if flags[k] == v and s.coin():
                del kw[k]
        g = V.unfitted_domain_to_PyVista(dom, **kw)
        lex = ids(g, "a domain")
        want = {c for c in map(int, active) if flags[["full", "cut", "empty"][status[c]]]}
        require(len(lex) == len(want) and set(lex.tolist()) == want, "cells of a domain", flags, "cells", sorted(lex.tolist()), "expected", sorted(want))
        for k, c in enumerate(lex.tolist()):
            require(same_box(g.corners(k), c), "position of a cell of a domain", c, g.corners(k).tolist())
            require(g.cell_data[CELLST][k] == status[c], "status of a cell", c, int(g.cell_data[CELLST][k]), "expected", status[c])
    elif what == 2:
        m = s.i(1, 4)
        out = V.quadrature_to_PyVista(dom, **({} if m == 4 and s.coin() else dict(n_pts_dir=m)))
        require(set(out.keys()) == {"Cut cells quadrature", "Unfitted boundary quadrature", "Cut/unfitted facets quadrature"}, "data sets of a quadrature", list(out.keys()))
        def rows(q, cells, lift, facets=None, normals=None):
            r, at = [], 0
            for k, (c, m_) in enumerate(zip(np.asarray(cells).tolist(), np.asarray(q.n_pts_per_entity).tolist())):
                a, b = box(c)
                for i in range(at, at + m_):
                    x = a + lift(np.asarray(q.points)[i], None if facets is None else int(facets[k])) * (b - a)
                    r.append((c, -1 if facets is None else int(facets[k]), *np.round(x, 9).tolist(), float(np.asarray(q.weights)[i]), *(np.asarray(normals)[i].tolist() if normals is not None else ())))
                at += m_
            return r
        def compare(g, want, name, facets=False, normals=False):
            lex = ids(g, name)
            got = []
            require(g.n_cells == len(want), "points of the " + name, g.n_cells, len(want))
            for k in range(g.n_cells):
                x = g.corners(k)
                require(g.celltypes[k] == CellType.VERTEX and x.shape == (1, 3) and np.all(x[0, dim:] == 0), "a point of the " + name, x)
                nrm = np.asarray(g.cell_data["Normals"][k]).tolist() if normals else []
                require(not any(nrm[dim:]), "normals of the " + name, nrm)
                got.append((int(lex[k]), int(g.cell_data[LEXF][k]) if facets else -1, *np.round(x[0, :dim], 9).tolist(), float(g.cell_data["Weights"][k]), *nrm[:dim]))
            a, b = np.array(sorted(got), dtype=np.float64), np.array(sorted(want), dtype=np.float64)
            require(a.shape == b.shape and (not a.size or np.allclose(a, b, atol=1e-7)), "points of the " + name, a[:4].tolist(), "expected", b[:4].tolist())
            if facets and python:
                for k, fl in enumerate(g.cell_data[LEXF]):
                    require(REF[dim][int(g.cell_data[DLFF][k])] == lex_centre(dim, int(fl)), "DOLFINx facets of the " + name, int(fl), int(g.cell_data[DLFF][k]))
        cc = unf.get_cut_cells()
        ident = lambda p, f_: p
        q = Q.create_quadrature(unf, cc, m)
        compare(out["Cut cells quadrature"], rows(q, cc, ident), "quadrature of the cut cells")
        q = Q.create_unfitted_bound_quadrature(unf, cc, m, True, True)
        compare(out["Unfitted boundary quadrature"], rows(q, cc, ident, normals=q.normals), "quadrature of the unfitted boundary", normals=len(q.weights) > 0)
        def lift(p, fl):
            p = p.tolist()
            p.insert(fl // 2, float(fl % 2))
            return np.array(p)
        want, both = [], 0
        for get in (unf.get_cut_facets, unf.get_unf_bdry_facets):
            fc, fl = get()
            both += len(fc) > 0
            want += rows(Q.create_facets_quadrature_exterior_integral(unf, fc, fl, m), fc, lift, facets=fl)
        if both == 2:
            s.count("cut facets and facets on the boundary")
        compare(out["Cut/unfitted facets quadrature"], want, "quadrature of the facets", facets=True)
    elif what == 3:
        flags = {"cut": s.coin(), "full": s.coin(), "empty": s.coin()}
        kw = dict(flags)
        for k, v in (("cut", True), ("full", True), ("empty", False)):
            if flags[k] == v and s.coin():
                del kw[k]
        want = {}
        for st, (k, get) in enumerate((("full", dom.get_full_facets), ("cut", dom.get_cut_facets), ("empty", dom.get_empty_facets))):
            if not flags[k]:
                continue
            r = get()
            if python:
                lex_of = {v: k_ for k_, v in local.items()}
                pairs = [(lex_of[int(c)], next(f_ for f_ in range(2 * dim) if lex_centre(dim, f_) == REF[dim][int(j)])) for c, j in zip(r.cell_ids, r.local_facet_ids)]
            else:
                pairs = list(zip(r[0].tolist(), r[1].tolist()))
            for p in pairs:
                want[p] = st
        g = V.unfitted_domain_facets_to_PyVista(dom, **kw)
        lex = ids(g, "the facets")
        require(g.n_cells == len(want), "facets of a domain", flags, g.n_cells, len(want))
        seen = set()
        for k, c in enumerate(lex.tolist()):
            fl = int(g.cell_data[LEXF][k])
            x = g.corners(k)[:, :dim]
            a, b = box(c)
            d = fl // 2
            require(np.allclose(x[:, d], b[d] if fl % 2 else a[d]) and np.allclose(np.delete(x.min(axis=0), d), np.delete(a, d)) and np.allclose(np.delete(x.max(axis=0), d), np.delete(b, d)),
                    "position of a facet", c, fl, x.tolist())
            require((c, fl) in want and (c, fl) not in seen, "a facet of a domain", c, fl, flags)
            seen.add((c, fl))
            require(g.cell_data[FACETST][k] == want[c, fl], "status of a facet", c, fl, int(g.cell_data[FACETST][k]), want[c, fl])
            require(g.cell_data[CELLST][k] == status[c], "status of the cell of a facet", c, int(g.cell_data[CELLST][k]), status[c])
            if python:
                require(REF[dim][int(g.cell_data[DLFF][k])] == lex_centre(dim, fl), "DOLFINx facets", fl, int(g.cell_data[DLFF][k]))
    else:
        p = s.i(1, 4 if dim == 2 else 3)
        levelset = s.coin()
        r = (Q.create_reparameterization_levelset if levelset else Q.create_reparameterization)(unf, p + 1, s.coin())
        tdim = dim - 1 if levelset else dim
        if python and s.coin():
            # Through DOLFINx: whatever it gives for the mesh and its wirebasket.
            rp = RP.UnfDomainReparamMesh.__new__(RP.UnfDomainReparamMesh)
            made = []
            def create_mesh(wirebasket=False):
                made.append(wirebasket)
                return types.SimpleNamespace(vtk=(np.array([2, 0, 1] if wirebasket else [1, 0]), np.array([3 if wirebasket else 1], dtype=np.uint8), np.array([[wirebasket, 0, 0], [1, 2, 3]], dtype=float)))
            rp.create_mesh = create_mesh
            out = V.reparam_mesh_to_PyVista(rp)
            require(sorted(out.keys()) == ["reparam", "wirebasket"], "data sets of a reparameterization", list(out.keys()))
            require(out["reparam"].celltypes.tolist() == [1] and out["wirebasket"].celltypes.tolist() == [3], "meshes of a reparameterization", made)
            return
        out = V.reparam_mesh_to_PyVista(r)
        require(sorted(out.keys()) == ["reparam", "wirebasket"], "data sets of a reparameterization", list(out.keys()))
        for name, conn, t in (("reparam", np.asarray(r.cells_conn), tdim), ("wirebasket", np.asarray(r.wirebasket_conn), 1)):
            g = out[name]
            types_ = [[CellType.LINE, CellType.QUAD, CellType.HEXAHEDRON], [CellType.LAGRANGE_CURVE, CellType.LAGRANGE_QUADRILATERAL, CellType.LAGRANGE_HEXAHEDRON]][p > 1]
            require(g.n_cells == len(conn) and all(k == types_[t - 1] for k in g.celltypes), "cells of a reparameterization", name, g.n_cells, len(conn), g.celltypes[:3])
            lexp = {q: i for i, q in enumerate(positions("lex", t, p))}
            idx = [lexp[q] for q in positions("vtk", t, p)]
            X = np.zeros((len(r.points), 3))
            X[:, :dim] = r.points
            for k in range(len(conn)):
                require(np.array_equal(g.corners(k), X[conn[k][idx]]), "nodes of a cell of a reparameterization", name, "degree", p, "dimension", t)
if __name__ == "__main__":
    sys.exit(main())
