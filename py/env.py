"""Makes the Python modules of the repository importable where FEniCSx, PETSc and the compiled extension are not.

The packages qugar and qugar.dolfinx are registered without running their __init__. The missing libraries are replaced by
stand-ins: any attribute of them exists as a placeholder class, and what the modules under test really use is written out
below from the documented behaviour of the libraries. basix, numpy and cffi-free code are the real ones.
"""
import importlib.abc, importlib.machinery, os, sys, types
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = REPO + "/python/qugar"
FAKES = {"dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "scipy", "cffi"}

class Placeholder:
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k
class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = type(name, (Placeholder,), {"__module__": self.__name__})
        setattr(self, name, v)
        return v
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in FAKES or name == "qugar.cpp":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        m = FakeModule(spec.name)
        m.__path__ = []
        return m
    def exec_module(self, module):
        pass
sys.meta_path.insert(0, Finder())
sys.dont_write_bytecode = True
def mod(name):
    """The stand-in of a module, reachable as an attribute of its parents."""
    __import__(name)
    return sys.modules[name]
for name, path in (("qugar", ROOT), ("qugar.dolfinx", ROOT + "/dolfinx")):
    m = types.ModuleType(name)
    m.__path__ = [path]
    sys.modules[name] = m
qugar = sys.modules["qugar"]
qugar.dolfinx = sys.modules["qugar.dolfinx"]
qugar.has_FEniCSx, qugar.has_PyVista = True, False

import numpy as np
def _load_basix_ufl():
    """The real basix.ufl on a stand-in of the few names of ufl it needs."""
    for n in ("ufl.sobolevspace", "ufl.finiteelement", "ufl.pullback", "ufl.cell"):
        mod(n)
    u = sys.modules["ufl"]
    for n in ("L2", "H1", "H2", "HInf", "HDiv", "HCurl", "HEin", "HDivDiv"):
        setattr(u.sobolevspace, n, type(n, (), {"__lt__": lambda a, b: False})())
    class AbstractPullback:
        def __eq__(self, o):
            return type(self) is type(o)
        def __hash__(self):
            return hash(type(self).__name__)
    u.pullback.AbstractPullback = AbstractPullback
    for n in ("IdentityPullback", "MixedPullback", "SymmetricPullback", "UndefinedPullback", "L2Piola", "ContravariantPiola", "CovariantPiola",
              "DoubleContravariantPiola", "DoubleCovariantPiola"):
        setattr(u.pullback, n, type(n, (AbstractPullback,), {"__init__": lambda self, *a: None}))
    u.identity_pullback, u.l2_piola = u.pullback.IdentityPullback(), u.pullback.L2Piola()
    u.contravariant_piola, u.covariant_piola = u.pullback.ContravariantPiola(), u.pullback.CovariantPiola()
    u.double_contravariant_piola, u.double_covariant_piola = u.pullback.DoubleContravariantPiola(), u.pullback.DoubleCovariantPiola()
    class AbstractFiniteElement:
        @property
        def reference_value_size(self):
            return int(np.prod(self.reference_value_shape, dtype=int))
        @property
        def components(self):
            if self.num_sub_elements == 0:
                return {(): 0}
            out, offset = {}, 0
            for e in self.sub_elements:
                for i, j in enumerate(np.ndindex(e.reference_value_shape)):
                    out[(offset + i,)] = offset + e.components[j]
                offset += max(e.components.values()) + 1
            return out
        @property
        def num_sub_elements(self):
            return len(self.sub_elements)
    u.finiteelement.AbstractFiniteElement = AbstractFiniteElement
    import basix.ufl
_load_basix_ufl()
import basix, basix.ufl

class Scratch:
    """The random source of the running case, used by the stand-ins for every choice a library is free to make."""
    src = None
def src():
    return Scratch.src

# ---------------------------------------------------------------- MPI
class Comm:
    def __init__(self, rank=0, size=1):
        self.rank, self.size = rank, size
        self.store = {}
mpi = mod("mpi4py.MPI")
mpi.Comm = Comm
mpi.COMM_WORLD = Comm()
mpi.COMM_SELF = Comm()

# ---------------------------------------------------------------- scipy
class KDTree:
    def __init__(self, data):
        self.data = np.asarray(data)
        if self.data.ndim != 2:
            raise ValueError("data must be 2 dimensions")
    def query_pairs(self, r, p=2.0, eps=0, output_type="set"):
        d = np.linalg.norm(self.data[:, None, :].astype(np.float64) - self.data[None, :, :], axis=2)
        i, j = np.nonzero(np.triu(d <= r, 1))
        pairs = np.array(src().shuffled(list(zip(i.tolist(), j.tolist()))), dtype=np.intp).reshape(-1, 2)
        return pairs if output_type == "ndarray" else {tuple(q) for q in pairs.tolist()}
sp = mod("scipy.spatial")
sp.KDTree = KDTree
sp.cKDTree = KDTree

# ---------------------------------------------------------------- dolfinx
dolfinx = mod("dolfinx")
cpp = mod("dolfinx.cpp")
cpp_mesh = mod("dolfinx.cpp.mesh")
cpp_graph = mod("dolfinx.cpp.graph")
cpp_fem = mod("dolfinx.cpp.fem")
fem = mod("dolfinx.fem")
mesh = mod("dolfinx.mesh")
for n in ("dolfinx.fem.forms", "dolfinx.fem.petsc", "dolfinx.fem.bcs", "dolfinx.fem.function", "dolfinx.fem.assemble", "dolfinx.la", "dolfinx.la.petsc", "dolfinx.jit",
          "dolfinx.geometry", "ufl", "ufl.core.expr", "ufl.domain", "ufl.geometry", "ufl.integral", "ufl.algorithms.formdata", "ufl.algorithms.analysis",
          "ffcx.analysis", "ffcx.naming", "ffcx.options", "ffcx.formatting", "ffcx.ir.representation", "ffcx.ir.representationutils", "ffcx.ir.elementtables",
          "ffcx.codegeneration.codegeneration", "ffcx.codegeneration.jit", "ffcx.codegeneration.C.file_template", "petsc4py.PETSc", "qugar.cpp"):
    mod(n)
cpp.__dict__["__version__"] = "0.10.0"
mod("ffcx").__dict__["__version__"] = "0.10.0"
mod("ufl").__dict__["__version__"] = "2025.2.0"
cells = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "point": 0}

class CellType:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return f"CellType.{self.name}"
    def __eq__(self, o):
        return isinstance(o, CellType) and o.name == self.name
    def __hash__(self):
        return hash(self.name)
for n in cells:
    setattr(CellType, n, CellType(n))
cpp_mesh.CellType = CellType
class GhostMode:
    none, shared_facet, shared_vertex = "none", "shared_facet", "shared_vertex"
cpp_mesh.GhostMode = GhostMode
mesh.GhostMode, mesh.CellType = GhostMode, CellType
class AdjacencyList:
    def __init__(self, rows, dtype=np.int32):
        self.rows = [np.atleast_1d(np.array(r, dtype=dtype)) for r in rows]
        self.offsets = np.cumsum([0] + [len(r) for r in self.rows]).astype(np.int32)
        self.array = np.concatenate(self.rows) if self.rows else np.empty(0, dtype=dtype)
        self.num_nodes = len(self.rows)
    def links(self, k):
        return self.rows[k]
    def __len__(self):
        return self.num_nodes
cpp_graph.AdjacencyList_int32 = AdjacencyList
cpp_graph.AdjacencyList_int64 = type("AdjacencyList_int64", (AdjacencyList,), {})
class IndexMap:
    def __init__(self, owned_global, ghosts_global, start, size_global):
        self.size_local, self.num_ghosts, self.size_global = len(owned_global), len(ghosts_global), size_global
        self.local_range = (start, start + len(owned_global))
        self.ghosts = np.array(ghosts_global, dtype=np.int64)
    def local_to_global(self, ids):
        ids = np.asarray(ids)
        g = np.concatenate([np.arange(*self.local_range, dtype=np.int64), self.ghosts])
        return g[ids]
class Topology:
    """Local topology of one process; connectivities exist once they are created."""
    def __init__(self, m):
        self.m = m
        self.dim = m.tdim
        self.cell_type = CellType(m.cell_name)
        self.original_cell_index = m.orig_cells
        self.created = {(m.tdim, 0)}
        self.perms = None
    def cell_name(self):
        return self.cell_type.name
    def create_connectivity(self, d0, d1):
        self.created.add((d0, d1))
        if self.dim - 1 in (d0, d1):
            self.created.add("facets")
    def create_entities(self, d):
        if d == self.dim - 1:
            self.created.add("facets")
    def connectivity(self, d0, d1):
        if (d0, d1) not in self.created:
            return None
        f = self.dim - 1
        if (d0, d1) == (self.dim, f):
            return AdjacencyList(self.m.cell_facets)
        if (d0, d1) == (f, self.dim):
            return AdjacencyList(self.m.facet_cells)
        raise NotImplementedError((d0, d1))
    def index_map(self, d):
        if d == self.dim:
            return self.m.cell_map
        if d == self.dim - 1:
            return self.m.facet_map if "facets" in self.created else None
        raise NotImplementedError(d)
    @property
    def interprocess_facets(self):
        return self.m.interprocess
    def create_entity_permutations(self):
        self.perms = self.m.facet_perms
    def get_facet_permutations(self):
        if self.perms is None:
            raise RuntimeError("create_entity_permutations must be called before using this data.")
        return self.perms.ravel()
class Geometry:
    def __init__(self, m):
        x = np.zeros((len(m.orig_nodes), 3), dtype=m.nodes.dtype)
        x[:, :m.nodes.shape[1]] = m.nodes[m.orig_nodes]
        self.x, self.dim = x, m.nodes.shape[1]
        self.input_global_indices = m.orig_nodes
        self.dofmap = m.dofmap
class MeshCpp:
    """What one process holds of a mesh: cells, nodes and facets, all renumbered at will, owned before ghosts."""
    def __init__(self, comm, conn, nodes, cell_name, partitioner):
        s = src()
        self.cell_name, self.tdim = cell_name, cells[cell_name]
        self.partitioner = partitioner
        nodes = np.asarray(nodes)
        if nodes.ndim == 1:
            nodes = nodes.reshape(-1, 1)
        if comm.rank == 0:
            comm.store["mesh"] = (np.array(conn), nodes)
        conn, nodes = comm.store["mesh"]
        self.nodes = nodes
        n = len(conn)
        nv = len(basix.geometry(getattr(basix.CellType, cell_name)))
        topo = basix.topology(getattr(basix.CellType, cell_name))[self.tdim - 1]
        if conn.size and (conn.min() < 0 or conn.max() >= len(nodes)):
            raise RuntimeError("the connectivity refers to nodes that do not exist")
        # Who owns what.
        if comm.size > 1:
            if "owner" not in comm.store:
                comm.store["owner"] = [s.raw(comm.size - 1) for _ in range(n)]
            owner = comm.store["owner"]
        else:
            owner = [0] * n
        key = lambda c, f: tuple(sorted(int(conn[c][v]) for v in topo[f]))
        glob = {}
        for c in range(n):
            for f in range(len(topo)):
                glob.setdefault(key(c, f), []).append(c)
        owned = s.shuffled([c for c in range(n) if owner[c] == comm.rank])
        ghosts = s.shuffled([c for c in range(n) if owner[c] != comm.rank and any(owner[o] == comm.rank for f in range(len(topo)) for o in glob[key(c, f)])]) \
            if comm.size > 1 and (partitioner or "") == GhostMode.shared_facet else []
        local = owned + ghosts
        self.orig_cells = np.array(local, dtype=np.int64)
        used = sorted({int(v) for c in local for v in conn[c]})
        order = s.shuffled(used)
        self.orig_nodes = np.array(order, dtype=np.int64)
        inv = {o: k for k, o in enumerate(order)}
        self.dofmap = np.array([[inv[int(v)] for v in conn[c]] for c in local], dtype=np.int32).reshape(len(local), conn.shape[1])
        fkeys = sorted({key(c, f) for c in local for f in range(len(topo))})
        fowner = lambda k: min(owner[c] for c in glob[k])
        mine = s.shuffled([k for k in fkeys if fowner(k) == comm.rank])
        other = s.shuffled([k for k in fkeys if fowner(k) != comm.rank])
        fid = {k: i for i, k in enumerate(mine + other)}
        self.cell_facets = [[fid[key(c, f)] for f in range(len(topo))] for c in local]
        self.facet_cells = [[] for _ in fid]
        for i, fs in enumerate(self.cell_facets):
            for f in fs:
                self.facet_cells[f].append(i)
        if s.coin():
            self.facet_cells = [list(reversed(r)) for r in self.facet_cells]
        self.facet_keys = mine + other
        self.glob_facets = glob
        before = sum(1 for o in owner if o < comm.rank)
        fbefore = sum(1 for k in glob if fowner(k) < comm.rank)
        self.cell_map = IndexMap(owned, [1000000 + g for g in ghosts], before, n)
        self.facet_map = IndexMap(mine, [1000000 + g for g in range(len(other))], fbefore, len(glob))
        self.interprocess = np.array(sorted(fid[k] for k in fkeys if len({owner[c] for c in glob[k]}) > 1), dtype=np.int32)
        self.exterior = np.array(sorted(fid[k] for k in mine if len(glob[k]) == 1), dtype=np.int32)
        nperm = 1 if self.tdim < 2 else 2 if self.tdim == 2 else 6 if cell_name == "tetrahedron" else 8
        self.facet_perms = np.array([[s.raw(nperm - 1) for _ in topo] for _ in local], dtype=np.uint8).reshape(len(local), len(topo)) if nperm > 1 and len(local) < 9 \
            else np.zeros((len(local), len(topo)), dtype=np.uint8)
        self.topology = Topology(self)
        self.geometry = Geometry(self)
        self.comm = comm
class Mesh:
    def __init__(self, msh, domain):
        self._cpp_object = msh
        self._ufl_domain = domain
        self._topology, self._geometry = msh.topology, msh.geometry
    @property
    def topology(self):
        return self._topology
    @property
    def geometry(self):
        return self._geometry
    @property
    def comm(self):
        return self._cpp_object.comm
    def ufl_domain(self):
        return self._ufl_domain
    def ufl_cell(self):
        return Cell(self.topology.cell_type.name)
mesh.Mesh = Mesh
class CoordinateElement:
    def __init__(self, e):
        self.e = e
        self._cpp_object = self
        self.dim = e.dim
        self.cell_name = e.cell_type.name
fem.coordinate_element = lambda e, *a: CoordinateElement(e)
cpp_mesh.create_mesh = lambda comm, conn, cmap, nodes, partitioner=None, *a: MeshCpp(comm, conn, nodes, cmap.cell_name, partitioner)
cpp_mesh.create_cell_partitioner = lambda mode, *a: mode
mesh.create_cell_partitioner = cpp_mesh.create_cell_partitioner
class MeshTags:
    def __init__(self, m, dim, indices, values):
        indices, values = np.asarray(indices), np.asarray(values)
        if indices.dtype != np.int32 or len(indices) != len(values) or np.any(np.diff(indices) <= 0):
            raise RuntimeError(f"tags need sorted unique int32 entities: {indices} {values}")
        self.mesh, self.topology, self.dim, self.indices, self.values = m, m.topology, dim, indices, values
    def find(self, v):
        return self.indices[self.values == v]
mesh.MeshTags = MeshTags
mesh.meshtags = lambda m, dim, e, v: MeshTags(m, dim, e, np.full(len(e), v) if np.isscalar(v) else v)
def exterior_facet_indices(topology):
    if (topology.dim - 1, topology.dim) not in topology.created:
        raise RuntimeError("Facet to cell connectivity has not been computed.")
    return topology.m.exterior.copy()
mesh.exterior_facet_indices = exterior_facet_indices

# ---------------------------------------------------------------- ufl
ufl = mod("ufl")
SUB = {"interval": ["point"] * 2, "triangle": ["interval"] * 3, "quadrilateral": ["interval"] * 4, "tetrahedron": ["triangle"] * 4, "hexahedron": ["quadrilateral"] * 6, "point": []}
class Cell:
    """ufl.Cell: compares equal to cells only, never to names."""
    def __init__(self, name):
        if name not in cells:
            raise ValueError(f"Unsupported cell type: {name}")
        self._name = name
    def cellname(self):
        return self._name
    def topological_dimension(self):
        return cells[self._name]
    def num_sub_entities(self, d):
        return len(basix.topology(getattr(basix.CellType, self._name))[d])
    def sub_entity_types(self, d):
        return tuple(Cell(n) for n in dict.fromkeys(SUB[self._name])) if d == cells[self._name] - 1 else tuple()
    def facet_types(self):
        return tuple(Cell(n) for n in dict.fromkeys(SUB[self._name]))
    def __eq__(self, o):
        return isinstance(o, Cell) and o._name == self._name
    def __hash__(self):
        return hash(self._name)
    def __repr__(self):
        return f"Cell({self._name})"
ufl.Cell = ufl.cell.Cell = Cell
class UflMesh:
    def __init__(self, element):
        self.element = element
    def ufl_coordinate_element(self):
        return types.SimpleNamespace(basix_element=self.element, element=self.element)
ufl.Mesh = UflMesh

# ---------------------------------------------------------------- the compiled extension
qcpp = sys.modules["qugar.cpp"]
qugar.cpp = qcpp
class Grid:
    """qugar.cpp.CartGridTP_{2,3}D."""
    def __init__(self, breaks):
        self.cell_breaks = [np.asarray(b, dtype=np.float64) for b in breaks]
        self.dim = len(breaks)
        self.num_cells_dir = np.array([len(b) - 1 for b in breaks], dtype=np.int32)
        self.num_cells = int(np.prod(self.num_cells_dir))
qcpp.CartGridTP_2D = type("CartGridTP_2D", (Grid,), {})
qcpp.CartGridTP_3D = type("CartGridTP_3D", (Grid,), {})
qcpp.create_cart_grid = lambda breaks: (qcpp.CartGridTP_2D if len(breaks) == 2 else qcpp.CartGridTP_3D)(breaks)
STATUS = ["cut", "full", "empty", "cut_unf_bdry", "cut_ext_bdry", "cut_unf_bdry_ext_bdry", "full_unf_bdry", "full_ext_bdry", "unf_bdry", "ext_bdry", "unf_bdry_ext_bdry"]
class Domain:
    """qugar.cpp.UnfittedDomain_{2,3}D with given cell and facet statuses (numbering: original cells, lexicographic facets)."""
    def __init__(self, dim, cells, facets):
        self.dim, self.cell, self.facet = dim, cells, facets
        self.num_total_cells = len(cells)
        self.calls = []
    def _cells(self, status, targets):
        ids = np.arange(len(self.cell)) if targets is None else np.asarray(targets)
        if ids.dtype != np.int64:
            raise TypeError(f"int64 cells expected, {ids.dtype} given")
        return np.array(src().shuffled([c for c in ids.tolist() if self.cell[c] == status]), dtype=np.int64)
    def get_cut_cells(self, target_cell_ids=None):
        return self._cells("cut", target_cell_ids)
    def get_full_cells(self, target_cell_ids=None):
        return self._cells("full", target_cell_ids)
    def get_empty_cells(self, target_cell_ids=None):
        return self._cells("empty", target_cell_ids)
    def _facets(self, sel, cells, facets):
        if cells is None:
            pairs = [(c, f) for c in range(len(self.cell)) for f in range(2 * self.dim)]
        else:
            cells, facets = np.asarray(cells), np.asarray(facets)
            if cells.dtype != np.int64 or facets.dtype != np.int32:
                raise TypeError(f"int64 cells and int32 facets expected, {cells.dtype} and {facets.dtype} given")
            pairs = list(zip(cells.tolist(), facets.tolist(), strict=True))
        out = [q for q in pairs if sel(self.facet[q])]
        return np.array([c for c, _ in out], dtype=np.int64), np.array([f for _, f in out], dtype=np.int32)
    def get_cut_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets(lambda s: s.startswith("cut"), target_cell_ids, target_local_facet_ids)
    def get_full_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets(lambda s: s == "full", target_cell_ids, target_local_facet_ids)
    def get_empty_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets(lambda s: s in ("empty", "full_ext_bdry", "ext_bdry"), target_cell_ids, target_local_facet_ids)
    def get_unf_bdry_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets(lambda s: "unf_bdry" in s, target_cell_ids, target_local_facet_ids)
    def get_full_unf_bdry_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets(lambda s: s == "full_unf_bdry", target_cell_ids, target_local_facet_ids)
qcpp.UnfittedDomain_2D = type("UnfittedDomain_2D", (Domain,), {})
qcpp.UnfittedDomain_3D = type("UnfittedDomain_3D", (Domain,), {})
def create_unfitted_impl_domain(impl_func, grid, cells=None):
    return impl_func(grid)
qcpp.create_unfitted_impl_domain = create_unfitted_impl_domain
def _quad(ids, pts_of, n, with_normals=False):
    """A rule per entity whose numbers tell the entity and the requested number of points."""
    npts, pts, w, nrm = [], [], [], []
    for k in ids:
        p = pts_of(k, n)
        npts.append(len(p))
        for q, (x, ww, nn) in enumerate(p):
            pts.append(x), w.append(ww), nrm.append(nn)
    q = types.SimpleNamespace(n_pts_per_entity=np.array(npts, dtype=np.int32), points=np.array(pts, dtype=np.float64), weights=np.array(w, dtype=np.float64))
    if with_normals:
        q.normals = np.array(nrm, dtype=np.float64)
    return q
def rule(dim, kind, n):
    """The rule the stand-in gives an entity named by `kind` (a tuple of ints)."""
    import zlib
    h = zlib.crc32(repr((kind, n)).encode())
    m = h % 4
    return [(tuple(((h >> (3 * d + q)) % 97) / 97.0 for d in range(dim)), ((h >> q) % 89 + 1) / 89.0, tuple(((h >> (2 * d + q)) % 83) / 83.0 for d in range(dim))) for q in range(m)]
def _need(a, t):
    a = np.asarray(a)
    if a.dtype != t:
        raise TypeError(f"{t} expected, {a.dtype} given")
    return a.tolist()
def create_quadrature(domain, cells, n_pts_dir):
    return _quad(_need(cells, np.int64), lambda c, n: rule(domain.dim, (0, c), n), n_pts_dir)
def create_unfitted_bound_quadrature(domain, cells, n_pts_dir, include_facet_unf_bdry, exclude_ext_bdry):
    return _quad(_need(cells, np.int64), lambda c, n: rule(domain.dim, (1, c, bool(include_facet_unf_bdry), bool(exclude_ext_bdry)), n), n_pts_dir, True)
def _facet_quad(ext):
    def f(domain, cells, facets, n_pts_dir):
        pairs = list(zip(_need(cells, np.int64), _need(facets, np.int32), strict=True))
        return _quad(pairs, lambda cf, n: rule(domain.dim - 1, (2, ext, *cf), n), n_pts_dir)
    return f
qcpp.create_quadrature = create_quadrature
qcpp.create_unfitted_bound_quadrature = create_unfitted_bound_quadrature
qcpp.create_facets_quadrature_exterior_integral = _facet_quad(True)
qcpp.create_facets_quadrature_interior_integral = _facet_quad(False)

import qugar.utils
qugar.utils.has_FEniCSx = True
qugar.utils.has_PETSc = True

# ---------------------------------------------------------------- forms
import enum
class IntegralType(enum.IntEnum):
    cell, exterior_facet, interior_facet, vertex = 0, 1, 2, 3
cpp_fem._IntegralType = cpp_fem.IntegralType = fem.IntegralType = IntegralType
class Form:
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module
    @property
    def ufcx_form(self):
        return self._ufcx_form
    @property
    def code(self):
        return self._code
    @property
    def module(self):
        return self._module
mod("dolfinx.fem.forms").Form = Form
cpp_fem.pack_coefficients = lambda form: {k: v.copy() for k, v in form.coefficients_now.items()}
