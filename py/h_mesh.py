"""P01-P05: indices, renumberings, facet sets, mesh numberings and unfitted partitions of the Python layer."""
import itertools, sys
import env
import numpy as np
import basix
from pbt import Discard, main, prop, require
import qugar.mesh.utils as mu
from qugar.mesh.tp_index import TensorProdIndex as T
CELL = [None, basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron]

def same(got, want, sig, *msg, dtype=None):
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape and np.array_equal(got, want), sig, *msg, "got", got.tolist() if got.size < 200 else got, "expected", want.tolist() if want.size < 200 else want)
    if dtype is not None:
        require(got.dtype == dtype, sig + " type", *msg, got.dtype, "instead of", dtype)

# ---------------------------------------------------------------- P01
@prop("P01", 80000, 600000)
def p01(s):
    dim = s.i(1, 3)
    big = s.chance(1, 4)
    top = [60, 9, 6][dim - 1]
    n = [s.i(1, top) for _ in range(dim)]
    if big:
        k = s.raw(dim - 1)
        n[k] = s.i(1, 3000)
        if s.coin():
            n = [s.i(1, [2**31 - 1, 2**31 - 1, 2**20][dim - 1]) for _ in range(dim)]
    arr = np.array(n, dtype=s.pick([np.int32, np.int32, np.int64]))
    s.note("n", n)
    s.note("dtype", arr.dtype)
    stride = [1]
    for v in n[:-1]:
        stride.append(stride[-1] * v)
    total = stride[-1] * n[-1]
    flat = lambda t: sum(a * b for a, b in zip(t, stride))
    if total > 1 and dim > 1:
        s.nontrivial()
    # Conversions.
    for _ in range(3):
        t = [s.pick([0, v - 1, s.raw(v - 1)]) for v in n]
        ids = s.raw(total - 1)
        f = T.get_flat_index(arr, np.array(t, dtype=np.int32))
        require(int(f) == flat(t), "flat index", t, "in", n, "is", flat(t), "got", f)
        same(T.get_tensor_index(arr, f), t, "tensor index of flat index", n, "flat", f, dtype=np.int32)
        u = T.get_tensor_index(arr, s.pick([int, np.int64])(ids))
        want, r = [], ids
        for v in n:
            want.append(r % v)
            r //= v
        same(u, want, "tensor index", n, "flat", ids, dtype=np.int32)
        require(int(T.get_flat_index(arr, u)) == ids, "round trip", n, ids)
    # Corners.
    corners = [flat([(n[d] - 1) * ((c >> d) & 1) for d in range(dim)]) for c in range(2**dim)]
    same(T.get_all_corners(arr), corners, "corners", n, dtype=np.int64)
    c = s.raw(2**dim - 1)
    require(int(T.get_corner(arr, c)) == corners[c], "corner", n, c)
    area = total // min(n)
    if area > 200000:
        return
    s.count("small enough for faces")
    # Faces: lexicographic face 2*dir+side; the library's own id sits at the same reference facet.
    def face(fid):
        d, side = divmod(fid, 2)
        other = [range(n[k]) if k != d else [side * (n[k] - 1)] for k in range(dim)]
        return [flat(t[::-1]) for t in itertools.product(*other[::-1])]
    fid = s.raw(2 * dim - 1)
    if len(range(1)) and total // n[fid // 2] <= 60000:
        same(T.get_face(arr, s.pick([int, np.int32])(fid), lexicg=True), face(fid), "face", n, "lexicographic face", fid)
        ref = basix.geometry(CELL[dim])[basix.topology(CELL[dim])[dim - 1][fid]]
        lex = next(2 * d + side for d in range(dim) for side in (0, 1) if np.all(ref[:, d] == side))
        same(T.get_face(arr, fid), face(lex), "face in the library's ordering", n, "face", fid)
    # Edges: in 3D along z, y, x at the lower corners of the other directions.
    if dim == 3:
        edges = [(2, c) for c in (0, 1, 2, 3)] + [(1, c) for c in (0, 1, 4, 5)] + [(0, c) for c in (0, 2, 4, 6)]
        e = s.raw(11)
        d, c = edges[e]
        want = [corners[c] + k * stride[d] for k in range(n[d])] if n[d] < 60000 else None
        if want is not None:
            same(T.get_edge(arr, e, lexicg=True), want, "edge", n, "lexicographic edge", e)
        ref = basix.geometry(CELL[3])[basix.topology(CELL[3])[1][e]]
        d = int(np.argmax(ref[0] != ref[1]))
        c = sum(int(ref[0][k]) << k for k in range(3) if k != d)
        if n[d] < 60000:
            same(T.get_edge(arr, e), [corners[c] + k * stride[d] for k in range(n[d])], "edge in the library's ordering", n, "edge", e)
    else:
        e = s.raw(2 * dim - 1)
        if total // n[e // 2] <= 60000:
            same(T.get_edge(arr, e, lexicg=True), face(e), "edge", n, "lexicographic edge", e)
    if total > 3000:
        return
    s.count("small enough for all indices")
    at = lambda i: [(i // stride[d]) % n[d] for d in range(dim)]
    bnd = [i for i in range(total) if any(t in (0, n[d] - 1) for d, t in enumerate(at(i)))]
    same(T.get_all_faces(arr), bnd, "boundary indices", n, dtype=np.int64)
    same(T.get_all_internal(arr), sorted(set(range(total)) - set(bnd)), "internal indices", n, dtype=np.int64)
    if dim < 3:
        same(T.get_all_edges(arr), bnd, "edge indices", n)

# ---------------------------------------------------------------- P02
VTK_V = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
         3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
VTK_E = {1: [], 2: [(0, 1), (1, 2), (3, 2), (0, 3)], 3: [(0, 1), (1, 2), (3, 2), (0, 3), (4, 5), (5, 6), (7, 6), (4, 7), (0, 4), (1, 5), (2, 6), (3, 7)]}
def vtk_positions(dim, p):
    """Node positions of VTK's arbitrary order Lagrange cells, in units of 1/p."""
    V = [np.array(v) * p for v in VTK_V[dim]]
    out = [tuple(int(c) for c in v) for v in V]
    for a, b in VTK_E[dim]:
        out += [tuple(int(c) for c in V[a] + (V[b] - V[a]) // p * k) for k in range(1, p)]
    if dim == 3:
        for d in range(3):
            for side in (0, p):
                lo, hi = [k for k in range(3) if k != d]
                for j in range(1, p):
                    for i in range(1, p):
                        q = [0, 0, 0]
                        q[d], q[lo], q[hi] = side, i, j
                        out.append(tuple(q))
    if dim > 1:
        out += [t[::-1] for t in itertools.product(range(1, p), repeat=dim)]
    else:
        out += [(k,) for k in range(1, p)]
    return out
_cache = {}
def positions(kind, dim, p):
    if (kind, dim, p) not in _cache:
        if kind == "lex":
            v = [t[::-1] for t in itertools.product(range(p + 1), repeat=dim)]
        elif kind == "vtk":
            v = vtk_positions(dim, p)
        else:
            e = basix.create_element(basix.ElementFamily.P, CELL[dim], p, basix.LagrangeVariant.equispaced)
            v = [tuple(int(c) for c in row) for row in np.rint(np.asarray(e.points) * p)]
        _cache[kind, dim, p] = v
    return _cache[kind, dim, p]
@prop("P02", 80000, 2000000)
def p02(s):
    dim = s.i(1, 3)
    what = s.raw(5)
    if what < 4:
        p = s.i(1, [14, 10, 7][dim - 1])
        a, b = s.pick([("dlf", "lex"), ("lex", "dlf"), ("vtk", "lex"), ("lex", "vtk"), ("dlf", "vtk"), ("vtk", "dlf")])
        s.note("nodes", f"{a} to {b} dim {dim} degree {p}")
        if p > 1:
            s.nontrivial()
        name = {"dlf": "DOLFINx", "lex": "lexicg", "vtk": "VTK"}
        perm = getattr(mu, f"{name[a]}_to_{name[b]}_nodes")(dim, p)
        A, B = positions(a, dim, p), positions(b, dim, p)
        require(len(perm) == len(A) and sorted(np.asarray(perm).tolist()) == list(range(len(A))), f"{a} to {b} is not a permutation", dim, p, perm)
        # a_A[i] = a_B[perm[i]]: entry i of ordering A sits where entry perm[i] of ordering B sits.
        for i in range(len(A)):
            require(A[i] == B[perm[i]], f"{a} to {b} nodes", "dim", dim, "degree", p, "node", i, "at", A[i], "is sent to", int(perm[i]), "at", B[perm[i]])
        back = getattr(mu, f"{name[b]}_to_{name[a]}_nodes")(dim, p)
        vals = np.array([s.raw(10**6) for _ in range(len(A))]) if len(A) < 60 else np.arange(len(A)) * 7 + s.raw(1000)
        same(vals[perm][back], vals, f"{a} to {b} and back", dim, p)
        require(perm.dtype == np.int32, "type of a permutation", perm.dtype)
    else:
        s.note("entities", f"{what} dim {dim}")
        s.nontrivial()
        kind = "faces" if what == 4 else "edges"
        sub = dim - 1 if kind == "faces" or dim < 3 else 1
        geo, topo = basix.geometry(CELL[dim]), basix.topology(CELL[dim])[sub]
        mids = [tuple(geo[v].mean(axis=0)) for v in topo]
        lex = []
        if sub == dim - 1:
            for d in range(dim):
                for side in (0.0, 1.0):
                    lex.append(tuple(side if k == d else 0.5 for k in range(dim)))
        else:
            for d, cs in ((2, (0, 1, 2, 3)), (1, (0, 1, 4, 5)), (0, (0, 2, 4, 6))):
                lex += [tuple(0.5 if k == d else float((c >> k) & 1) for k in range(3)) for c in cs]
        l2d = getattr(mu, f"lexicg_to_DOLFINx_{kind}")(dim)
        d2l = getattr(mu, f"DOLFINx_to_lexicg_{kind}")(dim)
        n = len(lex)
        for perm, nm in ((l2d, "lexicographic to element"), (d2l, "element to lexicographic")):
            require(sorted(np.asarray(perm).tolist()) == list(range(n)), f"{nm} {kind} is not a permutation", dim, perm)
        for i in range(n):
            require(mids[i] == lex[l2d[i]], f"lexicographic to element {kind}", "dim", dim, "element entity", i, "at", mids[i], "is given lexicographic", int(l2d[i]), "at", lex[l2d[i]])
            require(lex[i] == mids[d2l[i]], f"element to lexicographic {kind}", "dim", dim, "lexicographic entity", i, "at", lex[i], "is given", int(d2l[i]), "at", mids[d2l[i]])
        # faces_dlf[i] = faces_lex[l2d[i]] for any values.
        vals = np.array([s.raw(99) for _ in range(n)])
        same(vals[l2d][d2l], vals, f"{kind} there and back", dim)
        v2l, l2v = mu.VTK_to_lexicg_faces(dim), mu.lexicg_to_VTK_faces(dim)
        same(np.asarray(v2l)[l2v], np.arange(2 * dim), "VTK faces there and back", dim)
        same(np.asarray(l2v)[v2l], np.arange(2 * dim), "VTK faces there and back", dim)
        if dim == 2:
            pos = [tuple((np.array(VTK_V[2][a]) + np.array(VTK_V[2][b])) / 2) for a, b in VTK_E[2]]
            lexf = [(0.0, 0.5), (1.0, 0.5), (0.5, 0.0), (0.5, 1.0)]
            for i in range(4):
                require(pos[i] == lexf[l2v[i]], "lexicographic to VTK faces", i)

# ---------------------------------------------------------------- meshes
from qugar.mesh import mesh as _mesh, tp_mesh as _tp_mesh
from qugar.mesh.mesh import Mesh
from qugar.mesh.tp_mesh import CartesianMesh, TensorProductMesh, create_Cartesian_mesh
from qugar.mesh.mesh_facets import MeshFacets, create_all_mesh_facets, create_exterior_mesh_facets, create_facets_from_ids, create_interior_mesh_facets

class Model:
    """What the mesh of a tensor-product grid must be, from its sizes alone."""
    def __init__(self, n, active=None):
        self.n, self.dim = list(n), len(n)
        self.total = int(np.prod(n))
        self.active = set(range(self.total)) if active is None else set(active)
    def tid(self, c):
        t = []
        for v in self.n:
            t.append(c % v)
            c //= v
        return t
    def cid(self, t):
        c = 0
        for v, k in zip(self.n[::-1], t[::-1]):
            c = c * v + k
        return c
    def neighbour(self, c, f):
        d, side = divmod(f, 2)
        t = self.tid(c)
        t[d] += 1 if side else -1
        if not 0 <= t[d] < self.n[d]:
            return None
        o = self.cid(t)
        return o if o in self.active else None
def lex_of_element_facet(dim, f):
    ref = basix.geometry(CELL[dim])[basix.topology(CELL[dim])[dim - 1][f]]
    return next(2 * d + side for d in range(dim) for side in (0, 1) if np.all(ref[:, d] == side))
LEX = {d: [lex_of_element_facet(d, f) for f in range(2 * d)] for d in (1, 2, 3)}
ELE = {d: [LEX[d].index(f) for f in range(2 * d)] for d in (1, 2, 3)}

def sizes(s, dim, most):
    while True:
        n = [s.i(1, [8, 5, 3][dim - 1]) for _ in range(dim)]
        if np.prod(n) <= most:
            return n
        if s.replay:
            return [min(v, 2) for v in n]
def comm_of(s):
    size = 1 if s.chance(2, 3) else s.i(2, 3)
    return env.Comm(0, size)
def breaks_of(s, n, dtype=np.float64):
    out = []
    for v in n:
        b = [s.real(-2, 2)]
        for _ in range(v):
            b.append(b[-1] + s.real(0.1, 1.5))
        out.append(np.array(b, dtype=dtype))
    return out
def defaults(s, names, values, default):
    """Arguments by position or by name, and those with the default value possibly left out."""
    if not s.chance(1, 3):
        return values, {}
    return (), {n: v for n, v, d in zip(names, values, default) if not (v is d or v == d if v is None or d is not None else False) or s.coin()}
def partition(m, comm, mode):
    """Meshes of several processes are partitioned with the requested ghosts."""
    if comm.size > 1:
        require(m._cpp_object.partitioner == mode, "ghosts of the partition", m._cpp_object.partitioner, mode)
def make_cartesian(s, dim, degree, active="maybe", most=40, comm=None):
    n = sizes(s, dim, most)
    breaks = breaks_of(s, n)
    grid = env.qcpp.create_cart_grid(breaks)
    total = int(np.prod(n))
    act = None
    if active == "maybe" and s.chance(1, 2):
        act = np.array(sorted(s.subset(range(total), 2, 3)) or [0], dtype=np.int64)
    comm = comm or comm_of(s)
    dtype = s.pick([np.float64, np.float32])
    mode = s.pick([env.GhostMode.none, env.GhostMode.shared_facet])
    s.note("cells", n)
    s.note("active", None if act is None else act.tolist())
    s.note("comm", f"{comm.rank}/{comm.size} {mode}")
    s.note("degree", degree)
    names = ("degree", "active_cells", "ghost_mode", "dtype")
    args, kw = defaults(s, names, (degree, act, mode, dtype), (1, None, env.GhostMode.none, np.float64))
    m = CartesianMesh(comm, grid, *args, **kw)
    if comm.size > 1:
        # The run of another process on the same mesh.
        r = s.raw(comm.size - 1)
        if r:
            other = env.Comm(r, comm.size)
            other.store = comm.store
            m = CartesianMesh(other, grid, *args, **kw)
            s.count("another rank")
    partition(m, comm, mode)
    return m, Model(n, None if act is None else act.tolist()), breaks, dtype

# ---------------------------------------------------------------- P03
def pairs(f):
    require(len(f.cell_ids) == len(f.local_facet_ids), "facet arrays of different lengths")
    return list(zip(np.asarray(f.cell_ids).tolist(), np.asarray(f.local_facet_ids).tolist()))
def facets_of(ps, ct=np.int32):
    return MeshFacets(np.array([c for c, _ in ps], dtype=ct), np.array([f for _, f in ps], dtype=np.int32))
@prop("P03", 60000, 300000)
def p03(s):
    env.Scratch.src = s
    if s.chance(1, 3):
        return p03_mesh(s)
    ct = s.pick([np.int32, np.int64])
    hi = s.pick([3, 10, 100])
    base = 2**40 if ct == np.int64 and s.chance(1, 4) else 0
    draw = lambda k: [(base + s.raw(hi), s.raw(5)) for _ in range(k)]
    a = draw(s.i(0, 12))
    b = [p for p in a if s.chance(1, 2)] + draw(s.i(0, 8))
    b = s.shuffled(b)
    dup = s.coin()
    if not dup:
        a, b = list(dict.fromkeys(a)), list(dict.fromkeys(b))
    s.note("a", a)
    s.note("b", b)
    s.note("type", np.dtype(ct))
    if set(a) & set(b) and set(a) - set(b):
        s.nontrivial()
    A, B = facets_of(a, ct), facets_of(b, ct)
    require(A.size == len(a) and A.empty == (not a), "size", A.size, a)
    require(pairs(A) == a, "stored facets", pairs(A))
    for k in range(len(a)):
        c, f = A[k]
        require((int(c), int(f)) == a[k], "item", k, (c, f))
    arr = A.as_array()
    require(np.asarray(arr).reshape(-1).tolist() == [v for p in a for v in p], "array", arr)
    require(np.asarray(arr).dtype == np.dtype(ct), "array type", arr.dtype)
    def check(got, want, sig, exact=False):
        g = pairs(got)
        require((g == want) if exact else (sorted(g) == sorted(want)), sig, "got", g, "expected", want)
        require(got.cells_dtype == np.dtype(ct) and got.local_facet_ids.dtype == np.int32, sig + " types", got.cells_dtype, got.local_facet_ids.dtype)
    check(A.concatenate(B), a + b, "concatenation", True)
    uniq = not dup and s.coin()
    i = A.intersect(B, assume_unique=True) if uniq else A.intersect(B)
    check(i, sorted(set(a) & set(b)), "intersection")
    d = A.difference(B, assume_unique=True) if uniq else A.difference(B)
    check(d, sorted(set(a) - set(b)), "difference")
    # A is the disjoint union of both parts.
    check_u = i.concatenate(d)
    require(set(pairs(check_u)) == set(a) and check_u.size == len(set(a)), "intersection and difference do not partition", pairs(check_u))
    require(pairs(A) == a and pairs(B) == b, "operands changed", pairs(A), pairs(B))
    u = facets_of(a, ct)
    u.unique()
    check(u, sorted(set(a)), "unique")
    ua = list(dict.fromkeys(a))
    U = facets_of(ua, ct)
    sub = s.shuffled([p for p in ua + ua if s.coin()])
    same(U.find(facets_of(sub, ct)), [ua.index(p) for p in sub], "find", ua, sub, dtype=np.int32)
    missing = [p for p in b if p not in set(ua)]
    if missing:
        try:
            r = U.find(facets_of(sub + missing[:1], ct))
        except ValueError:
            r = None
        require(r is None, "find accepts facets that are not there", ua, missing[0], r)
def p03_mesh(s):
    dim = s.i(2, 3)
    m, mod, _, _ = make_cartesian(s, dim, 1)
    cpp = m._cpp_object
    loc = [int(c) for c in m.get_original_cell_ids(np.arange(len(cpp.orig_cells), dtype=np.int32))]
    nloc = len(loc)
    if nloc > 1:
        s.nontrivial()
    if nloc == 0:
        s.count("process without cells")
    one = s.coin()
    owned = cpp.facet_map.size_local
    allf = set(range(owned))
    ext = {f for f in allf if len(cpp.glob_facets[cpp.facet_keys[f]]) == 1}
    cells_of = {}
    for c, fs in enumerate(cpp.cell_facets):
        for k, f in enumerate(fs):
            cells_of.setdefault(f, []).append((c, k))
    def check(got, ids, single, sig):
        g = pairs(got)
        require(len(set(g)) == len(g), sig + ": repeated", g)
        by = {}
        for c, k in g:
            by.setdefault(cpp.cell_facets[c][k], []).append((c, k))
        require(set(by) == set(ids), sig + ": facets", "missing", sorted(set(ids) - set(by)), "extra", sorted(set(by) - set(ids)))
        for f, v in by.items():
            want = cells_of[f]
            require((len(v) == 1 and v[0] in want) if single else sorted(v) == sorted(want), sig + ": cells of a facet", f, v, want)
    order = s.shuffled(["ext", "int", "all", "ids"])
    flag = lambda: () if not one and s.coin() else (one,)
    for o in order:
        if o == "ext":
            check(create_exterior_mesh_facets(m), ext, True, "exterior facets")
        elif o == "int":
            check(create_interior_mesh_facets(m, *flag()), allf - ext, one, "interior facets")
        elif o == "all":
            check(create_all_mesh_facets(m, *flag()), allf, one, "all facets")
        else:
            ids = s.shuffled(s.subset(range(len(cpp.facet_keys))))
            check(create_facets_from_ids(m, np.array(ids, dtype=np.int32), *flag()), ids, one, "facets from ids")
    # Numberings of facets.
    ps = [(s.raw(nloc - 1), s.raw(2 * dim - 1)) for _ in range(s.i(0, 8) if nloc else 0)]
    F = facets_of(ps)
    same(F.get_facet_ids(m), [cpp.cell_facets[c][k] for c, k in ps], "facet ids", ps)
    O = F.to_original(m)
    require(pairs(O) == [(loc[c], LEX[dim][k]) for c, k in ps], "original facets", ps, pairs(O))
    require(O.cells_dtype == np.int64 and O.local_facet_ids.dtype == np.int32, "types of original facets")
    Bk = O.to_DOLFINx(m)
    require(pairs(Bk) == ps and Bk.cells_dtype == np.int32, "facets there and back", ps, pairs(Bk))

# ---------------------------------------------------------------- P04
@prop("P04", 20000, 120000)
def p04(s):
    env.Scratch.src = s
    k = s.raw(7)
    (p04_cartesian if k < 3 else p04_merge if k < 5 else p04_find if k < 6 else p04_tp)(s)
def p04_find(s):
    alls = s.shuffled(range(s.i(1, 20)))[: s.i(1, 20)]
    t = s.pick([np.int32, np.int64])
    look = [s.i(-2, 24) for _ in range(s.i(0, 12))]
    s.note("find", (alls, look))
    s.nontrivial()
    # Internal functions are checked as long as they exist; the meshes are, in any case.
    _find_in_array = getattr(_mesh, "_find_in_array", None)
    if _find_in_array:
        same(_find_in_array(np.array(look, dtype=t), np.array(alls, dtype=t)), [alls.index(v) if v in alls else -1 for v in look], "find in array", alls, look)
    rank, n = s.raw(5), s.raw(9)
    part = mu.create_identity_partitioner(env.Comm(rank, 6), 6, s.i(1, 3), env.cpp_graph.AdjacencyList_int64([[0]] * n, dtype=np.int64))
    require(np.asarray(part.array).tolist() == [rank] * n, "identity partitioner", rank, n, part.array)
def node_positions(breaks, degree):
    pts = []
    for b in breaks:
        q = []
        for e in range(len(b) - 1):
            q += [b[e] + (b[e + 1] - b[e]) * k / degree for k in range(degree)]
        pts.append(np.array(q + [b[-1]], dtype=np.float64))
    return pts
def p04_cartesian(s):
    dim = s.i(2, 3)
    degree = s.pick([1, 1, 2, 3])
    m, mod, breaks, dtype = make_cartesian(s, dim, degree, most=24 if degree > 1 else 60)
    cpp = m._cpp_object
    n = len(cpp.orig_cells)
    act = sorted(mod.active)
    owned = m.num_local_cells
    if n > 1:
        s.nontrivial()
    truth = [act[c] for c in cpp.orig_cells]
    require(int(m.num_global_cells) == len(act), "number of cells", m.num_global_cells)
    require(m.tdim == dim and m.gdim == dim and m.degree == degree, "dimensions")
    require(m.comm.rank > 0 or m.has_inactive_cells == (len(act) < mod.total), "has inactive cells")
    if m.comm.rank == 0:
        if m.has_inactive_cells:
            same(m.original_active_cells, act, "active cells")
        else:
            try:
                m.original_active_cells
            except ValueError:
                pass
            else:
                require(False, "active cells of a mesh without inactive ones")
    require(int(m.num_cells_tp) == mod.total and np.asarray(m.num_cells_dir).tolist() == mod.n, "cells per direction")
    require(np.asarray(m.num_pts_dir).tolist() == [v * degree + 1 for v in mod.n], "points per direction")
    # Cells, in any order and with repetitions.
    ids = [s.raw(n - 1) for _ in range(s.i(0, 8))] if n else []
    o = m.get_original_cell_ids(np.array(ids, dtype=np.int32))
    same(o, [truth[c] for c in ids], "original cells", ids)
    same(m.get_DOLFINx_local_cell_ids(np.asarray(o, dtype=np.int64)), ids, "cells there and back", ids, dtype=np.int32)
    look = [s.raw(mod.total - 1) for _ in range(s.i(0, 8))]
    want = [truth.index(c) if c in truth else -1 for c in look]
    if n:
        same(m.get_DOLFINx_local_cell_ids(np.array(look, dtype=np.int64)), want, "local cells", look)
    same(np.sort(m.get_all_original_cell_ids()), sorted(truth[:owned]), "all cells")
    good = [c for c, w in zip(look, want) if w >= 0]
    g = m.get_DOLFINx_global_cell_ids(np.array(good, dtype=np.int64)) if n else []
    same(g, [int(cpp.cell_map.local_to_global(truth.index(c))) for c in good], "global cells", good)
    # Nodes.
    pts = node_positions(breaks, degree)
    npd = [len(p) for p in pts]
    total_nodes = int(np.prod(npd))
    nn = len(cpp.orig_nodes)
    ids = [s.raw(nn - 1) for _ in range(s.i(0, 8))] if nn else []
    o = m.get_original_node_ids(np.array(ids, dtype=np.int32))
    same(o, [int(cpp.orig_nodes[k]) for k in ids], "original nodes", ids)
    if nn:
        same(m.get_DOLFINx_local_node_ids(np.asarray(o, dtype=np.int64)), ids, "nodes there and back", ids, dtype=np.int32)
    tol = 1e-12 if dtype == np.float64 else 1e-5
    for k, node in zip(ids, np.asarray(o).tolist()):
        t, r = [], node
        for v in npd:
            t.append(r % v)
            r //= v
        x = [pts[d][t[d]] for d in range(dim)]
        require(np.allclose(m.geometry.x[k][:dim], x, atol=tol * 10, rtol=tol), "node coordinates", node, m.geometry.x[k], x)
    # Geometry of cells: every node of every cell where the reference element puts it.
    ref = positions("dlf", dim, degree)
    for c in (range(n) if n < 12 else [s.raw(n - 1) for _ in range(6)]):
        t = mod.tid(truth[c])
        box = np.array([[breaks[d][t[d] + k] for d in range(dim)] for k in (0, 1)])
        require(m.dtype == dtype, "type of the coordinates", m.dtype, dtype)
        bb = np.asarray(m.get_cell_bbox(np.int32(c)))
        require(bb.dtype == dtype and np.allclose(bb, box, atol=tol, rtol=tol), "cell box", c, bb.tolist(), box.tolist())
        same(m.get_cell_tensor_index(np.int32(c)), t, "cell tensor index", c)
        for k, q in enumerate(ref):
            x = box[0] + (box[1] - box[0]) * np.array(q) / degree
            require(np.allclose(m.geometry.x[cpp.dofmap[c][k]][:dim], x, atol=10 * tol, rtol=tol), "node of a cell", "cell", t, "node", k, m.geometry.x[cpp.dofmap[c][k]], x)
        same(m.get_cell_facets(np.int32(c)), cpp.cell_facets[c], "facets of a cell", c)
    # Faces of the grid.
    f = s.raw(2 * dim - 1)
    d, side = divmod(f, 2)
    touching = [c for c in range(n) if mod.tid(truth[c])[d] == side * (mod.n[d] - 1)]
    if n:
        same(m.get_face_DOLFINx_cells(f), touching, "cells of a face", f)
        facets = sorted(cpp.cell_facets[c][ELE[dim][f]] for c in touching)
        same(m.get_face_facets(f), facets, "facets of a face", f)
        tags = m.create_facet_bdry_tags()
        want = {cpp.cell_facets[c][ELE[dim][g]]: g for g in range(2 * dim) for c in range(n) if mod.tid(truth[c])[g // 2] == (g % 2) * (mod.n[g // 2] - 1)}
        require(tags.dim == dim - 1 and dict(zip(tags.indices.tolist(), tags.values.tolist())) == want, "boundary tags", dict(zip(tags.indices.tolist(), tags.values.tolist())), want)
    # The convenience constructor.
    if s.chance(1, 4):
        lo = np.array([s.real(-1, 1) for _ in range(dim)], dtype=dtype)
        hi = lo + np.array([s.real(0.2, 2) for _ in range(dim)], dtype=dtype)
        a, kw = defaults(s, ("degree",), (degree,), (1,))
        c = create_Cartesian_mesh(env.Comm(), s.pick([list, np.array])(mod.n), lo, hi, *a, **kw)
        require(not c.has_inactive_cells and c.degree == degree and int(c.num_global_cells) == mod.total, "mesh of a box", c.num_global_cells)
        for d in range(dim):
            require(np.allclose(c.cell_breaks[d], np.linspace(lo[d], hi[d], mod.n[d] + 1), atol=10 * tol) and c.dtype == dtype, "breaks of a box", d, c.cell_breaks[d])
def p04_tp(s):
    """Tensor-product meshes of any dimension in a space of any dimension, possibly closed along a direction."""
    dim = s.i(1, 3)
    degree = s.pick([1, 1, 2, 3]) if dim < 3 else s.pick([1, 1, 2])
    n = sizes(s, dim, 16)
    gdim = s.i(dim, 3)
    ring = gdim > 1 and n[0] > 2 and s.coin()
    dtype = s.pick([np.float64, np.float32])
    mod = Model(n)
    npd = [v * degree + 1 for v in n]
    build = getattr(_tp_mesh, "_create_Cartesian_mesh_nodes_from_cells", None)
    if build:
        breaks = breaks_of(s, n, dtype)
        got = np.asarray(build([b.copy() for b in breaks], degree))
        want = [q[::-1] for q in itertools.product(*node_positions(breaks, degree)[::-1])]
        require(got.dtype == dtype and got.shape == (int(np.prod(npd)), dim) and np.allclose(got, want, atol=1e-12 if dtype == np.float64 else 2e-5), "nodes of a grid", n, degree, got.tolist(), want)
    A = np.array([[s.real(-1, 1) for _ in range(dim)] for _ in range(gdim)]) + 3 * np.eye(gdim, dim)
    h = s.real(0.3, 1)
    X = []
    for i in itertools.product(*[range(v) for v in npd[::-1]]):
        u = np.array(i[::-1]) / degree
        if ring:
            a, rad = 2 * np.pi * u[0] / n[0], 1 + h * (u[1] if dim > 1 else 0)
            X.append([rad * np.cos(a), rad * np.sin(a), u[2] if dim > 2 else 0.5 * rad][:gdim])
        else:
            X.append(A @ u)
    X = np.array(X, dtype=dtype)
    act = np.array(sorted(s.subset(range(mod.total), 2, 3)) or [0], dtype=np.int64) if s.coin() else None
    mode = s.pick([env.GhostMode.none, env.GhostMode.shared_facet])
    merge = ring or s.chance(1, 4)
    comm = comm_of(s)
    s.note("tensor product", f"cells {n} degree {degree} in {gdim}D ring {ring} merged {merge} {np.dtype(dtype)} comm {comm.size} {mode} active {None if act is None else act.tolist()}")
    args, kw = defaults(s, ("degree", "active_cells", "ghost_mode", "merge_nodes", "merge_tol"), (degree, act, mode, merge, None), (1, None, env.GhostMode.none, False, None))
    n_arg = s.pick([list, lambda v: np.array(v, dtype=np.int32)])(n)
    line = gdim == 1 and not merge and s.coin()
    m = TensorProductMesh(comm, X.ravel() if line else X, n_arg, *args, **kw)
    r = s.raw(comm.size - 1)
    if r:
        other = env.Comm(r, comm.size)
        other.store = comm.store
        m = TensorProductMesh(other, np.empty((0, gdim), dtype=dtype), n_arg, *args, **kw)
    partition(m, comm, mode)
    if mod.total > 1:
        s.nontrivial()
    cpp = m._cpp_object
    active = list(range(mod.total)) if act is None else act.tolist()
    mod.active = set(active)
    truth = [active[c] for c in cpp.orig_cells]
    require(m.tdim == dim and m.gdim == gdim and m.degree == degree and m.dtype == dtype, "dimensions of a tensor-product mesh", m.tdim, m.gdim, m.degree, m.dtype)
    require(int(m.num_global_cells) == len(active) and int(m.num_cells_tp) == mod.total, "number of cells", m.num_global_cells)
    require(np.asarray(m.num_cells_dir).tolist() == n and np.asarray(m.num_pts_dir).tolist() == npd, "cells and points per direction")
    if comm.rank == r == 0:
        require(m.has_merged_nodes == merge, "has merged nodes", merge)
        if merge:
            require(len(m.merged_nodes_map) == len(X), "map of the merged nodes", len(m.merged_nodes_map), len(X))
    ref = positions("dlf", dim, degree)
    tol = 1e-6 if dtype == np.float64 else 1e-4
    for c, orig in enumerate(truth):
        t = mod.tid(orig)
        same(m.get_cell_tensor_index(np.int32(c)), t, "cell tensor index", c)
        for k, q in enumerate(ref):
            node, f = 0, 1
            for d in range(dim):
                node += f * (t[d] * degree + q[d])
                f *= npd[d]
            require(np.allclose(m.geometry.x[cpp.dofmap[c][k]][:gdim], X[node], atol=tol, rtol=tol), "node of a tensor-product cell", t, "node", k, m.geometry.x[cpp.dofmap[c][k]], X[node])
    if truth:
        same(m.get_original_cell_ids(np.arange(len(truth), dtype=np.int32)), truth, "original cells")
        for f in range(2 * dim):
            d, side = divmod(f, 2)
            touching = [c for c in range(len(truth)) if mod.tid(truth[c])[d] == side * (n[d] - 1)]
            same(m.get_face_DOLFINx_cells(f), touching, "cells of a face", f)
            same(m.get_face_facets(f), sorted({cpp.cell_facets[c][ELE[dim][f]] for c in touching}), "facets of a face", f)
    if merge and r == 0:
        require(len(cpp.nodes) == len(X) - (int(np.prod(npd[1:])) if ring else 0), "nodes after closing the mesh", len(cpp.nodes), len(X))
def p04_merge(s):
    """Disconnected cells glued by merging, with duplicated points of a tensor-product mesh."""
    dim = s.i(1, 3)
    degree = s.pick([1, 1, 2])
    n = sizes(s, dim, 12)
    breaks = breaks_of(s, n)
    pts = node_positions(breaks, degree)
    mod = Model(n)
    ref = positions("dlf", dim, degree)
    keys, nodes, conn = [], [], []
    share = s.chance(1, 3)
    for c in range(mod.total):
        t = mod.tid(c)
        row = []
        for q in ref:
            key = tuple(t[d] * degree + q[d] for d in range(dim))
            if share and key in keys:
                row.append(keys.index(key))
            else:
                row.append(len(keys))
                keys.append(key)
                nodes.append([pts[d][key[d]] for d in range(dim)])
        conn.append(row)
    order = s.shuffled(range(len(keys)))
    inv = {o: k for k, o in enumerate(order)}
    keys = [keys[o] for o in order]
    dtype = s.pick([np.float64, np.float32])
    X = np.array([nodes[o] for o in order], dtype=dtype).reshape(-1, dim)
    size = float(X.max() - X.min())
    if s.chance(1, 3):
        for v in X:
            v += np.array([s.real(-1, 1) for _ in range(dim)], dtype=dtype) * dtype(2e-7 * size)
    conn = np.array([[inv[v] for v in row] for row in conn], dtype=np.int64)
    tol = None if s.coin() else 1e-4 * size
    s.note("merge", f"cells {n} degree {degree} shared {share} {np.dtype(dtype)} tol {tol}")
    distinct = list(dict.fromkeys(keys))
    if len(distinct) < len(keys):
        s.nontrivial()
    def check(new_nodes, new_conn, old_to_new, used):
        same([len(old_to_new)], [len(keys)], "length of the map")
        by = {}
        for o, k in enumerate(np.asarray(old_to_new).tolist()):
            require(0 <= k < len(new_nodes), "map out of range", o, k)
            by.setdefault(k, set()).add(keys[o])
            require(np.allclose(new_nodes[k], X[o], atol=1e-6 * size + (tol or 0) * 0, rtol=0), "merged node moved", o, new_nodes[k], X[o])
        require(all(len(v) == 1 for v in by.values()), "different points merged", by)
        require(len(by) == len(distinct) == len(new_nodes), "one node per location", len(by), len(distinct), len(new_nodes))
        require(np.asarray(new_conn).shape == conn[used].shape, "shape of the connectivity")
        same(new_conn, np.asarray(old_to_new)[conn[used]], "merged connectivity")
    before = (X.copy(), conn.copy())
    merge = getattr(_mesh, "_merge_coincident_points_in_mesh", None)
    if merge:
        check(*merge(X, conn, tol), slice(None))
    require(np.array_equal(X, before[0]) and np.array_equal(conn, before[1]), "arguments changed")
    cell = [None, basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim]
    act = np.array(sorted(s.subset(range(mod.total), 2, 3)) or [0], dtype=np.int64) if s.coin() else None
    comm = comm_of(s)
    mode = s.pick([env.GhostMode.none, env.GhostMode.shared_facet])
    a, kw = defaults(s, ("degree", "active_cells", "ghost_mode", "merge_nodes", "merge_tol"), (degree, act, mode, True, tol), (1, None, env.GhostMode.none, None, None))
    m = Mesh(comm, X, conn, cell, *a, **kw)
    partition(m, comm, mode)
    require(m.degree == degree and m.gdim == dim and m.tdim == dim, "dimensions of a merged mesh", m.degree, m.gdim, m.tdim)
    cpp = m._cpp_object
    active = list(range(mod.total)) if act is None else act.tolist()
    require(m.has_merged_nodes, "has merged nodes")
    loc = [active[c] for c in cpp.orig_cells]
    for c, orig in enumerate(loc):
        for k in range(conn.shape[1]):
            require(np.allclose(cpp.geometry.x[cpp.dofmap[c][k]][:dim], X[conn[orig][k]], atol=1e-5 * size), "node of a merged cell", orig, k)
    nn = len(cpp.orig_nodes)
    if nn:
        ids = [s.raw(nn - 1) for _ in range(s.i(1, 8))]
        o = np.asarray(m.get_original_node_ids(np.array(ids, dtype=np.int32)))
        for k, node in zip(ids, o.tolist()):
            require(0 <= node < len(keys) and np.allclose(X[node], m.geometry.x[k][:dim], atol=1e-5 * size), "original node of a merged mesh", k, node)
        same(m.get_DOLFINx_local_node_ids(o.astype(np.int64)), ids, "merged nodes there and back", ids)
        look = [s.raw(len(keys) - 1) for _ in range(s.i(1, 8))]
        got = np.asarray(m.get_DOLFINx_local_node_ids(np.array(look, dtype=np.int64)))
        usedk = {keys[v] for orig in loc for v in conn[orig]}
        for v, g in zip(look, got.tolist()):
            if keys[v] in usedk:
                require(g >= 0 and np.allclose(m.geometry.x[g][:dim], X[v], atol=1e-5 * size), "local node of a merged mesh", v, g)
            else:
                require(g == -1, "node out of the mesh", v, g)
    if mod.total == 1 or not loc:
        return
    cids = [s.raw(len(loc) - 1) for _ in range(4)]
    same(m.get_original_cell_ids(np.array(cids, dtype=np.int32)), [loc[c] for c in cids], "original cells of a merged mesh")

# ---------------------------------------------------------------- P05
from qugar.mesh.unfitted_cart_mesh import UnfittedCartMesh, create_unfitted_impl_Cartesian_mesh
from qugar.mesh.unfitted_domain import UnfittedDomain
def statuses(s, mod):
    """Random statuses: facets only carry their own status in cut cells and in full cells with an unfitted boundary."""
    palette = s.pick([["cut", "full", "empty"], ["cut", "full"], ["empty", "full", "cut", "cut"]])
    cell = [s.pick(palette) for _ in range(mod.total)]
    rich = s.chance(1, 2)
    fac = {}
    for c in range(mod.total):
        own = cell[c] == "cut" or (cell[c] == "full" and rich and s.chance(1, 4))
        for f in range(2 * mod.dim):
            if not own:
                fac[c, f] = cell[c]
            elif cell[c] == "full":
                fac[c, f] = s.pick(["full", "full", "full_unf_bdry"])
            else:
                fac[c, f] = s.pick(env.STATUS if rich else ["cut", "full", "empty"])
    return cell, fac
@prop("P05", 16000, 120000)
def p05(s):
    env.Scratch.src = s
    dim = s.i(2, 3)
    n = sizes(s, dim, 24)
    mod = Model(n)
    cell, fac = statuses(s, mod)
    excl = s.coin()
    size = 1 if s.chance(2, 3) else 2
    comm = env.Comm(0, size)
    mode = s.pick([env.GhostMode.none, env.GhostMode.shared_facet])
    degree = s.pick([1, 1, 1, 2])
    dtype = s.pick([np.float64, np.float32])
    s.note("cells", f"{n} {cell}")
    s.note("facets", "".join(str(env.STATUS.index(fac[k])) if env.STATUS.index(fac[k]) < 10 else "A" for k in sorted(fac)))
    s.note("mesh", f"exclude {excl} comm {size} {mode} degree {degree}")
    dom = (env.qcpp.UnfittedDomain_2D if dim == 2 else env.qcpp.UnfittedDomain_3D)(dim, cell, fac)
    if excl and all(c == "empty" for c in cell):
        raise Discard
    breaks = breaks_of(s, n)
    def build(cm):
        a, kw = defaults(s, ("degree", "exclude_empty_cells", "ghost_mode", "dtype"), (degree, excl, mode, dtype), (1, True, env.GhostMode.none, np.float64))
        m = UnfittedCartMesh(cm, dom, env.qcpp.create_cart_grid(breaks), *a, **kw)
        require(m.dtype == dtype and m.degree == degree, "type of the unfitted mesh", m.dtype, m.degree)
        return m
    if s.chance(1, 3):
        lo, hi = np.array([s.real(-1, 0) for _ in n], dtype=dtype), np.array([s.real(0.5, 2) for _ in n], dtype=dtype)
        grids = []
        func = type("F", (), {"dim": dim, "cpp_object": staticmethod(lambda g: (grids.append(g), dom)[1])})()
        equal = len(set(n)) == 1 and s.coin()
        # Corners default to those of the unit box, with the type of the other one.
        missing = s.pick([[], [], ["xmin"], ["xmax"]])
        if "xmin" in missing:
            lo = np.zeros(dim, dtype=dtype)
        if "xmax" in missing:
            hi = np.ones(dim, dtype=dtype)
        if s.chance(1, 8):
            other = np.float32 if dtype == np.float64 else np.float64
            for kw in (dict(xmin=lo, xmax=hi.astype(other)), dict(xmin=lo, dtype=other), dict(xmax=hi, dtype=other)):
                try:
                    create_unfitted_impl_Cartesian_mesh(comm, func, list(n), **kw)
                except ValueError:
                    continue
                require(False, "corners of different types were accepted", list(kw))
        def build(cm):
            rest = dict(degree=degree, exclude_empty_cells=excl, ghost_mode=mode)
            if degree == 1 and s.coin():
                del rest["degree"]
            if excl and s.coin():
                del rest["exclude_empty_cells"]
            if mode == env.GhostMode.none and s.coin():
                del rest["ghost_mode"]
            if s.chance(1, 4):
                rest["dtype"] = dtype
            args = dict(xmin=lo, xmax=hi)
            for k in missing:
                del args[k]
            m = create_unfitted_impl_Cartesian_mesh(cm, func, n[0] if equal else s.pick([list, np.array])(n), **args, **rest)
            require(np.asarray(grids[-1].num_cells_dir).tolist() == n, "grid of the unfitted mesh", grids[-1].num_cells_dir)
            for d in range(dim):
                require(np.allclose(grids[-1].cell_breaks[d], np.linspace(lo[d], hi[d], n[d] + 1), atol=1e-6), "breaks of the unfitted mesh", d)
            require(m.dtype == dtype, "type of the unfitted mesh", m.dtype)
            return m
    m = build(comm)
    if size > 1 and s.coin():
        other = env.Comm(1, size)
        other.store = comm.store
        m = build(other)
    partition(m, comm, mode)
    if len({cell[c] for c in range(mod.total)}) > 1:
        s.nontrivial()
    cpp = m._cpp_object
    act = [c for c in range(mod.total) if not excl or cell[c] != "empty"]
    truth = [act[c] for c in cpp.orig_cells]
    nown = int(m.num_local_cells)
    require(int(m.num_global_cells) == len(act), "active cells", m.num_global_cells, len(act))
    if not truth:
        s.count("process without cells")
    owned = cpp.facet_map.size_local
    facets = [(c, k) for c in range(len(truth)) for k in range(2 * dim) if cpp.cell_facets[c][k] < owned]
    ext = {q for q in facets if len(cpp.glob_facets[cpp.facet_keys[cpp.cell_facets[q[0]][q[1]]]]) == 1}
    st = {q: fac[truth[q[0]], LEX[dim][q[1]]] for q in facets}
    unf = {q for q in facets if "unf_bdry" in st[q]}
    funf = {q for q in facets if st[q] == "full_unf_bdry"}
    cut = {q for q in facets if st[q].startswith("cut")}
    full = {q for q in facets if st[q] == "full"}
    emp = {q for q in facets if st[q] in ("empty", "full_ext_bdry", "ext_bdry")}
    inn = set(facets) - ext
    want = {("cut", True): (ext & cut) | (unf - funf), ("full", True): (ext & full) | funf, ("empty", True): ext & emp,
            ("cut", False): inn & cut, ("full", False): inn & full, ("empty", False): inn & (emp | (unf - cut))}
    wc = {k: [c for c in range(nown) if cell[truth[c]] == k] for k in ("cut", "full", "empty")}
    got = {}
    # Queries in any order, with repetitions.
    queries = s.shuffled([("cell", k, None) for k in wc] + [("facet", *k) for k in want] + [("all", None, True), ("all", None, False), ("tag", None, None)])
    queries += [s.pick(queries) for _ in range(4)]
    # Exterior integrals are the default.
    flag = lambda e: {} if e and s.coin() else dict(ext_integral=e)
    s.note("order", [q[:2] if q[0] == "cell" else q for q in queries])
    for kind, k, e in queries:
        if kind == "cell":
            g = getattr(m, f"get_{k}_cells")()
            same(g, wc[k], f"{k} cells", dtype=np.int32)
        elif kind == "facet":
            g = pairs(getattr(m, f"get_{k}_facets")(**flag(e)))
            require(len(set(g)) == len(g), f"repeated {k} facets", e, g)
            require(set(g) == want[k, e], f"{k} facets for {'exterior' if e else 'interior'} integrals", "missing", sorted(want[k, e] - set(g)), "extra", sorted(set(g) - want[k, e]))
        elif kind == "all":
            g = pairs(m.get_all_facets(**flag(e)))
            x = want["cut", True] | want["full", True] | want["empty", True]
            w = x if e else set(facets) - x
            require(len(set(g)) == len(g) and set(g) == w, "all facets", e, "missing", sorted(w - set(g)), "extra", sorted(set(g) - w))
        else:
            tags = {k: s.pick([None, s.i(1, 4)]) for k in ("cut", "full", "empty")}
            t = m.create_cell_meshtags(**{f"{k}_tag": v for k, v in tags.items()})
            w = {c: tags[k] for k in wc for c in wc[k] if tags[k] is not None}
            require(t.dim == dim and dict(zip(t.indices.tolist(), t.values.tolist())) == w, "cell tags", tags, dict(zip(t.indices.tolist(), t.values.tolist())), w)
            e = s.coin()
            ft = m.create_facet_tags(**{f"{k}_tag": v for k, v in tags.items()}, **flag(e))
            ids = [q for q, _ in ft]
            require(len(set(ids)) == len(ids), "a facet tag listed twice", ids)
            g = {int(q): np.asarray(a).reshape(-1, 2).tolist() for q, a in ft}
            for v in {v for v in tags.values() if v is not None} | set(g):
                w = sorted(list(q) for k in tags if tags[k] == v for q in want[k, e])
                require(sorted(g.get(v, [])) == w, "facet tags", tags, "tag", v, g.get(v), w)
    # Rules are those of the right entities with the right number of points.
    degree = s.i(0, 12)
    npts = next(k for k in range(1, 20) if 2 * k - 1 >= degree)
    require(UnfittedDomain.get_num_Gauss_points(degree) == npts, "Gauss points for a degree", degree, UnfittedDomain.get_num_Gauss_points(degree))
    cs = np.array(s.shuffled(s.subset(range(len(truth)))), dtype=np.int32)
    def check(q, per, sig, normals=False):
        flat = [x for r in per for x in r]
        same(q.n_pts_per_entity, [len(r) for r in per], sig + ": points per entity")
        same(np.asarray(q.points).reshape(-1), [v for x in flat for v in x[0]], sig + ": points")
        same(q.weights, [x[1] for x in flat], sig + ": weights")
        if normals:
            same(np.asarray(q.normals).reshape(-1), [v for x in flat for v in x[2]], sig + ": normals")
    q = m.create_quad_custom_cells(degree, cs)
    same(q.cells, cs, "cells of a rule")
    check(q, [env.rule(dim, (0, truth[c]), npts) for c in cs], "cell rules")
    q = m.create_quad_unf_boundaries(degree, cs)
    same(q.cells, cs, "cells of a rule")
    check(q, [env.rule(dim, (1, truth[c], False, False), npts) for c in cs], "unfitted boundary rules", True)
    fs = s.shuffled(s.subset(facets, 1, 4))
    e = s.coin()
    F = facets_of(fs)
    q = m.create_quad_custom_facets(degree, F, e)
    require(pairs(q.facets) == fs, "facets of a rule", pairs(q.facets), fs)
    check(q, [env.rule(dim - 1, (2, e, truth[c], LEX[dim][k]), npts) for c, k in fs], "facet rules")
    # The domain is found from the mesh's ufl domain, which the form compiler relies on.
    require(m._ufl_domain.unf_domain is m and m.mesh is m and m.cpp_unf_domain_object is dom, "links of the unfitted mesh")

if __name__ == "__main__":
    sys.exit(main())
