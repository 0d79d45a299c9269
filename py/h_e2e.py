"""W03-W04, U01: the Python layer on the real extension from end to end, and the gate on the versions of what it depends on."""
import importlib.util, itertools, math, os, sys, types
import env, bindings
import numpy as np
import basix
from pbt import Discard, main, prop, require
Q = bindings.load()
import qugar.impl.impl_function as F
from qugar.mesh.unfitted_cart_mesh import UnfittedCartMesh, create_unfitted_impl_Cartesian_mesh
from qugar.mesh.unfitted_domain import UnfittedDomain
CELL = [None, basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron]

# ---------------------------------------------------------------- W03
def half_space_volume(a, b, lo, hi):
    """Measure of {x in [lo, hi] : a.x < b}: inclusion and exclusion over the corners of the box."""
    dim = len(a)
    sides = np.asarray(hi) - lo
    a, c = a * sides, b - a @ lo
    # Directions without slope are integrated trivially; mirrored so that every slope is positive.
    keep = np.abs(a) > 1e-9 * np.max(np.abs(a))
    box = np.prod(sides)
    c -= np.sum(np.minimum(a[keep], 0))
    a = np.abs(a[keep])
    n = len(a)
    v = sum((-1) ** sum(m) * max(c - np.dot(m, a), 0.0) ** n for m in itertools.product((0, 1), repeat=n))
    return box * v / (math.factorial(n) * np.prod(a))
def reference_facets(dim):
    """Axis, side and parametrization of the facets of the reference cell."""
    pts = basix.geometry(CELL[dim])
    out = []
    for vs in basix.topology(CELL[dim])[dim - 1]:
        x = pts[vs]
        d, side = next((d, sd) for d in range(dim) for sd in (0, 1) if np.all(x[:, d] == sd))
        out.append((d, side, x[0], np.array([x[1 << k] - x[0] for k in range(dim - 1)]).reshape(dim - 1, dim)))
    return out
REF = {d: reference_facets(d) for d in (2, 3)}
def entities(f):
    return list(zip(np.asarray(f.cell_ids).tolist(), np.asarray(f.local_facet_ids).tolist()))
GL = [None] + [np.polynomial.legendre.leggauss(k) for k in range(1, 7)]
def gauss(dim, k):
    x, w = (GL[k][0] + 1) / 2, GL[k][1] / 2
    pts = np.array(list(itertools.product(x, repeat=dim))).reshape(k**dim, dim)
    return pts, np.array([np.prod(q) for q in itertools.product(w, repeat=dim)])
@prop("W03", 500, 30000, 60)
def w03(s):
    env.Scratch.src = s
    dim = 2 if s.chance(2, 3) else 3
    most = 6 if dim == 2 else 3
    n = [s.i(1, most) for _ in range(dim)]
    dtype = s.pick([np.float64, np.float64, np.float32])
    tol = 1e-8 if dtype == np.float64 else 2e-5
    lo = np.array([s.pick([0.0, -0.5, -1.0, 0.25]) for _ in range(dim)], dtype=dtype)
    hi = (lo + np.array([s.pick([1.0, 0.5, 2.0, 1.5]) for _ in range(dim)], dtype=dtype)).astype(dtype)
    mid, ext = ((lo + hi) / 2).astype(np.float64), (hi - lo).astype(np.float64)
    kw = {}
    unit_box = s.chance(1, 5)
    if unit_box:
        lo, hi = np.zeros(dim, dtype=dtype), np.ones(dim, dtype=dtype)
        mid, ext = np.full(dim, 0.5), np.ones(dim)
    curved = s.chance(2, 5)
    neg = s.coin()
    bzr = s.coin()
    exact = None
    if curved:
        R = s.real(0.25, 0.6) * float(ext.min())
        c = mid + np.array([s.real(-0.35, 0.35) for _ in range(dim)]) * ext
        f = (F.create_disk if dim == 2 else F.create_sphere)(R, c, bzr)
        if np.all(c - R > lo) and np.all(c + R < hi):
            exact = math.pi * R * R if dim == 2 else 4 / 3 * math.pi * R**3
        s.note("function", f"ball {R} {c.tolist()}")
    else:
        nv = np.array([s.real(-1, 1) for _ in range(dim)])
        o = mid + np.array([s.real(-0.45, 0.45) for _ in range(dim)]) * ext
        if s.chance(1, 4):
            # Along an axis, and in a share of the cases on a line of the grid.
            d = s.raw(dim - 1)
            nv = np.eye(dim)[d] * s.pick([1.0, -1.0])
            if s.chance(2, 3):
                o[d] = np.linspace(lo[d], hi[d], n[d] + 1)[s.raw(n[d])]
        elif np.linalg.norm(nv) < 0.2:
            nv[0] += 1
        f = (F.create_line if dim == 2 else F.create_plane)(o, nv, bzr)
        exact = half_space_volume(nv, float(nv @ o), lo.astype(np.float64), hi.astype(np.float64))
        s.note("function", f"half space {nv.tolist()} {o.tolist()}")
    total = float(np.prod(ext))
    if neg:
        f = F.create_negative(f)
        exact = None if exact is None else total - exact
    s.note("", f"bezier {bzr} negative {neg} cells {n} box {lo.tolist()} {hi.tolist()} {dtype.__name__}")
    excl = s.chance(3, 4)
    size = 2 if excl and s.chance(1, 4) else 1
    mode = s.pick([env.GhostMode.none, env.GhostMode.shared_facet])
    equal = len(set(n)) == 1 and s.coin()
    if exact is not None and exact < 1e-9 and excl:
        raise Discard()
    args = dict(degree=s.pick([1, 1, 2]), exclude_empty_cells=excl, ghost_mode=mode)
    if not unit_box:
        args |= dict(xmin=lo, xmax=hi)
    elif dtype == np.float32:
        args["dtype"] = dtype
    store = {}
    deg = s.i(3, 5) if not curved else (9 if dim == 2 else 7)
    k = UnfittedDomain.get_num_Gauss_points(deg)
    # A polynomial field and its divergence.
    co = [[s.real(-1, 1) for _ in range(3)] for _ in range(dim)]
    A = np.array(co)
    field = lambda x: np.column_stack([A[d, 0] + A[d, 1] * x[:, d] + A[d, 2] * x[:, d] * x[:, (d + 1) % dim] for d in range(dim)])
    div = lambda x: sum(A[d, 1] + A[d, 2] * x[:, (d + 1) % dim] for d in range(dim))
    measure = inside = out = 0.0
    cuts = fulls = 0
    closed = np.zeros(dim)
    kinds = {}
    for rank in range(size):
        comm = env.Comm(rank, size)
        comm.store = store
        m = create_unfitted_impl_Cartesian_mesh(comm, f, int(n[0]) if equal else s.pick([list, lambda v: np.array(v, dtype=np.int32)])(n), **args)
        if size == 1:
            require(m.num_local_cells > 0 or exact is None or exact < 1e-9, "active cells of a domain that is not empty", exact)
        cpp = m._cpp_object
        # The box of a local cell, from the mesh DOLFINx would see.
        X = cpp.geometry.x[:, :dim].astype(np.float64)
        def box(c):
            v = X[cpp.dofmap[c]]
            return v.min(axis=0), v.max(axis=0)
        cut, full = m.get_cut_cells(), m.get_full_cells()
        cuts, fulls = cuts + len(cut), fulls + len(full)
        for c in full:
            a, b = box(c)
            p, w = gauss(dim, 3)
            vol = float(np.prod(b - a))
            measure += vol
            inside += vol * float(w @ div(a + p * (b - a)))
        order = np.array(s.shuffled(cut.tolist()), dtype=np.int32)
        q = m.create_quad_custom_cells(deg, order)
        require(np.array_equal(q.cells, order), "cells of a rule", q.cells, order)
        at = 0
        for c, m_ in zip(q.cells, q.n_pts_per_entity):
            a, b = box(c)
            p, w = np.asarray(q.points)[at:at + m_], np.asarray(q.weights)[at:at + m_]
            at += m_
            vol = float(np.prod(b - a))
            require(np.all(w > -1e-12) and w.sum() < 1 + 1e-6, "weights of a cut cell", w.sum())
            measure += vol * float(w.sum())
            inside += vol * float(w @ div(a + p * (b - a)))
        q = m.create_quad_unf_boundaries(deg, order)
        at = 0
        for c, m_ in zip(q.cells, q.n_pts_per_entity):
            a, b = box(c)
            h = b - a
            p, w, nr = np.asarray(q.points)[at:at + m_], np.asarray(q.weights)[at:at + m_], np.asarray(q.normals)[at:at + m_]
            at += m_
            # Nanson's formula: the vector measure in the physical space.
            v = np.prod(h) * nr / h * w[:, None]
            out += float(np.sum(field(a + p * h) * v))
            closed += v.sum(axis=0)
        def facet(c, j, p, w, name):
            nonlocal out, closed
            d, side, x0, T = REF[dim][j]
            a, b = box(c)
            h = b - a
            y = a + (x0 + p @ T) * h
            nrm = np.zeros(dim)
            nrm[d] = 1.0 if side else -1.0
            v = np.prod(np.delete(h, d)) * w
            out += float(np.sum(v[:, None] * field(y) * nrm))
            closed += v.sum() * nrm
            kinds[name] = kinds.get(name, 0) + 1
        p, w = gauss(dim - 1, 3)
        for c, j in entities(m.get_full_facets(ext_integral=True)):
            facet(c, j, p, w, "full facets")
        cf = m.get_cut_facets(ext_integral=True)
        q = m.create_quad_custom_facets(deg, cf, True)
        require(entities(q.facets) == entities(cf), "facets of a rule", entities(q.facets), entities(cf))
        at = 0
        for (c, j), m_ in zip(entities(q.facets), q.n_pts_per_entity):
            facet(c, j, np.asarray(q.points)[at:at + m_].reshape(m_, dim - 1), np.asarray(q.weights)[at:at + m_], "cut facets")
            at += m_
    for kk, v in kinds.items():
        s.count(kk, v)
    s.count("cut cells", cuts)
    s.count("full cells", fulls)
    if cuts:
        s.nontrivial()
    area = sum(2 * total / e for e in ext)
    eps = 0.03 if curved else tol * 10
    if exact is not None:
        require(abs(measure - exact) <= eps * total, "measure of the domain", measure, "expected", exact, "of", total)
    require(np.all(np.abs(closed) <= eps * area), "the boundary is not closed: the integral of the normal is", closed.tolist(), "boundary of the box", area, kinds)
    scale = np.abs(A).max() * (1 + np.max(np.abs([lo, hi]))) ** 2 * (area + total)
    require(abs(inside - out) <= eps * scale, "divergence theorem", inside, "in the domain,", out, "through its boundary", kinds)

# ---------------------------------------------------------------- W04
captured = []
def create_mesh(comm, conn, domain, points, partitioner=None, *a, **k):
    captured.append((comm, conn, domain, points, partitioner))
    return types.SimpleNamespace(comm=comm)
env.mesh.create_mesh = create_mesh
asked = []
env.fem.create_interpolation_data = lambda *a, **k: (asked.append((a, k)), "data")[1]
import qugar.reparam.reparam as RP
def rank_in_lattice(e, tdim, p):
    """Lexicographic index of every node of an element in the lattice of its reference points."""
    x = np.asarray(e.points if hasattr(e, "points") else e._element.points)
    values = [np.unique(np.round(x[:, d], 9)) for d in range(tdim)]
    idx = np.array([np.searchsorted(values[d], np.round(x[:, d], 9)) for d in range(tdim)]).T
    return idx @ np.array([(p + 1) ** d for d in range(tdim)])
@prop("W04", 4000, 60000, 60)
def w04(s):
    env.Scratch.src = s
    dim = 2 if s.chance(2, 3) else 3
    degree = s.i(1, 5 if dim == 2 else 3)
    levelset = s.chance(1, 3)
    n = [s.i(1, 3 if dim == 2 else 2) for _ in range(dim)]
    if s.coin():
        o, nv = np.array([s.unit() for _ in range(dim)]), np.array([s.real(-1, 1) for _ in range(dim)]) + 0.05
        f = (F.create_line if dim == 2 else F.create_plane)(o, nv, s.coin())
    else:
        f = (F.create_disk if dim == 2 else F.create_sphere)(s.real(0.2, 0.8), np.array([s.unit() for _ in range(dim)]), s.coin())
    rank, size = s.pick([(0, 1), (0, 1), (0, 2), (1, 2)])
    grid = Q.create_cart_grid([np.linspace(0, 1, m + 1) for m in n])
    unf = Q.create_unfitted_impl_domain(f.cpp_object, grid)
    comm = env.Comm(rank, size)
    dom = types.SimpleNamespace(cpp_unf_domain_object=unf, mesh=types.SimpleNamespace(comm=comm))
    s.note("", f"dim {dim} degree {degree} levelset {levelset} cells {n} rank {rank}/{size} {type(f.cpp_object).__name__}")
    default = degree == 3 and s.coin()
    r = RP.create_reparam_mesh(dom, **({} if default else dict(degree=degree)), **(dict(levelset=True) if levelset else {}))
    tdim = dim - 1 if levelset else dim
    c = r.cpp_object
    require(r.unf_domain is dom and (c.dim, c.range, c.order) == (tdim, dim, degree + 1), "reparameterization of a degree", degree, levelset, (c.dim, c.range, c.order))
    want = (Q.create_reparameterization_levelset if levelset else Q.create_reparameterization)(unf, degree + 1, False)
    for a in ("points", "cells_conn", "wirebasket_conn"):
        require(np.array_equal(getattr(c, a), getattr(want, a)), "reparameterization " + a)
    for wb in s.shuffled([False, True]):
        captured.clear()
        r.create_mesh(wirebasket=True) if wb else (r.create_mesh() if s.coin() else r.create_mesh(wirebasket=False))
        require(len(captured) == 1, "meshes created", len(captured))
        cm, conn, domain, points, part = captured[0]
        t = 1 if wb else tdim
        src = np.asarray(c.wirebasket_conn if wb else c.cells_conn)
        e = domain.element
        require(cm is comm, "communicator of the mesh")
        require(tuple(e.reference_value_shape if hasattr(e, "reference_value_shape") else e.value_shape) == (dim,) and e.cell_type == CELL[t], "element of the mesh", e, dim, t)
        require(not e.discontinuous, "element of the mesh is discontinuous")
        sub = e.sub_elements[0] if getattr(e, "sub_elements", None) else e
        base = sub
        while not hasattr(base, "element") and hasattr(base, "_element"):
            base = base._element
        el = basix.create_element(basix.ElementFamily.P, CELL[t], degree, e.lagrange_variant if hasattr(e, "lagrange_variant") else basix.LagrangeVariant.gll_warped)
        require(sub.degree == degree if hasattr(sub, "degree") else True, "degree of the element", degree)
        require(np.asarray(conn).dtype == np.int64 and np.asarray(conn).shape == src.shape, "connectivity of the mesh", np.asarray(conn).shape, src.shape)
        require(np.array_equal(points, c.points), "points of the mesh")
        idx = rank_in_lattice(el, t, degree)
        require(np.array_equal(np.asarray(conn), src[:, idx].astype(np.int64)), "order of the nodes in the cells of the mesh", "degree", degree, "dimension", t, "wirebasket", wb)
        if len(src):
            s.nontrivial()
        s.count("mesh cells", len(src))
        # Cells stay on the process that has them.
        name = ["interval", "quadrilateral", "hexahedron"][t - 1]
        topo = np.zeros((len(src), 2**t), dtype=np.int64)
        dest = part(comm, size, [env.CellType(name)], [topo.reshape(-1)])
        rows = np.concatenate([np.asarray(dest.links(i)) for i in range(dest.num_nodes)]) if dest.num_nodes else np.empty(0)
        require(dest.num_nodes == len(src) and np.all(rows == rank) and len(rows) == len(src), "destination of the cells", rows, rank)

    # Interpolation into the reparameterization involves every cell of the process, ghosts included.
    if s.chance(1, 4):
        own, ghosts = s.i(0, 6), s.i(0, 3)
        t = s.i(1, 3)
        asked.clear()
        def index_map(d):
            require(d == t, "dimension of the cells", d, t)
            return types.SimpleNamespace(size_local=own, num_ghosts=ghosts)
        to = types.SimpleNamespace(mesh=types.SimpleNamespace(topology=types.SimpleNamespace(dim=t, index_map=index_map)))
        frm = types.SimpleNamespace(mesh=None)
        pad = s.pick([None, 1e-6, 0.5])
        cells, data = RP.create_interpolation_data(to, frm, **({} if pad is None else dict(padding=pad)))
        require(data == "data" and len(asked) == 1, "interpolation data")
        a = dict(zip(("V_to", "V_from", "cells", "padding"), asked[0][0]), **asked[0][1])
        require(a["V_to"] is to and a["V_from"] is frm and a.get("padding") == (1e-14 if pad is None else pad), "arguments of the interpolation", a)
        for v in (cells, a["cells"]):
            require(np.asarray(v).dtype == np.int32 and np.asarray(v).tolist() == list(range(own + ghosts)), "cells to interpolate into", v, own, ghosts)

# ---------------------------------------------------------------- U01
import qugar.utils as U
BOUNDS = {"dolfinx": ((0, 10, 0), (0, 11, 0)), "basix": ((0, 10, 0), (0, 11, 0)), "ffcx": ((0, 10, 0), (0, 11, 0)), "ufl": ((2025, 2, 0), (2025, 3, 0))}
def text(v):
    return ".".join(map(str, v))
def version(s, around=None):
    if around is None or s.chance(1, 4):
        return tuple(s.pick([0, 1, 2, 9, 10, 11, 12, 99, 2024, 2025]) if s.coin() else s.i(0, 12) for _ in range(3))
    v = list(s.pick(list(around)))
    for _ in range(s.i(0, 2)):
        k = s.raw(2)
        v[k] = max(0, v[k] + s.pick([1, -1, 10, 5]))
    return tuple(v)
@prop("U01", 60000, 1000000)
def u01(s):
    a, b, c = version(s), version(s), version(s)
    if s.coin():
        b = version(s, [a])
        c = version(s, [a, b])
    s.note("versions", f"{text(a)} {text(b)} {text(c)}")
    require(U._compare_version_lt(text(a), text(b)) == (a < b), "smaller version", text(a), text(b)) if hasattr(U, "_compare_version_lt") else None
    require(U._compare_version_le(text(a), text(b)) == (a <= b), "smaller or equal version", text(a), text(b)) if hasattr(U, "_compare_version_le") else None
    require(U.check_version_in_range(text(a), text(b), text(c)) == (b <= a < c), "version in a range", text(a), "range", text(b), text(c))
    if b <= a < c:
        s.nontrivial()
    if not s.chance(1, 8):
        return
    # What is found decides what is available.
    found = {}
    saved = {}
    names = {"dolfinx": "dolfinx.cpp", "basix": "basix", "ffcx": "ffcx", "ufl": "ufl"}
    near = s.chance(3, 4)
    for k, m in names.items():
        lo, hi = BOUNDS[k]
        v = (lo[0], lo[1], s.i(0, 12)) if near and s.chance(7, 8) else version(s, [lo, hi, (lo[0], lo[1], 12)])
        if s.chance(1, 12):
            v = None
        found[k] = v
        saved[m] = sys.modules[m]
        if v is None:
            sys.modules[m] = None
        else:
            mm = types.ModuleType(m)
            mm.__version__ = text(v)
            sys.modules[m] = mm
            if k == "dolfinx":
                mm.__path__ = []
    s.note("found", found)
    petsc = s.coin()
    saved["petsc4py"] = sys.modules["petsc4py"]
    saved["petsc4py.PETSc"] = sys.modules["petsc4py.PETSc"]
    if not petsc:
        sys.modules["petsc4py"] = None
    try:
        spec = importlib.util.spec_from_file_location("utils_under_test", env.ROOT + "/utils.py")
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        ok = {k: v is not None and BOUNDS[k][0] <= v < BOUNDS[k][1] for k, v in found.items()}
        got = {"dolfinx": m.check_DOLFINx(), "basix": m.check_Basix(), "ffcx": m.check_FFCx(), "ufl": m.check_UFL()}
        require(got == ok, "availability of the packages", found, got, ok)
        require(m.has_FEniCSx == all(ok.values()), "availability of FEniCSx", found, m.has_FEniCSx)
        require(m.has_PETSc == petsc, "availability of PETSc", petsc)
        s.count("FEniCSx available" if m.has_FEniCSx else "FEniCSx not available")
    finally:
        sys.modules.update(saved)
    if s.chance(1, 100):
        without_fenicsx(s)
def without_fenicsx(s):
    """A process in which FEniCSx is too old or missing: the package works without its FEniCSx part, which refuses to be imported."""
    s.count("import without FEniCSx")
    missing = s.coin()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = "?"
        try:
            for k in [k for k in sys.modules if k.split(".")[0] == "qugar" and k != "qugar.cpp"]:
                del sys.modules[k]
            if missing:
                sys.modules["dolfinx.cpp"] = None
            else:
                sys.modules["dolfinx.cpp"].__dict__["__version__"] = "0.9.0"
            sys.path.insert(0, env.REPO + "/python")
            Q.__dict__.setdefault("__version__", "0")
            import qugar
            bad = []
            if qugar.has_FEniCSx:
                bad.append("available")
            qugar.cpp = Q
            qugar.mesh.lexicg_to_VTK_nodes(2, 2)
            qugar.quad.CustomQuad
            if hasattr(qugar.mesh, "UnfittedCartMesh"):
                bad.append("mesh")
            for name in ("qugar.dolfinx", "qugar.reparam", "qugar.mesh.mesh", "qugar.mesh.unfitted_domain"):
                try:
                    __import__(name)
                    bad.append(name)
                except ValueError:
                    pass
            out = "ok" if not bad else "not refused: " + " ".join(bad)
        except BaseException as e:
            out = f"{type(e).__name__}: {e}"
        os.write(w, out.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read().decode()
    os.waitpid(pid, 0)
    require(out == "ok", "import without FEniCSx", out)
if __name__ == "__main__":
    sys.exit(main())
