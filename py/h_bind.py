"""W01-W02: the compiled extension as seen from Python, and the Python constructors of implicit functions."""
import gc, math, sys
import env, bindings
import numpy as np
from pbt import Discard, main, prop, require
Q = bindings.load(asan=True)
import qugar.impl.impl_function as F

def same(got, want, sig, *msg, dtype=None):
    got, want = np.asarray(got), np.asarray(want)
    require(got.shape == want.shape and np.array_equal(got, want), sig, *msg, "got", got.tolist() if got.size < 100 else got, "expected", want.tolist() if want.size < 100 else want)
    if dtype is not None:
        require(got.dtype == dtype, sig + " type", *msg, got.dtype, "instead of", dtype)
def layout(s, a):
    """The same values in some layout in memory."""
    a = np.array(a)
    kind = s.i(0, 5)
    s.count(f"layout {kind}")
    if kind == 1:
        b = np.full((a.shape[0] * 2 + 1,) + a.shape[1:], 77, dtype=a.dtype)
        b[1::2] = a
        return b[1::2]
    if kind == 2:
        return a[::-1].copy()[::-1]
    if kind == 3 and a.ndim == 2:
        return np.asfortranarray(a)
    if kind == 4:
        b = np.full(a.shape[:-1] + (a.shape[-1] * 3,), 55, dtype=a.dtype)
        b[..., ::3] = a
        return b[..., ::3]
    if kind == 5:
        a.flags.writeable = False
    return a
def ints(s, a, t=np.int64):
    """Integers in some layout; in a share of the cases in a narrower or wider type."""
    a = np.asarray(a, dtype=t)
    if s.chance(1, 6):
        a = a.astype(np.int32 if t == np.int64 else np.int64)
    return layout(s, a)
def breaks(s, dim, top):
    out = []
    for _ in range(dim):
        n = s.i(1, top)
        steps = np.array([s.pick([0.25, 0.5, 1.0, 0.125, 0.75]) for _ in range(n)])
        out.append(s.pick([0.0, -0.5, -1.25, 2.0]) + np.concatenate([[0.0], np.cumsum(steps)]))
    return out
def churn(s):
    """Reuses released memory and stack."""
    gc.collect()
    keep = [np.full(s.i(1, 600), 3.25) for _ in range(30)]
    b = Q.create_bound_box([7.0, 8.0, 9.0], [17.0, 18.0, 19.0])
    b.as_array(), b.volume
    del keep, b

# ---------------------------------------------------------------- W01
@prop("W01", 4000, 60000, 30)
def w01(s):
    dim = s.i(2, 3)
    br = breaks(s, dim, 5 if dim == 2 else 3)
    s.note("breaks", [b.tolist() for b in br])
    kept = []
    def keep(what, a, want=None):
        if want is not None:
            same(a, want, what)
        kept.append((what, a, np.array(a)))
        return a
    n = [len(b) - 1 for b in br]
    total = int(np.prod(n))
    if s.chance(1, 4):
        # The grid of a box: equal cells.
        lo, hi = [float(b[0]) for b in br], [float(b[-1]) for b in br]
        box = Q.create_bound_box(lo, hi) if s.coin() else Q.create_bound_box(layout(s, np.array(lo)), layout(s, np.array(hi)))
        grid = Q.create_cart_grid(box, s.pick([list, tuple, lambda v: np.array(v, dtype=np.int32)])(n))
        br = [np.linspace(a, b, m + 1) for a, b, m in zip(lo, hi, n)]
        for d in range(dim):
            require(np.allclose(grid.cell_breaks[d], br[d], rtol=0, atol=1e-13), "breaks of a box", grid.cell_breaks, br)
        br = [np.array(b) for b in grid.cell_breaks]
    else:
        how = s.i(0, 3)
        given = [b.tolist() for b in br] if how == 0 else [layout(s, b.astype(np.float32) if how == 1 else b) for b in br]
        grid = Q.create_cart_grid(tuple(given) if s.coin() else given)
    require(type(grid).__name__ == f"CartGridTP_{dim}D" and grid.dim == dim, "dimension of a grid", type(grid), grid.dim)
    for d, b in enumerate(keep("cell breaks", c, w) is not None and c for c, w in zip(grid.cell_breaks, br)):
        pass
    same(keep("cells per direction", grid.num_cells_dir), n, "cells per direction")
    dom = grid.domain
    lo, hi = np.array([b[0] for b in br]), np.array([b[-1] for b in br])
    def box_is(box, lo, hi, what):
        keep(what + " min corner", box.min_corner, lo)
        keep(what + " max corner", box.max_corner, hi)
        keep(what + " array", box.as_array(), np.stack([lo, hi], axis=1))
        mid = box.mid_point
        churn(s)
        require(mid.shape == (dim,) and np.allclose(mid, (lo + hi) / 2, rtol=0, atol=1e-12), what + " mid point", mid, "of", lo, hi)
        keep(what + " mid point", mid)
        require(math.isclose(box.volume, float(np.prod(hi - lo)), rel_tol=1e-12), what + " volume", box.volume)
        for d in range(dim):
            require(math.isclose(box.length(d), float(hi[d] - lo[d]), rel_tol=1e-12), what + " length", d, box.length(d))
    box_is(dom, lo, hi, "domain")
    def index(c):
        t = []
        for m in n:
            t.append(c % m)
            c //= m
        return t
    for c in s.shuffled(range(total))[:3]:
        t = index(c)
        box_is(grid.get_cell_domain(s.pick([int, np.int64, np.int32])(c)), np.array([b[k] for b, k in zip(br, t)]), np.array([b[k + 1] for b, k in zip(br, t)]), "cell")
    f = s.raw(2 * dim - 1)
    same(sorted(keep("boundary cells", grid.get_boundary_cells(f)).tolist()), [c for c in range(total) if index(c)[f // 2] == (n[f // 2] - 1 if f % 2 else 0)], "boundary cells", f)
    # An unfitted domain.
    mid, ext = (lo + hi) / 2, hi - lo
    bzr = s.coin()
    if s.coin():
        R = s.pick([0.3, 0.45, 0.6]) * float(ext.min())
        c = mid + np.array([s.real(-0.2, 0.2) for _ in range(dim)]) * ext
        fn = (Q.create_disk if dim == 2 else Q.create_sphere)(R, layout(s, c), bzr)
        require(fn.radius == R, "radius", fn.radius, R)
        keep("centre", fn.center, c)
        exact = lambda x: np.sum((x - c) ** 2, axis=1) - R * R
    else:
        nv = np.array([s.real(-1, 1) for _ in range(dim)])
        if np.linalg.norm(nv) < 0.2:
            nv[0] = 1.0
        fn = (Q.create_line if dim == 2 else Q.create_plane)(layout(s, mid), layout(s, nv), bzr)
        keep("origin", fn.origin, mid)
        got = keep("normal", fn.normal)
        require(np.allclose(got / np.linalg.norm(got), nv / np.linalg.norm(nv), atol=1e-12), "normal", got, nv)
        exact = lambda x: (x - mid) @ nv
    s.note("function", type(fn).__name__)
    require(fn.dim == dim, "dimension of a function", fn.dim)
    # Points in any layout.
    x = lo + ext * np.array([[s.unit() for _ in range(dim)] for _ in range(s.pick([0, 1, 2, 5]))]).reshape(-1, dim)
    p = layout(s, x) if len(x) else x
    v, g = fn.eval(p), fn.grad(p)
    require(v.shape == (len(x),) and g.shape == x.shape, "shape of values", v.shape, g.shape)
    e = exact(x)
    require(np.all((np.sign(v) == np.sign(e)) | (np.abs(e) < 1e-9)), "values of a function", v, e)
    same(fn.eval(x.copy()), v, "values and layout")
    same(fn.grad(x.copy()), g, "gradients and layout")
    keep("values", v)
    keep("gradients", g)
    target = None
    if s.chance(1, 3):
        target = s.subset(range(total), 2, 3)
        u = Q.create_unfitted_impl_domain(fn, grid, target if s.coin() else ints(s, target))
    else:
        u = Q.create_unfitted_impl_domain(fn, grid)
    require(u.dim == dim and u.num_total_cells == total, "unfitted domain", u.dim, u.num_total_cells)
    require(type(u).__name__ == f"UnfittedImplDomain_{dim}D" and isinstance(u, getattr(Q, f"UnfittedDomain_{dim}D")), "type of an unfitted domain", type(u))
    for a, b in zip(u.grid.cell_breaks, br):
        keep("breaks of the domain's grid", a, b)
    require(np.array_equal(u.impl_func.eval(x.copy()), v), "function of a domain")
    cells = {}
    for st in ("cut", "full", "empty"):
        get = getattr(u, f"get_{st}_cells")
        cells[st] = sorted(keep(st + " cells", get()).tolist())
        require(get().dtype == np.int64, "type of cells", get().dtype)
    known = sorted(cells["cut"] + cells["full"] + cells["empty"])
    require(known == sorted(range(total) if target is None else target), "classified cells", cells, target)
    sub = s.shuffled(s.subset(known))
    for st in cells:
        got = getattr(u, f"get_{st}_cells")(ints(s, sub))
        require(sorted(got.tolist()) == sorted(set(sub) & set(cells[st])), st + " cells among given ones", got, sub, cells[st])
    for kind in ("cut", "full", "empty", "unf_bdry", "full_unf_bdry"):
        get = getattr(u, f"get_{kind}_facets")
        a, b = get()
        require(a.dtype == np.int64 and b.dtype == np.int32 and a.shape == b.shape, "facets", kind, a.dtype, b.dtype, a.shape, b.shape)
        keep(kind + " facet cells", a), keep(kind + " facets", b)
        have = set(zip(a.tolist(), b.tolist()))
        if kind == "empty" and target is not None:
            continue
        pairs = s.shuffled(s.subset([(c, f) for c in known for f in range(2 * dim)], 1, 3))
        a, b = get(ints(s, [c for c, _ in pairs]), ints(s, [f for _, f in pairs], np.int32))
        require(sorted(zip(a.tolist(), b.tolist())) == sorted(have & set(pairs)), kind + " facets among given ones", a, b, pairs)
    # Rules and meshes do not depend on how the cells are laid out in memory, and their arrays outlive them.
    npt = s.i(1, 3)
    ids = s.shuffled(s.subset(cells["cut"] + cells["full"], 1, 2))[:6]
    plain = np.array(ids, dtype=np.int64)
    if len(ids) > 1:
        s.nontrivial()
    rules = [("cell rule", Q.create_quadrature, (), dict())]
    incl, excl = s.coin(), s.coin()
    rules.append(("boundary rule", Q.create_unfitted_bound_quadrature, (), dict(include_facet_unf_bdry=incl, exclude_ext_bdry=excl)))
    fids = [s.raw(2 * dim - 1) for _ in ids]
    for nm in ("interior", "exterior"):
        rules.append((nm + " facet rule", getattr(Q, f"create_facets_quadrature_{nm}_integral"), (fids,), {}))
    for what, make, more, kw in rules:
        extra = [np.array(m, dtype=np.int32) for m in more]
        q = make(u, plain.copy(), *extra, npt, **kw)
        r = make(u, ints(s, ids), *[ints(s, m, np.int32) for m in more], npt, **kw)
        same(q.cells, ids, what + " cells", dtype=np.int64)
        if more:
            same(q.facets, fids, what + " facets", dtype=np.int32)
        only = s.pick([None, "cells", "n_pts_per_entity", "points", "weights", "normals", "facets"])
        require(q.points.shape == (len(q.weights), dim - len(more)) and q.n_pts_per_entity.dtype == np.int32 and int(q.n_pts_per_entity.sum()) == len(q.weights), what + " shapes", q.points.shape)
        for a in ("cells", "n_pts_per_entity", "points", "weights") + (("normals",) if "boundary" in what else ()) + (("facets",) if more else ()):
            same(getattr(r, a), getattr(q, a), f"{what} {a} and layout", "cells", ids)
            # Any of the arrays would keep the others.
            if only in (None, a):
                keep(f"{what} {a}", getattr(q, a))
        if "boundary" in what:
            require(q.normals.shape == q.points.shape, "shape of normals", q.normals.shape)
        del q, r
    if s.chance(1, 4):
        order, ls = s.i(2, 3), s.coin()
        make = Q.create_reparameterization_levelset if ls else Q.create_reparameterization
        if ids and s.coin():
            m, m2 = make(u, plain.copy(), order, False), make(u, ints(s, ids), order, False)
        else:
            m, m2 = make(u, order, False), make(u, n_pts_dir=order, merge_points=False)
        tdim = dim - 1 if ls else dim
        require((m.dim, m.range, m.order) == (tdim, dim, order) and type(m).__name__ == f"ReparamMesh_{tdim}_{dim}", "reparameterization", type(m), m.dim, m.range, m.order)
        require(m.points.shape[1] == dim and m.cells_conn.shape[1] == order**tdim and m.wirebasket_conn.shape[1] == order, "shapes of a reparameterization", m.points.shape, m.cells_conn.shape, m.wirebasket_conn.shape)
        only = s.pick([None, "points", "cells_conn", "wirebasket_conn"])
        for a in ("points", "cells_conn", "wirebasket_conn"):
            same(getattr(m2, a), getattr(m, a), f"reparameterization {a} and layout")
            if only in (None, a):
                keep(f"reparameterization {a}", getattr(m, a))
        for a in (m.cells_conn, m.wirebasket_conn):
            require(a.size == 0 or int(a.max()) < len(m.points), "nodes of a reparameterization", a, m.points.shape)
        del m, m2
    # One-dimensional Gauss rules in tensor product.
    k = [s.i(1, 4) for _ in range(s.i(1, 3))]
    q = Q.create_Gauss_quad_01(k)
    pts, w = q.points, q.weights
    which = s.i(0, 2)
    if which != 1:
        keep("Gauss points", pts)
    if which != 2:
        keep("Gauss weights", w)
    one = [np.polynomial.legendre.leggauss(m) for m in k]
    want_w = np.array([1.0])
    for x1, w1 in one:
        want_w = np.concatenate([want_w * b / 2 for b in w1])
    require(pts.shape == (int(np.prod(k)), len(k)) and np.allclose(w, want_w, rtol=0, atol=1e-12), "Gauss rule", k, w, want_w)
    for d, (x1, _) in enumerate(one):
        got = pts[:, d].reshape(-1, int(np.prod(k[:d])))[::1, 0].reshape(-1, k[d])[0]
        require(np.allclose(got, (x1 + 1) / 2, atol=1e-12), "Gauss points", k, d, got)
    # What was read stays as it was when everything it came from is gone.
    del q, pts, w, u, fn, grid, dom, make, rules
    churn(s)
    for what, a, copy in kept:
        require(np.array_equal(a, copy), what + " after its object is gone", a, "was", copy)
        if s.chance(1, 20) and not a.flags.writeable:
            try:
                a[...] = 0
                require(False, "read-only array", what)
            except ValueError:
                pass
    s.count("arrays", len(kept))

# ---------------------------------------------------------------- W02
def unit(v):
    return np.asarray(v, dtype=np.float64) / np.linalg.norm(np.asarray(v, dtype=np.float64))
def frame(*axes):
    x = unit(axes[0])
    if len(x) == 2:
        return np.array([x, [-x[1], x[0]]])
    z = unit(np.cross(x, axes[1]))
    return np.array([x, np.cross(z, x), z])
def vector(s, dim, lo=-1.0, hi=1.0):
    v = np.array([s.real(lo, hi) for _ in range(dim)])
    v = v.astype(np.float32) if s.chance(1, 3) else v
    s.note("vector", v.tolist())
    return v
def direction(s, dim):
    v = np.array([s.real(-1, 1) for _ in range(dim)])
    if np.linalg.norm(v) < 0.2:
        v[s.raw(dim - 1)] = 1.0
    v = v.astype(np.float32) if s.chance(1, 3) else v
    s.note("direction", v.tolist())
    return v
def number(s, lo, hi):
    v = s.real(lo, hi)
    s.note("number", v)
    return s.pick([float, float, np.float64, np.float32])(v)
def transf(s, dim):
    """An affine transformation and the inverse map."""
    kind = s.i(0, 4)
    o = vector(s, dim).astype(np.float64)
    A = np.eye(dim)
    T = Q.create_affine_transformation
    if kind == 0:
        t = T(o)
    elif kind == 1:
        f = s.real(0.3, 2)
        t, A = T(o, f), f * A
    elif kind < 4:
        a = direction(s, dim).astype(np.float64)
        more = []
        if dim == 3:
            b = direction(s, 3).astype(np.float64)
            if np.linalg.norm(np.cross(unit(a), unit(b))) < 0.3:
                raise Discard()
            more = [b]
        sc = [s.real(0.4, 2) for _ in range(dim)] if kind == 3 else []
        t = T(o, a, *more, *sc)
        A = (frame(a, *more).T) * np.array(sc or [1.0] * dim)
    else:
        A = np.eye(dim) * s.pick([1.0, -1.0, 1.5]) + np.array([[s.real(-0.25, 0.25) for _ in range(dim)] for _ in range(dim)])
        t = T(np.concatenate([A.reshape(-1), o]))
    if abs(np.linalg.det(A)) < 0.05:
        raise Discard()
    inv = np.linalg.inv(A)
    return t, lambda x: (x - o) @ inv.T
def ref_system(s, dim):
    o = vector(s, dim, -0.5, 0.5).astype(np.float64) if s.chance(2, 3) else np.zeros(dim)
    if s.coin():
        return Q.create_ref_system(o), o, np.eye(dim)
    a = direction(s, dim).astype(np.float64)
    if dim == 2:
        return Q.create_ref_system(o, a), o, frame(a)
    b = direction(s, 3).astype(np.float64)
    if np.linalg.norm(np.cross(unit(a), unit(b))) < 0.3:
        raise Discard()
    return Q.create_ref_system(o, a, b), o, frame(a, b)
def box_value(x):
    return np.max(np.abs(x), axis=1) - 1
def multilinear(c, x):
    v = np.zeros(len(x))
    for k in range(len(c)):
        w = np.full(len(x), c[k])
        for i in range(x.shape[1]):
            w = w * (x[:, i] if k >> i & 1 else 1 - x[:, i])
        v += w
    return v
TPMS = ["create_Schoen", "create_Schoen_IWP", "create_Schoen_FRD", "create_Fischer_Koch_S", "create_Schwarz_Diamond", "create_Schwarz_Primitive"]
def tpms_value(which, X):
    S, C, C2 = np.sin(2 * np.pi * X).T, np.cos(2 * np.pi * X).T, np.cos(4 * np.pi * X).T
    if which == 0:
        return sum(S[i] * C[(i + 1) % 3] for i in range(3))
    if which == 1:
        return sum(2 * C[i] * C[(i + 1) % 3] - C2[i] for i in range(3))
    if which == 2:
        return 4 * C[0] * C[1] * C[2] - sum(C2[i] * C2[(i + 1) % 3] for i in range(3))
    if which == 3:
        return C2[0] * S[1] * C[2] + C[0] * C2[1] * S[2] + S[0] * C[1] * C2[2]
    if which == 4:
        return C[0] * C[1] * C[2] - S[0] * S[1] * S[2]
    return C[0] + C[1] + C[2]
def primitive(s):
    """(function, reference, exact values or only the sign, name, kinks)."""
    kind = s.i(0, 11)
    kw = {}
    bzr = s.pick([None, True, False])
    if bzr is not None:
        kw["use_bzr"] = bzr
    f64 = lambda v: np.asarray(v, dtype=np.float64)
    def given(names, values):
        """Passes arguments by position or by name."""
        if s.coin():
            return list(values), {}
        return [], dict(zip(names, values))
    if kind < 2:
        dim = 2 + kind
        R = number(s, 0.2, 1.2)
        c = vector(s, dim) if s.chance(2, 3) else None
        a, k = given(["radius", "center"], [R, c])
        if c is None and s.coin():
            a, k = [R], {}
        f = (F.create_disk if dim == 2 else F.create_sphere)(*a, **k, **kw)
        c = np.zeros(dim) if c is None else f64(c)
        return dim, f, lambda x: np.sum((x - c) ** 2, axis=1) - float(R) ** 2, "disk/sphere"
    if kind < 4:
        dim = kind
        ax = vector(s, dim, 0.3, 1.2)
        E = np.eye(dim)
        o = np.zeros(dim)
        a = [ax]
        if s.chance(2, 3):
            sys_, o, E = ref_system(s, dim)
            a, k = given(["semi_axes", "ref_system"], [ax, sys_])
        else:
            k = {}
        f = (F.create_ellipse if dim == 2 else F.create_ellipsoid)(*a, **k, **kw)
        return dim, f, lambda x: np.sum(((x - o) @ E.T / f64(ax)) ** 2, axis=1) - 1, "ellipse/ellipsoid"
    if kind == 4:
        R, o = number(s, 0.2, 1.2), vector(s, 3)
        a = direction(s, 3) if s.chance(2, 3) else None
        p, k = given(["radius", "origin", "axis"], [R, o, a])
        f = F.create_cylinder(*p, **k, **kw)
        a = np.array([0.0, 0.0, 1.0]) if a is None else unit(a)
        return 3, f, lambda x: np.sum(np.cross(x - f64(o), a) ** 2, axis=1) - float(R) ** 2, "cylinder"
    if kind == 5:
        Ri = number(s, 0.2, 0.7)
        Ro = float(Ri) + s.real(0.2, 0.6)
        c = vector(s, 2) if s.chance(2, 3) else None
        p, k = given(["inner_radius", "outer_radius", "center"], [Ri, Ro, c])
        f = F.create_annulus(*p, **k, **kw)
        c = np.zeros(2) if c is None else f64(c)
        def ref(x):
            q = np.sum((x - c) ** 2, axis=1)
            return (q - float(Ri) ** 2) * (q - Ro**2)
        return 2, f, ref, "annulus"
    if kind == 6:
        R = number(s, 0.4, 1.0)
        r = s.pick([float, np.float32])(float(R) * s.real(0.2, 0.8))
        c = vector(s, 3) if s.coin() else None
        a = direction(s, 3) if s.coin() else None
        p, k = given(["major_radius", "minor_radius", "center", "axis"], [R, r, c, a])
        f = F.create_torus(*p, **k, **kw)
        c, a = np.zeros(3) if c is None else f64(c), np.array([0.0, 0.0, 1.0]) if a is None else unit(a)
        def ref(x):
            h = (x - c) @ a
            t = np.sum((x - c) ** 2, axis=1)
            return (np.sqrt(np.maximum(t - h * h, 0)) - float(R)) ** 2 + h * h - float(r) ** 2
        return 3, f, ref, "torus"
    if kind == 7:
        dim = s.i(2, 3)
        v = number(s, -1, 1)
        f = F.create_constant(v, dim, **kw)
        return dim, f, lambda x: np.full(len(x), float(v)), "constant"
    if kind == 8:
        dim = s.i(2, 3)
        o = vector(s, dim) if s.chance(2, 3) else None
        nv = direction(s, dim) if s.chance(2, 3) else None
        p, k = given(["origin", "normal"], [o, nv])
        f = (F.create_line if dim == 2 else F.create_plane)(*p, **k, **kw)
        o, nv = np.zeros(dim) if o is None else f64(o), np.eye(dim)[0] if nv is None else f64(nv)
        return dim, f, lambda x: (x - o) @ nv, "line/plane"
    if kind == 9:
        dim = s.i(2, 3)
        c = [s.real(-1, 1) for _ in range(2**dim)]
        inv = lambda x: x
        more = []
        if s.coin():
            t, inv = transf(s, dim)
            more = [t]
        f = F.create_dim_linear(s.pick([list, np.array, lambda v: np.array(v, dtype=np.float64)])(c), *more)
        return dim, f, lambda x: multilinear(c, inv(x)), "dim-linear"
    if kind == 10:
        dim = s.i(2, 3)
        if s.coin():
            f = F.create_box() if dim == 2 and s.coin() else F.create_box(dim=dim)
            return dim, f, box_value, "box"
        t, inv = transf(s, dim)
        f = F.create_box(t) if dim == 2 and s.coin() else F.create_box(t, dim)
        return dim, f, lambda x: box_value(inv(x)), "box transformed"
    which, dim = s.raw(5), s.i(2, 3)
    m = [s.pick([1.0, 2.0, 0.75, s.real(0.4, 2.2)]) for _ in range(dim)]
    z = number(s, -1, 1) if dim == 2 and s.chance(2, 3) else None
    arg = s.pick([list, np.array, lambda v: np.array(v, dtype=np.float32)])(m)
    mm = np.append(np.asarray(arg, dtype=np.float64), [1.0] * (3 - dim))
    f = getattr(F, TPMS[which])(arg, z) if z is not None else getattr(F, TPMS[which])(arg)
    def ref(x):
        X = x if dim == 3 else np.column_stack([x, np.full(len(x), 0.0 if z is None else float(z))])
        return tpms_value(which, X * mm)
    return dim, f, ref, TPMS[which]
ZERO = 1e-10
def check_function(s, dim, f, ref, name):
    require(isinstance(f, F.ImplicitFunc) and f.dim == dim, "dimension", name, f.dim, dim)
    x = np.array([[s.unit() for _ in range(dim)] for _ in range(12)])
    single = s.chance(1, 3)
    if single:
        x = x.astype(np.float32).astype(np.float64)
    p = x.astype(np.float32) if single else layout(s, x)
    v, g = f.eval(p), f.grad(p)
    require(v.dtype == p.dtype and g.dtype == p.dtype, "type of values", name, v.dtype, g.dtype, p.dtype)
    require(v.shape == (12,) and g.shape == (12, dim), "shape of values", name, v.shape, g.shape)
    e = ref(x)
    far = np.abs(e) > 1e-5 * (1 + np.max(np.abs(e)))
    require(np.all((np.sign(v) == np.sign(e)) | ~far), "sign of a function", name, "at", x.tolist(), "values", v.tolist(), "expected", e.tolist())
    # The level set is where it is said to be.
    w = f.eval(x) if single else v
    lo, hi = x[w < 0], x[w > 0]
    k = min(len(lo), len(hi))
    if k:
        lo, hi = lo[:k], hi[:k]
        for _ in range(54):
            mid = (lo + hi) / 2
            neg = (f.eval(mid) < 0)[:, None]
            lo, hi = np.where(neg, mid, lo), np.where(neg, hi, mid)
        z = ref((lo + hi) / 2)
        require(np.all(np.abs(z) <= ZERO * (1 + np.max(np.abs(e)))), "zero level set of a function", name, "at", ((lo + hi) / 2).tolist(), "expected values", z.tolist())
        s.count("level set")
    s.count("points", 12)
    return x, (f.eval(x) if single else v), (f.grad(x) if single else g)
def close(a, b, tol=1e-9):
    return np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))))
@prop("W02", 40000, 800000)
def w02(s):
    if s.chance(1, 8):
        return refused(s)
    dim, f, ref, name = primitive(s)
    s.note("function", name)
    s.count(name)
    x, v, g = check_function(s, dim, f, ref, name)
    if np.any(v < 0) and np.any(v > 0):
        s.nontrivial()
    if name in ("box", "box transformed", "dim-linear", "constant") or name in TPMS:
        require(close(v, ref(x), 1e-7), "values of a function", name, v, ref(x))
    # The gradient is the one of the values.
    if name not in ("box", "box transformed"):
        h = 1e-5
        for d in range(dim):
            y = np.eye(dim)[d] * h
            fd = (f.eval(x + y) - f.eval(x - y)) / (2 * h)
            ok = np.abs(fd - g[:, d]) < 1e-4 * (1 + np.abs(fd).max() + np.abs(g).max())
            if name == "torus" or name == "annulus" or name == "disk/sphere" or name == "cylinder" or name == "ellipse/ellipsoid":
                # Distances have kinks.
                ok |= np.abs(f.eval(x + y) + f.eval(x - y) - 2 * v) > 1e-7
            require(np.all(ok), "gradient of a function", name, d, fd, g[:, d])
    # Combinations.
    kind = s.i(0, 4)
    if kind == 1:
        n = F.create_negative(f)
        require(n.dim == dim and close(n.eval(x), -v) and close(n.grad(x), -g), "negative", name, n.eval(x), v)
    elif kind in (2, 3):
        for _ in range(6):
            d2, f2, ref2, name2 = primitive(s)
            if d2 == dim:
                break
        else:
            return
        v2, g2 = f2.eval(x), f2.grad(x)
        sg = 1 if kind == 2 else -1
        c = (F.create_functions_addition if kind == 2 else F.create_functions_subtraction)(f, f2)
        require(c.dim == dim and close(c.eval(x), v + sg * v2, 1e-7) and close(c.grad(x), g + sg * g2, 1e-6), "sum of functions" if kind == 2 else "difference of functions", name, name2, c.eval(x), v + sg * v2)
    elif kind == 4:
        t, inv = transf(s, dim)
        c = F.create_affinely_transformed_functions(f, t)
        require(c.dim == dim, "transformed function", name)
        # Points whose images lie in the unit box, where Bezier functions are accurate.
        J = inv(np.zeros((1, dim)))[0]
        A = np.linalg.inv(np.array([inv(np.eye(dim)[[d]])[0] - J for d in range(dim)]).T)
        y = (x - J) @ A.T
        require(close(c.eval(y), v, 1e-6), "transformed function", name, c.eval(y), v)
def refused(s):
    """Arguments that are documented to be refused."""
    bad = s.i(0, 13)
    s.count("refused")
    neg = s.pick([-1.0, -0.3, 0.0])
    v = lambda n: np.full(n, 0.5)
    axes = lambda n: np.array(s.shuffled([neg] + [0.5] * (n - 1)))
    calls = [
        ("disk radius", lambda: F.create_disk(neg)), ("disk centre", lambda: F.create_disk(1.0, v(3))),
        ("sphere radius", lambda: F.create_sphere(neg)), ("sphere centre", lambda: F.create_sphere(1.0, v(2))),
        ("ellipse axes", lambda: F.create_ellipse(axes(2))), ("ellipse size", lambda: F.create_ellipse(v(3))),
        ("ellipsoid axes", lambda: F.create_ellipsoid(axes(3))), ("ellipsoid size", lambda: F.create_ellipsoid(v(2))),
        ("cylinder", lambda: F.create_cylinder(*s.pick([(neg, v(3), None), (1.0, v(2), None)]))),
        ("annulus", lambda: F.create_annulus(*s.pick([(neg, 1.0), (1.0, neg), (0.5, 1.0, v(3))]))),
        ("torus", lambda: F.create_torus(*s.pick([(neg, 1.0), (1.0, neg), (1.0, 0.5, v(2)), (1.0, 0.5, v(3), v(2))]))),
        ("constant", lambda: F.create_constant(1.0, s.pick([1, 4]))),
        ("line or plane", lambda: s.pick([lambda: F.create_line(v(3), None), lambda: F.create_line(None, v(3)), lambda: F.create_plane(v(2), None), lambda: F.create_plane(v(3), v(2))])()),
        ("sizes", lambda: s.pick([lambda: F.create_dim_linear([0.5] * 5), lambda: F.create_dim_linear([0.5] * 8, Q.create_affine_transformation(v(2))), lambda: F.create_box(dim=4),
                                  lambda: F.create_box(Q.create_affine_transformation(v(2)), 3), lambda: F.create_Schoen([1.0]), lambda: F.create_Schoen([1.0, 1.0, 1.0], 0.5)])()),
    ]
    what, call = calls[bad]
    s.note("refused", what)
    s.nontrivial()
    try:
        call()
    except (AssertionError, TypeError, ValueError):
        return
    require(False, "accepted arguments", what)

if __name__ == "__main__":
    sys.exit(main())
