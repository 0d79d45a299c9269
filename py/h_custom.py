"""P06, P07: facet quadratures in the reference cell and packed custom coefficients."""
import sys
import env
import numpy as np
import basix
from pbt import Discard, main, prop, require
from env import IntegralType, CellType

FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
N_PERMS = {"interval": 2, "triangle": 6, "quadrilateral": 8}
class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)
class FakeTopology:
    """Facet permutations exist only once they are created."""
    def __init__(self, name, perms):
        self.cell_type, self._perms, self.ready = CellType(name), perms, False
        self.dim = env.cells[name]
    def create_entity_permutations(self):
        self.ready = True
    def get_facet_permutations(self):
        if not self.ready:
            raise RuntimeError("create_entity_permutations must be called before using this data.")
        return self._perms.ravel().copy()
def fake_mesh(s, name, n_cells):
    n_facets = len(basix.topology(getattr(basix.CellType, name))[-2])
    k = N_PERMS[FACET[name]]
    perms = np.array([[s.raw(k - 1) for _ in range(n_facets)] for _ in range(n_cells)], dtype=np.uint8)
    return Obj(topology=FakeTopology(name, perms), perms=perms, n_facets=n_facets)
def permuted(p, facet, perm):
    """The point of the facet's own frame seen from the cell: rotations first, then the reflection."""
    rot, ref = divmod(int(perm), 2)
    p = [float(v) for v in p]
    if facet == "interval":
        return [1 - p[0]] if perm else p
    for _ in range(rot):
        p = [p[1], 1 - p[0] - p[1]] if facet == "triangle" else [p[1], 1 - p[0]]
    return [p[1], p[0]] if ref else p
def mapped(p, name, facet):
    cell = getattr(basix.CellType, name)
    g = basix.geometry(cell)
    v = [g[i] for i in basix.topology(cell)[-2][facet]]
    return v[0] + sum(x * (v[k + 1] - v[0]) for k, x in enumerate(p))
def facet_point(s, facet):
    p = [s.real(0, 1) for _ in range(1 if facet == "interval" else 2)]
    if facet == "triangle" and sum(p) > 1:
        p = [1 - v for v in p]
    return p

# ---------------------------------------------------------------- P06
@prop("P06", 60000, 500000)
def p06(s):
    from qugar.dolfinx.custom_quad_utils import map_facets_points, permute_facet_points
    name = s.pick(sorted(FACET))
    facet = FACET[name]
    n_cells = s.i(1, 4)
    mesh = fake_mesh(s, name, n_cells)
    n = s.pick([0, 1, s.i(2, 12), s.i(2, 40)])
    cells = np.array([s.raw(n_cells - 1) for _ in range(n)], dtype=np.int32)
    facets = np.array([s.raw(mesh.n_facets - 1) for _ in range(n)], dtype=np.int32)
    if s.coin():  # the points of a facet come one after the other
        order = np.lexsort((facets, cells))
        cells, facets = cells[order], facets[order]
    pts = np.array([facet_point(s, facet) for _ in range(n)]).reshape(n, 1 if facet == "interval" else 2)
    s.note("cell", name)
    s.note("cells", cells.tolist())
    s.note("facets", facets.tolist())
    s.note("perms", mesh.perms.tolist())
    s.note("points", np.round(pts, 4).tolist())
    if len(set(facets.tolist())) > 1:
        s.nontrivial()
    keep = [a.copy() for a in (pts, cells, facets)]
    got = permute_facet_points(pts, mesh, cells, facets)
    want = np.array([permuted(p, facet, mesh.perms[c, f]) for p, c, f in zip(pts, cells, facets)]).reshape(pts.shape)
    require(got.shape == pts.shape and np.allclose(got, want, atol=1e-13), "permuted points", "got", got.tolist(), "expected", want.tolist())
    if n:
        require(got.dtype == pts.dtype, "type of permuted points", got.dtype)
    m = map_facets_points(pts, facets, CellType(name))
    want = np.array([mapped(p, name, f) for p, f in zip(pts, facets)]).reshape(n, pts.shape[1] + 1)
    require(m.shape == want.shape and np.allclose(m, want, atol=1e-13), "mapped points", "got", m.tolist(), "expected", want.tolist())
    both = map_facets_points(got, facets, CellType(name))
    for p, f in zip(both, facets):
        cell = getattr(basix.CellType, name)
        g = basix.geometry(cell)[basix.topology(cell)[-2][f]]
        nrm = basix.cell.facet_outward_normals(cell)[f]
        require(abs(np.dot(p - g[0], nrm)) < 1e-12, "mapped point off its facet", p.tolist(), int(f))
    require(all(np.array_equal(a, b) for a, b in zip(keep, (pts, cells, facets))), "inputs changed")

# ---------------------------------------------------------------- P07
class Quads:
    """Deterministic custom rules of cells and facets: every number tells which entity, degree and kind it belongs to."""
    def __init__(self, salt, tdim, empty_rules):
        self.salt, self.tdim, self.empty_rules = salt, tdim, empty_rules
        self.calls = []
    def one(self, kind, degree, key, dim):
        r = np.random.default_rng([self.salt, {"cell": 0, "unf": 1, "ext": 2, "int": 3}[kind], degree, *[int(k) for k in key]])
        n = int(r.integers(0 if self.empty_rules else 1, 6))
        return r.random((n, dim)), r.random(n) - 0.25, r.standard_normal((n, self.tdim))
    def many(self, kind, degree, keys, dim):
        rs = [self.one(kind, degree, k, dim) for k in keys]
        cat = lambda i, w: np.concatenate([r[i] for r in rs] + [np.empty((0,) + w)])
        return np.array([len(r[1]) for r in rs], dtype=np.int32), cat(0, (dim,)), cat(1, ()), cat(2, (self.tdim,))
def classify(s, keys):
    """Cut, full or empty for every entity."""
    mode = s.raw(4)
    return {k: [s.raw(2), 0, 1, 2, s.raw(1)][mode] for k in keys}  # 0 cut, 1 full, 2 empty
class FakeDomain:
    """What the packer asks an unfitted domain: the status of the entities and their rules."""
    def __init__(self, s, tdim, cells, ext, inter, quads):
        self.s, self.q, self.tdim = s, quads, tdim
        self.cells, self.facets = cells, {True: ext, False: inter}
    def _pick(self, d, st):
        return self.s.shuffled(sorted(k for k, v in d.items() if v == st))
    def get_cut_cells(self):
        return np.array(self._pick(self.cells, 0), dtype=np.int32)
    def get_empty_cells(self):
        return np.array(self._pick(self.cells, 2), dtype=np.int32)
    def get_full_cells(self):
        return np.array(self._pick(self.cells, 1), dtype=np.int32)
    def _facets(self, ext, st):
        from qugar.mesh.mesh_facets import MeshFacets
        f = np.array(self._pick(self.facets[ext], st), dtype=np.int32).reshape(-1, 2)
        return MeshFacets(f[:, 0].copy(), f[:, 1].copy())
    def get_cut_facets(self, ext_integral):
        return self._facets(bool(ext_integral), 0)
    def get_full_facets(self, ext_integral):
        return self._facets(bool(ext_integral), 1)
    def get_empty_facets(self, ext_integral):
        return self._facets(bool(ext_integral), 2)
    def create_quad_custom_cells(self, degree, cells, tag=None):
        from qugar.quad.custom_quad import CustomQuad
        n, p, w, _ = self.q.many("cell", degree, [(c,) for c in np.asarray(cells)], self.tdim)
        return CustomQuad(cells, n, p, w)
    def create_quad_unf_boundaries(self, degree, cells, tag=None):
        from qugar.quad.custom_quad import CustomQuadUnfBoundary
        return CustomQuadUnfBoundary(cells, *self.q.many("unf", degree, [(c,) for c in np.asarray(cells)], self.tdim))
    def create_quad_custom_facets(self, degree, facets, ext_integral, tag=None):
        from qugar.quad.custom_quad import CustomQuadFacet
        n, p, w, _ = self.q.many("ext" if ext_integral else "int", degree, zip(facets.cell_ids, facets.local_facet_ids), self.tdim - 1)
        return CustomQuadFacet(facets, n, p, w)
class CppForm:
    def __init__(self, mesh):
        self.mesh, self._domains, self.coefficients_now = mesh, {}, {}
    def domains(self, kind, position):
        return self._domains[(kind, position)].copy()
def read(new, base_row, n_orig, real, quads, tdim, fdim, interior, mixed):
    """What a kernel sees of one entity: its status and, if cut, the data of every quadrature."""
    raw = np.ascontiguousarray(new)
    start = base_row * new.shape[1] * new.itemsize
    buf = raw.view(np.uint8).ravel()
    at = start + n_orig * new.itemsize
    offset = int(np.frombuffer(buf[at:at + 8].tobytes(), dtype=np.int64)[0])
    if offset <= 0:
        return (2 if offset == 0 else 1), None
    vals = raw.view(real).ravel()
    pos = start // np.dtype(real).itemsize + offset
    out = []
    def take(n):
        nonlocal pos
        require(0 <= pos and pos + n <= vals.size, "custom data outside of the array", pos, n, vals.size)
        v = vals[pos:pos + n]
        pos += n
        return v
    for unf in quads:
        n = take(1)[0]
        require(n == int(n) and 0 <= n < 100, "number of points", n)
        n = int(n)
        d = dict(points=take(n * tdim).reshape(n, tdim))
        if interior:
            d["points1"] = take(n * tdim).reshape(n, tdim)
        if mixed:
            d["facet points"] = take(n * fdim).reshape(n, fdim)
        d["weights"] = take(n)
        if unf:
            d["normals"] = take(n * tdim).reshape(n, tdim)
        out.append(d)
    return 0, out

@prop("P07", 12000, 100000)
def p07(s):
    import qugar.dolfinx.custom_coefficients as cc
    from qugar.dolfinx.integral_data import IntegralData
    from qugar.dolfinx.quadrature_data import QuadratureData
    cdt = s.pick([np.float32, np.float64, np.complex64, np.complex128])
    real = np.empty(0, cdt).real.dtype
    name = s.pick(sorted(FACET))
    tdim = env.cells[name]
    fdim = tdim - 1
    n_cells = s.i(1, 9)
    mesh = fake_mesh(s, name, n_cells)
    pairs = [(c, f) for c in range(n_cells) for f in range(mesh.n_facets)]
    quads = Quads(s.raw(1 << 20), tdim, s.coin())
    ext = classify(s, pairs)
    # Interior facets: disjoint pairs of (cell, facet), with one status each.
    order = s.shuffled(pairs)
    inter_facets = [(a, b) for a, b in zip(order[0::2], order[1::2]) if a[0] != b[0]][:8]
    st = classify(s, range(len(inter_facets)))
    inter = {p: st[k] for k, ab in enumerate(inter_facets) for p in ab}
    dom = FakeDomain(s, tdim, classify(s, range(n_cells)), ext, inter, quads)
    cpp = CppForm(mesh)
    T = IntegralType
    all_data, expect, ids, offsets = [], {}, [], [0]
    for t, tname in ((T.cell, "cell"), (T.exterior_facet, "exterior_facet"), (T.interior_facet, "interior_facet"), (None, "vertex"), (None, "ridge")):
        n_itg = s.raw(2) if t is not None else 0
        sids = sorted(s.shuffled(range(-1, 8))[:n_itg])
        datas = []
        for k, sid in enumerate(sids):
            if datas and s.chance(1, 4):  # the same integral over several subdomains
                datas[-1][0].subdomain_ids.append(sid)
                d, qs = datas[-1]
            else:
                mixed = t == T.exterior_facet and s.chance(1, 3)
                qs = []
                for q in range(s.i(1, 3)):
                    qs.append(QuadratureData(f"Q{s.raw(99):02d}{q}", s.i(1, 4) + 5 * q, t == T.cell and s.chance(1, 3), Obj()))
                d = IntegralData(f"itg{len(all_data)}_{k}", [sid], tname, tdim, mixed, {q: [Obj(dtype=real.type)] for q in qs})
                datas.append((d, qs))
            if t == T.cell:
                dom_k = np.array(s.shuffled(s.subset(range(n_cells), 2, 3)), dtype=np.int32)
            elif t == T.exterior_facet:
                dom_k = np.array(s.shuffled(s.subset(pairs)), dtype=np.int32).reshape(-1, 2)
            else:
                dom_k = np.array([[a, b] if s.coin() else [b, a] for a, b in s.shuffled(s.subset(inter_facets, 3, 4))], dtype=np.int32).reshape(-1, 2, 2)
            n_cols = s.pick([0, s.i(1, 5)])
            rows = len(dom_k) * (2 if t == T.interior_facet else 1)
            cpp._domains[(t, k)] = dom_k
            expect[(t, k)] = (d, qs, dom_k, n_cols, rows)
            ids.append(sid)
            s.note(f"{tname}{k}", f"{dom_k.tolist()} columns {n_cols} degrees {[q.degree for q in qs]}{' mixed' if d.is_mixed_dim else ''}")
        all_data += [d for d, _ in datas]
        offsets.append(len(ids))
    s.note("type", np.dtype(cdt).name)
    s.note("mesh", name)
    s.note("status", (dom.cells, st))
    rng = np.random.default_rng(s.raw(1 << 20))
    def fresh():
        for key, (d, qs, dom_k, n_cols, rows) in expect.items():
            a = rng.random((rows, n_cols)) if n_cols else np.empty((0, 0))
            cpp.coefficients_now[key] = (a + (1j * rng.random(a.shape) if np.dtype(cdt).kind == "c" else 0)).astype(cdt)
    fresh()
    form = env.Form(cpp, Obj(form_integral_offsets=offsets, form_integral_ids=ids))
    packer = cc.CustomCoeffsPacker(form, dom, s.shuffled(all_data))
    got = packer.pack_coefficients()
    n_cut = 0
    def check(got, what):
        nonlocal n_cut
        require(set(got) == set(expect), what + ": integrals", sorted(got), sorted(expect))
        for key, (d, qs, dom_k, n_cols, rows) in expect.items():
            new, old = got[key], cpp.coefficients_now[key]
            require(new.dtype == np.dtype(cdt) and new.ndim == 2 and new.flags["C_CONTIGUOUS"], what + ": array", new.dtype, new.shape)
            t = key[0]
            sides = 2 if t == T.interior_facet else 1
            require(new.shape[0] >= sides * len(dom_k), what + ": rows", new.shape, len(dom_k))
            flat = new.ravel()
            for e in range(len(dom_k)):
                base = e * sides * new.shape[1]
                w = flat[base:base + sides * n_cols]
                require(np.array_equal(w, old[e * sides:(e + 1) * sides].ravel()), f"{what}: coefficients of {t.name}", e, "got", w.tolist(), "expected", old[e * sides:(e + 1) * sides].tolist())
                ent = dom_k[e].tolist()
                key1 = ent if t == T.cell else tuple(ent) if t == T.exterior_facet else tuple(ent[0])
                status = {T.cell: dom.cells, T.exterior_facet: ext, T.interior_facet: inter}[t][key1]
                stt, data = read(new, e * sides, sides * n_cols, real, [q.unfitted_boundary for q in qs], tdim, fdim, t == T.interior_facet, d.is_mixed_dim)
                require(stt == status, f"{what}: status of {t.name}", ent, "is", ["custom", "full", "empty"][stt], "instead of", ["custom", "full", "empty"][status])
                if status != 0:
                    continue
                n_cut += 1
                for q, v in zip(qs, data):
                    if t == T.cell:
                        p, wt, nr = quads.one("unf" if q.unfitted_boundary else "cell", q.degree, (ent,), tdim)
                        want = dict(points=p, weights=wt)
                        if q.unfitted_boundary:
                            want["normals"] = nr
                    else:
                        fp, wt, _ = quads.one("ext" if t == T.exterior_facet else "int", q.degree, key1, fdim)
                        def to_cell(c, f, perm):
                            return np.array([mapped(permuted(x, FACET[name], mesh.perms[c, f]) if perm else x, name, f) for x in fp]).reshape(len(fp), tdim)
                        if t == T.exterior_facet:
                            want = dict(points=to_cell(*ent, d.is_mixed_dim), weights=wt)
                            if d.is_mixed_dim:
                                want["facet points"] = fp
                        else:
                            want = dict(points=to_cell(*ent[0], True), points1=to_cell(*ent[1], True), weights=wt)
                    require(set(v) == set(want), "data kinds")
                    for kk in want:
                        tol = 1e-6 if real == np.float32 else 1e-13
                        require(v[kk].shape == want[kk].shape and np.allclose(v[kk], want[kk], atol=tol, rtol=tol), f"{what}: {kk} of {t.name}", ent, "degree", q.degree,
                                "got", v[kk].tolist(), "expected", want[kk].tolist())
    check(got, "packed")
    if n_cut:
        s.nontrivial()
        s.count("custom entities", n_cut)
    for _ in range(s.raw(2)):
        fresh()
        got = packer.update_coefficients(got)
        check(got, "updated")
    if s.chance(1, 3):
        fresh()
        check(packer.pack_coefficients(), "packed again")

if __name__ == "__main__":
    sys.exit(main())
