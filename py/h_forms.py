"""P08-P10: custom forms, the unfitted boundary measure, and the problems that assemble custom forms."""
import sys
import env
import numpy as np
from pbt import Discard, main, prop, require
from env import IntegralType

ufl, dolfinx = env.ufl, env.dolfinx
TYPES = {"cell": IntegralType.cell, "exterior_facet": IntegralType.exterior_facet, "interior_facet": IntegralType.interior_facet}
class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)
class EmptyDictType(dict):
    """The shared metadata of measures without metadata: it cannot change."""
    def __setitem__(self, k, v):
        raise ValueError("This is a frozen unique empty dictionary object, inserting values is an error.")
    def update(self, *a, **k):
        raise ValueError("This is a frozen unique empty dictionary object, inserting values is an error.")
EMPTY = EmptyDictType()
class Integral:
    __slots__ = ("_integrand", "_integral_type", "_ufl_domain", "_subdomain_id", "_metadata", "_subdomain_data")
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data):
        if not isinstance(metadata, dict):
            raise ValueError("Expecting metadata to be a dictionary.")
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data
    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None):
        pick = lambda new, old: old if new is None else new
        return Integral(pick(integrand, self._integrand), pick(integral_type, self._integral_type), pick(domain, self._ufl_domain), pick(subdomain_id, self._subdomain_id),
                        pick(metadata, self._metadata), pick(subdomain_data, self._subdomain_data))
    def integrand(self):
        return self._integrand
    def integral_type(self):
        return self._integral_type
    def ufl_domain(self):
        return self._ufl_domain
    def subdomain_id(self):
        return self._subdomain_id
    def metadata(self):
        return self._metadata
    def subdomain_data(self):
        return self._subdomain_data
    def state(self):
        return (id(self._integrand), self._integral_type, id(self._ufl_domain), self._subdomain_id, dict(self._metadata), id(self._subdomain_data))
class UflForm:
    def __init__(self, integrals):
        self._integrals = tuple(integrals)
        self._subdomain_data = None
    def integrals(self):
        return self._integrals
    def empty(self):
        return not self._integrals
    def subdomain_data(self):
        if self._subdomain_data is None:
            sd = {}
            for i in self._integrals:
                sd.setdefault(i.ufl_domain(), {}).setdefault(i.integral_type(), []).append(i.subdomain_data())
            self._subdomain_data = sd
        return self._subdomain_data
    def _terminals(self, k):
        out = {}
        for i in self._integrals:
            for t in i.integrand()[k]:
                out[t.number] = t
        return [out[n] for n in sorted(out)]
    def arguments(self):
        return tuple(self._terminals(0))
    def coefficients(self):
        return tuple(self._terminals(1))
    def constants(self):
        return tuple(self._terminals(2))
class FacetTags:
    def __init__(self, entities):
        self.entities = entities
    def find(self, k):
        return self.entities.get(k, np.empty(0, dtype=np.int32))
def get_integration_domains(integral_type, subdomain, subdomain_ids):
    if subdomain is None:
        return []
    if isinstance(subdomain, list):
        return subdomain
    return [(i, subdomain.find(i)) for i in subdomain_ids]
ufl.Form, ufl.form = UflForm, Obj(Form=UflForm)
forms_mod = env.mod("dolfinx.fem.forms")
forms_mod._ufl_to_dolfinx_domain = TYPES
forms_mod.get_integration_domains = get_integration_domains
class CppForm:
    def __init__(self, dtype, handles, V, coeffs, constants, subdomains, entity_maps, mesh):
        for k, d in subdomains.items():
            require(isinstance(k, IntegralType), "key of the subdomains", k)
            require(all(a[0] < b[0] for a, b in zip(d, d[1:])) or all(a[0] <= b[0] for a, b in zip(d, d[1:])), "subdomains out of order", k, [x[0] for x in d])
        self.dtype, self.handles, self.V, self.coeffs, self.constants, self.subdomains, self.entity_maps, self.mesh = dtype, handles, V, coeffs, constants, subdomains, entity_maps, mesh
forms_mod.form_cpp_class = lambda dtype: (lambda *a: CppForm(dtype, *a))
dolfinx.default_scalar_type = np.float64
env.mod("ufl.algorithms.analysis")

def load_forms():
    import qugar.dolfinx.forms as F
    return F

# ---------------------------------------------------------------- P08
@prop("P08", 40000, 300000)
def p08(s):
    F = load_forms()
    from qugar.mesh.unfitted_domain_abc import UnfittedDomainABC
    from qugar.mesh.mesh_facets import MeshFacets
    everywhere_facets = np.arange(2 * s.i(0, 5), dtype=np.int32).reshape(-1, 2) + 100
    wrong_facets = everywhere_facets + 50
    class Dom(UnfittedDomainABC):
        def __init__(self):
            pass
        def get_all_facets(self, ext_integral=True):
            f = everywhere_facets if ext_integral else wrong_facets
            return MeshFacets(f[:, 0].copy(), f[:, 1].copy())
    Dom.__abstractmethods__ = frozenset()
    dom = Dom()
    comm = Obj()
    cargo = Obj(comm=comm)
    ufl_domain = Obj(unf_domain=dom, ufl_cargo=lambda: cargo)
    # Terminals.
    spaces = [Obj(number=k, ufl_function_space=lambda k=k: Obj(_cpp_object=("V", k))) for k in range(s.raw(2))]
    coeffs = [Obj(number=k, _cpp_object=("w", k)) for k in range(s.raw(4))]
    consts = [Obj(number=k, _cpp_object=("c", k)) for k in range(s.raw(2))]
    # Subdomain data, shared by all the integrals of a type.
    def entities():
        return np.array([s.raw(50) for _ in range(s.raw(3))], dtype=np.int32)
    data, originals = {}, {}
    for t in TYPES:
        kind = s.raw(2)
        ids = sorted(set(s.raw(9) for _ in range(s.i(1, 5))))
        if kind == 0:
            data[t] = None
        elif kind == 1:
            data[t] = FacetTags({i: entities() for i in ids})
        else:
            data[t] = [(i, entities()) for i in ids]
            originals[t] = [(i, e.copy()) for i, e in data[t]]
    shared_meta = [EMPTY, {"quadrature_degree": 2}, {"quadrature_degree": 3, "other": "x"}]
    def integral():
        t = s.pick(["exterior_facet", "exterior_facet", "cell", "interior_facet"])
        d = data[t]
        sid = s.raw(8)
        kind = s.raw(4)
        if kind == 1:
            sid = tuple(sorted(set(s.raw(9) for _ in range(s.i(1, 3)))))
        elif kind >= 2:
            sid = "everywhere" if t != "exterior_facet" or kind == 2 else s.pick(["everywhere", -1])
            if t == "exterior_facet" and s.coin():
                d = None
            if t != "exterior_facet":
                d = d if s.coin() else None
        if kind < 2 and d is None:
            sid = "everywhere"
        meta = s.pick(shared_meta)
        if s.chance(1, 3) and meta is not EMPTY:
            meta = dict(meta)
        return Integral((spaces, s.subset(coeffs), s.subset(consts)), t, ufl_domain, sid, meta, d)
    pool = [integral() for _ in range(s.i(1, 6))]
    n_forms = s.i(1, 3)
    uforms = []
    for _ in range(n_forms):
        if s.chance(1, 8):
            uforms.append(UflForm([]))
        else:
            uforms.append(UflForm([s.pick(pool) for _ in range(s.i(1, 5))] if s.coin() else s.subset(pool) or pool[:1]))
    # Forms may have been analyzed before.
    for f in uforms:
        if s.chance(1, 4):
            f.subdomain_data()
    s.note("integrals", [(i._integral_type, i._subdomain_id, dict(i._metadata), None if i._subdomain_data is None else type(i._subdomain_data).__name__) for i in pool])
    s.note("forms", [[pool.index(i) for i in f.integrals()] for f in uforms])
    s.note("list ids", {t: [i for i, _ in d] for t, d in originals.items()})
    state = [i.state() for i in pool]
    compiled = []
    def ffcx_jit(c, form, form_compiler_options=None, jit_options=None):
        require(c is comm, "communicator")
        require(isinstance(form, UflForm), "form passed to the compiler", type(form))
        k = len(form.coefficients())
        pos = s.shuffled(s.subset(range(k), 3, 4))
        u = Obj(original_coefficient_positions=pos, num_coefficients=len(pos), address=len(compiled))
        compiled.append((form, [(i._integral_type, i._subdomain_id, dict(i._metadata), i._integrand, i._subdomain_data) for i in form.integrals()], pos, dict(form_compiler_options or {}), jit_options, u))
        ffi = Obj(cast=lambda t, a: ("handle", a), addressof=lambda u: u.address)
        return [("itg data", u.address)], u, Obj(ffi=ffi), ("decl", "impl")
    F.ffcx_jit = ffcx_jit
    F.CustomCoeffsPacker = lambda form, domain, itg: Obj(form=form, domain=domain, itg=itg, pack_coefficients=lambda: ("pack", itg), update_coefficients=lambda old: ("update", itg, old))
    dtype = s.pick([np.float32, np.float64, np.complex128])
    emaps = [Obj(_cpp_object=("map", k)) for k in range(s.raw(2))] if s.coin() else None
    opts = {"part": "diagonal"} if spaces and s.chance(1, 5) else {} if s.coin() else None
    calls = s.i(1, 3)
    s.note("calls", calls)
    if sum(len(f.integrals()) for f in uforms) > 1:
        s.nontrivial()
    for _ in range(calls):
        as_list = n_forms > 1 or s.coin()
        sel = uforms if as_list else [s.pick(uforms)]
        compiled.clear()
        arg = s.pick([list, tuple])(sel) if as_list else sel[0]
        if as_list and s.chance(1, 3):
            # Blocks of forms, in rows of any length: the result has all of them in their order.
            rest, arg = list(sel), []
            while rest:
                k = s.i(1, len(rest))
                arg.append(rest[0] if k == 1 and s.coin() else s.pick([list, tuple])(rest[:k]))
                rest = rest[k:]
            if s.chance(1, 4):
                arg = [arg]
        out = F.form_custom(arg, dtype=dtype, form_compiler_options=None if opts is None else dict(opts), jit_options=("jit", 1), entity_maps=emaps)
        require(isinstance(out, list) == as_list, "type of the result", type(out))
        out = out if as_list else [out]
        require(len(out) == len(sel), "number of forms", len(out), "instead of", len(sel))
        require(len(compiled) == sum(not f.empty() for f in sel), "number of compilations", len(compiled))
        todo = list(compiled)
        for f, cf in zip(sel, out):
            if f.empty():
                require(cf is None, "form without integrals", cf)
                continue
            require(isinstance(cf, F.CustomForm), "type of the form", type(cf))
            form, integrals, pos, options, jopts, u = todo.pop(0)
            cpp = cf._cpp_object
            require(jopts == ("jit", 1) and options.get("scalar_type") is dtype and cpp.dtype is dtype, "options", options, jopts, cpp.dtype)
            require(cpp.handles == [("handle", u.address)] and cf.ufcx_form is u, "compiled form handed over", cpp.handles, u.address)
            require(cf.pack_coefficients() == ("pack", [("itg data", u.address)]), "packer of the form", cf.pack_coefficients())
            require(cf.update_coefficients(5) == ("update", [("itg data", u.address)], 5), "packer of the form on update")
            wanted_V = [("V", v.number) for v in f.arguments()]
            if opts and opts.get("part") == "diagonal":
                wanted_V = wanted_V[:1]
            require(cpp.V == wanted_V, "function spaces", cpp.V, wanted_V)
            all_c = f.coefficients()
            require(list(cpp.coeffs) == [all_c[p]._cpp_object for p in pos], "coefficients", cpp.coeffs, pos)
            require(list(cpp.constants) == [c._cpp_object for c in f.constants()], "constants", cpp.constants)
            require(cpp.mesh is cargo, "mesh")
            require(list(cpp.entity_maps) == [m._cpp_object for m in emaps or []], "entity maps", cpp.entity_maps)
            # Integrals and the entities each one is computed over.
            originals_left = list(f.integrals())
            require(len(integrals) == len(originals_left), "number of integrals", len(integrals))
            ext_ids, fixed = [], set()
            for o in f.integrals():
                if o._integral_type == "exterior_facet" and o._subdomain_id not in ("everywhere", -1):
                    fixed |= set(o._subdomain_id) if isinstance(o._subdomain_id, tuple) else {o._subdomain_id}
            everywhere = []
            for t, sid, meta, integrand, sd in integrals:
                k = next((k for k, o in enumerate(originals_left) if o._integrand is integrand and o._integral_type == t
                          and (o._subdomain_id == sid or t == "exterior_facet" and o._subdomain_id in ("everywhere", -1) and isinstance(sid, (int, np.integer)) and sid >= 0)
                          and all(meta.get(a) == b for a, b in o._metadata.items())), None)
                require(k is not None, "compiled integral that is not in the form", t, sid, meta)
                o = originals_left.pop(k)
                if t == "exterior_facet" and o._subdomain_id in ("everywhere", -1):
                    require(isinstance(sid, (int, np.integer)) and sid >= 0, "subdomain of the exterior facets everywhere", sid)
                    everywhere.append(int(sid))
                else:
                    require(meta == o._metadata and sid == o._subdomain_id, "unrelated integral changed", t, sid, meta, dict(o._metadata))
            require(len(set(everywhere)) == len(everywhere) and not set(everywhere) & fixed, "colliding subdomain of the exterior facets everywhere", everywhere, sorted(fixed))
            for t, T in TYPES.items():
                got = cpp.subdomains.get(T, [])
                mine = [o for o in f.integrals() if o._integral_type == t and o._subdomain_data is not None and not (t == "exterior_facet" and o._subdomain_id in ("everywhere", -1))]
                wanted = []
                if mine:
                    if isinstance(data[t], list):
                        wanted = originals[t]
                    else:
                        ids = sorted(i for o in mine if o._subdomain_id not in ("everywhere", -1) for i in (o._subdomain_id if isinstance(o._subdomain_id, tuple) else (o._subdomain_id,)))
                        wanted = [(i, data[t].find(i)) for i in ids]
                elif t != "exterior_facet":
                    wanted = []
                if t == "exterior_facet":
                    wanted = list(wanted) + [(i, everywhere_facets) for i in sorted(everywhere)]
                uniq = lambda l: {int(i): np.asarray(e).ravel().tolist() for i, e in l}
                g, w = uniq(got), uniq(wanted)
                # Data no integral asks for is harmless.
                used = set(everywhere) if t == "exterior_facet" else set()
                for o in mine:
                    if o._subdomain_id not in ("everywhere", -1):
                        used |= set(o._subdomain_id) if isinstance(o._subdomain_id, tuple) else {o._subdomain_id}
                for i in used:
                    require(g.get(i, []) == w.get(i, []), f"entities of {t}", i, "are", g.get(i), "instead of", w.get(i))
                    n = [int(j) for j, _ in got].count(i)
                    same = [np.asarray(e).ravel().tolist() for j, e in got if int(j) == i]
                    require(all(x == same[0] for x in same), f"two sets of entities of {t}", i, same)
        # Nothing the user gave has changed.
        require([i.state() for i in pool] == state, "integrals of the given forms changed", [i.state() for i in pool], state)
        for t, o in originals.items():
            now = data[t]
            require(len(now) == len(o) and all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(now, o)), "subdomain data of the user changed", t, [a[0] for a in now], [a[0] for a in o])
        for f in uforms:
            sd = f.subdomain_data()
            want = {}
            for i in f.integrals():
                want.setdefault(i._integral_type, []).append(i._subdomain_data)
            require({t: [id(x) for x in v] for t, v in sd.get(ufl_domain, {}).items()} == {t: [id(x) for x in v] for t, v in want.items()}, "form left with modified subdomain data")
        require(len(EMPTY) == 0, "the empty metadata changed")

# ---------------------------------------------------------------- P09
class Num:
    """Numerical value of a UFL expression."""
    def __init__(self, v):
        self.v = np.asarray(v, dtype=np.float64)
        self.ufl_shape = self.v.shape
    def __mul__(self, o):
        if isinstance(o, ufl.Measure):
            return NotImplemented
        o = o if isinstance(o, Num) else Num(o)
        if self.v.ndim == 2 and o.v.ndim >= 1:
            return Num(self.v @ o.v)
        return Num(self.v * o.v)
    def __rmul__(self, o):
        return Num(o) * self
    def __truediv__(self, o):
        return Num(self.v / (o.v if isinstance(o, Num) else o))
class Measure:
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None):
        self._integral_type, self._domain, self._subdomain_id = integral_type, domain, subdomain_id
        self._metadata = metadata or EMPTY
        self._subdomain_data = subdomain_data
    def integral_type(self):
        return self._integral_type
    def ufl_domain(self):
        return self._domain
    def subdomain_id(self):
        return self._subdomain_id
    def metadata(self):
        return self._metadata
    def subdomain_data(self):
        return self._subdomain_data
    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if all(a is None for a in (subdomain_id, metadata, domain, subdomain_data, degree, scheme)):
            return self.reconstruct(subdomain_id="everywhere")
        if (degree, scheme) != (None, None):
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata, subdomain_data=subdomain_data)
    def __rmul__(self, integrand):
        return UflForm([Integral(integrand, self._integral_type, self._domain, self._subdomain_id, self._metadata, self._subdomain_data)])
    def __eq__(self, o):
        return (isinstance(o, Measure) and self._integral_type == o._integral_type and self._subdomain_id == o._subdomain_id and self._domain == o._domain
                and id(self._subdomain_data) == id(o._subdomain_data) and sorted((k, id(v)) for k, v in self._metadata.items()) == sorted((k, id(v)) for k, v in o._metadata.items()))
    def __hash__(self):
        return hash((self._integral_type, self._subdomain_id, hash(self._domain), tuple(sorted((k, id(v)) for k, v in self._metadata.items())), id(self._subdomain_data)))
    def __str__(self):
        return f"dx({self._subdomain_id}[{self._metadata}])"
    def __repr__(self):
        return f"{type(self).__name__}({self._integral_type!r}, subdomain_id={self._subdomain_id!r})"
ufl.Measure = Measure
env.mod("ufl.measure").integral_type_to_measure_name = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}
env.mod("ufl.protocols").id_or_none = lambda o: None if o is None else o.ufl_id() if hasattr(o, "ufl_id") else id(o)
ufl.sqrt = lambda x: Num(np.sqrt(x.v))
ufl.inner = lambda a, b: Num(np.sum(a.v * b.v))
ops = env.mod("ufl.operators")
ops.inv = lambda a: Num(np.linalg.inv(a.v))
ops.transpose = lambda a: Num(a.v.T)
env.mod("ufl.geometry").Jacobian = lambda domain: Num(domain.jacobian)
class Constant:
    """A constant whose value is what the kernel would receive: the reference normal."""
    def __init__(self, domain, c):
        self._domain, self.value = domain, np.asarray(c)
        require(self.value.dtype == domain.geometry.x.dtype, "type of the normal", self.value.dtype)
        require(self.value.shape == domain.normal.shape, "size of the normal", self.value.shape)
        self.v, self.ufl_shape = domain.normal, domain.normal.shape
class NumConstant(Constant, Num):
    def __init__(self, domain, c):
        Constant.__init__(self, domain, c)
dolfinx.fem.Constant = NumConstant

@prop("P09", 40000, 300000)
def p09(s):
    import qugar.dolfinx.boundary as B
    tdim = s.i(2, 3)
    gdim = s.i(tdim, 3)
    J = np.array([[s.real(-2, 2) for _ in range(tdim)] for _ in range(gdim)]) + np.eye(gdim, tdim) * s.pick([3.0, 0.0])
    if np.linalg.svd(J, compute_uv=False)[-1] < 0.05:
        raise Discard()
    N = np.array([s.real(-1, 1) for _ in range(tdim)])
    if np.linalg.norm(N) < 0.05:
        raise Discard()
    N = N / np.linalg.norm(N) if s.coin() else N
    xt = s.pick([np.float32, np.float64])
    def mesh():
        m = object.__new__(env.Mesh)
        m.__dict__.update(jacobian=J, normal=N)
        return m
    class M(env.Mesh):
        def __init__(self, J=J, N=N):
            self.jacobian, self.normal = J, N
        topology = property(lambda self: Obj(dim=tdim))
        geometry = property(lambda self: Obj(x=np.zeros((3, 3), dtype=xt), dim=gdim))
        def ufl_domain(self):
            return self
    dom = M()
    others = [M(J @ np.diag([s.pick([1.0, 2.0, 0.5]) for _ in range(tdim)]), N), M(J[:, ::-1], N[::-1])]
    s.note("jacobian", np.round(J, 4).tolist())
    s.note("normal", np.round(N, 4).tolist())
    s.nontrivial()
    # Mapped normals: orthogonal to every mapped tangent, on the same side, with the length of Nanson's formula.
    n1, n0 = B.mapped_normal(dom), B.mapped_normal(dom, normalize=False)
    require(abs(np.linalg.norm(n1.v) - 1) < 1e-10, "length of the mapped normal", n1.v)
    require(n1.v.shape == (gdim,), "size of the mapped normal", n1.v.shape)
    want = J @ np.linalg.solve(J.T @ J, N)
    require(np.allclose(n0.v, want, rtol=1e-9, atol=1e-10), "mapped normal", n0.v, want)
    require(np.allclose(n1.v * np.linalg.norm(want), want, rtol=1e-9, atol=1e-10), "normalized mapped normal", n1.v, want)
    if tdim == gdim:
        Q = np.linalg.svd(N.reshape(1, -1))[2][1:]  # tangents
        require(np.allclose(J @ Q.T * 0 + (n1.v @ (J @ Q.T)), 0, atol=1e-9) and n1.v @ (J @ N) > 0, "orthogonality of the mapped normal", n1.v)
        if tdim == 2:
            # Area of the mapped edge: |det J| |J^-T N| |t|
            t = Q[0]
            require(np.isclose(np.linalg.norm(J @ t) * np.linalg.norm(N), abs(np.linalg.det(J)) * np.linalg.norm(n0.v), rtol=1e-9), "Nanson", J.tolist(), N.tolist())
    # The measure.
    user_meta = s.pick([None, {}, {"quadrature_degree": 3}, {"quadrature_degree": 4, "user": "x"}])
    keep = None if user_meta is None else dict(user_meta)
    degree = s.pick([None, None, 5])
    data = s.pick([None, [(1, np.arange(3, dtype=np.int32))], Obj()])
    sid = s.pick(["everywhere", 2, (1, 3)])
    ds = B.ds_bdry_unf(dom, subdomain_id=sid, metadata=user_meta, subdomain_data=data, degree=degree)
    ops_done = []
    def check(ds, sid, meta, data, what, dom=dom):
        want = dom.jacobian @ np.linalg.solve(dom.jacobian.T @ dom.jacobian, dom.normal)
        require(type(ds) is B.ds_bdry_unf, what + ": type", type(ds))
        require(ds.integral_type() == "cell", what + ": integral type", ds.integral_type())
        require(ds.ufl_domain() is dom, what + ": domain")
        require(ds.subdomain_id() == sid, what + ": subdomain", ds.subdomain_id(), "instead of", sid)
        require(ds.subdomain_data() is data, what + ": subdomain data", ds.subdomain_data())
        m = ds.metadata()
        for k, v in meta.items():
            require(k in m and m[k] == v, what + ": metadata", k, m.get(k), "instead of", v)
        require(set(m) == set(meta) | {"quadrature_points", "quadrature_weights", "quadrature_rule", "custom_unfitted_boundary"}, what + ": keys of the metadata", sorted(m))
        require(m["quadrature_rule"] == "custom" and m["custom_unfitted_boundary"] is True, what + ": custom metadata", m)
        require(np.asarray(m["quadrature_points"]).shape == (len(m["quadrature_weights"]), tdim), what + ": dimension of the placeholder points", m["quadrature_points"])
        f = s.real(-3, 3)
        form = Num(f) * ds
        (itg,) = form.integrals()
        require(np.isclose(itg.integrand().v, f * np.linalg.norm(want), rtol=1e-9, atol=1e-12), what + ": integrand", itg.integrand().v, "instead of", f * np.linalg.norm(want))
        require(itg.subdomain_id() == sid and itg.subdomain_data() is data and itg.metadata() == m and itg.integral_type() == "cell", what + ": integral")
        require("ds_bdry_unf" in str(ds), what + ": text", str(ds))
        require("unfitted_custom_boundary" in repr(ds), what + ": representation", repr(ds))
    meta = dict(user_meta or {})
    if degree is not None:
        meta["quadrature_degree"] = degree
    check(ds, sid, meta, data, "measure")
    plain = Measure("cell", dom, sid, ds.metadata(), data)
    require(ds != plain and ds == ds and hash(ds) == hash(ds), "equality with a cell measure")
    cur, at = ds, dom
    for _ in range(s.raw(3)):
        kind = s.raw(6)
        if kind == 0:
            sid = s.pick([7, (2, 4), 0])
            cur = cur(sid)
        elif kind == 1:
            meta = {"quadrature_degree": s.i(1, 9)}
            cur = cur(metadata=dict(meta))
        elif kind == 2:
            meta = {"quadrature_degree": s.i(1, 9)}
            cur = cur(degree=meta["quadrature_degree"])
        elif kind == 3:
            data = s.pick([Obj(), [(5, np.arange(2, dtype=np.int32))]])
            cur = cur(subdomain_data=data)
        elif kind == 4:
            sid = "everywhere"
            cur = cur()
        elif kind == 5:
            at = s.pick(others)
            cur = cur(domain=at) if s.coin() else cur.reconstruct(domain=at)
        else:
            same = cur.reconstruct()
            require(same is cur or type(same) is type(cur), "reconstruction")
            cur = same
        ops_done.append(kind)
        check(cur, sid, meta, data, "reconstructed measure", at)
    require(user_meta == keep, "metadata of the user changed", user_meta)
    s.note("measure", (sid, meta, ops_done))

# ---------------------------------------------------------------- P10
class Vec:
    """Vector that is only complete after its ghosts are updated."""
    def __init__(self, n):
        self.a = np.zeros(n)
        self.ghosted = True
    def localForm(self):
        return self
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def set(self, v):
        self.a[:] = v
    @property
    def array_w(self):
        return self.a
    def ghostUpdate(self, addv=None, mode=None):
        self.ghosted = True
    def setOptionsPrefix(self, p):
        pass
    def setFromOptions(self):
        pass
class Mat(Vec):
    def __init__(self, n):
        self.a = np.zeros((n, n))
        self.ready = False
    def zeroEntries(self):
        self.a[:] = 0
    def assemble(self):
        self.ready = True
class BC:
    def __init__(self, dofs, values):
        self.dofs, self.values = dofs, values
    def set(self, x, x0=None, alpha=1.0):
        x[self.dofs] = alpha * (self.values - (0 if x0 is None else x0[self.dofs]))
def as_list(f):
    return list(f) if isinstance(f, (list, tuple)) else [f]
def petsc_module():
    import types
    F = load_forms()
    import qugar.dolfinx as qd
    if "qugar.dolfinx.petsc" in sys.modules:
        return sys.modules["qugar.dolfinx.petsc"], F
    P = env.mod("petsc4py.PETSc")
    P.ScalarType = np.float64
    P.InsertMode, P.ScatterMode = Obj(ADD="add", INSERT="insert"), Obj(REVERSE="reverse", FORWARD="forward")
    class KSP:
        def create(self, comm):
            self.options = None
            return self
        def setOperators(self, A):
            self.A = A
        def setOptionsPrefix(self, p):
            self.prefix = p
        def setFromOptions(self):
            # Only the options with the prefix of the solver are read.
            self.options = {k[len(self.prefix):]: v for k, v in P.Options.database.items() if k.startswith(self.prefix)}
        def solve(self, b, x):
            require(self.A.ready, "solving with a matrix that is not assembled")
            require(b.ghosted, "solving before the ghosts of the right-hand side are added")
            x.a[:] = np.linalg.solve(self.A.a, b.a)
    P.KSP = KSP
    class Options(dict):
        database, prefixes = {}, []
        def prefixPush(self, p):
            self.prefixes.append(p)
        def prefixPop(self):
            self.prefixes.pop()
        def __setitem__(self, k, v):
            self.database["".join(self.prefixes) + k] = v
    P.Options = Options
    fp = env.mod("dolfinx.fem.petsc")
    fp.LinearProblem = type("LinearProblem", (), {"u": property(lambda self: self._u)})
    fp.NewtonSolverNonlinearProblem = type("NewtonSolverNonlinearProblem", (), {})
    env.dolfinx.has_petsc4py = True
    env.dolfinx.fem.petsc = fp
    env.dolfinx.fem.extract_function_spaces = lambda f: ("spaces", f)
    fp.create_matrix = lambda a: Mat(as_list(a)[0].n)
    fp.create_vector = lambda sp: Vec(as_list(sp[1])[0].n)
    env.mod("dolfinx.la.petsc").create_vector_wrap = lambda x: x
    def values(form, coeffs, what):
        fs, cs = as_list(form), as_list(coeffs)
        require(len(fs) == len(cs), what + ": coefficients of a list of forms", len(fs), len(cs))
        out = 0
        for f, c in zip(fs, cs):
            require(isinstance(c, dict) and set(c) == set(f.keys), what + ": coefficients", c if not isinstance(c, dict) else list(c))
            out = out + f.assemble(c)
        return out
    def assemble_matrix(A, a, bcs=[], coeffs=None, constants=None, diag=1):
        A.ready = False
        M = np.array(values(a, coeffs, "matrix"))
        for bc in bcs:
            M[bc.dofs, :] = 0
            M[:, bc.dofs] = 0
        A.a += M
        for bc in bcs:
            A.a[bc.dofs, bc.dofs] = 1
    fp.assemble_matrix = assemble_matrix
    def assemble_vector(b, L, coeffs=None, constants=None):
        b.ghosted = False
        b.a += values(L, coeffs, "vector")
    fp.assemble_vector = assemble_vector
    def apply_lifting(b, a, bcs, x0=None, alpha=1.0, coeffs=None, constants=None):
        require(len(a) == len(bcs) == len(as_list(coeffs)), "lifting: sizes", len(a), len(bcs))
        for k, (f, cond, c) in enumerate(zip(a, bcs, coeffs)):
            M = np.array(values(f, c, "lifting"))
            for bc in cond:
                g = bc.values - (x0[k].a[bc.dofs] if x0 is not None else 0)
                b.a -= alpha * M[:, bc.dofs] @ g
    fp.apply_lifting = apply_lifting
    def set_bc(b, bcs, x0=None, alpha=1.0):
        for bc in bcs:
            bc.set(b.a, None if x0 is None else x0.a, alpha)
    fp.set_bc = set_bc
    qd.CustomForm, qd.form_custom = F.CustomForm, F.form_custom
    import qugar.dolfinx.petsc as M
    return M, F

@prop("P10", 20000, 150000)
def p10(s):
    M, F = petsc_module()
    n = s.i(2, 6)
    state = dict(t=0)
    class Custom(F.CustomForm):
        """Form whose values follow its coefficients at the time they are packed or updated."""
        def __init__(self, tag, shape, bulk):
            self.tag, self.n, self.shape, self.bulk = tag, n, shape, bulk
            self.keys = [(IntegralType.cell, k) for k in range(1 + tag % 2)]
            self.calls = []
        def now(self):
            return {k: np.array([self.tag * 7.0 + k[1], float(state["t"]), state["u"]]) for k in self.keys}
        def pack_coefficients(self):
            self.calls.append("pack")
            return self.now()
        def update_coefficients(self, old):
            require(isinstance(old, dict) and set(old) == set(self.keys), "coefficients of another form updated", old if not isinstance(old, dict) else list(old))
            for k, v in old.items():
                require(v[0] == self.tag * 7.0 + k[1], "coefficients of another form updated", self.tag, v.tolist())
                v[:] = self.now()[k]
            return dict(old)
        def assemble(self, c):
            out = np.zeros(self.shape)
            for k, v in c.items():
                require(v[0] == self.tag * 7.0 + k[1], "coefficients of another form assembled", self.tag, v.tolist())
                rng = np.random.default_rng([self.tag, k[1], int(v[1] * 16) & 0xffff, int(v[2] * 1024) & 0xffffff])
                out += rng.standard_normal(self.shape)
            return out + self.bulk
        def current(self):
            return self.assemble(self.now())
    mats = Custom(s.i(1, 9), (n, n), np.eye(n) * 12 * s.i(1, 2))
    vecs = Custom(s.i(1, 9), (n,), 0.0)
    bcs = []
    dofs = s.shuffled(range(n))[:s.raw(n - 1)]
    while dofs:
        k = s.i(1, len(dofs))
        bcs.append(BC(np.array(dofs[:k]), np.array([s.real(-2, 2) for _ in range(k)])))
        dofs = dofs[k:]
    state["u"] = 0.0
    uf = Obj(x=Vec(n))
    class U:
        function_space = Obj(mesh=Obj(comm=Obj()))
        def __init__(self):
            self.x = Vec(n)
            self.scattered = 0
            self.x.scatter_forward = self._sc
        def _sc(self):
            self.scattered += 1
    given = s.coin()
    seen = []
    M.form_custom = lambda f, dtype=None, form_compiler_options=None, jit_options=None: seen.append((f, form_compiler_options, jit_options)) or {"a": mats, "L": vecs}[f.name]
    spaces = []
    M._Function = lambda V: spaces.append(V) or U()
    s.note("size", n)
    s.note("bcs", [(b.dofs.tolist(), b.values.tolist()) for b in bcs])
    s.nontrivial()
    a_ufl, L_ufl = Obj(name="a", arguments=lambda: [Obj(ufl_function_space=lambda: "W"), Obj(ufl_function_space=lambda: "V")]), Obj(name="L")
    u = U()
    kind = s.raw(2)
    s.note("kind", ["linear", "newton", "list newton"][kind])
    bd = np.concatenate([b.dofs for b in bcs]) if bcs else np.empty(0, dtype=int)
    g = np.concatenate([b.values for b in bcs]) if bcs else np.empty(0)
    if kind == 0:
        PO = M.PETSc.Options
        PO.database.clear()
        PO.prefixes.clear()
        wanted = s.pick([{"ksp_type": "preonly"}, {"ksp_type": "cg", "pc_type": s.pick(["ilu", "none"])}, {}, None])
        p = M.LinearProblem(a_ufl, L_ufl, bcs=bcs, u=u if given else None, **({} if wanted is None else {"petsc_options": wanted}), form_compiler_options={"o": 1}, jit_options={"j": 2})
        require(spaces == ([] if given else ["V"]), "space of the solution is that of the trial functions", spaces)
        require(p._solver.options == (wanted or {}), "options of the solver", wanted, p._solver.options)
        require(not PO.prefixes, "prefix of the options left behind", PO.prefixes)
        require([x[1:] for x in seen] == [({"o": 1}, {"j": 2})] * 2, "options of the forms", seen)
        for step in range(s.i(1, 3)):
            state["t"] += s.raw(1)
            state["u"] = s.real(0, 1)
            sol = p.solve()
            require((sol is u) if given else True, "function of the solution")
            A, b = mats.current(), vecs.current()
            free = np.setdiff1d(np.arange(n), bd)
            want = np.zeros(n)
            want[bd] = g
            want[free] = np.linalg.solve(A[np.ix_(free, free)], b[free] - A[np.ix_(free, bd)] @ g)
            require(np.allclose(sol.x.a, want, atol=1e-9), "solution of the linear problem", "step", step, sol.x.a.tolist(), want.tolist())
            require(sol.scattered == step + 1, "ghosts of the solution", sol.scattered)
        return
    forms = {"a": mats, "L": vecs}
    if kind == 2:
        forms["L"] = [vecs, Custom(vecs.tag + 1, (n,), 0.0), Custom(vecs.tag + 2, (n,), 0.5)][:s.i(1, 3)]
    M.form_custom = lambda f, dtype=None, form_compiler_options=None, jit_options=None: forms[f.name]
    if s.coin():
        p = M.NonlinearProblem(L_ufl, u, bcs=bcs, J=a_ufl)
    else:
        ufl.TrialFunction = lambda V: ("du", V)
        def derivative(F_, u_, du):
            require(F_ is L_ufl and u_ is u and du == ("du", U.function_space), "derivative of the residual")
            return a_ufl
        ufl.derivative = derivative
        p = M.NonlinearProblem(L_ufl, u, bcs=bcs)
    b, A, x = Vec(n), Mat(n), Vec(n)
    for step in range(s.i(1, 5)):
        state["t"] += s.raw(1)
        state["u"] = s.real(0, 1)
        x.a[:] = [s.real(-1, 1) for _ in range(n)]
        if s.coin():
            p.F(x, b)
            want = sum(f.current() for f in as_list(forms["L"]))
            J = mats.current()
            want = want + J[:, bd] @ (g - x.a[bd])
            want[bd] = x.a[bd] - g
            require(b.ghosted, "ghosts of the residual")
            require(np.allclose(b.a, want, atol=1e-9), "residual", "step", step, b.a.tolist(), want.tolist())
        else:
            p.J(x, A)
            want = mats.current()
            want[bd, :] = 0
            want[:, bd] = 0
            want[bd, bd] = 1
            require(A.ready, "matrix not assembled")
            require(np.allclose(A.a, want, atol=1e-9), "Jacobian", "step", step, A.a.tolist(), want.tolist())

if __name__ == "__main__":
    sys.exit(main())
