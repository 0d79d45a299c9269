"""K01-K03: kernels. Integral kernels in the form compiler's layout are generated from random integrands, rewritten by the
repository's code generation, compiled, run through the real tabulation shim and compared with direct sums."""
import _ctypes, collections, ctypes, hashlib, math, os, pathlib, re, shutil, subprocess, sys, tempfile, types
import numpy as np
import env
from env import mod
import basix, basix.ufl
from pbt import Discard, Fail, main, prop, require
import shim_build

# ---------------------------------------------------------------- the form compiler's side
MTE = collections.namedtuple("ModifiedTerminalElement", "element averaged local_derivatives fc")
mod("ffcx.ir.elementtables").get_modified_terminal_element = lambda mt: mt.mte
class QuadratureRule:
    def __init__(self, points, weights, tensor_factors=None):
        self.points = np.ascontiguousarray(points)
        self.weights = weights
        self.tensor_factors = tensor_factors
        self.has_tensor_factors = tensor_factors is not None
        self._hash = None
    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash
    def __eq__(self, o):
        return np.allclose(self.points, o.points) and np.allclose(self.weights, o.weights)
    def id(self):
        return self.hash_obj.hexdigest()[-3:]
ru = mod("ffcx.ir.representationutils")
ru.QuadratureRule = QuadratureRule
FACETS = {"interval": "point", "triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
def bcell(name):
    return getattr(basix.CellType, name)
def rule_points(itype, cell, degree, scheme):
    name = cell if itype == "cell" else FACETS[cell]
    p, w = basix.make_quadrature(bcell(name), degree, rule=getattr(basix.QuadratureType, "default" if scheme == "default" else "gauss_jacobi"))
    return name, p, w
def create_quadrature_points_and_weights(integral_type, cell, degree, rule, elements, use_tensor_product=False):
    n, p, w = rule_points(integral_type, cell.cellname(), degree, rule)
    return {n: p}, {n: w}, {n: None}
ru.create_quadrature_points_and_weights = create_quadrature_points_and_weights
CodeBlocks = collections.namedtuple("CodeBlocks", "file_pre integrals forms expressions file_post")
fcg = mod("ffcx.codegeneration.codegeneration")
fcg.CodeBlocks = CodeBlocks
fcg.generate_code = lambda ir, options: CodeBlocks([("// declarations of the file", ir.header)], [(f"extern ufcx_integral {n};", c) for n, c in ir.codes], ["forms"], ["expressions"], [("// end", "// end of the code")])
mod("ffcx.codegeneration").codegeneration = fcg
geo = mod("ufl.geometry")
geo.GeometricQuantity = type("GeometricQuantity", (), {"__init__": lambda self, d: setattr(self, "d", d)})
geo.Jacobian = type("Jacobian", (geo.GeometricQuantity,), {})
geo.SpatialCoordinate = type("SpatialCoordinate", (geo.GeometricQuantity,), {})
mod("ufl.domain").extract_unique_domain = lambda t: t.d
sys.modules["ufl"].geometry, sys.modules["ufl"].domain = geo, sys.modules["ufl.domain"]
class UflCell:
    def __init__(self, name):
        self.n = name
    def cellname(self):
        return self.n
    def topological_dimension(self):
        return env.cells[self.n]
    def __eq__(self, o):
        return self.n == o.n
    def __hash__(self):
        return hash(self.n)
class UflDomain:
    def __init__(self, cell):
        self.c = UflCell(cell)
    def ufl_cell(self):
        return self.c
from qugar.dolfinx import codegeneration as cgm
from qugar.dolfinx.boundary import ParamNormal, ds_bdry_unf
from qugar.dolfinx import fe_table
from qugar.dolfinx.quadrature_data import extract_quadrature_data
from qugar.dolfinx.integral_data import extract_integral_data
from qugar.dolfinx._kernel_body import KernelBody

# ---------------------------------------------------------------- run time
KRT = r'''
#include <math.h>
#define F(sfx, R) \
 static int (*reg_##sfx)(int,int,int,int,int,int); static int (*tab_##sfx)(int,int,const R*,int,int,R*,long); static R* (*scr_##sfx)(long); \
 static R* last_##sfx; static long n_##sfx; \
 int qugar_register_element_##sfx(int a,int b,int c,int d,int e,int f){ return reg_##sfx(a,b,c,d,e,f); } \
 R* qugar_get_scratch_##sfx(long n){ R* p = scr_##sfx(n + 64); if(!p) return p; for(long i=0;i<n;++i) p[i]=NAN; for(long i=n;i<n+64;++i) p[i]=(R)-654.25; last_##sfx=p; n_##sfx=n; return p; } \
 int qugar_tabulate_##sfx(int h,int nd,const R* x,int n,int g,R* out,long c){ return tab_##sfx(h,nd,x,n,g,out,c); } \
 int krt_check_##sfx(void){ if(!last_##sfx) return 0; for(long i=0;i<64;++i) if(last_##sfx[n_##sfx+i]!=(R)-654.25) return 1; return 0; } \
 void krt_init_##sfx(void* a, void* b, void* c){ reg_##sfx=a; tab_##sfx=b; scr_##sfx=c; last_##sfx=0; }
F(f64, double)
F(f32, float)
'''
UFCX = r'''
#pragma once
#include <math.h>
#include <complex.h>
#include <stdbool.h>
#include <stdint.h>
typedef struct { const bool* enabled_coefficients; void* tabulate_tensor; bool needs_facet_permutations; uint64_t hash; int domain; } ufcx_integral;
'''
class Runtime:
    dir = None
    @classmethod
    def get(cls):
        if cls.dir is None:
            cls.dir = shim_build.OUT / ("krt-" + hashlib.sha256((KRT + UFCX).encode()).hexdigest()[:16])
            if not (cls.dir / "ok").exists():
                tmp = pathlib.Path(tempfile.mkdtemp(dir=shim_build.OUT))
                (tmp / "krt.c").write_text(KRT)
                (tmp / "ufcx.h").write_text(UFCX)
                subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", tmp / "libkrt.so", tmp / "krt.c", "-lm"], check=True)
                (tmp / "ok").touch()
                try:
                    os.rename(tmp, cls.dir)
                except OSError:
                    shutil.rmtree(tmp)
            cls.shim = shim_build.load()
            cls.krt = ctypes.CDLL(str(cls.dir / "libkrt.so"))
            for t in ("f64", "f32"):
                f = [ctypes.cast(getattr(cls.shim, f"qugar_{n}_{t}"), ctypes.c_void_p) for n in ("register_element", "tabulate", "get_scratch")]
                getattr(cls.krt, f"krt_init_{t}")(*f)
        return cls
class Compiled:
    def __init__(self, code):
        rt = Runtime.get()
        self.dir = tempfile.mkdtemp(prefix="krn", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        try:
            c, so = self.dir + "/k.c", self.dir + "/k.so"
            with open(c, "w") as f:
                f.write(code)
            # x87-free, no optimisation: the time goes into the compilation.
            r = subprocess.run(["gcc", "-std=c17", "-O0", "-w", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
                                "-fPIC", "-shared", f"-I{rt.dir}", "-o", so, c, f"-L{rt.dir}", "-lkrt", "-lm", f"-Wl,-rpath,{rt.dir}", "-Wl,-z,defs"], capture_output=True, text=True)
            require(r.returncode == 0, "the generated code does not compile", r.stderr[:1500])
            self.lib = ctypes.CDLL(so)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
    def close(self):
        _ctypes.dlclose(self.lib._handle)

# ---------------------------------------------------------------- generated integrands
SCALARS = {"double": (np.float64, np.float64, "f64"), "float": (np.float32, np.float32, "f32"), "double _Complex": (np.complex128, np.float64, "f64"),
           "float _Complex": (np.complex64, np.float32, "f32")}
TABS = {}
def comp_tab(el, fc, der, X):
    """Values of one component and derivative of an element: (points, functions)."""
    sub, _, _ = el.get_component_element(fc)
    X = np.asarray(X, dtype=np.float64).reshape(-1, env.cells[cellname(el)])
    if len(X) == 0:
        return np.zeros((0, sub.dim if not isinstance(sub, basix.ufl._ComponentElement) else sub._element.dim))
    return np.asarray(sub.tabulate(sum(der), X)[basix.index(*der)])
def cellname(el):
    return el.cell_type.name
def offset_stride(el, fc):
    _, o, st = el.get_component_element(fc)
    return int(o), int(st)
def facet_map(cell, f, s):
    g = basix.geometry(bcell(cell))
    v = g[basix.topology(bcell(cell))[env.cells[cell] - 1][f]]
    s = np.asarray(s, dtype=np.float64).reshape(-1, env.cells[cell] - 1)
    return v[0] + s @ (v[1:1 + s.shape[1]] - v[0])
def permute(cell, p, s):
    """The facet points as seen through the permutation p of a side."""
    s = np.array(s, dtype=np.float64)
    if cell in ("triangle", "quadrilateral"):
        return 1 - s if p else s
    rot, ref = divmod(p, 2)
    for _ in range(rot):
        s = np.c_[s[:, 1], 1 - s[:, 0] - s[:, 1]] if cell == "tetrahedron" else np.c_[s[:, 1], 1 - s[:, 0]]
    return s[:, ::-1] if ref else s
NPERM = {"triangle": 2, "quadrilateral": 2, "tetrahedron": 6, "hexahedron": 8}
NFACETS = {"triangle": 3, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 6}
def can_recreate(el, fc):
    """Whether the run-time library can make the element again from its family, cell, degree and variants."""
    sub, _, _ = el.get_component_element(fc)
    return not getattr(getattr(sub, "_element", sub), "special", getattr(sub, "special", False))
def pick_element(s, cell, dtype=np.float64, vector_ok=True):
    e = lambda *a, **k: basix.ufl.element(*a, dtype=dtype, **k)
    simplex, tdim = cell in ("triangle", "tetrahedron"), env.cells[cell]
    top = 2 if tdim == 3 else 3
    k = s.raw(9)
    if s.chance(1, 60):
        if s.coin() and cell == "triangle":
            fam = basix.ufl.enriched_element([e("Lagrange", cell, 1), e("Bubble", cell, 3)])
        elif not simplex:
            fam = basix.ufl.wrap_element(basix.create_tp_element(basix.ElementFamily.P, bcell(cell), 2, basix.LagrangeVariant.gll_warped, dtype=dtype))
        else:
            fam = e("CR", cell, 1)
        fam.special = fam.basix_element.family == basix.ElementFamily.custom or bool(fam.basix_element.dof_ordering)
    elif k <= 3:
        fam = e("Lagrange", cell, s.i(1, top), lagrange_variant=s.pick([basix.LagrangeVariant.gll_warped, basix.LagrangeVariant.equispaced, basix.LagrangeVariant.gll_isaac]))
    elif k == 4:
        fam = e("DG", cell, s.i(0, 2 if tdim == 2 else 1))
    elif k == 5:
        fam = e("RT" if simplex else "RTCF" if tdim == 2 else "NCF", cell, s.i(1, 2 if tdim == 2 else 1))
    elif k == 6:
        fam = e("N1curl" if simplex else "RTCE" if tdim == 2 else "NCE", cell, s.i(1, 2 if tdim == 2 else 1))
    elif k == 7:
        fam = e("CR", cell, 1) if simplex else s.pick([e("Serendipity", cell, s.i(1, 2)), e("DPC", cell, s.i(0, 2), discontinuous=True)])
    elif k == 8:
        fam = s.pick([e("Regge", cell, 1), e("BDM", cell, 1)]) if cell == "triangle" else e("Lagrange", cell, 1)
    else:
        fam = s.pick([e("Lagrange", cell, s.i(3, 4) if tdim == 2 else 1, lagrange_variant=basix.LagrangeVariant.legendre, discontinuous=True), e("Bubble", cell, 3 if simplex and tdim == 2 else 4 if simplex else 2)])
    if not fam.reference_value_shape and s.chance(1, 3):
        kw = {}
        shape = s.pick([(2,), (tdim,), (1,), (2, 2)])
        if shape == (2, 2) and s.coin():
            kw["symmetry"] = True
        return basix.ufl.blocked_element(fam, shape=shape, **kw)
    if vector_ok and s.chance(1, 4):
        return basix.ufl.mixed_element([fam] + [pick_element(s, cell, dtype, s.chance(1, 4)) for _ in range(s.i(1, 2))])
    return fam
def pick_facet_element(s, cell, dtype):
    el = basix.ufl.element("Lagrange" if s.coin() else "DG", cell, s.i(1, 3 if cell == "interval" else 2), dtype=dtype)
    return basix.ufl.blocked_element(el, shape=(s.i(2, 3),)) if s.chance(1, 3) else el
def n_components(el):
    if isinstance(el, basix.ufl._MixedElement):
        return sum(n_components(q) for q in el.sub_elements)
    return el.block_size if el.block_size > 1 else el.reference_value_size
class Tr:
    """A unique table reference of the form compiler."""
class Mt:
    def __init__(self, terminal, mte=None):
        self.terminal, self.mte = terminal, mte
class Rule:
    def __init__(self, s, itype, cell, unf, scheme_degree=None):
        self.itype, self.cell, self.unf = itype, cell, unf
        if unf:
            p = np.array(ds_bdry_unf._points_2D if env.cells[cell] == 2 else ds_bdry_unf._points_3D)
            w = np.array(ds_bdry_unf._weights)
            self.degree = s.i(0, 9)
            self.meta = {"quadrature_rule": "custom", "quadrature_degree": self.degree, "quadrature_points": p.tolist(), "quadrature_weights": w.tolist(), "custom_unfitted_boundary": True}
        else:
            self.degree, scheme = s.i(0, 4 if env.cells[cell] == 2 else 3) if s.chance(5, 6) else s.i(4, 8 if env.cells[cell] == 2 else 5), "default"
            _, p, w = rule_points(itype, cell, self.degree, scheme)
            self.meta = {"quadrature_rule": scheme, "quadrature_degree": self.degree}
            if s.chance(1, 8):
                self.meta["custom_unfitted_boundary"] = False
        self.p, self.w = p, w
        self.rule = QuadratureRule(p, w)
        hash(self.rule)
        self.name = self.rule.id()
    def entity_points(self, f, perm):
        return self.p if self.itype == "cell" else facet_map(self.cell, f, permute(self.cell, perm, self.p))
def classify(t):
    if t.shape[2] == 0 or np.allclose(t, 0, rtol=1e-6, atol=1e-9):
        return "zeros"
    if np.allclose(t, 1, rtol=1e-6, atol=1e-9):
        return "ones"
    pw = all(np.allclose(t[0, :, 0, :], t[0, :, k, :], rtol=1e-6, atol=1e-9) for k in range(1, t.shape[2]))
    un = all(np.allclose(t[0, 0, :, :], t[0, k, :, :], rtol=1e-6, atol=1e-9) for k in range(1, t.shape[1]))
    return {(1, 1): "fixed", (1, 0): "piecewise", (0, 1): "uniform", (0, 0): "varying"}[int(pw), int(un)]
GENERIC = {}
def generic_points(cell):
    if cell not in GENERIC:
        t = env.cells[cell]
        GENERIC[cell] = np.array([[0.13, 0.31, 0.17], [0.29, 0.12, 0.23], [0.41, 0.37, 0.11], [0.07, 0.53, 0.34], [0.2, 0.2, 0.2]])[:, :t]
    return GENERIC[cell]
def same_function(a, b, tol=1e-9):
    return a.shape == b.shape and np.abs(a - b).max(initial=0) <= tol * (1 + np.abs(a).max(initial=0))

class Integral:
    """One integral: its rules, terms, tables, code and the stand-in of its intermediate representation."""
    def __init__(self, s, form, number):
        self.s, self.form, self.cell = s, form, form.cell
        self.tdim = env.cells[self.cell]
        self.itype = s.pick(["cell", "cell", "cell", "exterior_facet", "interior_facet"]) if form.itype is None else form.itype
        self.sides = 2 if self.itype == "interior_facet" else 1
        self.hash = hashlib.sha1(b"%d %d" % (number, s.raw(1 << 30))).hexdigest()
        self.name = "integral_" + self.hash
        self.full = f"{self.hash}_{self.cell}"
        self.ids = [s.i(-1, 5) + 7 * k for k in range(1 + (number == 0 and s.chance(1, 4)))]
        nrules = s.pick([1, 2, 1, 3])
        self.rules = []
        for _ in range(nrules):
            unf = self.itype == "cell" and not any(r.unf for r in self.rules) and s.chance(2, 5)
            r = Rule(s, self.itype, self.cell, unf)
            if r.name not in [q.name for q in self.rules]:
                self.rules.append(r)
        self.tables, self.types, self.els, self.owner = {}, {}, {}, {}
        self.piecewise_defs, self.integrand, self.loops, self.pre = {}, {}, [], []
        self.used = set()
        self.terms = {}
        for r in self.rules:
            self.build_rule(r)
        self.emit()
    # -- tables
    def table(self, r, el, fc, der):
        key = (r.name, id(el), fc, der)
        if key in self.els:
            return self.els[key]
        true = comp_tab(el, fc, der, generic_points(cellname(el)))
        if cellname(el) != self.cell:  # An element of the facets: their own points, already oriented.
            arr = comp_tab(el, fc, der, r.p)[None, None].copy()
        else:
            arr = np.array([[comp_tab(el, fc, der, r.entity_points(f, p)) for f in range(NFACETS[self.cell] if self.itype != "cell" else 1)]
                            for p in range(NPERM[self.cell] if self.itype == "interior_facet" or self.form.mixed else 1)])
        arr[np.abs(arr) < 1e-9] = 0.0
        arr[np.abs(arr - 1) < 1e-6] = 1.0
        arr[np.abs(arr + 1) < 1e-6] = -1.0
        t = Tr()
        t.ttype = classify(arr)
        if (t.ttype == "zeros") != (np.abs(true).max(initial=0) < 1e-9) or (t.ttype == "ones") != np.allclose(true, 1):
            raise Discard  # The standard points hide the function from the form compiler.
        t.is_piecewise, t.is_uniform = t.ttype in ("fixed", "piecewise", "zeros", "ones"), t.ttype in ("fixed", "uniform", "zeros", "ones")
        if t.is_piecewise:
            arr = arr[:, :, :1]
        if t.is_uniform:
            arr = arr[:, :1]
        t.is_permuted = not all(np.allclose(arr[0], arr[k], rtol=1e-6, atol=1e-9) for k in range(1, len(arr)))
        if not t.is_permuted:
            arr = arr[:1]
        t.name = f"FE{self.number(el)}_C{fc}" + ("_D" + "".join(map(str, der)) if any(der) else "") + ("" if self.itype == "cell" else "_F") + f"_Q{r.name}"
        t.true, t.fns, t.rule = true, arr.shape[3], r
        for name, o in self.tables.items():
            if o.arr.shape == arr.shape and np.allclose(o.arr, arr, rtol=1e-6, atol=1e-9):
                t.name, t.rule = name, o.rule
                if not same_function(o.true, true, 1e-9 if self.form.dtype == np.float64 else 1e-4):
                    self.s.count("tables the compiler confuses")
                    raise Discard
                arr = o.arr
                break
        else:
            self.tables[t.name] = t
        t.arr = arr
        t.mte = MTE(el, None, der, fc)
        self.els[key] = t
        return t
    def number(self, el):
        k = (self.current.name, id(el))
        if k not in self.numbers:
            self.numbers[k] = sum(1 for q in self.numbers if q[0] == self.current.name)
        return self.numbers[k]
    numbers = None
    # -- terms
    def derivs(self, el, top=2):
        s = self.s
        tdim = env.cells[cellname(el)]
        d = [0] * tdim
        for _ in range(s.pick([0, 0, 1, 1, top])):
            d[s.raw(tdim - 1)] += 1
        return tuple(d)
    def build_rule(self, r):
        s, form = self.s, self.form
        self.current = r
        self.numbers = self.numbers or {}
        terms = []
        for _ in range(s.pick([1, 2, 1, 3])):
            f = []
            for k, el in enumerate(form.args):
                f.append(("arg", k, el, s.raw(n_components(el) - 1), self.derivs(el), s.raw(self.sides - 1)))
            for _ in range(s.pick([0, 1, 2])):
                q = s.raw(5)
                side = s.raw(self.sides - 1)
                if q <= 1 and form.coefs:
                    k = s.raw(len(form.coefs) - 1)
                    el = form.coefs[k]
                    f.append(("w", k, el, s.raw(n_components(el) - 1), self.derivs(el, 1), side))
                elif q == 2:
                    f.append(("x", 0, form.coord, s.raw(self.tdim - 1), (0,) * self.tdim, side))
                elif q == 3 and form.consts:
                    f.append(("c", s.raw(sum(form.consts) - 1)))
                elif q == 4 and self.itype != "cell":
                    f.append(("fj", s.raw(self.tdim - 1), s.raw(self.tdim - 2)))
                else:
                    f.append(self.jac(side))
            if r.unf:
                f.append(("n", s.raw(self.tdim - 1)))
                if s.chance(1, 3):
                    f.append(("n", s.raw(self.tdim - 1)))
            if not terms:
                f.append(self.jac(s.raw(self.sides - 1)))
                if self.itype != "cell":
                    f.append(("fj", s.raw(self.tdim - 1), s.raw(self.tdim - 2)))
            terms.append((s.i(1, 5) * (1 if s.coin() else -1), f))
        # Tables are made in the order of the graph of the integrand, also for terminals that later drop out.
        todo = [f for _, fs in terms for f in fs if f[0] in ("arg", "w", "x", "J")]
        if s.chance(1, 4):
            el = s.pick(form.args + form.coefs + [form.coord])
            todo.append(("unused", 0, el, s.raw(n_components(el) - 1), self.derivs(el), 0))
        for f in s.shuffled(todo):
            self.table(r, f[2], f[3], f[4])
        keep = []
        for c, fs in terms:
            if any(f[0] in ("arg", "w", "x", "J") and self.table(r, f[2], f[3], f[4]).ttype == "zeros" for f in fs):
                continue  # The form compiler drops what is zero.
            keep.append((c, fs))
        if not any(f[0] == "J" for _, fs in keep for f in fs):
            raise Discard  # There is always a scaling of the measure.
        self.terms[r.name] = keep
        nodes = []
        for _, fs in keep:
            for f in fs:
                if f[0] in ("arg", "w", "x", "J"):
                    term = (geo.Jacobian if f[0] == "J" else geo.SpatialCoordinate)(form.domain) if f[0] in ("x", "J") else types.SimpleNamespace(k=f[1])
                    tr = self.table(r, f[2], f[3], f[4])
                    nodes.append({"mt": Mt(term, tr.mte), "tr": tr})
                    if tr.ttype != "ones":
                        self.used.add(tr.name)
                elif f[0] == "fj":
                    nodes.append({"mt": Mt(geo.GeometricQuantity(form.domain)), "tr": None})
                else:
                    nodes.append({"mt": Mt(types.SimpleNamespace(k=0))})
                if s.chance(1, 3):
                    nodes.append({})
        nodes = s.shuffled(nodes)
        self.integrand[form.cell_key, r.rule] = {"factorization": types.SimpleNamespace(nodes=dict(enumerate(nodes)))}
    def jac(self, side):
        s = self.s
        d = [0] * self.tdim
        d[s.raw(self.tdim - 1)] = 1
        return ("J", 0, self.form.coord, s.raw(self.tdim - 1), tuple(d), side)
    # -- code
    def ref(self, t, side, dof, point=None):
        p = f"[quadrature_permutation[{side}]]" if t.is_permuted else "[0]"
        e = "[0]" if t.is_uniform or self.itype == "cell" else f"[entity_local_index[{side}]]"
        return f"{t.name}{p}{e}" + ("[0]" if t.is_piecewise else "[iq]") + f"[{dof}]"
    def definition(self, r, f):
        """Symbol of a factor that is not an argument, its definition (None: nothing to define) and whether it is piecewise."""
        T, R = self.form.T, self.form.R
        kind = f[0]
        if kind == "c":
            return f"c[{self.form.cpos[f[1]]}]", None, True
        if kind == "n":
            return f"c[{self.form.npos + f[1]}]", None, True
        if kind == "fj":
            return f"{self.cell}_reference_facet_jacobian[entity_local_index[0]][{f[1]}][{f[2]}]", None, True
        _, k, el, fc, der, side = f
        t = self.table(r, el, fc, der)
        o, st = offset_stride(el, fc)
        sfx = (f"_{side}" if self.sides > 1 else "")
        dtag = "_d" + "".join(map(str, der)) if any(der) else ""
        idx = "(ic)" if st == 1 else f"(ic) * {st}"
        if kind == "w":
            sym = f"w{k}{dtag}_c{fc}{sfx}"
            base = self.form.woff[k] * self.sides + side * el.dim + o
            src, typ = f"w[{base} + {idx}]" if base else f"w[{idx}]", T
        else:
            base = 3 * self.form.nnodes * side + fc
            src, typ = f"coordinate_dofs[(ic) * 3" + (f" + {base}]" if base else "]"), R
            d = der.index(1) if kind == "J" else 0
            sym = (f"J_c{fc * self.tdim + d}" if kind == "J" else f"x_c{fc}") + sfx
        if t.ttype == "ones":
            body = f"{sym} += {src.replace('(ic)', '0')};\n"
        else:
            body = f"for (int ic = 0; ic < {t.fns}; ++ic)\n  {{\n    {sym} += {src} * {self.ref(t, side, 'ic')};\n  }}\n"
        name = {"w": "Coefficient", "J": "Jacobian", "x": "Spatial coordinate"}[kind]
        code = f"// ------------------------ \n// Section: {name}\n// Inputs: {src.split('[')[0]}, {t.name}\n// Outputs: {sym}\n{typ} {sym} = 0.0;\n{{\n  {body}}}\n// ------------------------ \n"
        return sym, code, t.is_piecewise
    def emit(self):
        s, form = self.s, self.form
        T, R = form.T, form.R
        defined, pre, loops, nsp = set(), "", "", 0
        def literal(x):
            return repr(float(x)) if form.Rd == np.float64 else repr(float(np.float32(x)))
        def block(a):
            return literal(a) if np.ndim(a) == 0 else "{" + (", " if np.ndim(a) == 1 else ",\n  ").join(block(q) for q in a) + "}"
        head = "// Quadrature rules\n"
        for r in self.rules:
            head += f"static const {R} weights_{r.name}[{len(r.w)}] = {block(r.w)};\n"
        head += "// Precomputed values of basis functions and precomputations\n// FE* dimensions: [permutation][entities][points][dofs]\n"
        self.emitted = [t for t in s.shuffled(sorted(self.used))]
        for n in self.emitted:
            a = self.tables[n].arr
            head += f"static const {R} {n}" + "".join(f"[{k}]" for k in a.shape) + f" = {block(a)};\n"
        if any(f[0] == "fj" for ts in self.terms.values() for _, fs in ts for f in fs):
            fj = basix.cell.facet_jacobians(bcell(self.cell))
            head += f"static const {R} {self.cell}_reference_facet_jacobian" + "".join(f"[{k}]" for k in fj.shape) + f" = {block(fj)};\n"
            self.fj = fj
        local_all = {}
        for r in self.rules:
            self.current = r
            ldef, body, nfw, ntemp = set(), "", 0, 0
            sp = {}
            spdefs = ""
            post = ""
            for c, fs in self.terms[r.name]:
                syms_pw, syms = [], []
                for f in fs:
                    if f[0] == "arg":
                        continue
                    sym, code, pw = self.definition(r, f)
                    if code is not None:
                        if pw and sym not in defined:
                            pre += code
                            defined.add(sym)
                        elif not pw and sym not in ldef:
                            body += code
                            ldef.add(sym)
                    (syms_pw if pw else syms).append(sym)
                expr = f"{float(c)}"
                if c < 0:
                    expr = f"-{abs(c)}.0"
                if syms_pw and s.chance(4, 5):
                    cplx = any(q[0] in "wc" for q in syms_pw) and "_Complex" in T
                    name = f"sp_{r.name}_{nsp}"
                    nsp += 1
                    # Scalars of the integrand that are the same at every point are computed before the loops.
                    fmt = s.raw(3)
                    val = " * ".join(syms_pw)
                    if fmt == 1:
                        val = f"-({' * '.join(syms_pw)})"
                        c = -c
                    elif fmt == 2:
                        val = f"{' * '.join(['(' + q for q in syms_pw])}" + ")" * len(syms_pw)
                    elif fmt == 3 and not syms_pw[0].startswith("sp"):
                        val = f"-{syms_pw[0]} * -1.0" + "".join(f" * {q}" for q in syms_pw[1:])
                    pre += f"{T if 'omplex' in T else R} {name} = {val};\n"
                    expr = f"{float(c)}"
                    prod = [name] + syms
                else:
                    prod = syms_pw + syms
                body += f"// ------------------------ \n// Section: Intermediates\n// Inputs: {', '.join(prod)}\n// Outputs: fw{nfw}\n{T} fw{nfw} = 0;\n{{\n  fw{nfw} = {' * '.join([expr] + prod)} * weights_{r.name}[iq];\n}}\n// ------------------------ \n"
                post += self.tensor(r, fs, nfw, ntemp)
                nfw += 1
                ntemp += 1
            loops += f"for (int iq = 0; iq < {len(r.w)}; ++iq)\n{{\n" + "".join("  " + l + "\n" for l in (body + post).splitlines()) + "}\n"
        tt = "tabulate_tensor_integral_" + self.full
        sig = (f"void {tt}({T}* restrict A,\n{' ' * 36}const {T}* restrict w,\n{' ' * 36}const {T}* restrict c,\n{' ' * 36}const {R}* restrict coordinate_dofs,\n"
               f"{' ' * 36}const int* restrict entity_local_index,\n{' ' * 36}const uint8_t* restrict quadrature_permutation,\n{' ' * 36}void* custom_data)")
        n = "integral_" + self.full
        before = f"// Code for integral {n}\n\n"
        en = f"bool enabled_coefficients_{n}[{len(form.coefs)}] = {{{', '.join('1' for _ in form.coefs)}}};\n" if form.coefs else ""
        after = (f"\n\n{en}\nufcx_integral {n} =\n{{\n  .enabled_coefficients = {'enabled_coefficients_' + n if form.coefs else 'NULL'},\n  .tabulate_tensor = (void*){tt},\n"
                 f"  .needs_facet_permutations = {'true' if self.itype == 'interior_facet' else 'false'},\n  .hash = 17UL,\n  .domain = 3,\n}};\n\n// End of code for integral {n}\n")
        self.mixed = any(cellname(self.tables[n].mte.element) != self.cell for n in self.used)
        self.body = "{\n" + head + pre + loops + "\n}"
        self.code = before + sig + "\n" + self.body + after
        self.sig = sig
        self.plain = (sig + "\n" + self.body + "\n").replace(tt, "plain_" + self.full)
        # What the form compiler gives a full entity: the loops over unfitted boundaries do not belong to it.
        e = types.SimpleNamespace()
        e.name, e.integral_type, e.entity_type = self.name, self.itype, "cell" if self.itype == "cell" else "facet"
        e.integrand = self.integrand
        e.unique_table_types = {form.cell_key: {t: self.tables[t].ttype for t in self.s.shuffled(sorted(self.used))}}
        class Key:
            pass
        e.coefficient_offsets = {}
        for k, el in enumerate(form.coefs):
            q = Key()
            q.ufl_function_space = lambda el=el: types.SimpleNamespace(element=types.SimpleNamespace(space_dimension=el.dim))
            e.coefficient_offsets[q] = form.woff[k] * self.sides
        e.original_constant_offsets = dict(form.const_objects)
        self.ir = types.SimpleNamespace(expression=e)
    def tensor(self, r, fs, nfw, ntemp):
        s, form = self.s, self.form
        args = [f for f in fs if f[0] == "arg"]
        T = form.T
        sizes = [el.dim * self.sides for el in form.args]
        def arg(f, i):
            t = self.table(r, f[2], f[3], f[4])
            o, st = offset_stride(f[2], f[3])
            base = o + f[5] * f[2].dim
            val = "1.0" if t.ttype == "ones" else self.ref(t, f[5], i)
            pos = (f"{base} + " if base else "") + (f"({i})" if st == 1 else f"{st} * ({i})")
            return t.fns, val, pos
        head = f"// ------------------------ \n// Section: Tensor Computation\n// Inputs: fw{nfw}\n// Outputs: A\n"
        if not args:
            return head + f"{{\n  A[0] += fw{nfw};\n}}\n// ------------------------ \n"
        n0, v0, p0 = arg(args[0], "i")
        if len(args) == 1:
            return head + f"{{\n  for (int i = 0; i < {n0}; ++i)\n  {{\n    A[{p0}] += fw{nfw} * {v0};\n  }}\n}}\n// ------------------------ \n"
        n1, v1, p1 = arg(args[1], "j")
        if s.coin():
            return head + (f"{{\n  {T} temp_{ntemp}[{n1}] = {{0}};\n  for (int j = 0; j < {n1}; ++j)\n  {{\n    temp_{ntemp}[j] = fw{nfw} * {v1};\n  }}\n"
                           f"  for (int j = 0; j < {n1}; ++j)\n  {{\n    for (int i = 0; i < {n0}; ++i)\n    {{\n      A[{sizes[1]} * ({p0}) + ({p1})] += {v0} * temp_{ntemp}[j];\n    }}\n  }}\n}}\n// ------------------------ \n")
        return head + f"{{\n  for (int i = 0; i < {n0}; ++i)\n  {{\n    for (int j = 0; j < {n1}; ++j)\n    {{\n      A[{sizes[1]} * ({p0}) + ({p1})] += fw{nfw} * {v0} * {v1};\n    }}\n  }}\n}}\n// ------------------------ \n"
    # -- reference value
    def shape(self):
        return tuple(el.dim * self.sides for el in self.form.args)
    def expected(self, data, quads, absolute=False):
        """Sum over the given points. quads: rule name -> (points of each side, weights, normals)."""
        form = self.form
        ab = np.abs if absolute else (lambda x: x)
        A = np.zeros(self.shape(), dtype=np.complex128)
        xyz = ab(data.coords.astype(np.float64).reshape(self.sides, form.nnodes, 3))
        for r in self.rules:
            if r.name not in quads:
                continue
            X, W, N, S = quads[r.name]
            for c, fs in self.terms[r.name]:
                val = ab(np.array(W, dtype=np.complex128)) * ab(c)
                argv = []
                for f in fs:
                    if f[0] == "c":
                        val = val * ab(data.c[form.cpos[f[1]]])
                    elif f[0] == "n":
                        val = val * ab(N[:, f[1]])
                    elif f[0] == "fj":
                        val = val * ab(self.fj[data.facets[0], f[1], f[2]])
                    else:
                        _, k, el, fc, der, side = f
                        tab = ab(comp_tab(el, fc, der, X[side] if cellname(el) == self.cell else S))
                        if absolute:  # The rounding of a table is relative to the whole function.
                            tab = tab + np.abs(comp_tab(el, fc, der, basix.geometry(el.cell_type))).max(initial=0) * (1 if form.Rd == np.float64 else 4 ** sum(der))
                        o, st = offset_stride(el, fc)
                        if f[0] == "arg":
                            full = np.zeros((len(W), el.dim * self.sides))
                            full[:, side * el.dim + o + st * np.arange(tab.shape[1])] = tab
                            argv.append(full)
                        elif f[0] == "w":
                            base = form.woff[k] * self.sides + side * el.dim + o
                            val = val * (tab @ ab(data.w[base + st * np.arange(tab.shape[1])].astype(np.complex128)))
                        else:
                            val = val * (tab @ xyz[side][:, fc])
                if not argv:
                    A += val.sum()
                elif len(argv) == 1:
                    A += val @ argv[0]
                else:
                    A += np.einsum("p,pi,pj->ij", val, *argv)
        return A
class FormSpec:
    def __init__(self, s, small=False, itype=None):
        self.s, self.itype = s, itype
        self.cell = s.pick(["quadrilateral", "quadrilateral", "triangle", "hexahedron", "tetrahedron"])
        self.cell_key = bcell(self.cell)
        tdim = env.cells[self.cell]
        self.domain = UflDomain(self.cell)
        self.T = s.pick(["double", "double", "float", "double _Complex", "float _Complex"])
        self.Sd, self.Rd, self.sfx = SCALARS[self.T]
        self.R = "double" if self.Rd == np.float64 else "float"
        deg = 2 if s.chance(1, 8) else 1
        dtype = self.Rd if s.coin() else np.float64
        self.coord = basix.ufl.element("Lagrange", self.cell, deg, shape=(tdim,), dtype=dtype)
        self.dtype = dtype
        self.nnodes = self.coord.dim // tdim
        self.mixed = self.itype is None and s.chance(1, 9)
        if self.mixed:
            self.itype = "exterior_facet"
        pick = lambda: pick_facet_element(s, FACETS[self.cell], dtype) if self.mixed and s.coin() else pick_element(s, self.cell, dtype)
        self.args = [pick() for _ in range(s.pick([1, 0, 2]))]
        if len(self.args) == 2 and s.coin():
            self.args[1] = self.args[0]
        self.coefs = [s.pick(self.args) if self.args and s.chance(1, 4) else pick() for _ in range(s.pick([0, 1, 2]))]
        self.woff = np.cumsum([0] + [e.dim for e in self.coefs]).tolist()
        if any(np.prod([e.dim for e in self.args]) * 4 > 12000 for _ in (0,)):
            raise Discard
        self.consts = [(s.i(1, 3) if s.chance(5, 6) else s.i(7, 12)) for _ in range(s.pick([0, 1, 2]))]
        self.const_objects, self.cpos, pos = {}, [], 0
        where = s.raw(len(self.consts))
        self.npos = None
        for k in range(len(self.consts) + 1):
            if k == where:
                o = ParamNormal.__new__(ParamNormal)
                self.const_objects[o] = pos
                self.npos = pos
                pos += tdim
            if k < len(self.consts):
                self.const_objects[type("Const", (), {})()] = pos
                self.cpos += range(pos, pos + self.consts[k])
                pos += self.consts[k]
        self.nconst = pos
        self.integrals = [Integral(s, self, k) for k in range(1 if s.chance(2, 3) else 2)]
        if len({i.hash for i in self.integrals}) < len(self.integrals):
            raise Discard
        self.build_ir()
        s.note("cell", self.cell)
        s.note("type", self.T)
        for i in self.integrals:
            s.note("integral", (i.itype, [(r.name, len(r.w), r.unf) for r in i.rules], i.emitted))
    def build_ir(self):
        s = self.s
        names, ids, datas = {}, {}, []
        for i in self.integrals:
            for k in i.ids:
                names.setdefault(i.itype, []).append(i.name)
                ids.setdefault(i.itype, []).append(k)
        for i in self.integrals:
            itgs = []
            for r in i.rules:
                # Integrands of the same rule come with the degrees they ask for.
                metas = [r.meta]
                if r.unf and s.coin():
                    metas.append({**r.meta, "quadrature_degree": s.i(0, 9)})
                elif not r.unf:
                    for d in (r.degree - 1, r.degree + 1):
                        if d >= 0 and s.coin():
                            _, p, w = rule_points(i.itype, self.cell, d, r.meta["quadrature_rule"])
                            if p.shape == r.p.shape and np.array_equal(p, r.p):
                                metas.append({**r.meta, "quadrature_degree": d})
                metas = s.shuffled(metas)
                r.max_degree = max(m["quadrature_degree"] for m in metas)
                itgs += [types.SimpleNamespace(metadata=lambda m=m: m, integral_type=lambda t=i.itype: t, ufl_domain=lambda: self.domain) for m in metas]
            datas.append(types.SimpleNamespace(integrals=s.shuffled(itgs)))
        # A rule shared by several integrals of the form has one entry.
        self.degrees = {}
        for i in self.integrals:
            for r in i.rules:
                self.degrees[r.name] = max(self.degrees.get(r.name, -1), r.max_degree)
        self.ufl_data = types.SimpleNamespace(form_data=[types.SimpleNamespace(integral_data=datas, argument_elements=self.args)])
        self.ir = types.SimpleNamespace(forms=[types.SimpleNamespace(integral_names=names, subdomain_ids=ids)], integrals=[i.ir for i in self.integrals],
                                        header="// Generated\n\n#include <ufcx.h>\n#include <math.h>\n", codes=[("integral_" + i.full, i.code) for i in self.integrals])
    options = {"sum_factorization": False, "scalar_type": "float64"}

# ---------------------------------------------------------------- data of a kernel call
class Data:
    """Coefficients, constants, coordinates, facets and permutations."""
    def __init__(self, s, itg):
        form = itg.form
        num = lambda n: np.array([s.unit() * 2 - 1 for _ in range(n)], dtype=np.float64)
        cplx = "omplex" in form.T
        def scal(n):
            v = num(n)
            return (v + 1j * num(n) if cplx else v).astype(form.Sd)
        self.w = scal(form.woff[-1] * itg.sides)
        self.c = scal(form.nconst)
        self.coords = num(3 * form.nnodes * itg.sides).astype(form.Rd)
        nf = NFACETS[form.cell]
        self.facets = np.array([s.raw(nf - 1), s.raw(nf - 1)], dtype=np.int32)
        self.perms = np.array([s.raw(NPERM[form.cell] - 1), s.raw(NPERM[form.cell] - 1)], dtype=np.uint8)
        self.A0 = scal(int(np.prod(itg.shape(), dtype=int)))
def call(lib, name, itg, data, w, A=None):
    """Runs a kernel. Facet and permutation arrays are as long as the integral type promises."""
    p = lambda a: ctypes.c_void_p(a.ctypes.data)
    A = np.concatenate([data.A0 if A is None else A, np.full(4, 77.0, dtype=data.A0.dtype)])
    fac = (ctypes.c_int * 2)(*([int(data.facets[k]) for k in range(itg.sides)] + [9999] * (2 - itg.sides) if itg.itype != "cell" else [9999] * 2))
    per = (ctypes.c_uint8 * 2)(*([int(q) for q in data.perms] if itg.itype == "interior_facet" else [int(data.perms[0]), 255] if itg.form.mixed else [255, 255]))
    f = getattr(lib, name)
    f.restype = None
    c = np.concatenate([data.c, np.full(2, np.nan, dtype=data.c.dtype)])
    f(p(A), p(w), p(c), p(data.coords), fac, per, None)
    require(np.all(A[-4:] == 77.0), "kernel writes past the element tensor", name)
    return A[:-4]
def pack(itg, data, itg_data, quads, mode, gap=0):
    """The coefficient array of an entity as the packer lays it out: coefficients, offset, then the custom values."""
    form = itg.form
    real = form.Rd
    per = np.dtype(form.Sd).itemsize
    slots = -(-8 // per)
    head = np.concatenate([data.w, np.zeros(slots, dtype=form.Sd)])
    extra = []
    if mode == "custom":
        for qd in itg_data.quad_data_FE_tables:
            X, W, N, S = quads[qd.name]
            extra.append([len(W)])
            extra += [np.ravel(X[k]) for k in range(itg.sides)]
            if itg.mixed:
                extra.append(np.ravel(S))
            extra.append(W)
            if qd.unfitted_boundary:
                extra.append(np.ravel(N))
    ratio = per // np.dtype(real).itemsize
    off = {"full": -1, "empty": 0, "custom": (len(head) + gap) * ratio}[mode]
    view = head.view(np.uint8)
    view[len(data.w) * per:len(data.w) * per + 8] = np.frombuffer(np.int64(off).tobytes(), dtype=np.uint8)
    tail = np.concatenate([np.asarray(e, dtype=real).ravel() for e in extra]) if extra else np.empty(0, dtype=real)
    out = np.concatenate([head.view(real), np.full(gap * ratio, np.nan, dtype=real), tail, np.full(16, np.nan, dtype=real)])
    return out
def custom_points(s, itg, data, r, n):
    """Points of each side, weights and normals, with values the scalar type represents."""
    form = itg.form
    rd = lambda a: np.asarray(a, dtype=form.Rd).astype(np.float64)
    S = None
    if itg.itype == "cell":
        X = [rd([[s.unit() for _ in range(itg.tdim)] for _ in range(n)]).reshape(n, itg.tdim)]
        if form.cell in ("triangle", "tetrahedron"):
            X[0] = rd(X[0] / itg.tdim)
    else:
        X = []
        for k in range(itg.sides):
            S = rd(np.array([[s.unit() / (itg.tdim - 1) for _ in range(itg.tdim - 1)] for _ in range(n)]).reshape(n, itg.tdim - 1))
            X.append(rd(facet_map(form.cell, int(data.facets[k]), S)))
    W = rd([s.unit() + 0.1 for _ in range(n)])
    N = rd([[s.unit() * 2 - 1 for _ in range(itg.tdim)] for _ in range(n)]).reshape(n, itg.tdim)
    return X, W, N, S
def tolerance(form):
    return 3e-5 if form.Rd == np.float32 else 2e-12
def compare(itg, got, data, want, mag, sig, *msg):
    got = (got.astype(np.complex128) - data.A0).reshape(itg.shape())
    tol = tolerance(itg.form) * (1 + np.abs(mag) + np.abs(data.A0.astype(np.complex128)).max(initial=0)) * 20
    bad = ~(np.abs(got - want) <= tol)
    require(not bad.any(), sig, itg.itype, [(r.name, len(r.w), r.unf) for r in itg.rules], *msg, "at", np.argwhere(bad)[:3].tolist(), "got", got[bad][:3], "expected", want[bad][:3])
def refused(form):
    """Whether some function that varies belongs to an element that the run-time library cannot make."""
    return any(not can_recreate(i.tables[n].mte.element, i.tables[n].mte.fc) and not np.allclose(i.tables[n].true, i.tables[n].true[:1], rtol=1e-6, atol=1e-9) for i in form.integrals for n in i.used)
def generate(form):
    if refused(form):
        try:
            cgm.generate_code(form.ufl_data, form.ir, dict(form.options))
        except ValueError:
            form.s.count("refused element")
            raise Discard
        raise Fail("element that cannot be recreated accepted", str([str(e) for e in form.args + form.coefs]))
    blocks, datas = cgm.generate_code(form.ufl_data, form.ir, dict(form.options))
    require(blocks.file_pre[0][0] == "// declarations of the file" and list(blocks[2:]) == [["forms"], ["expressions"], [("// end", "// end of the code")]], "blocks of code that need no change", blocks.file_pre[0][0], list(blocks[2:]))
    require([h for h, _ in blocks.integrals] == [f"extern ufcx_integral {n};" for n, _ in form.ir.codes], "declarations of the integrals", [h for h, _ in blocks.integrals])
    code = blocks.file_pre[0][1] + "".join(c for _, c in blocks.integrals)
    return code, datas, blocks
def feature(s, form):
    s.nontrivial()
    for i in form.integrals:
        s.count(i.itype + (" with elements of the facets" if i.mixed else ""))
        s.count(f"{len(i.rules)} rules")
        if any(r.unf for r in i.rules):
            s.count("unfitted boundary rule")
        if any(len(r.w) == 1 for r in i.rules):
            s.count("one-point rule")

@prop("K01", 700, 12000, case_seconds=60)
def k01(s):
    form = FormSpec(s)
    # Parsing and reassembling is the identity, and derived bodies leave the original alone.
    quads = extract_quadrature_data(form.ufl_data, form.options)
    for i in form.integrals:
        d = extract_integral_data(form.ufl_data, form.ir, i.ir, form.options, i.code)
        kb = KernelBody.from_ffcx(i.code, i.ir, d)
        text = kb.before_func + kb.render() + kb.after_func
        norm = lambda t: "".join(t.split())
        require(norm(text) == norm(i.code), "reassembled kernel differs from the original", i.code, "--- got ---", text)
        require(norm(kb.render_body()) == norm(i.body), "reassembled body differs from the original")
        require([l.quad_name for l in kb.loops] == [r.name for r in i.rules], "loop assigned to another quadrature", [l.quad_name for l in kb.loops], [r.name for r in i.rules])
        snapshot = kb.render()
        c = kb.copy()
        for step, args in (("erase_static_declarations", ()), ("rewrite_table_accesses", ()), ("dynamic_loop_bounds", ()), ("inline_pre_loop_into_loops", ()), ("break_unfitted_loops", ()), ("substitute_normals", ([form.npos],))):
            if (s.chance(5, 6) or step in ("erase_static_declarations", "rewrite_table_accesses")) and hasattr(c, step):
                getattr(c, step)(*args)
        require(kb.render() == snapshot, "transforming a copy changes the original body")
        require(kb.render("_x").replace(i.full + "_x", i.full, 1) == snapshot, "suffix changes more than the name")
    code, datas, blocks = generate(form)
    lib = Compiled(code + "\n" + "".join(i.plain for i in form.integrals))
    try:
        for i, d in zip(form.integrals, datas):
            data = Data(s, i)
            # The kernel's own points given as custom points: the same element tensor.
            if i.itype != "cell":
                quads = {r.name: ([r.entity_points(int(data.facets[k]), int(data.perms[k]) if i.sides > 1 or form.mixed else 0) for k in range(i.sides)], r.w, np.zeros((len(r.w), i.tdim)), r.p) for r in i.rules}
            else:
                quads = {r.name: ([r.p], r.w, np.tile(data.c[form.npos:form.npos + i.tdim].real.astype(np.float64), (len(r.w), 1)), None) for r in i.rules}
            if "omplex" in form.T:
                data.c = data.c.real.astype(form.Sd)
            w = pack(i, data, d, quads, "custom", s.raw(3))
            plain = call(lib.lib, "plain_" + i.full, i, data, np.concatenate([data.w, np.full(2, np.nan, dtype=form.Sd)]))
            got = call(lib.lib, "tabulate_tensor_integral_" + i.full, i, data, w)
            mag = i.expected(data, quads, True)
            compare(i, plain, data, i.expected(data, quads), mag, "harness: plain kernel")
            compare(i, got, data, (plain.astype(np.complex128) - data.A0).reshape(i.shape()), mag, "custom kernel differs from the original at the standard points")
    finally:
        lib.close()
    feature(s, form)

@prop("K02", 900, 16000, case_seconds=60)
def k02(s):
    form = FormSpec(s)
    code, datas, blocks = generate(form)
    lib = Compiled(code + "\n" + "".join(i.plain for i in form.integrals))
    try:
        calls = []
        for i, d in zip(form.integrals, datas):
            for _ in range(3):
                calls.append((i, d))
        for i, d in s.shuffled(calls):
            data = Data(s, i)
            name = "tabulate_tensor_integral_" + i.full
            mode = s.pick(["custom", "custom", "custom", "full", "empty"])
            quads = {r.name: custom_points(s, i, data, r, s.pick([3, 1, 0, 5, 12])) for r in i.rules}
            got = call(lib.lib, name, i, data, pack(i, data, d, quads, mode, s.raw(3)))
            require(getattr(Runtime.krt, f"krt_check_{form.sfx}")() == 0, "kernel overruns its scratch memory", i.itype, [(r.name, len(r.w)) for r in i.rules])
            if mode == "empty":
                require(np.array_equal(got, data.A0), "empty entity contributes", i.itype)
            elif mode == "full":
                std = {r.name: ([r.entity_points(int(data.facets[k]), int(data.perms[k]) if i.sides > 1 or form.mixed else 0) for k in range(i.sides)], r.w, np.zeros((len(r.w), i.tdim)), r.p)
                       for r in i.rules if not r.unf}
                compare(i, got, data, i.expected(data, std), i.expected(data, std, True), "full entity differs from the standard integral")
                if not any(r.unf for r in i.rules):
                    plain = call(lib.lib, "plain_" + i.full, i, data, np.concatenate([data.w, np.full(2, np.nan, dtype=form.Sd)]))
                    require(np.array_equal(plain, got), "full entity differs from the unmodified kernel", i.itype)
            else:
                s.count("points", sum(len(q[1]) for q in quads.values()))
                compare(i, got, data, i.expected(data, quads), i.expected(data, quads, True), "custom integral", "points", {k: len(q[1]) for k, q in quads.items()})
            s.count(mode)
    finally:
        lib.close()
    feature(s, form)

DECLARATION = r"static\s+const\s+(\w[^\n=;]*?)\s+FE(\d+)_C(\d+)(\w*)_Q(\w+)(?:\s*\[\d+\])+\s*=\s*{[^;]*}\s*;"
def renumbered(s, i):
    """Declarations of the tables, sorted by name as the form compiler writes them, and their terminals, with other numbers of elements."""
    decl = {t: c.group(0) for c in re.finditer(DECLARATION, i.code) for t in [f"FE{c.group(2)}_C{c.group(3)}{c.group(4)}_Q{c.group(5)}"]}
    elements = {t: [str(o.mte.element) for o in i.els.values() if o.name == t] for t in decl}
    els = sorted({e for es in elements.values() for e in es})
    rank = {e: k for k, e in enumerate(s.shuffled(els) if s else els)}
    new = {}
    for r in i.rules:
        here = [t for t in decl if t.endswith("_Q" + r.name)]
        ids = sorted({int(re.match(r"FE(\d+)", t).group(1)) for t in here}, key=lambda k: min(rank[elements[t][0]] for t in here if t.startswith(f"FE{k}_")))
        for t in here:
            new[t] = f"FE{ids.index(int(re.match(r'FE(\d+)', t).group(1)))}" + t[t.index("_"):]
    code = "\n".join(decl[t].replace(t, new[t], 1) for t in sorted(decl, key=new.get))
    nodes = lambda ns: types.SimpleNamespace(nodes={k: {**n, "tr": n.get("tr") and types.SimpleNamespace(name=new.get(n["tr"].name, "no " + n["tr"].name))} for k, n in ns.items()})
    e = types.SimpleNamespace(**vars(i.ir.expression))
    e.integrand = {k: {"factorization": nodes(v["factorization"].nodes)} for k, v in e.integrand.items()}
    e.unique_table_types = {k: {new[t]: y for t, y in v.items()} for k, v in e.unique_table_types.items()}
    return code, types.SimpleNamespace(expression=e)

@prop("K03", 3000, 40000, case_seconds=30)
def k03(s):
    form = FormSpec(s)
    ftol = 1e-9 if form.dtype == np.float64 else 1e-3
    all_quads = extract_quadrature_data(form.ufl_data, form.options)
    names = {r.name: r for i in form.integrals for r in i.rules}
    require(set(all_quads) == set(names), "quadratures of the form", sorted(all_quads), sorted(names))
    for n, r in names.items():
        q = all_quads[n]
        require(q.name == n and q.degree == form.degrees[n], "degree of a quadrature is not the highest requested", n, q.degree, form.degrees[n])
        require(bool(q.unfitted_boundary) == r.unf and np.array_equal(q.rule.points, r.p), "quadrature data", n)
    for i in form.integrals:
        d = extract_integral_data(form.ufl_data, form.ir, i.ir, form.options, i.code)
        require(d.name == i.hash and sorted(d.subdomain_ids) == sorted(i.ids) and d.integral_type == i.itype and d.tdim == i.tdim and d.is_mixed_dim == i.mixed, "integral data", d.name, d.subdomain_ids,
                d.integral_type, d.tdim, d.is_mixed_dim)
        require(d.dtype == form.Rd, "scalar type of the tables", d.dtype)
        require(sorted(q.name for q in d.quad_data_FE_tables) == sorted(r.name for r in i.rules), "quadratures of the integral", [q.name for q in d.quad_data_FE_tables], [r.name for r in i.rules])
        seen = []
        for q, tables in d.quad_data_FE_tables.items():
            for t in tables:
                seen.append(t.name)
                require(t.name in i.used, "unknown table", t.name)
                o = i.tables[t.name]
                require(t.quad_name == q.name == o.rule.name, "table assigned to another quadrature", t.name, t.quad_name, q.name)
                require((t.permutations, t.entities, t.points, t.funcs) == o.arr.shape and t.dtype == form.Rd, "table dimensions", t.name, o.arr.shape)
                require(t.integral_type == i.itype and t.entity == ("cell" if i.itype == "cell" else "facet") and t.avg is None, "table kind", t.name)
                X = generic_points(cellname(o.mte.element))
                require(same_function(comp_tab(t.element, t.component, tuple(t.derivatives), X), o.true, ftol), "element, component or derivative of a table", t.name, str(t.element), t.component, t.derivatives)
                if not can_recreate(t.element, t.component):
                    continue
                codegen_info = getattr(getattr(cgm, "_IntegralModifier", None), "_table_codegen_info", None)
                if codegen_info is None:
                    s.count("no table parameters")
                    continue
                info = codegen_info(t)
                p = info["params"]
                be = basix.create_element(basix.ElementFamily(p[0]), basix.CellType(p[1]), p[2], basix.LagrangeVariant(p[3]), basix.DPCVariant(p[4]), bool(p[5]), dtype=form.dtype)
                tab = be.tabulate(info["maxnd"], X)
                require(tab.shape[2:] == (info["ndofs"], info["vs"]) and info["gdim"] == X.shape[1], "shape of the recomputed table", t.name, tab.shape, info)
                require(same_function(tab[info["didx"], :, :, info["vaxis"]], o.true, ftol), "recomputed table", t.name, info)
                const = np.allclose(o.true, o.true[:1], atol=ftol)
                require(not t.is_constant_for_pts() or const or (i.itype != "cell" and o.is_piecewise), "table that varies treated as constant", t.name, o.ttype)
                s.count("table")
        require(sorted(seen) == sorted(i.used), "tables lost or duplicated", sorted(seen), sorted(i.used))
        # Another session, in which the form compiler numbers the elements in another way: what a compiled kernel found on disk
        # reads has to be given in the same order.
        extract = getattr(fe_table, "extract_FE_tables", None)
        if extract is None:
            continue
        first, second = (extract(*renumbered(s if k else None, i), all_quads, i.tdim) for k in (0, 1))
        order = lambda ts: [(t.quad_name, str(t.element), t.component, t.derivatives) for t in ts]
        require(order(first) == order(second), "the order of the tables depends on the numbers of the elements", order(first), order(second))
    feature(s, form)
main()
