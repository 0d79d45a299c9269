"""J01, A01: just-in-time compilation of custom forms through any history of a cache, and the repaired scalar assembly."""
import contextlib, hashlib, io, json, logging, os, pathlib, shutil, sys, sysconfig, tempfile, types
import env
import numpy as np
from pbt import Discard, main, prop, require

class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)
# ---------------------------------------------------------------- FFCx, CFFI
class Form:
    """A form: equal signatures stand for the same code, whatever the coefficients behind them."""
    count = 0
    def __init__(self, sig):
        Form.count += 1
        self.sig, self.uid = sig, Form.count
ufl = env.mod("ufl")
ufl.Form = Form
ufl.form.Form = Form
DEFAULTS = {"scalar_type": "float64", "sum_factorization": False, "table_rtol": 1e-6, "verbosity": 30, "epsilon": 1e-14}
opts = env.mod("ffcx.options")
opts.get_options = lambda o=None: {**DEFAULTS, **(o or {})}
naming = env.mod("ffcx.naming")
digest = lambda *a: hashlib.sha1(repr(a).encode()).hexdigest()
naming.compute_signature = lambda objs, tag: digest([o.sig for o in objs], tag)
naming.form_name = lambda form, i, prefix: "form_" + digest(prefix, i)
ffcx = env.mod("ffcx")
ffcx.options, ffcx.naming = opts, naming
cj = env.mod("ffcx.codegeneration.jit")
cj.UFC_HEADER_DECL, cj.UFC_INTEGRAL_DECL, cj.UFC_FORM_DECL = "scalar {};\n", "integral;\n", "form;\n"
cj._compilation_signature = lambda args, debug: str(args) + str(debug)
cj._compute_option_signature = lambda o: str(sorted(o.items()))
cj.logger, cj.root_logger = logging.getLogger("verif.ffcx"), logging.getLogger("verif.root")
cj.root_logger.propagate = cj.logger.propagate = False
cj.logger.setLevel(logging.CRITICAL)
env.mod("ffcx.codegeneration.C.file_template").libraries = ["m"]
env.mod("ffcx.codegeneration").get_include_path = lambda: "/include/of/ffcx"
def load(cache_dir, module_name, names):
    d = json.loads((pathlib.Path(cache_dir) / (module_name + ".so")).read_text())
    m = Obj(path=str(cache_dir), name=module_name, **d)
    for n in names:
        if f"ufcx_form {n};" not in m.code:
            raise AttributeError(n)
    return [Obj(name=n, module=m) for n in names], m
def get_cached_module(module_name, object_names, cache_dir, timeout):
    cache_dir = pathlib.Path(cache_dir)
    c = cache_dir / (module_name + ".c")
    cache_dir.mkdir(exist_ok=True, parents=True)
    try:
        with open(c, "x"):
            return None, None
    except FileExistsError:
        if not c.with_suffix(".c.cached").exists():
            raise TimeoutError(f"JIT compilation timed out, probably due to a failed previous compile. Try cleaning cache (e.g. remove {c}) or increase timeout option.")
        return load(cache_dir, module_name, object_names)
cj.get_cached_module, cj._load_objects = get_cached_module, lambda cache_dir, module_name, names: load(cache_dir, module_name, names)
class Boom(Exception):
    pass
class State:
    fail, builds, generated = None, [], []
def fail_at(stage):
    if State.fail == stage:
        raise Boom(stage)
class FFI:
    def __init__(self):
        self.decl = ""
    def set_source(self, name, source, **k):
        self.name, self.source, self.k = name, source, k
    def cdef(self, decl, **k):
        self.decl += decl
    def compile(self, tmpdir=".", verbose=0, target=None, debug=None):
        tmpdir = pathlib.Path(tmpdir)
        (tmpdir / (self.name + ".c")).write_text(self.source)
        State.builds.append(Obj(name=self.name, code=self.source, decl=self.decl, debug=debug, ldshared=os.environ.get("LDSHARED"), **self.k))
        if verbose:
            print("output of the compiler of", self.name)
        fail_at("compile")
        (tmpdir / (self.name + ".so")).write_text(json.dumps({"code": self.source, "decl": self.decl, "args": self.k.get("extra_compile_args")}))
        return str(tmpdir / (self.name + ".so"))
env.mod("cffi").FFI = FFI
dj = env.mod("dolfinx.jit")
JIT = {"cache_dir": None, "cffi_debug": False, "cffi_extra_compile_args": ["-g0", "-O3"], "cffi_verbose": False, "cffi_libraries": [], "timeout": 10}
dj.get_options = lambda o=None: {**{k: list(v) if isinstance(v, list) else v for k, v in JIT.items()}, **(o or {})}
def mpi_jit_decorator(f, *a, **k):
    def wrapper(comm, *args, **kwargs):
        return f(*args, **kwargs)
    return wrapper
dj.mpi_jit_decorator = mpi_jit_decorator
# The stages of the compiler.
def analyze(objs, scalar_type):
    fail_at("analysis")
    return Obj(forms=list(objs), scalar=scalar_type)
def compute_ir(analysis, names, prefix, options, visualise):
    fail_at("ir")
    State.asked = (names, prefix, visualise)
    return Obj(analysis=analysis, prefix=prefix, names=[naming.form_name(f, i, prefix) for i, f in enumerate(analysis.forms)], options={k: v for k, v in options.items() if k != "custom"}, vis=visualise)
def generate(analysis, ir, options):
    fail_at("code")
    require(ir.analysis is analysis, "stages of another compilation combined")
    State.generated.append([f.uid for f in analysis.forms])
    return ("code", ir, {k: v for k, v in options.items() if k != "custom"}), [("integrals of", f.uid) for f in analysis.forms]
def body(sigs, names, scalar, options):
    return "\n".join([f"ufcx_form {n}; // {s}" for n, s in zip(names, sigs)] + [f"// {scalar} {sorted((k, str(v)) for k, v in options.items())}"])
def fmt(code):
    _, ir, options = code
    require(options == ir.options, "options of the stages", options, ir.options)
    return "header", body([f.sig for f in ir.analysis.forms], ir.names, ir.analysis.scalar, options)
env.mod("ffcx.analysis").analyze_ufl_objects = analyze
env.mod("ffcx.ir.representation").compute_ir = compute_ir
env.mod("ffcx.formatting").format_code = fmt
cg = types.ModuleType("qugar.dolfinx.codegeneration")
cg.generate_code = generate
sys.modules["qugar.dolfinx.codegeneration"] = env.qugar.dolfinx.codegeneration = cg
sh = types.ModuleType("qugar.dolfinx._shim")
SHIM = [pathlib.Path("/dir/of/the/shim"), "name_of_the_shim"]
sh.ensure_built = lambda: tuple(SHIM)
sh.LIB_NAME = SHIM[1]
sys.modules["qugar.dolfinx._shim"] = env.qugar.dolfinx._shim = sh
LD = [""]
_get = sysconfig.get_config_var
sysconfig.get_config_var = lambda n: LD[0] if n == "LDSHARED" else _get(n)
import qugar.dolfinx.jit as J
import qugar.dolfinx.compiler as CU

# ---------------------------------------------------------------- J01
TOKENS = ["gcc", "-shared", "-Wl,-rpath,/p/lib", "-L/p/lib", "-Wl,-O1", "-pthread", "-B", "/p/compat"]
@prop("J01", 4000, 60000, 30)
def j01(s):
    root = pathlib.Path(tempfile.mkdtemp(prefix="verif-j01-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None))
    tempfile.tempdir = str(root)  # where compilations without a cache go
    stdout, saved = sys.stdout, os.environ.get("LDSHARED")
    try:
        history(s, root)
    finally:
        sys.stdout, tempfile.tempdir = stdout, None
        shutil.rmtree(root, ignore_errors=True)
        os.environ.pop("LDSHARED", None)
        if saved is not None:
            os.environ["LDSHARED"] = saved
def plain_name(forms, o, args, debug):
    """The module FFCx itself would use for the same forms."""
    return "libffcx_forms_" + naming.compute_signature(forms, cj._compute_option_signature(o) + cj._compilation_signature(args, debug))
def request(s, root):
    o = {}
    if s.coin():
        o["scalar_type"] = s.pick([np.float64, np.float32, np.complex128])
    if s.coin():
        o["sum_factorization"] = s.coin()
    if s.chance(1, 3):
        o["table_rtol"] = s.pick([1e-6, 1e-9])
    return {"sigs": [s.raw(2)] if s.chance(3, 4) else [s.raw(2) for _ in range(s.i(1, 3))], "o": o, "args": s.pick([["-g0", "-O3"], ["-O2"], ["-O2", "-march=native"], []]),
            "debug": s.chance(1, 4), "cache": s.pick([root / "a", root / "a", root / "b"])}
def history(s, root):
    past = []
    State.builds, State.generated, State.fail = [], [], None
    libs = s.pick([[], [], ["user"], ["u1", "u2"]])
    known = {}  # (cache, signatures, options, arguments, debug) -> (module name, code)
    names = {}
    n = s.i(1, 14)
    hits = fails = 0
    handlers = [logging.NullHandler() for _ in range(s.i(0, 2))]
    for step in range(n):
        if past and s.chance(2, 3):
            # A request again, as it is or with one change.
            q = dict(s.pick(past))
            f = s.pick([None, None, "sigs", "o", "args", "debug", "cache"])
            if f:
                q[f] = request(s, root)[f]
        else:
            q = request(s, root)
        past.append(q)
        sigs, o, args, debug, cache = q["sigs"], dict(q["o"]), q["args"], q["debug"], q["cache"]
        forms = [Form(k) for k in sigs]
        verbose = s.chance(1, 4)
        if s.chance(1, 3):
            cache = str(cache)
        none = s.chance(1, 10)
        jo = {"cache_dir": None if none else cache, "cffi_extra_compile_args": list(args), "cffi_debug": debug, "cffi_verbose": verbose, "cffi_libraries": list(libs)}
        if args == JIT["cffi_extra_compile_args"] and s.coin():
            del jo["cffi_extra_compile_args"]
        raw = [s.pick(TOKENS) for _ in range(s.i(0, 9))]
        LD[0] = (" " if s.coin() else "  ").join(raw) if raw or s.coin() else None
        if s.chance(1, 3):
            os.environ["LDSHARED"] = "ld of the user"
        else:
            os.environ.pop("LDSHARED", None)
        before = os.environ.get("LDSHARED")
        cj.root_logger.handlers = list(handlers)
        full = opts.get_options(o)
        if s.chance(1, 6) and not none:
            # FFCx compiles the same forms, without quadratures at run time, to the same directory.
            d = pathlib.Path(cache)
            d.mkdir(exist_ok=True, parents=True)
            nm = plain_name(forms, full, args, debug)
            (d / (nm + ".c")).write_text("of FFCx")
            (d / (nm + ".c.cached")).write_text("")
            (d / (nm + ".so")).write_text(json.dumps({"code": "\n".join(f"ufcx_form {naming.form_name(f, i, nm)};" for i, f in enumerate(forms)), "decl": "", "args": []}))
            s.count("module of FFCx in the cache")
        State.fail = s.pick(["analysis", "ir", "code", "compile"]) if s.chance(1, 5) else None
        single = len(forms) == 1 and s.chance(4, 5)
        key = (str(cache), tuple(sigs), str(sorted((k, str(v)) for k, v in full.items())), tuple(args), debug)
        s.note(f"step {step}", f"forms {sigs} options {o} args {args} debug {debug} cache {None if none else str(cache)[-1]} fail {State.fail} LDSHARED {LD[0]!r} env {before!r}")
        nb = len(State.builds)
        oin, jin = dict(o), json.loads(json.dumps(jo, default=str))
        out = io.StringIO()
        err = None
        expect_compile = none or key not in known
        try:
            with contextlib.redirect_stdout(out):
                if single:
                    itg, obj, module, code = J.ffcx_jit(env.Comm(), forms[0], form_compiler_options=o if o or s.coin() else None, jit_options=jo)
                    objs, itgs = [obj], itg
                else:
                    objs, module, code, itgs = J.compile_forms(forms, options=o, **dj.get_options(jo))
        except Boom as e:
            err = e
        require(os.environ.get("LDSHARED") == before, "LDSHARED after a compilation", os.environ.get("LDSHARED"), before)
        require(cj.root_logger.handlers == handlers, "log handlers after a compilation", "failed" if err else "succeeded")
        require(o == oin and json.loads(json.dumps(jo, default=str)) == jin, "options of the caller modified", o, jo)
        if State.fail is not None and (expect_compile or State.fail != "compile"):
            require(err is not None and str(err) == State.fail, "an error of the compilation is reported", State.fail, err)
            fails += 1
            continue
        require(err is None, "an error is raised", err)
        new = State.builds[nb:]
        require(len(new) == (1 if expect_compile else 0), "compilations of a form", len(new), "expected", int(expect_compile), "known" if key in known else "")
        hits += not expect_compile
        require(list(itgs) == [("integrals of", f.uid) for f in forms], "integral data of another form", list(itgs), [f.uid for f in forms])
        require(module.path == str(cache) or none, "directory of the module", module.path)
        want = body(sigs, [x.name for x in objs], full["scalar_type"], full)
        require(module.code == want, "module of another form or other options", module.code, "expected", want)
        require(code[1] == module.code, "code of the form", code[1], module.code)
        require([x.name for x in objs] == [naming.form_name(f, i, module.name) for i, f in enumerate(forms)], "compiled forms", [x.name for x in objs])
        require(all(x.module is module for x in objs), "compiled forms of another module")
        require(module.name != plain_name(forms, full, args, debug), "the module has the name of the one of FFCx")
        if not none:
            require(key not in known or known[key] == module.name, "name of the module of the same form", module.name)
            require(names.setdefault((key[0], module.name), key) == key, "one module for two forms", names[(key[0], module.name)], key)
            known[key] = module.name
        if new:
            b = new[0]
            require(b.name == module.name and b.debug == debug, "compiled module", b.name, b.debug)
            require(b.decl == "scalar " + np.dtype(full["scalar_type"]).name + ";\nintegral;\nform;\n" + "".join(f"extern ufcx_form {x.name};\n" for x in objs), "declarations", b.decl)
            require(sorted(b.libraries) == sorted(["m", *libs, SHIM[1]]), "libraries of the module", b.libraries, ["m", *libs, SHIM[1]])
            require([str(d) for d in b.library_dirs] == [str(SHIM[0])], "directories of the libraries", b.library_dirs)
            require(any("rpath" in a and str(SHIM[0]) in a for a in b.extra_link_args), "run path of the module", b.extra_link_args)
            require("/include/of/ffcx" in [str(d) for d in b.include_dirs], "include directories", b.include_dirs)
            require(list(b.extra_compile_args)[-len(args):] == args if args else True, "compile arguments", b.extra_compile_args, args)
            require(b.extra_compile_args == ["-std=c17", *args], "compile arguments", b.extra_compile_args, args)
            require(b.ldshared == (" ".join(dict.fromkeys(raw)) if raw else before), "LDSHARED during a compilation", b.ldshared, LD[0], before)
            require(("output of the compiler" in out.getvalue()) == verbose, "output of the compiler", verbose, out.getvalue())
    # The stages by themselves: names, prefix and options reach the representation.
    State.fail = None
    if s.chance(1, 4):
        forms = [Form(s.raw(2)) for _ in range(s.i(1, 3))]
        kw = {}
        if s.coin():
            kw["object_names"] = {id(f): f"name{k}" for k, f in enumerate(forms)}
        if s.coin():
            kw["prefix"] = "some_prefix"
        if s.coin():
            kw["visualise"] = s.coin()
        full = opts.get_options({})
        h, c, itg = CU.compile_ufl_objects(forms, full, **kw)
        require(State.asked == (kw.get("object_names", {}), kw.get("prefix", ""), kw.get("visualise", False)), "names of the objects to compile", State.asked, kw)
        require(h == "header" and c == body([f.sig for f in forms], [naming.form_name(f, k, kw.get("prefix", "")) for k, f in enumerate(forms)], full["scalar_type"], full), "code of the compiler", c)
        require(list(itg) == [("integrals of", f.uid) for f in forms], "integral data of the compiler", list(itg))
    # Anything but a form is refused.
    State.fail = None
    for bad in ("form", None, [Form(0)], Obj(sig=1)):
        if s.chance(1, 8):
            nb = len(State.builds)
            try:
                J.ffcx_jit(env.Comm(), bad, form_compiler_options=None, jit_options={"cache_dir": root / "a"})
                require(False, "something that is not a form was compiled", type(bad).__name__)
            except ValueError:
                pass
            require(len(State.builds) == nb, "something that is not a form was compiled", type(bad).__name__)
    s.count("cache hits", hits)
    s.count("failed compilations", fails)
    if hits and len(known) > 1:
        s.nontrivial()

# ---------------------------------------------------------------- A01
import importlib.util
def load_patches():
    spec = importlib.util.spec_from_file_location("qugar.dolfinx._dolfinx_patches", env.ROOT + "/dolfinx/_dolfinx_patches.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
VERSIONS = ["0.10.0", "0.10.0.post5", "0.10.1", "0.10.0.dev0", "0.11.0", "0.11.0.dev0", "0.9.0", "0.1.0", "1.0.0", "0.100.0", "0.11.10"]
@prop("A01", 20000, 200000, 30)
def a01(s):
    dolfinx, fem, asm = env.mod("dolfinx"), env.mod("dolfinx.fem"), env.mod("dolfinx.fem.assemble")
    cfem = env.mod("dolfinx.cpp.fem")
    version = s.pick(VERSIONS)
    dolfinx.__dict__["__version__"] = version
    fixed = not version.startswith("0.10.")
    calls = []
    def assemble(form, constants, coeffs):
        calls.append((form, constants, coeffs))
        return form.value + float(np.sum(constants)) + 100 * sum(float(np.sum(v)) for v in coeffs.values())
    cfem.assemble_scalar = assemble
    asm.pack_constants = lambda M: M.constants_now()
    asm.pack_coefficients = lambda M: M.coefficients_now()
    def upstream(M, constants=None, coeffs=None):
        """Assemble functional."""
        constants = asm.pack_constants(M) if constants is None else constants
        coeffs = asm.pack_coefficients(M) if coeffs is None else (coeffs if fixed else constants)
        return cfem.assemble_scalar(M._cpp_object, constants, coeffs)
    upstream.__name__ = "assemble_scalar"
    asm.assemble_scalar = fem.assemble_scalar = upstream
    P = load_patches()
    times = s.i(1, 3)
    got = []
    for _ in range(times):
        if s.chance(1, 3):
            P = load_patches()
        P.apply_patches()
        got.append(asm.assemble_scalar)
    s.note("", f"version {version} applied {times} times")
    require(all(g is got[0] for g in got), "a function that is already repaired is replaced again")
    require(asm.assemble_scalar is fem.assemble_scalar, "assemble_scalar of dolfinx.fem and dolfinx.fem.assemble differ")
    if fixed:
        require(asm.assemble_scalar is upstream, "a version that needs no repair is modified", version)
    require(asm.assemble_scalar.__doc__ == upstream.__doc__ and asm.assemble_scalar.__name__ == "assemble_scalar", "documentation of the repaired function")
    for _ in range(s.i(1, 6)):
        cst = np.array([s.i(0, 9) for _ in range(s.i(0, 3))], dtype=np.float64)
        cof = {k: np.array([[s.i(1, 9) for _ in range(s.i(1, 3))]], dtype=np.float64) for k in range(s.i(0, 3))}
        M = Obj(_cpp_object=Obj(value=s.i(0, 5) / 8), constants_now=lambda: cst, coefficients_now=lambda: cof)
        gc = np.array([s.i(0, 9) for _ in range(s.i(0, 2))], dtype=np.float64) if s.coin() else None
        gf = {k: np.array([[s.i(10, 90)]], dtype=np.float64) for k in range(s.i(0, 2))} if s.coin() else None
        kw = {}
        if gc is not None:
            kw["constants"] = gc
        if gf is not None:
            kw["coeffs"] = gf
        s.note("call", f"{cst.tolist()} {[v.tolist() for v in cof.values()]} {None if gc is None else gc.tolist()} {None if gf is None else [v.tolist() for v in gf.values()]}")
        calls.clear()
        f = s.pick([fem.assemble_scalar, asm.assemble_scalar])
        v = f(M, gc, gf) if s.coin() else f(M, **kw)
        ec, ef = cst if gc is None else gc, cof if gf is None else gf
        require(len(calls) == 1 and calls[0][0] is M._cpp_object, "form that is assembled")
        require(calls[0][1] is ec or np.array_equal(calls[0][1], ec), "constants of the assembly", calls[0][1], ec)
        require(calls[0][2] is ef, "coefficients of the assembly", calls[0][2], "expected", ef, "given" if gf is not None else "packed", version)
        require(v == M._cpp_object.value + ec.sum() + 100 * sum(x.sum() for x in ef.values()), "assembled value", v)
        if gf is not None:
            s.nontrivial()
if __name__ == "__main__":
    sys.exit(main())
