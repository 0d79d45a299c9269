"""S01-S04: the run-time tabulation shim (values, registry, concurrency) and its build step."""
import contextlib, ctypes, importlib.util, os, pathlib, pickle, shutil, signal, subprocess, sys, tempfile, threading, time
import numpy as np
import basix
from pbt import Discard, Fail, main, prop, require
import shim_build
WHICH = dict(zip(sys.argv[1::2], sys.argv[2::2])).get("--prop", "")
LIB = shim_build.load() if WHICH in ("S01", "S02") else None
TSAN = str(shim_build.build("tsan")) if WHICH == "S04" else None
TYPES = {"f64": (np.float64, ctypes.c_double, 1e-12), "f32": (np.float32, ctypes.c_float, 2e-5)}
F, C, LV, DV = basix.ElementFamily, basix.CellType, basix.LagrangeVariant, basix.DPCVariant
DIM = {1: 1, 2: 2, 3: 3, 4: 2, 5: 3, 6: 3, 7: 3}
TOP = {1: 9, 2: 6, 3: 4, 4: 5, 5: 3, 6: 3, 7: 3}

def enums(f, c, deg, lv, dv, disc):
    try:
        return F(f), C(c), deg, LV(lv), DV(dv), bool(disc)
    except ValueError:
        return None
CACHE = {}
def element(key, t):
    """The element of six shim parameters from basix's own interface, None if the library rejects them."""
    if (key, t) not in CACHE:
        e = enums(*key)
        if len(CACHE) > 400:
            CACHE.clear()
        try:
            CACHE[key, t] = None if e is None else basix.create_element(*e[:2], e[2], lagrange_variant=e[3], dpc_variant=e[4], discontinuous=e[5], dtype=TYPES[t][0])
        except Exception:
            CACHE[key, t] = None
    return CACHE[key, t]
def key_gen(s):
    """Mostly elements that exist: the variants their family needs."""
    fam = s.pick([1, 1, 1, 1, 2, 3, 8, 8, 4, 5, 6, 7, 9, 10, 11, 12, 13])
    cell = s.pick([2, 4, 1, 3, 5, 6, 7])
    deg = s.i(0 if s.chance(1, 6) else 1, TOP[cell])
    lv = dv = disc = 0
    if fam == 1 or s.chance(1, 3):
        lv = s.pick([1, 1, 2, 11, 12]) if s.coin() else s.i(0, 12)
        disc = int(lv >= 3 and s.chance(3, 4) or s.chance(1, 6))
    if fam in (8, 10, 4, 5, 9) or s.chance(1, 4):
        lv, dv, disc = (s.pick([11, 11, 1, lv]), s.pick([7, 1, 2, 7, s.i(0, 7)]), 1 if s.chance(3, 4) else disc)
    if fam in (2, 3, 4, 5, 10):
        lv = s.pick([11, 11, lv])
    if s.chance(1, 25):
        fam = s.pick([14, -1, 77])
    return fam, cell, deg, lv, dv, disc
def points_gen(s, dim, n, dtype):
    x = np.array([[s.unit() if s.chance(7, 8) else s.pick([0.0, 1.0, 0.5, -0.25, 1.5]) for _ in range(dim)] for _ in range(n)], dtype=dtype).reshape(n, dim)
    return x
def close(got, want, tol):
    ok = np.isfinite(want)
    return np.array_equal(np.isfinite(got), ok) and np.abs(got[ok] - want[ok]).max(initial=0.0) <= tol * max(1.0, np.abs(want[ok]).max(initial=0.0))
def ptr(a, ct):
    return a.ctypes.data_as(ctypes.POINTER(ct))
CANARY = 987.25
def tabulate(t, h, nd, x, gdim, capacity, size):
    """Return code and the buffer of `size` values with canaries around the first `capacity` ones."""
    dt, ct, _ = TYPES[t]
    buf = np.full(size + 64, CANARY, dtype=dt)
    rc = getattr(LIB, f"qugar_tabulate_{t}")(h, nd, ptr(x, ct), len(x), gdim, ptr(buf[32:], ct), capacity)
    return rc, buf
def check_table(s, t, key, h, nd, x, sig):
    dt, ct, tol = TYPES[t]
    el = element(key, t)
    want = el.tabulate(nd, x)
    out = (ctypes.c_long * 6)(*[-7] * 6)
    rc = getattr(LIB, f"qugar_tabulate_shape_{t}")(h, nd, len(x), ctypes.cast(ctypes.addressof(out) + ctypes.sizeof(ctypes.c_long), ctypes.POINTER(ctypes.c_long)))
    require(rc == 0, sig + " shape code", key, nd, len(x), rc)
    require(tuple(out[1:5]) == want.shape and out[0] == out[5] == -7, sig + " shape", key, nd, len(x), list(out), "expected", want.shape)
    extra = s.pick([0, 0, 1, 9])
    rc, buf = tabulate(t, h, nd, x, x.shape[1], want.size + extra, want.size + extra)
    require(rc == 0, sig + " code", key, "nd", nd, "points", len(x), "rc", rc)
    got = buf[32:32 + want.size].reshape(want.shape)
    require(close(got, want, tol * (10 ** nd)), sig + " value", key, t, "nd", nd, "points", x.tolist(), "error", np.abs(got - want).max(initial=0.0))
    require(np.all(buf[:32] == CANARY) and np.all(buf[32 + want.size:] == CANARY), sig + " writes outside the table", key, nd)
    return want

@prop("S01", 60000, 800000, case_seconds=60)
def s01(s):
    t = s.pick(["f64", "f32"])
    dt, ct, tol = TYPES[t]
    key = key_gen(s)
    for _ in range(3):
        if element(key, t) is None and s.chance(4, 5):
            key = key_gen(s)
    s.note("type", t)
    s.note("element", key)
    if s.chance(1, 10):
        LIB.qugar_shim_reset()
    el = element(key, t)
    h = getattr(LIB, f"qugar_register_element_{t}")(*key)
    if el is None:
        s.count("rejected by the library")
        require(h < 0, "invalid element accepted", key, "handle", h)
        return
    require(h >= 0, "valid element rejected", key, "code", h)
    s.nontrivial()
    s.count(f"family {key[0]}")
    dim = DIM[key[1]]
    for _ in range(2):
        nd = s.i(0, 3 if dim < 3 else 2)
        x = points_gen(s, dim, s.pick([1, 3, 0, 7, 2]), dt)
        s.note("nd", nd)
        s.note("points", len(x))
        want = check_table(s, t, key, h, nd, x, "tabulation")
        # The derivatives are those of the values: divided differences of the table itself.
        if nd >= 1 and t == "f64" and key[0] != 13 and key[1] != 7 and len(x) and s.chance(1, 3):
            d = s.raw(dim - 1)
            e = np.zeros(dim)
            e[d] = 1e-5
            vals = [tabulate(t, h, 0, np.ascontiguousarray(x + q * e), dim, want[0].size, want[0].size)[1][32:32 + want[0].size].reshape(want[0].shape) for q in (1, -1)]
            col = basix.index(*[int(k == d) for k in range(dim)])
            require(np.abs((vals[0] - vals[1]) / 2e-5 - want[col]).max() <= 1e-4 * (1 + np.abs(want).max() * (1 + key[2] ** 2) * 4), "derivative column", key, d)
        # Errors, without any write.
        if want.size:
            small = s.raw(want.size - 1)
            rc, buf = tabulate(t, h, nd, x, dim, small, want.size)
            require(rc < 0, "too small buffer accepted", key, "capacity", small, "of", want.size)
            require(np.all(buf == CANARY), "write into a too small buffer", key, small)
        wrong = s.pick([g for g in (1, 2, 3) if g != dim])
        y = points_gen(s, wrong, max(1, len(x)), dt)
        rc, buf = tabulate(t, h, nd, y, wrong, 4 * want.size + 64, 4 * want.size + 64)
        require(rc < 0, "points of another dimension accepted", key, wrong)
        n = getattr(LIB, f"qugar_registry_size_{t}")()
        for bad in (n + s.raw(50), -1 - s.raw(5), s.pick([2**31 - 1, -2**31])):
            rc, buf = tabulate(t, bad, nd, x, dim, want.size + 8, want.size + 8)
            require(rc < 0 and np.all(buf == CANARY), "invalid handle accepted", bad, "of", n)
            out = (ctypes.c_long * 4)(*[-7] * 4)
            require(getattr(LIB, f"qugar_tabulate_shape_{t}")(bad, nd, len(x), out) < 0 and list(out) == [-7] * 4, "shape of an invalid handle", bad)

POOL_BASE = [(1, 2, 1, 1, 0, 0), (1, 2, 4, 1, 0, 0), (1, 4, 3, 2, 0, 0), (1, 3, 3, 1, 0, 0), (8, 4, 2, 11, 7, 1), (8, 4, 3, 1, 2, 1), (2, 2, 2, 11, 0, 0), (10, 4, 2, 11, 7, 0), (1, 1, 3, 1, 0, 0), (3, 2, 1, 11, 0, 0), (1, 2, 3, 11, 0, 1)]
MOVES = [lambda s, k: (k[0], s.pick([1, 2, 3, 4, 5]), *k[2:]), lambda s, k: (*k[:2], max(0, k[2] + s.pick([1, -1])), *k[3:]),
         lambda s, k: (*k[:3], s.pick([1, 2, 3, 7, 11, 12]), *k[4:]), lambda s, k: (*k[:4], s.pick([0, 1, 2, 5, 6, 7]), k[5]), lambda s, k: (*k[:5], 1 - k[5]),
         lambda s, k: (s.pick([1, 2, 3, 8, 10]), *k[1:]), lambda s, k: (k[0], k[2] if 1 <= k[2] <= 5 else 2, k[1], *k[3:]), lambda s, k: (*k[:3], k[4], k[3] % 8, k[5])]
def pool_gen(s, n):
    """Families of keys that differ in one parameter, or have two exchanged."""
    keys = [s.pick(POOL_BASE)]
    for _ in range(n - 1):
        k = s.pick(keys) if s.chance(3, 4) else s.pick(POOL_BASE)
        k = s.pick(MOVES)(s, k)
        if k[2] <= TOP.get(k[1], 3) and k not in keys:
            keys.append(k)
    return keys

@prop("S02", 60000, 800000, case_seconds=60)
def s02(s):
    LIB.qugar_shim_reset()
    keys = pool_gen(s, s.i(1, 8))
    s.note("keys", keys)
    handle = {t: {} for t in TYPES}
    stale = {t: set() for t in TYPES}
    for _ in range(s.i(1, 40)):
        op = s.pick(["register", "register", "tabulate", "tabulate", "size", "scratch", "invalid", "reset" if s.chance(1, 4) else "register", "stale"])
        t = s.pick(list(TYPES))
        dt, ct, tol = TYPES[t]
        s.count(op)
        H = handle[t]
        if op == "register":
            k = s.pick(keys)
            s.note(op, (t, keys.index(k)))
            h = getattr(LIB, f"qugar_register_element_{t}")(*k)
            el = element(k, t)
            require((h >= 0) == (el is not None), "validity of a registration", k, "code", h)
            if h < 0:
                continue
            require(H.get(k, h) == h, "the handle of an element changes", k, H.get(k), h)
            require(k in H or h not in H.values(), "different elements share a handle", k, h, H)
            H[k] = h
            if len(H) > 1:
                s.nontrivial()
        elif op == "tabulate" and H:
            k = s.pick(sorted(H))
            s.note(op, (t, keys.index(k)))
            check_table(s, t, k, H[k], s.i(0, 1), points_gen(s, DIM[k[1]], s.i(1, 3), dt), "registered element")
        elif op == "size":
            for u in TYPES:
                n = getattr(LIB, f"qugar_registry_size_{u}")()
                require(n == len(handle[u]), "registry size", u, n, "expected", len(handle[u]))
        elif op == "scratch":
            n = s.pick([1, 10, 1000, 0, s.raw(5000), 200000 if s.chance(1, 10) else 3])
            m = s.pick([1, 50, s.raw(3000)])
            s.note(op, (t, n, m))
            other = "f32" if t == "f64" else "f64"
            p = getattr(LIB, f"qugar_get_scratch_{t}")(n)
            q = getattr(LIB, f"qugar_get_scratch_{other}")(m)
            if n and m:
                require(bool(p) and bool(q), "no scratch memory", n, m)
                a = np.ctypeslib.as_array(p, (n,))
                b = np.ctypeslib.as_array(q, (m,))
                a[:], b[:] = 3.5, -2.5
                require(np.all(a == 3.5) and np.all(b == -2.5), "scratch memory of both precisions overlaps", n, m)
        elif op == "invalid":
            k = s.pick([(97, 2, 1, 1, 0, 0), (1, 2, -1, 1, 0, 0), (1, 2, 3, 3, 0, 0), (8, 4, 2, 11, 7, 0), (4, 3, 0, 1, 1, 1)])
            if element(k, t) is None:
                n = getattr(LIB, f"qugar_registry_size_{t}")()
                require(getattr(LIB, f"qugar_register_element_{t}")(*k) < 0, "invalid element accepted", k)
                require(getattr(LIB, f"qugar_registry_size_{t}")() == n, "a rejected element enters the registry", k)
        elif op == "stale":
            bad = sorted(stale[t] - set(H.values())) or [len(H)]
            x = np.zeros((1, 2), dtype=dt)
            rc, buf = tabulate(t, s.pick(bad), 0, x, 2, 200, 200)
            require(rc < 0 and np.all(buf == CANARY), "a handle of no registered element is accepted", bad)
        elif op == "reset":
            s.note(op, "")
            LIB.qugar_shim_reset()
            for u in TYPES:
                stale[u] |= set(handle[u].values())
                handle[u] = {}

# ---------------------------------------------------------------- S04
@prop("S04", 1500, 15000, case_seconds=120, tries=6)
def s04(s):
    keys = [k for k in pool_gen(s, s.i(1, 6)) if k[0] > 0]
    nt = s.i(2, 6)
    progs = []
    for _ in range(nt):
        ops = []
        for _ in range(s.i(1, 14)):
            c = s.pick("trtrtszx")
            t = s.raw(1)
            if c in "tr":
                k = s.raw(len(keys) - 1)
                ok = element(keys[k], "f64" if t == 0 else "f32") is not None
                ops.append((c if ok else "r", t, k, s.i(0, 1), s.pick([1, 2, 5])))
            else:
                ops.append((c, t, s.pick([1, 20, 300, s.raw(2000)]), 0, 0))
        progs.append(ops)
    rounds = s.i(1, 3)
    s.note("keys", keys)
    s.note("programs", progs)
    s.nontrivial()
    s.count("threads", nt)
    text = f"{len(keys)} " + " ".join(" ".join(map(str, k)) for k in keys) + f" {nt} {rounds} " + " ".join(f"{len(p)} " + " ".join(" ".join(map(str, o)) for o in p) for p in progs)
    env = {**os.environ, "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0", "OPENBLAS_NUM_THREADS": "1"}
    for cmd in ([TSAN], ["setarch", "-R", TSAN]):
        r = subprocess.run(cmd, input=text, capture_output=True, text=True, env=env, timeout=100)
        if "unexpected memory mapping" not in r.stderr and "CHECK failed" not in r.stderr:
            break
    if r.returncode == 66:
        i = r.stderr.find("WARNING")
        raise Fail("data race", r.stderr[i:i + 1500])
    if r.returncode == 3:
        raise Fail(" ".join(w for w in r.stdout.split() if not w.lstrip("-").isdigit()), r.stdout.strip())
    require(r.returncode == 0, f"the thread program ends with code {r.returncode}", r.stderr[-800:])

# ---------------------------------------------------------------- S03
SHIM = pathlib.Path(shim_build.REPO) / "python/qugar/dolfinx/_shim"
COMPILER = r"""#!/bin/sh
# Stand-in of a compiler: writes the output in two steps, told by the files of the world how long and how far to go.
w="$QUGAR_VERIF_WORLD"
out=""; src=""; prev=""
for a in "$@"; do
  if [ "$prev" = "-o" ]; then out="$a"; fi
  case "$a" in *.cpp) src="$a";; esac
  prev="$a"
done
echo "run $0 $out" >> "$w/log"
text=`cat "$src"`
mode=`cat "$w/mode"`
delay=`cat "$w/delay"`
if [ "$mode" = "fail-early" ]; then exit 1; fi
rm -f "$out"
printf 'BEGIN %s' "partial" > "$out" || exit 1
echo "half $0" >> "$w/log"
sleep "$delay"
if [ "$mode" = "fail" ]; then exit 1; fi
if [ "$mode" = "die" ]; then kill -9 $$; fi
printf 'LIB[%s]END' "$text" > "$out"
echo "done $0" >> "$w/log"
"""
class World:
    def __init__(self, s, root):
        self.s, self.root = s, pathlib.Path(root)
        for d in ("pkg", "bin", "cc", "home", "prefix/bin"):
            (self.root / d).mkdir(parents=True)
        self.pkg = self.root / "pkg" / "__init__.py"
        self.src = self.root / "pkg" / "qugar_basix_shim.cpp"
        shutil.copy(SHIM / "__init__.py", self.pkg)
        for p in SHIM.iterdir():
            if p.suffix == ".py" and p.name != "__init__.py":
                shutil.copy(p, self.pkg.parent)
        self.version = 0
        self.src.write_text("version 0")
        old = time.time() - 5000
        os.utime(self.src, (old, old))
        os.utime(self.pkg, (old, old))
        self.log = self.root / "log"
        self.log.write_text("")
        self.set("ok", 0)
        self.cc = self.compiler(self.root / "cc" / "mycxx")
        self.cache = self.root / "cache" if s.chance(3, 4) else self.root / "home/.cache/qugar/shim"
        self.env = {"HOME": str(self.root / "home"), "CXX": str(self.cc), "QUGAR_VERIF_WORLD": str(self.root), "PATH": f"{self.root}/bin:/usr/bin:/bin"}
        if self.cache.name == "cache":
            self.env["QUGAR_SHIM_CACHE"] = str(self.cache)
    def compiler(self, path):
        path.write_text(COMPILER)
        path.chmod(0o755)
        return path
    def set(self, mode, delay):
        (self.root / "mode").write_text(mode)
        (self.root / "delay").write_text(str(delay))
    def runs(self, what="run"):
        return [l.split()[1] for l in self.log.read_text().splitlines() if l.startswith(what + " ")]
    def want(self):
        return f"LIB[{self.src.read_text()}]END"
    def text(self):
        p = self.cache / "libqugar_basix_shim.so"
        return p.read_text(errors="replace") if p.exists() else None
    def start(self, threads=1, prefix=None, path=None, env=None, pause=0.0):
        """A process that imports the builder afresh and calls it from some threads; the results arrive in a pipe."""
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.alarm(60)
            time.sleep(pause)
            e = {**self.env, **(env or {})}
            for k in ("CXX", "QUGAR_SHIM_CACHE", "PATH"):
                os.environ.pop(k, None)
            os.environ.update({k: v for k, v in e.items() if v is not None})
            for k, v in e.items():
                if v is None:
                    os.environ.pop(k, None)
            if prefix is not None:
                sys.prefix = str(prefix)
            spec = importlib.util.spec_from_file_location("shim_under_test", self.pkg, submodule_search_locations=[str(self.pkg.parent)])
            m = importlib.util.module_from_spec(spec)
            sys.modules["shim_under_test"] = m
            spec.loader.exec_module(m)
            out = []
            def call():
                try:
                    d, name = m.ensure_built()
                    lib = pathlib.Path(d) / f"lib{name}.so"
                    out.append(("ok", str(d), name, lib.read_text(errors="replace") if lib.exists() else None))
                except BaseException as x:
                    out.append((type(x).__name__, str(x)))
            ts = [threading.Thread(target=call) for _ in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            with os.fdopen(w, "wb") as o:
                pickle.dump(out, o)
        except BaseException as x:
            with contextlib.suppress(Exception):
                with os.fdopen(w, "wb") as o:
                    pickle.dump([("harness " + type(x).__name__, str(x))], o)
        finally:
            os._exit(0)
    def finish(self, job):
        pid, r = job
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(pid, signal.SIGKILL)
        return pickle.loads(data) if data else None
    def kill(self, job):
        pid, r = job
        with contextlib.suppress(ProcessLookupError):
            os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
def wait(cond, seconds=20):
    end = time.monotonic() + seconds
    while not cond():
        if time.monotonic() > end:
            return False
        time.sleep(0.002)
    return True

@prop("S03", 500, 6000, case_seconds=90, tries=4)
def s03(s):
    root = tempfile.mkdtemp(prefix="verif_shim_")
    try:
        if s.chance(1, 120):
            real_build(s, root)
        elif s.chance(1, 4):
            selection(s, World(s, root))
        else:
            history(s, World(s, root))
    finally:
        shutil.rmtree(root, ignore_errors=True)

def good(res, w, sig, *msg):
    require(res is not None, sig + " process died", *msg)
    for r in res:
        require(r[0] == "ok", sig + " raises", *msg, r)
        require(r[1] == str(w.cache) and r[2] == "qugar_basix_shim", sig + " location", *msg, r[:3])
        require(r[3] == w.want(), sig + " returns an incomplete or outdated library", *msg, "the library holds", r[3], "expected", w.want())

def history(s, w):
    current = False
    complete = {None}
    for _ in range(s.i(2, 7)):
        op = s.pick(["call", "call", "concurrent", "edit source", "edit builder", "fail", "killed", "killed with waiters", "delete", "observe"])
        s.note("op", op)
        s.count(op)
        before = len(w.runs())
        w.set("ok", 0)
        if op == "call":
            good(w.finish(w.start()), w, "a call")
            n = len(w.runs()) - before
            require(n == (0 if current else 1), "number of compilations of a call", n, "library current before:", current)
            current = True
        elif op == "concurrent":
            delay = s.pick([0.05, 0, 0.1])
            w.set("ok", delay)
            np_, nt = s.i(2, 5), s.i(1, 3)
            s.note("processes x threads", (np_, nt))
            jobs = [w.start(threads=nt, pause=s.pick([0, 0, 0.01, 0.04])) for _ in range(np_)]
            results = [w.finish(j) for j in jobs]
            for r in results:
                good(r, w, "concurrent calls", (np_, nt))
            n = len(w.runs()) - before
            require(n == (0 if current else 1), "number of compilations of concurrent calls", n, "library current before:", current)
            current = True
            s.nontrivial()
        elif op in ("edit source", "edit builder"):
            time.sleep(0.02)
            if op == "edit source":
                w.version += 1
                w.src.write_text(f"version {w.version}")
            else:
                with open(w.pkg, "a") as f:
                    f.write("\n# edited\n")
            current = False
        elif op == "fail":
            w.set(s.pick(["fail", "fail-early", "die"]), 0)
            old = w.text()
            res = w.finish(w.start(threads=s.i(1, 2)))
            require(res is not None, "a failing build kills the process")
            for r in res:
                if current:
                    require(r[0] == "ok" and r[3] == w.want(), "a failing compiler is run although the library is current", r)
                else:
                    require(r[0] != "ok", "a failed build is reported as a success", r)
            require(w.text() in (None, old), "a failed build leaves a partial library", w.text())
            if not current:
                s.nontrivial()
        elif op in ("killed", "killed with waiters"):
            if current:
                time.sleep(0.02)
                w.version += 1
                w.src.write_text(f"version {w.version}")
                current = False
            w.set("ok", 40)
            old = w.text()
            job = w.start()
            if not wait(lambda: len(w.runs("half")) and len(w.runs()) == before + 1 and len([l for l in w.log.read_text().splitlines()[-1:] if l.startswith("half")])):
                w.kill(job)
                raise Fail("the compiler is not started", "when the library is missing or outdated")
            require(w.text() in (None, old), "a library under construction is visible", w.text())
            others = []
            if op == "killed with waiters":
                others = [w.start(threads=s.i(1, 2)) for _ in range(s.i(1, 3))]
                time.sleep(0.03)
            w.set("ok", 0)
            w.kill(job)
            require(w.text() in (None, old) or others, "an interrupted build leaves a partial library", w.text())
            for o in others:
                good(w.finish(o), w, "a call waiting for an interrupted build")
            if others:
                n = len(w.runs()) - before
                require(n == 2, "number of compilations when the first one is killed", n)
                current = True
            s.nontrivial()
        elif op == "delete":
            shutil.rmtree(w.cache, ignore_errors=True) if s.coin() else (w.cache / "libqugar_basix_shim.so").unlink(missing_ok=True)
            current = False
        elif op == "observe":
            # Nobody ever sees a library that is not complete, also while an outdated one is replaced.
            w.set("ok", 0.05)
            old = w.text()
            jobs = [w.start() for _ in range(s.i(1, 2))]
            while True:
                t = w.text()
                require(t in (None, old, w.want()), "a library under construction is visible", t)
                if all(os.waitid(os.P_PID, j[0], os.WEXITED | os.WNOHANG | os.WNOWAIT) for j in jobs):
                    break
                time.sleep(0.001)
            for j in jobs:
                good(w.finish(j), w, "a call")
            require(len(w.runs()) - before == (0 if current else 1), "number of compilations", len(w.runs()) - before, current)
            current = True
    w.set("ok", 0)
    good(w.finish(w.start()), w, "the last call")

def selection(s, w):
    """Which compiler is run: $CXX, else one of the active environment, else one on PATH, else an error."""
    s.nontrivial()
    s.count("compiler selection")
    names = ["clang++", "g++", "c++", "clang++-18", "x86_64-conda-linux-gnu-c++", "x86_64-conda-linux-gnu-g++", "aarch64-conda-linux-gnu-clang++"]
    envc = s.subset(names, 1, 4)
    pathc = s.subset(["clang++", "g++", "c++"], 1, 3)
    for n in envc:
        w.compiler(w.root / "prefix/bin" / n)
    for n in pathc:
        w.compiler(w.root / "bin" / n)
    for n, t in (("sh", "/bin/sh"), ("cat", "/bin/cat"), ("sleep", "/bin/sleep"), ("rm", "/bin/rm")):
        os.symlink(shutil.which(n) or t, w.root / "bin" / n)
    cxx = s.pick(["path", "name", "missing", "unset", "unset", "empty"])
    env = {"PATH": str(w.root / "bin"), "CXX": None}
    if cxx == "path":
        env["CXX"] = str(w.cc)
    elif cxx == "name":
        w.compiler(w.root / "bin" / "special-cxx")
        env["CXX"] = "special-cxx"
    elif cxx == "missing":
        env["CXX"] = str(w.root / "nowhere" / "cxx")
    elif cxx == "empty":
        env["CXX"] = ""
    s.note("CXX", cxx)
    s.note("environment", envc)
    s.note("PATH", pathc)
    res = w.finish(w.start(prefix=w.root / "prefix", env=env))
    ran = w.runs()
    if cxx in ("path", "name"):
        allowed = {str(w.cc) if cxx == "path" else str(w.root / "bin/special-cxx")}
    elif envc:
        allowed = {str(w.root / "prefix/bin" / n) for n in envc}
    else:
        allowed = {str(w.root / "bin" / n) for n in pathc}
    if not allowed:
        require(res is not None and res[0][0] == "FileNotFoundError", "no compiler, and no error about it", res)
        require(w.text() is None, "a library without any compiler")
        return
    good(res, w, "a call")
    require(len(ran) == 1 and ran[0] in allowed, "compiler selection", ran, "allowed", sorted(allowed))

def real_build(s, root):
    """The real builder on the real source: the library loads and tabulates."""
    s.nontrivial()
    s.count("real build")
    code = f"""
import sys, os, ctypes, importlib.util
spec = importlib.util.spec_from_file_location("shim_real", {str(SHIM / '__init__.py')!r})
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
d, n = m.ensure_built()
lib = ctypes.CDLL(str(d / f"lib{{n}}.so"), mode=os.RTLD_NOW)
h = lib.qugar_register_element_f64(1, 2, 1, 1, 0, 0)
x = (ctypes.c_double * 2)(0.25, 0.5)
b = (ctypes.c_double * 3)()
rc = lib.qugar_tabulate_f64(h, 0, x, 1, 2, b, ctypes.c_long(3))
assert h == 0 and rc == 0 and [round(v, 12) for v in b] == [0.25, 0.25, 0.5], (h, rc, list(b))
"""
    env = {**os.environ, "QUGAR_SHIM_CACHE": f"{root}/real", "CXX": "/opt/vp/cxx", "PYTHONDONTWRITEBYTECODE": "1"}
    for k in range(2):
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env)
        require(r.returncode == 0, "the real library does not build, load or tabulate", r.stderr[-600:])

if __name__ == "__main__":
    sys.exit(main())
