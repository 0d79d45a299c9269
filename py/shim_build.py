"""Builds of the repository's tabulation shim for the checks, cached by content: the library, and a ThreadSanitizer executable."""
import ctypes, fcntl, hashlib, os, pathlib, subprocess
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
OUT = VERIF / "build" / "shim"
VENV = "/opt/qugar-venv"
BASIX = ["-Wl,--no-as-needed", f"-L{VENV}/lib", "-lbasix", f"-Wl,-rpath,{VENV}/lib"]
LIBS = f"{VENV}/lib/python3.12/site-packages/fenics_basix.libs"
def build(kind):
    """kind "lib": the shared library as the package builds it; "tsan": the thread programs' interpreter."""
    OUT.mkdir(parents=True, exist_ok=True)
    if kind == "lib":
        cmd, parts = ["-std=c++20", "-O2", "-fPIC", "-shared", f"-I{VENV}/include", *BASIX], [SRC]
        srcs = [str(SRC)]
    else:
        main = VERIF / "py" / "shim_threads.cpp"
        cmd = ["-std=c++20", "-O1", "-g", "-fsanitize=thread", f"-I{VENV}/include", "-include", str(SRC)]
        parts, srcs = [SRC, main], [str(main), *BASIX]
    # Headers next to the source belong to it.
    parts = parts + sorted(p for p in SRC.parent.glob("*") if p.suffix in (".h", ".hpp", ".cpp"))
    h = hashlib.sha256(repr(cmd).encode())
    for p in parts:
        h.update(p.read_bytes() + b"\0")
    out = OUT / f"{kind}-{h.hexdigest()[:24]}{'.so' if kind == 'lib' else '.exe'}"
    with open(OUT / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not out.exists():
            tmp = f"{out}.tmp"
            r = subprocess.run(["/opt/vp/cxx", *cmd, "-o", tmp, *srcs], capture_output=True, text=True, env={**os.environ, "LD_LIBRARY_PATH": LIBS})
            if r.returncode:
                raise RuntimeError(r.stderr[-4000:])
            os.replace(tmp, out)
            for old in OUT.glob(f"{kind}-*"):
                if old != out:
                    old.unlink(missing_ok=True)
    return out
def load():
    lib = ctypes.CDLL(str(build("lib")), mode=os.RTLD_NOW)
    I, L = ctypes.c_int, ctypes.c_long
    for t, real in (("f64", ctypes.c_double), ("f32", ctypes.c_float)):
        P = ctypes.POINTER(real)
        for name, res, args in (("register_element", I, [I] * 6), ("tabulate_shape", I, [I, I, I, ctypes.POINTER(L)]), ("tabulate", I, [I, I, P, I, I, P, L]),
                                ("get_scratch", P, [L]), ("registry_size", I, [])):
            f = getattr(lib, f"qugar_{name}_{t}")
            f.restype, f.argtypes = res, args
    lib.qugar_shim_reset.restype, lib.qugar_shim_reset.argtypes = None, []
    return lib
if __name__ == "__main__":
    print(build("lib"), build("tsan"))
