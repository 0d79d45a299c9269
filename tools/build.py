#!/usr/bin/env python3
"""Builds the C++ harness against /repo's working tree. Objects are cached by the content of everything they include."""
import concurrent.futures as cf, fcntl, hashlib, os, pathlib, subprocess, sys
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
OUT = VERIF / "build" / "cpp"
CXX = "g++"
FLAGS = ["-std=gnu++20", "-O1", "-w", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fno-sanitize=vptr",
         "-fno-sanitize-recover=undefined", "-I/repo/cpp/include".replace("/repo", str(REPO)), "-I" + str(VERIF / "algoim_stub"), "-I" + str(VERIF / "cpp")]
GROUPS = {"poly": ["B01", "B02", "B03"], "grid": ["Q06", "G01", "G02", "G03", "G04", "L01"], "funcs": ["F01", "F02", "F03", "F04"], "quad": ["Q01", "Q02", "Q03", "Q04", "Q05"], "reparam": ["R01", "R02"]}
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(str(p).encode() + b"\0")
    return h.hexdigest()[:24]
def content(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.name.encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()
def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stderr[-6000:])
def compile_obj(src, key, extra=(), prefix=""):
    obj = OUT / f"{prefix}{src.stem}-{key}.o"
    if obj.exists():
        return obj
    tmp = obj.with_suffix(f".{os.getpid()}.tmp")
    run([CXX, *FLAGS, *extra, "-c", str(src), "-o", str(tmp)])
    os.replace(tmp, obj)
    for old in OUT.glob(f"{prefix}{src.stem}-*.o"):
        if old != obj and len(old.stem) == len(obj.stem):
            old.unlink(missing_ok=True)
    return obj
def locked():
    OUT.mkdir(parents=True, exist_ok=True)
    lock = open(OUT / ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    return lock
def compile_all(jobs):
    # Largest first.
    jobs = sorted(jobs, key=lambda j: -j[0].stat().st_size)
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        return dict(zip([j[0] for j in jobs], ex.map(lambda j: compile_obj(*j), jobs)))
def lib_heads():
    return content([*(REPO / "cpp/include").rglob("*.hpp"), *(VERIF / "algoim_stub").rglob("*.hpp")])
def build(groups=None):
    with locked():
        heads = lib_heads()
        lib = sorted((REPO / "cpp/qugar").glob("*.cpp"))
        groups = list(GROUPS) if groups is None else groups
        own = content((VERIF / "cpp").glob("*.hpp"))
        jobs = [(s, digest(heads, s.read_bytes(), FLAGS)) for s in lib]
        jobs += [(VERIF / "cpp" / "main.cpp", digest(own, (VERIF / "cpp/main.cpp").read_bytes(), FLAGS))]
        jobs += [(VERIF / "cpp" / f"{g}.cpp", digest(heads, own, (VERIF / "cpp" / f"{g}.cpp").read_bytes(), FLAGS)) for g in groups]
        objs = compile_all(jobs)
        exes = {}
        for g in groups:
            parts = [objs[s] for s in lib] + [objs[VERIF / "cpp/main.cpp"], objs[VERIF / "cpp" / f"{g}.cpp"]]
            exe = OUT / f"{g}-{digest(*[p.name for p in parts])}.exe"
            if not exe.exists():
                for old in OUT.glob(f"{g}-*.exe"):
                    old.unlink(missing_ok=True)
                run([CXX, "-fsanitize=undefined", "-fno-sanitize=vptr", "-o", str(exe) + ".tmp", *map(str, parts)])
                os.replace(str(exe) + ".tmp", exe)
            exes[g] = exe
        return exes
def bindings(asan=False):
    """The Python extension: the repository's wrappers on the stand-in of nanobind, with or without the address sanitizer in them."""
    stub = VERIF / "nanobind_stub"
    extra = [f"-I{stub}", "-I/usr/include/python3.12", *(["-fsanitize=address"] if asan else [])]
    tag = "a" if asan else ""
    with locked():
        heads = lib_heads()
        wrap = REPO / "python/nanobind_wrappers"
        own = content([*stub.rglob("*.h*"), *wrap.glob("*.hpp")])
        lib = sorted((REPO / "cpp/qugar").glob("*.cpp"))
        srcs = sorted(wrap.glob("*.cpp"))
        jobs = [(s, digest(heads, s.read_bytes(), FLAGS)) for s in lib]
        jobs += [(s, digest(heads, own, s.read_bytes(), FLAGS, extra), extra, tag + "nb_") for s in srcs]
        objs = compile_all(jobs)
        parts = [objs[s] for s in lib + srcs]
        so = OUT / f"{tag}bindings-{digest(*[p.name for p in parts])}.so"
        if not so.exists():
            for old in OUT.glob(f"{tag}bindings-*.so"):
                old.unlink(missing_ok=True)
            run([CXX, "-shared", "-fsanitize=undefined" + ",address" * asan, "-fno-sanitize=vptr", "-o", str(so) + ".tmp", *map(str, parts)])
            os.replace(str(so) + ".tmp", so)
        return so
if __name__ == "__main__":
    import time
    t = time.time()
    for g, e in build(sys.argv[1:] or None).items():
        print(g, e)
    print(f"{time.time() - t:.1f} s")
