"""The repository's Python extension, built on the stand-in of nanobind, in place of the stand-in of env.py."""
import ctypes, importlib.machinery, importlib.util, os, pathlib, subprocess, sys
import env
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "tools"))
import build
def load(asan=False):
    so = os.environ.pop("VERIF_BINDINGS", None) or str(build.bindings(asan))
    # Released memory is overwritten, so that arrays that outlive what they show are seen to change.
    if not asan:
        ctypes.CDLL(None).mallopt(-6, 0x5A)
    elif "LD_PRELOAD" in os.environ:
        del os.environ["LD_PRELOAD"]
    else:
        libs = [subprocess.check_output(["gcc", f"-print-file-name={x}"], text=True).strip() for x in ("libasan.so", "libstdc++.so")]
        options = "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=1:verify_asan_link_order=0:max_free_fill_size=1000000000:free_fill_byte=90:quarantine_size_mb=16"
        os.execve(sys.executable, sys.orig_argv, {**os.environ, "VERIF_BINDINGS": so, "LD_PRELOAD": " ".join(libs), "ASAN_OPTIONS": options})
    loader = importlib.machinery.ExtensionFileLoader("cpp", so)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader("cpp", loader))
    loader.exec_module(m)
    sys.modules["qugar.cpp"] = env.qugar.cpp = m
    return m
