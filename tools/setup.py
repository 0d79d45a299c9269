#!/usr/bin/env python3
"""Prebuilds the C++ harness (the checks rebuild whatever has changed since)."""
import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
import build
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "py"))
import shim_build
failed = 0
# A part that does not build does not keep the others from being built: its checks say so.
for name, step in (("harness", build.build), ("bindings", build.bindings), ("checked bindings", lambda: build.bindings(True)), ("shim", lambda: shim_build.build("lib")), ("thread programs", lambda: shim_build.build("tsan"))):
    try:
        step()
    except Exception as e:
        failed += 1
        print(f"{name}: {e}", file=sys.stderr)
print(f"setup: {5 - failed} of 5 parts built")
sys.exit(0 if failed < 5 else 1)
