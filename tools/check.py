#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--replay FILE]. VERIF_SEED and VERIF_TIER select seed and depth."""
import argparse, json, os, pathlib, subprocess, sys, time
HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
from registry import ALGOIM, CHECKS, TAPE
PY = "/opt/qugar-venv/bin/python"
SHIM_ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "CXX": "/opt/vp/cxx", "LD_LIBRARY_PATH": "/opt/qugar-venv/lib/python3.12/site-packages/fenics_basix.libs", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}

def findings(pid):
    """Known findings of the property: (signature, text)."""
    out = []
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else []:
        w = line.split()
        if len(w) > 2 and w[0] == "known:" and w[1] == f"property={pid}" and w[2].startswith("sig="):
            out.append((w[2][4:], " ".join(w[3:])))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cases")
    ap.add_argument("--max-seconds")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    c = CHECKS[a.id]
    t0 = time.time()
    evid = VERIF / "evidence"
    replays = evid / "replays"
    replays.mkdir(parents=True, exist_ok=True)
    if c["kind"] == "cpp":
        import build
        cmd = [str(build.build([c["group"]])[c["group"]])]
        env = dict(os.environ)
    else:
        cmd = [PY, str(VERIF / "py" / f"{c['group']}.py")]
        env = {**os.environ, **SHIM_ENV}
    cmd += ["--prop", a.id]
    if a.replay:
        return subprocess.run(cmd + ["--replay", a.replay], env=env).returncode
    known = findings(a.id)
    cmd += ["--seed", str(seed), "--tier", tier, "--replay-dir", str(replays)]
    for k in ("cases", "max_seconds"):
        v = getattr(a, k)
        if v:
            cmd += ["--" + k.replace("_", "-"), v]
    if known:
        cmd += ["--known", ",".join(k for k, _ in known)]
    for _ in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if r.returncode in (0, 1):
            break
    try:
        res = json.loads(r.stdout.strip().splitlines()[-1])
    except (IndexError, ValueError):
        res = None
    if r.returncode not in (0, 1) or res is None:
        sys.stderr.write(f"check of {a.id} failed to run (status {r.returncode})\n{r.stdout[-3000:]}\n{r.stderr[-6000:]}\n")
        return 2
    v = res["violation"]
    cov = dict(evaluations=res["evaluations"], distinct_nontrivial=res["distinct_nontrivial"], nontrivial=res["nontrivial"], discarded=res["discarded"],
               planned=res["planned"], rule=TAPE + c["rule"], samples=res["samples"] or ["(no non-trivial case ran before the violation)"], counts=res["counts"])
    evidence = dict(property=a.id, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=1 if v else 0,
                    assumptions=c.get("assumptions", [ALGOIM] if c["kind"] == "cpp" else []))
    if v:
        evidence["coverage"]["violation"] = v
    tmp = evid / f".{a.id}.{os.getpid()}.tmp"
    tmp.write_text(json.dumps(evidence, indent=1) + "\n")
    os.replace(tmp, evid / f"{a.id}.json")
    for sig, text in known:
        if sig in res["known"]:
            print(f"KNOWN-FINDING: property={a.id} [{sig}] {text}")
    print(f"{a.id}: {res['evaluations']} cases, {res['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s, seed {seed}, {tier}")
    if v:
        print(f"signature: {v['sig']}\n{v['message']}\ncase: {v['case']}")
        print(f"VIOLATION property={a.id} replay={v['replay']}")
        return 1
    return 0
if __name__ == "__main__":
    sys.exit(main())
