"""Property-based testing engine of the Python harness (same design and command line as cpp/pbt.hpp).

Every random choice is recorded on a tape that is a pure function of the seed and the case number; a failing tape is
shrunk and becomes the replay file. Cases run in forked shards, so crashes and hangs of native code are failures too.
"""
import gc, json, math, mmap, os, pathlib, pickle, resource, signal, struct, sys, tempfile, time, traceback

MASK = (1 << 64) - 1
class Discard(Exception):
    pass
class Fail(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, str(msg)
def require(cond, sig, *msg):
    if not cond:
        raise Fail(sig, " ".join(str(m) for m in msg))
def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & MASK
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & MASK
    return x ^ (x >> 31)
class Src:
    def __init__(self, seed=None, tape=None):
        self.replay = tape is not None
        self.tape = list(tape) if self.replay else []
        self.pos = 0
        self.state = seed
        self.desc = []
        self.is_nontrivial = False
        self.counts = {}
    def raw(self, n):
        """Integer in [0, n]."""
        n = int(n)
        if self.replay:
            v = 0
            if self.pos < len(self.tape):
                v = self.tape[self.pos] = min(self.tape[self.pos], n)
            self.pos += 1
            return v
        self.state = mix((self.state + 0x632BE59BD9B4E019) & MASK)
        v = self.state % (n + 1)
        self.tape.append(v)
        return v
    def i(self, lo, hi):
        return lo + self.raw(hi - lo)
    def coin(self):
        return self.raw(1) == 1
    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.raw(den - 1) >= den - num
    def unit(self):
        return self.raw((1 << 40) - 1) / (1 << 40)
    def real(self, lo, hi):
        if self.chance(3, 4):
            return lo + (hi - lo) * self.unit()
        return lo + (hi - lo) * self.raw(16) / 16.0
    def pick(self, seq):
        return seq[self.raw(len(seq) - 1)]
    def shuffled(self, seq):
        seq = list(seq)
        for k in range(len(seq) - 1, 0, -1):
            j = k - self.raw(k)
            seq[k], seq[j] = seq[j], seq[k]
        return seq
    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]
    def note(self, key, value):
        self.desc.append(f"{key}={value}")
    def nontrivial(self):
        self.is_nontrivial = True
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n
    def used(self):
        return self.tape[:self.pos] if self.replay else self.tape
    def text(self):
        return " ".join(self.desc)

PROPS = {}
class Property:
    def __init__(self, fn, id, quick, thorough, case_seconds, tries):
        self.fn, self.id, self.quick, self.thorough, self.case_seconds, self.tries = fn, id, quick, thorough, case_seconds, tries
def prop(id, quick, thorough, case_seconds=20, tries=1):
    """`tries`: how many times a tape is run to see it fail again, when the outcome depends on the schedule."""
    def wrap(fn):
        PROPS[id] = Property(fn, id, quick, thorough, case_seconds, tries)
        return fn
    return wrap
def run_case(p, src):
    """0 ok, 1 fail (with Fail), 2 discard."""
    try:
        p.fn(src)
        return 0, None
    except Discard:
        return 2, None
    except Fail as e:
        return 1, e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{pathlib.Path(tb[-1].filename).name}:{tb[-1].lineno} in {tb[-1].name}"
        inner = next((f for f in reversed(tb) if "/qugar/" in f.filename), tb[-1])
        return 1, Fail(f"exception {type(e).__name__} in {inner.name}", f"unexpected {type(e).__name__}: {e} at {where}")
def case_seed(seed, c):
    return mix((seed * 0x100000001B3 + c * 7919 + mix(c)) & MASK)

def run_isolated(p, tape):
    """Runs one tape in a child: (rc, Fail, description, tape)."""
    for _ in range(p.tries):
        o = run_child(p, tape)
        if o[0] == 1:
            break
    return o
def run_child(p, tape):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(p.case_seconds)
            src = Src(tape=tape)
            rc, f = run_case(p, src)
            data = pickle.dumps((rc, f.sig if f else "", f.msg if f else "", src.text(), src.used()))
            with os.fdopen(w, "wb") as o:
                o.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    if data:
        try:
            rc, sig, msg, desc, used = pickle.loads(data)
            return rc, Fail(sig, msg), desc, used
        except Exception:
            pass
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
    if sig == signal.SIGALRM:
        return 1, Fail("hang", f"the case does not end within {p.case_seconds} s"), "", list(tape)
    return 1, Fail("crash", f"the code under test dies with signal {sig}"), "", list(tape)

def run_sequence(p, seed, cases):
    """Runs cases one after another in a child: (rc, Fail, description) of the last. For failures that need the state left by earlier cases."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(300)
            for c in cases[:-1]:
                run_case(p, Src(seed=case_seed(seed, c)))
            os.write(w, b"L")
            src = Src(seed=case_seed(seed, cases[-1]))
            rc, f = run_case(p, src)
            with os.fdopen(w, "wb") as o:
                o.write(pickle.dumps((rc, f.sig if f else "", f.msg if f else "", src.text())))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    if len(data) > 1:
        rc, sig, msg, desc = pickle.loads(data[1:])
        return rc, Fail(sig, msg), desc
    if data and os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGALRM:
        return 1, Fail("crash", f"the code under test dies with signal {os.WTERMSIG(st)}"), ""
    return 0, None, ""
def shrink_sequence(p, seed, cases, seconds):
    """A short sequence of cases whose last one fails, or None."""
    end = time.monotonic() + seconds
    for n in (0, 1, 8, 64, 512, len(cases)):
        o = run_sequence(p, seed, cases[max(0, len(cases) - 1 - n):])
        if o[0] == 1:
            cases = cases[max(0, len(cases) - 1 - n):]
            break
        if n >= len(cases) - 1 or time.monotonic() > end:
            return None
    step = max(1, (len(cases) - 1) // 2)
    while time.monotonic() < end:
        i, removed = 0, False
        while i < len(cases) - 1 and time.monotonic() < end:
            t = cases[:i] + cases[min(i + step, len(cases) - 1):]
            q = run_sequence(p, seed, t)
            if q[0] == 1 and q[1].sig == o[1].sig:
                cases, o, removed = t, q, True
            else:
                i += step
        if step == 1 and not removed:
            break
        step = max(1, step // 2)
    if sum(run_sequence(p, seed, cases)[0] == 1 for _ in range(3)) < 2:
        return None
    return cases, o
def shrink(p, best, seconds):
    end = time.monotonic() + seconds
    def attempt(t):
        nonlocal best
        if t == best[3] or time.monotonic() > end:
            return False
        o = run_isolated(p, t)
        if o[0] != 1 or o[1].sig != best[1].sig:
            return False
        used = o[3] if len(o[3]) <= len(t) else t
        best = (1, o[1], o[2] or best[2], used)
        return True
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        n = len(best[3]) // 2
        while n >= 1 and time.monotonic() < end:
            i = 0
            while i + n <= len(best[3]) and time.monotonic() < end:
                if attempt(best[3][:i] + best[3][i + n:]):
                    progress = True
                else:
                    i += n
            n //= 2
        i = 0
        while i < len(best[3]) and time.monotonic() < end:
            t = list(best[3])
            if t[i]:
                t[i] = 0
                if attempt(t):
                    progress = True
                else:
                    for b in range(40):
                        if i >= len(best[3]) or best[3][i] <= 1:
                            break
                        t = list(best[3])
                        t[i] -= max(1, t[i] >> (b // 2 + 1))
                        if attempt(t):
                            progress = True
            i += 1
    return best

def shard(p, k, shards, seed, cases, known, t0, max_s, page, out):
    done = discarded = nontrivial = unstable = 0
    seen, counts, samples, hit = set(), {}, [], set()
    res = {}
    c = k
    gc.collect()
    gc.freeze()
    while c < cases:
        now = time.monotonic()
        if now - t0 > max_s:
            break
        page[2 * k], page[2 * k + 1] = c, now
        src = Src(seed=case_seed(seed, c))
        rc, f = run_case(p, src)
        if rc == 1:
            if f.sig in known:
                hit.add(f.sig)
                done += 1
                c += shards
                continue
            o = run_isolated(p, src.used())
            if o[0] == 1 or unstable >= 2:
                # A failure that does not come back is noted, and believed when it is the third.
                res["fail"] = (f.sig, f.msg, src.text(), src.used(), c, o[0] != 1)
                break
            unstable += 1
            counts["failure that did not come back"] = unstable
        if rc == 2:
            discarded += 1
        else:
            done += 1
            for kk, n in src.counts.items():
                counts[kk] = counts.get(kk, 0) + n
            if src.is_nontrivial:
                nontrivial += 1
                seen.add(hash(src.text()))
                if len(samples) < 2:
                    samples.append(src.text()[:1200])
        c += shards
    res.update(done=done, discarded=discarded, nontrivial=nontrivial, distinct=len(seen), counts=counts, samples=samples, known=sorted(hit))
    tmp = out + ".tmp"
    with open(tmp, "wb") as o:
        pickle.dump(res, o)
    os.replace(tmp, out)
    os._exit(1 if "fail" in res else 0)

def main():
    args = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    p = PROPS.get(args.get("--prop", ""))
    if p is None:
        print("\n".join(PROPS))
        return 2
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if "--replay" in args:
        tape, seq = [], []
        for line in open(args["--replay"]):
            if line.startswith("sequence:"):
                seq = [int(x) for x in line[9:].split()]
            if line.startswith("tape:"):
                tape = [int(x) for x in line[5:].split()]
        rc, f, desc = run_sequence(p, seq[0], seq[1:]) if seq else run_isolated(p, tape)[:3]
        print(f"FAILS sig={f.sig}\n{f.msg}\n{desc}" if rc == 1 else "does not fail")
        return 1 if rc == 1 else 0
    seed = int(args.get("--seed", "1"))
    thorough = args.get("--tier", "quick") == "thorough"
    cases = int(args.get("--cases", p.thorough if thorough else p.quick))
    shards = int(args.get("--shards", "8"))
    max_s = float(args.get("--max-seconds", "3000" if thorough else "400"))
    known = set(filter(None, args.get("--known", "").split(",")))
    t0 = time.monotonic()
    page = memoryview(mmap.mmap(-1, 16 * shards)).cast("d")
    failing, crash = None, ""
    results = {}
    with tempfile.TemporaryDirectory(prefix="verif_pbt_") as tmp:
        pids = {}
        for k in range(shards):
            page[2 * k], page[2 * k + 1] = -1, time.monotonic()
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if "--verbose" not in args:
                        os.dup2(dn, 2)
                    shard(p, k, shards, seed, cases, known, t0, max_s, page, f"{tmp}/{k}")
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(9)
            pids[pid] = k
        live = dict(pids)
        while live and failing is None:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in live:
                k = live.pop(pid)
                if st != 0:
                    failing = k
                    if not os.path.exists(f"{tmp}/{k}"):
                        crash = "crash"
                continue
            for q, k in live.items():
                c, start = page[2 * k], page[2 * k + 1]
                if time.monotonic() - start > 2 * p.case_seconds + 20:
                    failing, crash = k, "hang"
            time.sleep(0.005)
        for q in live:
            try:
                os.kill(q, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for q in live:
            try:
                os.waitpid(q, 0)
            except ChildProcessError:
                pass
        for k in range(shards):
            if os.path.exists(f"{tmp}/{k}"):
                with open(f"{tmp}/{k}", "rb") as f:
                    results[k] = pickle.load(f)
        tot = dict(done=0, discarded=0, nontrivial=0, distinct=0)
        counts, samples, hit = {}, [], set()
        for k in sorted(results):
            for kk in tot:
                tot[kk] += results[k][kk]
            for kk, n in results[k]["counts"].items():
                counts[kk] = counts.get(kk, 0) + n
            samples += results[k]["samples"]
            hit |= set(results[k]["known"])
        rc, violation = 0, None
        if failing is not None:
            if failing in results and "fail" in results[failing]:
                sig, msg, desc, tape, c, unstable = results[failing]["fail"]
                o = (1, Fail(sig, msg), desc, tape)
            else:
                c, unstable = int(page[2 * failing]), False
                tape_file = f"{tmp}/tape"
                # Rerun the crashed case from its seed with a tape that is stored as it grows.
                fd = os.open(tape_file, os.O_CREAT | os.O_RDWR)
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.alarm(p.case_seconds)
                        class Rec(Src):
                            def raw(self, n):
                                v = super().raw(n)
                                os.write(fd, struct.pack("Q", v))
                                return v
                        if c >= 0:
                            run_case(p, Rec(seed=case_seed(seed, c)))
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                data = open(tape_file, "rb").read()
                tape = list(struct.unpack(f"{len(data) // 8}Q", data[:len(data) // 8 * 8]))
                o = run_isolated(p, tape)
            # Confirm, shrink, confirm three times; a failure that needs the state of earlier cases is replayed as a sequence of cases.
            replay = None
            first = run_isolated(p, o[3])
            if first[0] == 1:
                o = (1, first[1], first[2] or o[2], o[3])
                for best in (shrink(p, o, 120 if thorough else 40), o):
                    if sum(run_isolated(p, best[3])[0] == 1 for _ in range(3)) == 3:
                        o, replay = best, f"tape: {' '.join(map(str, best[3]))}"
                        break
            elif crash != "hang" and c >= 0:
                found = shrink_sequence(p, seed, list(range(failing, c + 1, shards)), 120 if thorough else 60)
                if found:
                    cs, q = found
                    o, replay = (1, q[1], f"the last of the cases {cs} of seed {seed}: {q[2]}", []), f"sequence: {seed} {' '.join(map(str, cs))}"
            if replay is None and (unstable or first[0] == 1):
                replay = f"tape: {' '.join(map(str, o[3]))}"
            if replay is None:
                print(f"failure not reproducible ({crash or 'case'} {c}): {o[1] and o[1].sig} {o[1] and o[1].msg}", file=sys.stderr)
                return 3
            path = f"{args.get('--replay-dir', '.')}/{p.id}.replay"
            pathlib.Path(path).write_text(f"property: {p.id}\nsignature: {o[1].sig}\nmessage: {o[1].msg}\ncase: {o[2]}\n{replay}\n")
            violation = dict(sig=o[1].sig, message=o[1].msg[:4000], case=o[2][:8000], replay=path)
            rc = 1
    print(json.dumps(dict(property=p.id, evaluations=tot["done"], discarded=tot["discarded"], nontrivial=tot["nontrivial"], distinct_nontrivial=tot["distinct"],
                          planned=cases, wall_s=round(time.monotonic() - t0, 2), counts=counts, samples=samples[:8], known=sorted(hit), violation=violation)))
    return rc
