"""Runner and monitor: executes cases against the real code in forked workers, watches the results.

Verdicts: exit 0 held on what was observed, exit 1 violation(s) with replay files, exit 2 the machinery
itself failed or observed (almost) nothing -- never folded into one of the others.
"""
import collections, glob, hashlib, json, os, pickle, random, re, resource, select, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(1, min(8, os.cpu_count() or 1))
MEM = 3 << 30


class Hang(BaseException):
    """CPU watchdog: a call into the code under test gave no result."""


class Violation(Exception):
    def __init__(self, mech, msg, **data):
        super().__init__(mech, msg)
        self.mech, self.msg, self.data = mech, msg, data


class Inconclusive(Exception):
    pass


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return "ok" if self.ok else f"raised {describe(self.exc)}"


def describe(e):
    s = str(e).strip().split("\n")[0][:160]
    return f"{type(e).__name__}: {s}"


class Monitor:
    """Collects what was observed; one per worker, merged by the parent."""

    def __init__(self, cpu_limit):
        self.cpu_limit = cpu_limit
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []     # (mech, msg, spec, data)
        self.spec = None
        self.evals = 0
        self.in_sut = 0

    # --- execution of the code under test
    def call(self, fn, *a, **k):
        """Run code under test; every exception is an outcome, not an error of the check."""
        self.counts["sut calls"] += 1
        self.in_sut += 1
        try:
            return Outcome(True, fn(*a, **k))
        except Exception as e:
            e.__traceback__ = None
            return Outcome(False, exc=e)
        except SystemExit as e:
            return Outcome(False, exc=e)
        finally:
            self.in_sut -= 1

    def must(self, mech, what, fn, *a, **k):
        """Run code under test where an exception is itself a violation."""
        o = self.call(fn, *a, **k)
        if not o.ok:
            raise Violation(mech, f"{what}: {describe(o.exc)}", exception=repr(o.exc)[:500], **({"text": a[0]} if a and isinstance(a[0], str) else {}))
        return o.value

    # --- observations
    def obs(self, name, n=1):
        self.counts[name] += n

    def nontrivial(self, *key):
        self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, s, limit=1500):
        if len(self.samples) < 3:
            s = s if isinstance(s, str) else json.dumps(s, default=str)
            self.samples.append(s[:limit])

    def violation(self, mech, msg, **data):
        if sum(v[0] == mech for v in self.violations) < 25:
            self.violations.append((mech, msg, self.spec, data))

    def equal(self, mech, what, want, got, **data):
        """One evaluation of the oracle."""
        self.counts["comparisons"] += 1
        if want != got:
            d = diff(want, got)
            raise Violation(mech, f"{what}: {d}", expected=short(want), observed=short(got), **data)


def short(x, n=3000):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


def diff(a, b, path=""):
    """First difference of two plain structures."""
    if type(a) is type(b) and isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a:
                return f"{path}[{k!r}] unexpected: {short(b[k], 300)}"
            if k not in b:
                return f"{path}[{k!r}] missing, expected {short(a[k], 300)}"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}[{k!r}]")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
        if len(a) != len(b):
            n = min(len(a), len(b))
            return f"{path} length {len(b)} instead of {len(a)}; first extra/missing: {short((a if len(a) > n else b)[n], 300)}"
    return f"{path}: expected {short(a, 400)} observed {short(b, 400)}"


def rng_for(seed, pid, spec):
    return random.Random(f"{seed}|{pid}|{json.dumps(spec)}")


def _on_alarm(signum, frame):
    raise Hang()


def run_one(check, mon, spec, seed):
    """One case: returns nothing, records into the monitor."""
    mon.spec = spec
    mon.evals += 1
    signal.setitimer(signal.ITIMER_VIRTUAL, mon.cpu_limit, 1.0)
    try:
        check.run_case(spec, rng_for(seed, check.ID, spec), mon)
    except Violation as v:
        mon.violation(v.mech, v.msg, **v.data)
    except Hang:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if mon.in_sut:
            mon.in_sut = 0
            mon.violation("no-result", f"no result after {mon.cpu_limit} s of CPU time")
        else:
            raise Inconclusive(f"the oracle took more than {mon.cpu_limit} s of CPU time on {spec}")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def worker(check, specs, idx, seed, deadline, cpu_limit, wfd):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    out = os.open(os.devnull, os.O_WRONLY)
    os.dup2(out, 1)
    mon = Monitor(cpu_limit)
    err = None
    skipped = 0
    try:
        for spec in specs[idx::NPROC]:
            if time.time() > deadline:
                skipped += 1
                continue
            try:
                run_one(check, mon, spec, seed)
            except (Exception, Hang):
                err = err or f"case {mon.spec}: " + traceback.format_exc()
            if len(mon.violations) > 200:
                break
    except BaseException:
        err = f"case {mon.spec}: " + traceback.format_exc()
    res = dict(counts=mon.counts, distinct=mon.distinct, samples=mon.samples, violations=mon.violations,
               evals=mon.evals, err=err, skipped=skipped)
    try:
        blob = pickle.dumps(res)
    except Exception:
        res["violations"] = [(m, t, s, {k: short(v) for k, v in d.items()}) for m, t, s, d in mon.violations]
        blob = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(blob)
    os._exit(0)


def run_all(check, specs, seed, wall, cpu_limit):
    deadline = time.time() + wall
    procs = []
    sys.stdout.flush()
    for i in range(NPROC):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _ in procs:
                os.close(rr)
            worker(check, specs, i, seed, deadline, cpu_limit, w)
        os.close(w)
        procs.append((r, pid))
    results, errs = [], []
    buf = {r: b"" for r, _ in procs}
    open_ = set(buf)
    while open_ and time.time() < deadline + 120:
        for r in select.select(list(open_), [], [], 1)[0]:
            b = os.read(r, 1 << 20)
            if b:
                buf[r] += b
            else:
                open_.discard(r)
    for r, pid in procs:
        if r in open_:
            os.kill(pid, signal.SIGKILL)
            errs.append("a worker did not end (wall clock guard)")
        os.waitpid(pid, 0)
        os.close(r)
        if buf[r] and r not in open_:
            results.append(pickle.loads(buf[r]))
        elif r not in open_:
            errs.append("a worker died")
    return results, errs


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """{mechanism: text} of the findings recorded as known (never written at run time)."""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) mech=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def main(check, argv):
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    replay = None
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
        else:
            print("unknown argument", a)
            return 2
    t0 = time.time()
    if not replay:
        for f in glob.glob(os.path.join(VERIF, "replays", check.ID, "*.json")):
            os.unlink(f)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if replay:
        rec = json.load(open(replay))
        specs, seed, tier = [rec["spec"]], rec["seed"], rec["tier"]
    else:
        specs = list(check.cases(tier, random.Random(f"{seed}|{check.ID}|cases")))
    # spread cheap and expensive kinds over the workers, independent of timing
    random.Random(f"{seed}|order").shuffle(specs)
    wall = float(os.environ.get("VERIF_WALL") or getattr(check, "WALL", {}).get(tier, 300 if tier == "quick" else 660))
    cpu = getattr(check, "CPU_LIMIT", 60)
    if hasattr(check, "prepare"):
        check.prepare(tier)
    try:
        results, errs = run_all(check, specs, seed, wall, cpu)
    finally:
        if hasattr(check, "cleanup"):
            check.cleanup()
    counts, distinct, samples, viol = collections.Counter(), set(), [], []
    evals = skipped = 0
    for r in results:
        counts.update(r["counts"])
        distinct |= r["distinct"]
        samples += r["samples"][:1]
        viol += r["violations"]
        evals += r["evals"]
        skipped += r["skipped"]
        if r["err"]:
            errs.append(r["err"])
    known = known_findings(check.ID)
    new, hit = {}, {}
    for mech, msg, spec, data in viol:
        (hit if mech in known else new).setdefault(mech, []).append((msg, spec, data))
    for mech in sorted(known):
        if mech in hit:
            print(f"KNOWN-FINDING: property={check.ID} {known[mech]}")
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(distinct),
        "rule": check.RULE,
        "samples": samples[:3] or ["(none)"],
        "observed": dict(sorted(counts.items())),
        "cases_planned": len(specs),
        "cases_not_run_for_time": skipped,
    }
    ev = {"property": check.ID, "tier": tier, "seed": seed, "level": getattr(check, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": list(getattr(check, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": sum(map(len, new.values()))}
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{check.ID} {tier} seed={seed}: {evals} evaluations of {len(specs)}, {len(distinct)} distinct non-trivial, "
          f"{counts['comparisons']} comparisons, {ev['wall_s']} s")
    if new:
        rdir = os.path.join(VERIF, "replays", check.ID)
        os.makedirs(rdir, exist_ok=True)
        for n, (mech, l) in enumerate(sorted(new.items(), key=lambda kv: -len(kv[1]))):
            msg, spec, data = min(l, key=lambda t: len(repr(t[2])))
            path = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]", "_", mech)[:60] + ".json")
            with open(path, "w") as f:
                json.dump({"property": check.ID, "mech": mech, "message": msg, "spec": spec, "seed": seed, "tier": tier,
                           "data": data, "occurrences": len(l),
                           "run": f"./check {check.ID} --replay {path}"}, f, indent=1, default=str)
            if n < 8:
                print(f"VIOLATION property={check.ID} replay={path}")
                print(f"  {mech} ({len(l)}x): {msg[:600]}")
        return 1
    if errs:
        print("ERROR", errs[0])
        return 2
    if not replay and (evals < min(len(specs), 20) or counts["comparisons"] == 0 or len(distinct) < getattr(check, "MIN_DISTINCT", 2)):
        print("INCONCLUSIVE: the monitor observed too little")
        return 2
    return 0
