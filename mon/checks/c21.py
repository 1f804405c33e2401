"""C21: stored configurations survive serialisation unchanged."""
import collections, copy, io, json, os, pickle, shelve, shutil, subprocess, sys, tempfile
from mon.checks.common import *
from mon.core import Violation, VERIF
from mon.checks import policy, c16
from mon.gen import caf
from mon.gen.ios import Ios
from mon import refs, report

ID = "C21"
RULE = "distinct (dialect, way of storing, state of the configuration when stored, what it contains)"
SUT = "acltk."


def cases(tier, rng):
    n = 700 if tier == "quick" else 4000
    m = 4 if tier == "quick" else 60
    return [["process", i] for i in range(m)] + [["copy", i] for i in range(n)]


def through_shelf(x, mon):
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        with shelve.open(os.path.join(d, "db")) as db:
            db["configuration"] = x
        with shelve.open(os.path.join(d, "db")) as db:
            return db["configuration"]
    finally:
        shutil.rmtree(d)


def python_pickle(x, p):
    f = io.BytesIO()
    pickle._Pickler(f, p).dump(x)
    return pickle._loads(f.getvalue())


WAYS = [("pickle %d" % p, lambda x, mon, p=p: pickle.loads(pickle.dumps(x, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
WAYS += [("pickle by python", lambda x, mon: python_pickle(x, 4)), ("pickle twice", lambda x, mon: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))),
         ("shelf", through_shelf), ("deepcopy", lambda x, mon: copy.deepcopy(x)), ("deepcopy", lambda x, mon: copy.deepcopy(x)), ("deepcopy of a pickle", lambda x, mon: copy.deepcopy(pickle.loads(pickle.dumps(x))))]


def mutables(x):
    """id -> path of the containers and objects of the code under test that hang on x"""
    seen, out, todo, keep = set(), {}, collections.deque([(x, "")]), []
    while todo:
        o, path = todo.popleft()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, bool, type(None), type)) or callable(o) and not hasattr(o, "__dict__"):
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            out[id(o)] = path or "the whole"
            todo += [(v, f"{path}[{k!r}]"[-160:]) for k, v in o.items()]
        elif isinstance(o, (list, set, tuple, frozenset, collections.deque)):
            if isinstance(o, (list, set, collections.deque)):
                out[id(o)] = path or "the whole"
            todo += [(v, f"{path}[{i}]"[-160:]) for i, v in enumerate(o)]
        elif type(o).__module__.startswith(SUT):
            d = dict(getattr(o, "__dict__", {}))
            for c in type(o).__mro__:
                s = c.__dict__.get("__slots__", ())
                for a in (s,) if isinstance(s, str) else s:
                    if hasattr(o, a):
                        d[a] = getattr(o, a)
            # an object that holds nothing cannot carry state from one configuration to the other
            if any(isinstance(v, (list, dict, set)) for v in d.values()) or isinstance(o, (O.ACLRule, O.NATObject, O.Interface)):
                out[id(o)] = path or "the whole"
            todo += [(v, f"{path}.{a}"[-160:]) for a, v in d.items()]
    return out


def alike(mon, a, b, way, text):
    """both sides are made of the same kinds of objects and containers, attribute by attribute"""
    seen, todo, n = set(), collections.deque([(a, b, "")]), 0

    def bad(path, why):
        raise Violation("structure", f"{way}: {path.strip('.') or 'the whole'} of the copy: {why}", text=text)
    while todo:
        x, y, path = todo.popleft()
        if (id(x), id(y)) in seen:
            continue
        seen.add((id(x), id(y)))
        n += 1
        if type(x) is not type(y):
            bad(path, f"{type(y).__qualname__} instead of {type(x).__qualname__}")
        if isinstance(x, dict):
            if list(x) != list(y):
                bad(path, f"keys {list(y)[:9]} instead of {list(x)[:9]}")
            if isinstance(x, collections.defaultdict) and x.default_factory is not y.default_factory:
                bad(path, "another value for keys not there")
            todo += [(x[k], y[k], f"{path}[{k!r}]"[-160:]) for k in x]
        elif isinstance(x, (list, tuple, collections.deque)):
            if len(x) != len(y):
                bad(path, f"{len(y)} elements instead of {len(x)}")
            todo += [(v, w, f"{path}[{i}]"[-160:]) for i, (v, w) in enumerate(zip(x, y))]
        elif isinstance(x, (set, frozenset)):
            if len(x) != len(y):
                bad(path, f"{len(y)} elements instead of {len(x)}")
        elif type(x).__module__.startswith(SUT):
            d, e = getattr(x, "__dict__", {}), getattr(y, "__dict__", {})
            # what is marked as internal, or empty, need not be stored
            for k, v in d.items():
                if k in e:
                    if not k.startswith("_"):
                        todo.append((v, e[k], f"{path}.{k}"[-160:]))
                elif not k.startswith("_") and v:
                    bad(f"{path}.{k}", "missing")
    mon.counts["comparisons"] += 1
    mon.obs("containers and objects compared in kind", n)


def shares(mon, a, b, way, text):
    x, y = mutables(a), mutables(b)
    mon.counts["comparisons"] += 1
    mon.obs("containers and objects compared for sharing", len(y))
    both = [y[i] for i in y if i in x]
    if both:
        raise Violation("shared", f"{way}: the copy shares {both[0].strip('.')} and {len(both) - 1} more containers or objects with the original", text=text)


def answers(mon, conf, filters, blocks):
    out = {}
    for f, b in zip(filters, blocks):
        for kind in ("filter", "run", "resolve", "render filtered"):
            out[kind + " " + f] = c16.answer(mon, conf, (kind, f, b))
    out["resolve all"] = c16.answer(mon, conf, ("resolve all", "", None))
    out["render"] = c16.answer(mon, conf, ("render", "", None))
    out["expanded copy"] = c16.answer(mon, conf, ("expanded copy", "", None))
    out["repr"] = c16.answer(mon, conf, ("repr", "", None))
    out["attributes"] = {k: str(getattr(conf, k, None)) for k in ("name", "hostname", "domainname", "timestamp", "version")}
    out["class"] = type(conf).__name__
    for f, b in zip(filters, blocks):
        out["shown " + f] = repr(b)
    return out


def use_up(mon, rng, conf):
    """change a configuration in every way there is"""
    mon.call(conf.expand)
    for tab in refs.tables(conf).values():
        for g in list(tab.values()):
            for m in ("sort", "collapse"):
                if hasattr(g, m):
                    mon.call(getattr(g, m))
            for a in ("objects", "addresses"):
                if isinstance(getattr(g, a, None), list):
                    getattr(g, a).reverse()
                    if rng.random() < 0.5:
                        getattr(g, a).clear()
            g.description = "changed"
        if rng.random() < 0.3:
            tab.clear()
    for r in conf.rules.rules:
        r.id, r.mode = "changed", "changed"
        if isinstance(r.remark, list):
            r.remark.append("changed")
        for h in (r.src.host, r.dst.host):
            for a in ("address", "network", "name"):
                if a in getattr(h, "__dict__", {}):
                    mon.call(setattr, h, a, "changed")
        for v in list(r.options.values()):
            if isinstance(getattr(v, "options", None), list):
                v.options.append("changed")
        r.options["changed"] = True
    for i in conf.interfaces.values():
        i.description = "changed"
        i.addresses.clear()
        i.access_groups.clear()
        for r in i.routes:
            r.gw = "changed"
        i.routes.clear()
    if isinstance(getattr(conf, "routes", None), list):
        conf.routes.reverse()
        conf.routes.clear()
    for l in conf.nat.values():
        for n in l:
            n.options["changed"] = True
            n.real.src = None
        l.reverse()
    for n in conf.names.objects:
        n.hostname = "changed"
    conf.rules.rules.reverse()
    conf.names.objects.clear()
    conf.access_groups.clear()
    conf.hostname = "changed"


def make(mon, rng):
    if rng.random() < 0.25:
        from mon.checks import c18
        p = c18.build(mon, rng)
        return p and ({"fwsmConfig": "asa", "iosConfig": "ios"}.get(p[1].__name__, "pfs"), *p)
    if rng.random() < 0.15:
        # interfaces and the routes that leave through them
        t = Ios(rng, family=family(rng)).build(size=rng.choice([6, 12, 20]), weights={"interface": 6, "route": 8}).text()
        o = mon.call(iosConfig.fromString, t)
        if not o.ok:
            mon.obs("skipped: configuration rejected (other properties)")
            return None
        return "ios", t, iosConfig, o.value
    return policy.load(mon, rng, size=rng.choice([3, 6, 12]), nat=rng.random() < 0.5, nrules=rng.choice([3, 8]))


def run_case(spec, rng, mon):
    if spec[0] == "process":
        return other_process(rng, mon)
    p = make(mon, rng)
    if p is None:
        return
    d, text, cls, conf = p
    sn = snapshot(mon, conf)
    prof = caf.Profile(sn, rng)
    filters = [caf.plain([prof.term(rng)] if rng.random() < 0.4 else caf.expression(rng, prof, rng.choice([2, 5]))) for _ in range(2)]
    blocks = [mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f) for f in filters]
    # what the configuration went through before it is stored
    state = rng.choice(["parsed", "parsed", "parsed", "queried", "expanded", "sorted"])
    if state == "queried":
        answers(mon, conf, filters, blocks)
    elif state == "expanded":
        mon.call(conf.expand)
    elif state == "sorted":
        for g in conf.groups.network.values():
            mon.call(g.sort)
    sn = snapshot(mon, conf)
    want = None
    for way, store in rng.sample(WAYS, 3):
        twin = mon.must("store", f"{way} of a {d} configuration failed", store, conf, mon)
        mon.equal("content", f"{way}: the {d} configuration before and after", sn, snapshot(mon, twin), text=text)
        mon.equal("order", f"{way}: order of the definitions", order(conf), order(twin), text=text)
        mon.equal("changed", f"{way}: the original before and after it was stored", sn, snapshot(mon, conf), text=text)
        alike(mon, conf, twin, way, text)
        shares(mon, conf, twin, way, text)
        fs = []
        for f, b in zip(filters, blocks):
            c = mon.must("store-filter", f"{way} of the filter {f!r} failed", store, b, mon)
            alike(mon, b, c, way, f)
            shares(mon, b, c, way, f)
            fs.append(c)
        # together they keep belonging together
        if want is None:
            want = answers(mon, conf, filters, blocks)
        mon.equal("answers", f"{way}: answers of the original and of the copy", want, answers(mon, twin, filters, fs), text=text, filters=filters)
        mon.obs("copies by " + way)
        mon.obs("filters copied", len(filters))
        mon.nontrivial(d, way, state, tuple(sorted(k for k, v in sn.items() if v and not isinstance(v, str))))
        a, b = (conf, twin) if rng.random() < 0.5 else (twin, conf)
        use_up(mon, rng, a)
        mon.equal("affected", f"{way}: {'the copy after changing the original' if a is conf else 'the original after changing the copy'}", sn, snapshot(mon, b), text=text)
        mon.equal("affected", f"{way}: answers of {'the copy after changing the original' if a is conf else 'the original after changing the copy'}", want, answers(mon, b, filters, blocks), text=text)
        conf = b
    # stored next to each other, a selection of rules keeps pointing into the configuration
    sel = mon.must("filter-error", "a filter failed", conf.filter, blocks[0])
    c2, s2, b2 = mon.must("store", "pickling a configuration with a selection failed", lambda: pickle.loads(pickle.dumps((conf, sel, blocks[0]))))
    mon.equal("selection", f"the selection of {filters[0]!r} stored along with its configuration", place(conf, sel), place(c2, s2), text=text)
    mon.sample(text[:800])


def order(conf):
    return {k: list(t) for k, t in refs.tables(conf).items()} | {"interfaces": list(conf.interfaces), "access_groups": list(conf.access_groups)}


def place(conf, sel):
    ids = {id(r): ("rule", i) for i, r in enumerate(conf.rules.rules)}
    ids.update({id(n): ("nat", k, i) for k in (1, 2, 3) for i, n in enumerate(conf.nat[k])})
    return sorted(repr(ids.get(id(x))) for x in sel)


# ---------------------------------------------------------------- a store that another process reads
def other_process(rng, mon):
    stored, want = [], []
    while len(stored) < 8:
        p = make(mon, rng)
        if p is None:
            continue
        d, text, cls, conf = p
        sn = snapshot(mon, conf)
        prof = caf.Profile(sn, rng)
        filters = [caf.plain(caf.expression(rng, prof, rng.choice([1, 4]))) for _ in range(2)]
        blocks = [mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f) for f in filters]
        want.append((d, text, filters, answers(mon, conf, filters, blocks), sn))
        stored.append((conf, filters, blocks))
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        with open(os.path.join(d, "stored"), "wb") as f:
            f.write(mon.must("store", "pickling failed", pickle.dumps, stored))
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 4294967295)))
        p = subprocess.run([sys.executable, "-s", "-m", "mon.checks.c21", os.path.join(d, "stored"), os.path.join(d, "answers")], cwd=VERIF, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=600)
        if p.returncode == 3:
            raise Violation("load", f"another process cannot read what was stored: {p.stderr[-300:]}", text=want[0][1])
        if p.returncode:
            raise RuntimeError(p.stderr[-800:])
        with open(os.path.join(d, "answers"), "rb") as f:
            got = pickle.load(f)
    finally:
        shutil.rmtree(d)
    for (dia, text, filters, w, sn), (g, s) in zip(want, got):
        mon.equal("process-content", f"a stored {dia} configuration in another process", sn, s, text=text)
        # the spelling of a set depends on the hash seed
        mon.equal("process-answers", f"answers of a stored {dia} configuration in another process", w, g, text=text, filters=filters)
        mon.obs("configurations read by another process")
        mon.nontrivial(dia, "process", tuple(filters))


def main():
    from mon.core import Monitor
    sys.setrecursionlimit(3000)
    mon = Monitor(0)
    try:
        stored = pickle.load(open(sys.argv[1], "rb"))
    except Exception as e:
        sys.stderr.write(repr(e))
        sys.exit(3)
    out = [(answers(mon, c, fs, bs), snap.config(c)) for c, fs, bs in stored]
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
