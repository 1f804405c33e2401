"""C25: filters assembled from rule objects, and the shipped example programs."""
import ipaddress, os, re, shutil, subprocess, sys, tempfile
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy, c11
from mon.gen import caf
from mon import addr, refs, report, load

ID = "C25"
RULE = "distinct (kinds of source and destination of the target, form of its name, kinds of rule addresses met, verdict), and runs of example programs by options"
ASSUMPTIONS = ["not judged: rules on URL objects or fully qualified names against addresses, empty groups against any"]
CPU_LIMIT = 120


def cases(tier, rng):
    n = 1800 if tier == "quick" else 14000
    m = 8 if tier == "quick" else 120
    return [["program", i] for i in range(m)] + [["web", i] for i in range(m // 2)] + [["target", i] for i in range(n)]


def side(rng, pool, sn, conf):
    """(object, address set, kind): something a rule can hold"""
    k = rng.random()
    if k < 0.3:
        return O.NetworkAny(), addr.of_canon(("any",)), "any"
    if k < 0.45 and sn["netgrp"]:
        n = rng.choice(sorted(sn["netgrp"]))
        return conf.groups.network[n], ("canon", ("netgrp", n)), "own group"
    if k < 0.55 and sn["netobj"]:
        n = rng.choice(sorted(sn["netobj"]))
        return conf.objects.network[n], ("canon", ("netobj", n)), "own object"
    o, A, kind, _ = c11.expr(rng, pool, rng.choice([0, 0, 1, 2]))
    return o, A, kind


def address(A, sn):
    if A[0] == "canon":
        caf.check_fqdn(A[1], sn)
        return addr.of_canon(A[1], sn)
    return A


def meets(A, a, sn, anything):
    """None: not judged"""
    try:
        caf.check_fqdn(a, sn)
        B = addr.of_canon(a, sn)
        A = address(A, sn)
    except addr.Unjudged:
        # plain any matches every address, known or not
        return True if anything and a[0] != "url" else None
    if (addr.empty(A) or addr.empty(B)) and (A[1] or B[1]):
        return None
    return addr.intersects(A, B)


def shape(x):
    """what a target consists of"""
    if isinstance(x, (list, tuple)):
        return [shape(y) for y in x]
    if type(x).__module__.startswith("acltk"):
        return type(x).__name__, [(k, shape(v)) for k, v in sorted(vars(x).items()) if k not in ("parent",)]
    return repr(x)


def twins(rng, mon, prof, pool, targets, about):
    """targets that look alike: objects and groups of one name with different members"""
    name = prof.id(rng) if rng.random() < 0.3 else None
    dst = rng.random() < 0.5
    for _ in range(rng.choice([2, 2, 3])):
        if rng.random() < 0.5:
            a = c11.near(rng, pool, 4)
            o, A = O.NetworkObject("twin", None, type="host", address=ipaddress.ip_address(a)), addr.of_canon(c11.c_host(a))
        else:
            o, A = O.NetworkGroup("twin", None), ([], False)
            for _ in range(rng.choice([1, 2])):
                a = c11.near(rng, pool, rng.choice([4, 4, 6]))
                o.add(O.NetworkHost(a))
                A = (A[0] + addr.of_canon(c11.c_host(a))[0], False)
        any_ = (O.NetworkAny(), addr.of_canon(("any",)))
        (so, S), (do, D) = (any_, (o, A)) if dst else ((o, A), any_)
        targets.append(mon.must("target", "a filter rule was refused", lambda: O.ACLRule(id=name, src=O.ACLNode(so), dst=O.ACLNode(do))))
        about.append((name, S, D, "any" if dst else "twin", "twin" if dst else "any"))


def run_case(spec, rng, mon):
    if spec[0] == "program":
        return program(spec, rng, mon)
    if spec[0] == "web":
        return web(rng, mon)
    p = policy.load(mon, rng, size=rng.choice([4, 10]))
    if p is None:
        return
    d, text, cls, conf = p
    sn = snapshot(mon, conf)
    prof = caf.Profile(sn, rng)
    n4 = [int(x.network_address) for x in prof.nets if x.version == 4] + [0x0a000001]
    n6 = [int(x.network_address) for x in prof.nets if x.version == 6] + [1 << 120]
    rules = conf.rules.rules
    for _ in range(6):
        pool = {4: rng.sample(n4, min(len(n4), 3)), 6: rng.sample(n6, min(len(n6), 3))}
        targets, about = [], []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            name = prof.id(rng) if rng.random() < 0.6 else None
            if name and rng.random() < 0.1:
                # one slash makes no pattern
                n = rng.choice(rules).id if rules else name
                name = rng.choice([n + "/", "/" + n, n[:-1] + "*/", "/*" + n[1:]]) if n else name
            if rules and rng.random() < 0.2:
                # a rule of the configuration is a target as well: what overlaps it
                i = rng.randrange(len(rules))
                r = sn["rules"][i]
                targets.append(rules[i])
                about.append((r["id"], ("canon", r["src"]), ("canon", r["dst"]), "own rule", "own rule"))
                continue
            (so, S, sk), (do, D, dk) = side(rng, pool, sn, conf), side(rng, pool, sn, conf)
            kw = {}
            if rng.random() < 0.3:
                kw = {"mode": "permit", "protocol": O.Protocol("tcp")}      # a filter looks at name and addresses only
            targets.append(mon.must("target", "a filter rule was refused", lambda: O.ACLRule(id=name, src=O.ACLNode(so, O.Port("eq", 80) if kw else None), dst=O.ACLNode(do), **kw)))
            about.append((name, S, D, sk, dk))
        if rng.random() < 0.2:
            twins(rng, mon, prof, pool, targets, about)
        order = rng.sample(range(len(targets)), len(targets))
        targets, about = [targets[i] for i in order], [about[i] for i in order]
        given, was = list(targets), [shape(t) for t in targets]
        got = mon.must("filter-error", f"filtering by {targets!r} failed", conf.rules.filter, targets)
        if len(given) != len(targets) or any(a is not b for a, b in zip(given, targets)):
            raise Violation("targets-changed", f"the list of targets was {given!r}, after filtering it is {targets!r}", text=text)
        mon.equal("targets-changed", f"the targets after filtering", was, [shape(t) for t in targets], text=text)
        place = {id(r): i for i, r in enumerate(rules)}
        found = mon.must("filter-result", "the result cannot be read", lambda: sorted(place.get(id(r), -1) for r in got))
        if -1 in found:
            raise Violation("foreign", "the selection holds something that is no rule of the configuration", text=text)
        want, unj = [], set()
        for i, r in enumerate(sn["rules"]):
            vs = []
            for name, S, D, sk, dk in about:
                v = [caf.id_matches(name, r["id"]), meets(S, r["src"], sn, sk == "any"), meets(D, r["dst"], sn, dk == "any")]
                v = False if False in v else None if None in v else True
                vs.append(v)
                mon.nontrivial(sk, dk, name and (name[0] == name[-1] == "/"), r["src"][0], r["dst"][0], v)
            if True in vs:
                want.append(i)
            elif None in vs:
                unj.add(i)
        mon.obs("rules not judged", len(unj))
        mon.obs("rules selected", len(want))
        mon.obs("rules passed over", len(rules) - len(want) - len(unj))
        mon.obs("filters of %d targets" % len(targets))
        mon.equal("target", f"rules selected by {targets!r}", [i for i in want if i not in unj], [i for i in found if i not in unj], text=text)
    mon.equal("changed", "the configuration after filtering", sn, snapshot(mon, conf), text=text)
    mon.sample(repr(targets) + "\n" + text[:800])


# ---------------------------------------------------------------- example programs
STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?")


def program(spec, rng, mon):
    for _ in range(20):
        p = policy.load(mon, rng, dialects=("asa", "asa", "pfs"), size=rng.choice([5, 10]), nat=rng.random() < 0.4, nrules=rng.choice([5, 12]))
        if p and "urltable" not in p[1]:
            break
    else:
        return
    d, text, cls, conf = p
    sn = snapshot(mon, conf)
    prof = caf.Profile(sn, rng)
    f = caf.plain([prof.term(rng)] if rng.random() < 0.5 else caf.expression(rng, prof, 3))
    block = mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f)
    dirname = tempfile.mkdtemp(prefix="c25-")
    ex = os.path.join(load.REPO, "examples")
    env = dict(os.environ, PYTHONPATH=load.LIB, PYTHONUTF8="1", PYTHONHASHSEED=str(rng.randint(0, 1 << 31)))

    def run(cwd, *a):
        mon.counts["sut calls"] += 1
        r = subprocess.run([sys.executable, "-s", *a], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        err = r.stderr.decode("utf-8", "replace")
        if r.returncode:
            mech = "acl-filter-keywords" if "acl-filter" in a[0] and "source=ACLNode" in err else "error-" + os.path.basename(a[0]).removesuffix(".py")
            raise Violation(mech, f"{os.path.basename(a[0])} {a[1:]} failed: {err.strip()[-300:]}", text=text, filter=f)
        return r.stdout.decode("utf-8").rstrip("\n")
    try:
        acls, ff, out = (os.path.join(dirname, x) for x in ("config", "filter.caf", "page.html"))
        with open(acls, "w", encoding="utf-8") as h:
            h.write(text)
        with open(ff, "w", encoding="utf-8") as h:
            h.write(f)
        which = ["caf-filter", "static", "acl-filter", "static"][spec[1] % 4]
        if which == "caf-filter":
            sel = mon.must("filter-error", "a filter failed", block.run, conf.rules)
            got = run(ex, os.path.join(ex, "caf-filter.py"), ff, acls).split("\n")
            want = [repr(block), str(len(sel))] + sorted(snap.AGE.sub("", repr(r)) for r in sel)
            mon.equal("program-caf-filter", f"output of caf-filter.py for {f!r}", want, got[:2] + sorted(snap.AGE.sub("", x) for x in got[2:]), text=text)
        elif which == "acl-filter":
            got = run(ex, os.path.join(ex, "acl-filter.py"), acls).split("\n")
            memo = {}
            und = False
            nums = {"anyany": set(), "base": set(), "rules": set()}
            for i, r in enumerate(sn["rules"]):
                if r["src"][0] in ("any", "url") and r["dst"][0] in ("any", "url"):      # a Webtype rule on an URL is one from and to any address
                    nums["anyany"].add(i)
                for k, net in (("base", "10.2.0.0/24"), ("rules", "10.1.0.0/24")):
                    e = [("term", "inside_in", [("dst", [net])]), ("union", ("term", "outside_in", [("src", [net])]))]
                    try:
                        if caf.selected(e, lambda t: caf.term_rule(t, r, sn, memo)):
                            nums[k].add(i)
                    except addr.Unjudged:
                        und = True
            if und:
                mon.obs("not judged: example on rules with names")
                return
            u = nums["anyany"] | nums["base"]
            remain = nums["rules"] - u
            want = [f"anyany {len(nums['anyany'])}", f"base {len(nums['base'])}", f"union {len(u)}", f"rules {len(nums['rules'])}", f"remain {len(remain)}"] + [
                snap.AGE.sub("", repr(r)) for i, r in enumerate(conf.rules.rules) if i in remain]
            mon.equal("program-acl-filter", "output of acl-filter.py", want, [snap.AGE.sub("", x) for x in got], text=text)
        else:
            opts = [o for o in ("--show-not-selected", "--expand", "--sort") if rng.random() < 0.4]
            withcaf = rng.random() < 0.7
            run(os.path.join(ex, "render"), "static.py", "-o", out, *(["--caf", ff] if withcaf else []), *opts, acls)
            with open(out, encoding="utf-8", newline="") as h:
                got = h.read()
            if "--expand" in opts:
                mon.call(conf.expand)
            sel = None
            if withcaf:
                sel = mon.must("resolve-error", "resolving failed", lambda: conf.resolve(conf.filter(block)))
            if "--sort" in opts:
                for i in ("network", "service", "port", "protocol"):
                    for g in getattr(conf.groups, i).values():
                        mon.call(g.sort)
            want = mon.must("render-error", "rendering failed", report.render, conf, sel, f if withcaf else "", "--show-not-selected" in opts)
            neutral = lambda s: [snap.AGE.sub("", STAMP.sub("<time>", l)) for l in s.replace('content ="now"', 'content ="<time>"').split("\n") if 'name="date"' not in l and "Erstellt" not in l]
            mon.equal("program-static", f"page written by static.py {opts} {f if withcaf else ''!r}", neutral(want), neutral(got), text=text)
            mon.nontrivial("static", tuple(opts), withcaf, d)
        mon.obs("runs of " + which)
    finally:
        shutil.rmtree(dirname)


# ---------------------------------------------------------------- the web front end (examples/render/dynamic.py)
# flask_shelve is not installed: a stand-in that keeps pickles in memory, as a shelf does on disk
SHELVE = r"""
import pickle
_d = {}
class Db:
    def __setitem__(self, k, v): _d[k] = pickle.dumps(v)
    def __getitem__(self, k): return pickle.loads(_d[k])
    def __contains__(self, k): return k in _d
    def __iter__(self): return iter(_d)
def init_app(app): pass
def get_shelve(*a): return Db()
"""
CLIENT = r"""
import io, json, logging, sys, runpy
logging.disable(logging.CRITICAL)
app = runpy.run_path(sys.argv[1], run_name="web")["app"]
c = app.test_client()
out = []
for q in json.load(sys.stdin):
    if q[0] == "add":
        r = c.post("/add", data={"file": (io.BytesIO(q[1].encode("utf-8")), q[2])}, content_type="multipart/form-data")
    else:
        r = c.get(q[0], query_string=q[1])
    out.append([r.status_code, r.headers.get("Location"), r.get_data(as_text=True)])
sys.__stdout__.write("\n@@pages@@" + json.dumps(out))
"""


def web(rng, mon):
    confs = []
    for _ in range(20):
        p = policy.load(mon, rng, dialects=("asa", "asa", "ios", "pfs"), size=rng.choice([4, 8]), nat=rng.random() < 0.4, nrules=rng.choice([3, 8]))
        # the front end detects the dialect (C10 judges where that is certain)
        if p and "urltable" not in p[1] and "standard" not in p[1]:
            o = mon.call(ACLConfig.fromString, p[1], options=PF())
            if o.ok and type(o.value) is p[2]:
                confs.append(p)
        if len(confs) == 2:
            break
    else:
        return
    by, ask = {}, []
    for i, (d, text, cls, conf) in enumerate(confs):
        ask.append(("add", text, f"config{i}.txt"))
        by[f"{conf.hostname}.{conf.domainname}"] = (text, cls, conf)
    names = sorted(by)
    for _ in range(6):
        n = rng.choice(names + ["nosuch."])
        q = {"config": n}
        if n in by:
            prof = caf.Profile(snapshot(mon, by[n][2]), rng)
            if rng.random() < 0.8:
                q["caf"] = rng.choice(["ip src", "", "id a id b"]) if rng.random() < 0.2 else caf.plain([prof.term(rng)] if rng.random() < 0.5 else caf.expression(rng, prof, 3))
            for k in ("exp", "sns"):
                if rng.random() < 0.4:
                    q[k] = "1"
        ask.append(("/show", q))
    ask.append(("/", {}))
    import json
    dirname = tempfile.mkdtemp(prefix="c25-")
    try:
        for f, t in (("flask_shelve.py", SHELVE), ("client.py", CLIENT)):
            with open(os.path.join(dirname, f), "w") as h:
                h.write(t)
        prog = os.path.join(load.REPO, "examples", "render", "dynamic.py")
        env = dict(os.environ, PYTHONPATH=load.LIB + os.pathsep + dirname, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(rng.randint(0, 1 << 31)))
        mon.counts["sut calls"] += 1
        r = subprocess.run([sys.executable, "-s", os.path.join(dirname, "client.py"), prog], cwd=dirname, env=env, input=json.dumps(ask), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode:
            raise Violation("error-dynamic", f"dynamic.py failed: {r.stderr.strip()[-300:]}", text=confs[0][1])
        got = json.loads(r.stdout.rsplit("@@pages@@", 1)[1])
    finally:
        shutil.rmtree(dirname)
    import urllib.parse
    neutral = lambda s: [snap.AGE.sub("", STAMP.sub("<time>", l)) for l in s.split("\n") if 'name="date"' not in l and "Erstellt" not in l and l.strip()]
    for a, (code, where, body) in zip(ask, got):
        if a[0] == "add":
            n = next(k for k, v in by.items() if v[0] == a[1]) if any(v[0] == a[1] for v in by.values()) else None
            if n is not None:
                mon.equal("web-add", "answer to an upload", (302, n), (code, urllib.parse.parse_qs(urllib.parse.urlsplit(where or "").query).get("config", [""])[0]), text=a[1])
            continue
        if a[0] == "/":
            mon.equal("web-index", "stored configurations shown", names, sorted(__import__("html").unescape(x) for x in re.findall(r"<option>(.*?)</option>", body)), names=names)
            continue
        q = a[1]
        if q["config"] not in by:
            mon.equal("web-unknown", "answer for an unknown configuration", 404, code)
            continue
        text, cls, _ = by[q["config"]]
        # a fresh import each time: no request leaves a trace on the stored configuration
        conf = mon.must("reject", "a valid configuration was rejected", lambda: ACLConfig.fromString(text, options=PF()))
        sel = warning = None
        if "exp" in q:
            mon.must("expand", "expanding failed", conf.expand)
        if q.get("caf"):
            o = mon.call(lambda: conf.resolve(conf.filter(cafBlock.fromString(q["caf"]))))
            sel, warning = (o.value, None) if o.ok else (None, str(o.exc))
        want = mon.must("render-error", "rendering failed", lambda: report.template("show.jinja2").render(
            aclconfig=conf, args={"show_not_selected": q.get("sns", False), "expand_groups": q.get("exp", False), "warning": warning}, selection=sel, caf=q.get("caf") or ""))
        mon.equal("web-show", f"page of the web front end for {q}", (200, neutral(want)), (code, neutral(body)), text=text)
        mon.nontrivial("web", sel is not None, bool(warning), "exp" in q, "sns" in q, cls.__name__)
        mon.obs("pages of the web front end")
