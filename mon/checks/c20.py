"""C20: parses and queries are independent of history, threads and process."""
import atexit, collections, json, os, random, re, subprocess, sys, tempfile, threading, time
from mon.checks.common import *
from mon.core import Violation, VERIF
from mon.checks import policy
from mon.gen import caf, base as B
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.pfs import Pfs
from mon import iso, load, mutate, refs

ID = "C20"
RULE = "distinct (history before the parse), distinct thread interleavings observed (sequence of thread changes at functions and lines of the code under test) and hash seeds"
CPU_LIMIT = 300
SUT = os.path.realpath(os.path.dirname(sys.modules["acltk"].__file__)) + os.sep


def cases(tier, rng):
    n = 48 if tier == "quick" else 640
    return [["mix", i] for i in range(n)] + [["leak", i] for i in range(5 * n)] + [["storm", i] for i in range(3 * n)]


# ---------------------------------------------------------------- jobs
def make(rng, fam):
    """(dialect, text) of one configuration; the family makes names repeat over configurations"""
    k = rng.choice(["asa", "asa", "asa", "ios", "ios", "pfs"])
    if k == "asa":
        g = Asa(rng, family=fam)
        return k, g.build(size=rng.choice([3, 6, 10]), nrules=rng.choice([2, 5])).text()
    if k == "ios":
        g = Ios(rng, family=fam)
        t = g.build(size=rng.choice([2, 4, 6])).text()
        # banners leave a delimiter behind
        for _ in range(rng.choice([0, 1, 2])):
            d = rng.choice(["^C", "#", "%", "$", "^", "C", "é", "!"])
            body = rng.choice(["no entry", "hello\nworld", "access-list 99 permit any", "C", "x^Cx" if d not in ("^C", "^", "C") else "x", "# 1 #" if d != "#" else "x"])
            if d in body:
                body = "zzz"
            t = f"banner {rng.choice(['motd', 'login', 'exec'])} {d}{body}{d}\n" + t if rng.random() < 0.5 else t + f"banner motd {d}{body}{d}\n"
        return k, t
    return k, Pfs(rng).build(size=rng.choice([2, 5])).text()


DEF = re.compile(r"^(object|object-group|name|time-range|interface) ")


def variants(rng, k, t):
    """texts that share names with t: without some of its definitions, with other content, cut off"""
    ls = t.split("\n")
    out = []
    if k != "pfs":
        heads = [i for i, l in enumerate(ls) if DEF.match(l)]
        for _ in range(2):
            if heads:
                i = rng.choice(heads)
                j = i + 1
                while j < len(ls) and ls[j].startswith(" "):
                    j += 1
                out.append((k, "\n".join(ls[:i] + ls[j:])))
        out.append((k, re.sub(r"\b10\.", "11.", re.sub(r"\b(\d)\b", lambda m: str((int(m.group(1)) + 1) % 9 or 1), t) if rng.random() < 0.3 else t)))
        rules = [l for l in ls if l.startswith("access-list") or l.startswith("ip access-list") or l.startswith(" permit") or l.startswith(" deny") or l.startswith("nat ")]
        out.append((k, "\n".join(rules)))
    else:
        m = re.sub(r"<aliases>.*</aliases>", "", t, flags=re.S)
        out.append((k, m))
        out.append((k, t.replace("10.", "11.")))
    out.append((k, "\n".join(ls[:rng.randint(0, len(ls))])))
    out.append((k, t[:rng.randint(0, len(t))]))
    return out


def either(rng, fam):
    """definitions that several dialects know"""
    k = rng.random()
    if k < 0.3:
        return rng.choice(["hostname x\n", "\n", "hostname fw-1\n!\n", "interface E0\n description x\n!\nhostname r\n", "interface Vlan1\n ip address 10.0.0.1 255.255.255.0\n", "hostname r\ninterface Vlan2\n description a\n"])
    if k < 0.65:
        g, ks = Asa(rng, family=fam), ["interface", "netobj", "netgrp", "svcgrp", "portgrp", "time", "name", "rules", "svcobj", "icmpgrp", "protogrp", "natobj", "nat", "renat"]
        opt = {"nrules": 1}
    else:
        g, ks, opt = Ios(rng, family=fam), ["interface", "netgrp", "svcgrp", "portgrp", "icmpgrp", "protogrp", "named", "numbered", "v6", "route"], {}
    few = rng.sample(ks[:8], rng.choice([1, 1, 2]))
    return g.build(size=rng.choice([1, 2, 4]), weights={x: int(x in few) for x in ks}, **opt).text()


def jobs_of(rng):
    fam = rng.choice(B.FAMILIES)
    r = []
    for _ in range(3):
        k, t = make(rng, fam)
        v = variants(rng, k, t)
        r.append((k, t))
        r += rng.sample(v, min(len(v), 2))
        if rng.random() < 0.3:
            r.append(("auto", t))
    # texts that more than one dialect accepts
    for _ in range(rng.choice([0, 1, 2])):
        r.append(("auto", either(rng, fam)))
    fs = []
    prof = caf.Profile({"rules": [{"id": x} for x in ["acl_in", "acl_out", "acl", "ACL", "A", "wan", "101"]], "netobj": {}, "netgrp": {}, "nat": {}}, rng)
    for _ in range(2):
        fs.append(caf.plain(caf.expression(rng, prof, rng.choice([1, 3, 6]))))
    fs.append(rng.choice(["id", "( ip src any", "ip src 10.0.0.0/33", "id a id b", ") union ("]))
    fs.append(rng.choice(["ip src ANY", "ip dst any", "id /*/ except ip src ANY", "ip src 10.0.0.0/8 ip dst any4"]))
    return [(k, t, fs) for k, t in r]


def isolated(jobs, hashseed):
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    try:
        json.dump(jobs, f)
        f.close()
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = subprocess.run([sys.executable, "-s", "-m", "mon.iso", f.name], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        res = [json.loads(l) for l in p.stdout.splitlines()]
        if len(res) != len(jobs) or any(r[0] == "broken" for r in res):
            raise RuntimeError(f"isolated interpreter: {p.stderr[-500:]} {[r for r in res if r[0] == 'broken'][:1]}")
        return res
    finally:
        os.unlink(f.name)


class Server:
    """an interpreter that has parsed nothing; every job runs in a fork of it"""
    one = None

    def __init__(self):
        self.p = subprocess.Popen([sys.executable, "-s", "-m", "mon.iso", "--serve"], cwd=VERIF, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.pid = os.getpid()

    @classmethod
    def ask(cls, k, t, fs):
        if cls.one is None or cls.one.pid != os.getpid():
            cls.one = cls()
            atexit.register(cls.stop)
        p = cls.one.p
        p.stdin.write(json.dumps([k, t, fs]) + "\n")
        p.stdin.flush()
        l = p.stdout.readline()
        r = json.loads(l) if l.strip() else ["broken"]
        if r[0] == "broken":
            raise RuntimeError(f"isolated interpreter: {r}")
        return r

    @classmethod
    def stop(cls):
        if cls.one is not None and cls.one.pid == os.getpid():
            cls.one.p.stdin.close()
            cls.one.p.wait()
            cls.one = None


def now(k, t, fs):
    return json.loads(json.dumps(iso.job(k, t, fs)))


# ---------------------------------------------------------------- threads
class Switcher:
    """forces thread changes at function entries and lines of the code under test and records them"""
    TOOL = 4

    def __init__(self, rng, p):
        self.seed, self.p = rng.random(), p
        self.trace, self.last, self.events, self.yields = [], None, 0, 0
        self.local = threading.local()

    def at(self, code, *_):
        if not code.co_filename.startswith(SUT):
            return sys.monitoring.DISABLE
        me = getattr(self.local, "n", None)
        if me is None:
            return None
        self.events += 1
        if self.last != me:
            self.last = me
            if len(self.trace) < 5000:
                self.trace.append((me, code.co_name))
        if self.local.rng.random() < self.p:
            self.yields += 1
            time.sleep(0 if self.local.rng.random() < 0.9 else 1e-5)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "c20")
        m.register_callback(self.TOOL, m.events.PY_START, self.at)
        m.register_callback(self.TOOL, m.events.LINE, self.at)
        m.set_events(self.TOOL, m.events.PY_START)
        # lines of the hand-written modules
        for name, mod in list(sys.modules.items()):
            f = getattr(mod, "__file__", None)
            if f and os.path.realpath(f).startswith(SUT) and os.path.basename(f) not in ("ios.py", "fwsm.py", "caf.py"):
                for o in vars(mod).values():
                    for c in codes(o, SUT):
                        m.set_local_events(self.TOOL, c, m.events.LINE)
        m.restart_events()
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def codes(o, prefix, depth=0):
    if isinstance(o, type) and depth < 2:
        for x in vars(o).values():
            yield from codes(getattr(x, "__func__", x), prefix, depth + 1)
    c = getattr(getattr(o, "__wrapped__", o), "__code__", None)
    if c is not None and os.path.realpath(c.co_filename).startswith(prefix):
        yield c


def in_threads(rng, work, p=None):
    """run the callables at once; returns their outcomes and the switcher"""
    sw = Switcher(rng, p or rng.choice([0.001, 0.01, 0.1]))
    res = [None] * len(work)
    start = threading.Barrier(len(work))
    seeds = [rng.random() for _ in work]

    def body(i):
        sw.local.n = i
        sw.local.rng = random.Random(seeds[i])
        start.wait()
        try:
            res[i] = ("ok", work[i]())
        except BaseException as e:
            res[i] = ("raised", repr(e)[:300])
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(work))]
    with sw:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    return res, sw


# ---------------------------------------------------------------- one case
KINDS = {"asa": ["name ", "object network ", "object service ", "object-group network ", "object-group service ", "object-group protocol ", "object-group icmp-type ",
                 "time-range ", "interface ", "hostname ", "domain-name ", "ASA Version|FWSM Version"],
         "ios": ["object-group network ", "object-group service ", "object-group protocol ", "object-group icmp-type ", "time-range ", "interface ", "hostname ", "ip domain name ",
                 "ip route ", "ip access-list |ipv6 access-list "]}


def leak(rng, mon):
    """a text that lacks the definitions of one kind, before and after a text that has them"""
    fam = rng.choice(B.FAMILIES) if rng.random() < 0.5 else None
    k = rng.choice(["asa", "asa", "ios", "pfs"])
    if k == "asa":
        t = Asa(rng, family=fam).build(size=rng.choice([8, 14]), nrules=rng.choice([3, 8]), weights={"nat": 2, "natobj": 1.5, "time": 2, "name": 2}).text()
    elif k == "ios":
        t = Ios(rng, family=fam).build(size=rng.choice([6, 12])).text()
    else:
        t = Pfs(rng).build(size=rng.choice([5, 12])).text()
    if k == "pfs":
        parts = re.findall(r"<(aliases|interfaces|system|nat|schedules|gateways)\b[^>]*>.*?</\1>", t, re.S)
        what = rng.choice(parts or ["aliases"])
        cut = re.sub(rf"<{what}\b[^>]*>.*?</{what}>", "", t, count=1, flags=re.S)
    else:
        ls = t.split("\n")
        ks = [x for x in KINDS[k] if any(l.startswith(tuple(x.split("|"))) for l in ls)]
        what = rng.choice(ks or ["zz"])
        out, skip = [], False
        for l in ls:
            skip = l.startswith(tuple(what.split("|"))) or (skip and l.startswith(" "))
            if not skip:
                out.append(l)
        cut = "\n".join(out)
    first = now(k, cut, [])
    full = now(k, t, [])
    second = now(k, cut, [])
    mon.equal("leak", f"{k} configuration without {what.strip()}, before and after the one with it", first, second, text=cut, other=t)
    mon.equal("leak", f"{k} configuration without {what.strip()}, here and in a fresh interpreter", Server.ask(k, cut, []), second, text=cut, other=t)
    mon.equal("leak", f"{k} configuration, here and in a fresh interpreter", Server.ask(k, t, []), full, text=t, other=cut)
    mon.obs(f"{k}: {first[0]} without {what.strip()}")
    mon.nontrivial("leak", k, what, first[0], spec_of(first))
    # the same names with other contents
    alt = changed(rng, k, t)
    got = now(k, alt, [])
    mon.equal("leak-values", f"{k} configuration with changed values, after the unchanged one and in a fresh interpreter", Server.ask(k, alt, []), got, text=alt, other=t)
    mon.equal("leak-values", f"{k} configuration, again after the one with changed values", full, now(k, t, []), text=t, other=alt)
    mon.obs(f"{k}: {got[0]} with changed values")
    mon.obs("values changed", sum(a != b for a, b in zip(t.split("\n"), alt.split("\n"))))


QUAD = re.compile(r"(?<![\w.])(\d{1,3})\.(\d{1,3})\.(\d{1,3})\.(\d{1,3})(?![\w.])")


def changed(rng, k, t):
    """the same text with other addresses, actions, ports and words"""
    add = rng.randint(1, 40)

    def quad(m):
        a = int(m.group(1))
        # masks stay
        return m.group(0) if a in (0, 255, 254, 252, 248, 240, 224, 192, 128) else ".".join([str((a + add) % 127 + 1), m.group(2), m.group(3), m.group(4)])
    t = QUAD.sub(quad, t)
    if rng.random() < 0.7:
        t = re.sub(r"(?<= )(permit|deny)(?= )", lambda m: "deny" if m.group(1) == "permit" else "permit", t)
        t = re.sub(r"<type>(pass|block)</type>", lambda m: "<type>block</type>" if m.group(1) == "pass" else "<type>pass</type>", t)
    if rng.random() < 0.7:
        t = re.sub(r"\b(eq|neq|lt|gt) (\d+)", lambda m: f"{m.group(1)} {(int(m.group(2)) + add) % 65536}", t)
        t = re.sub(r"(<port>)(\d+)(</port>)", lambda m: f"{m.group(1)}{(int(m.group(2)) + add) % 65535 + 1}{m.group(3)}", t)
    if rng.random() < 0.5:
        t = re.sub(r"2001:db8:", f"2001:db{add % 9}:", t)
        t = re.sub(r"(description|remark) \S*", lambda m: f"{m.group(1)} changed{add}", t)
        t = re.sub(r"<descr>[^<]*", f"<descr>changed{add}", t)
        t = re.sub(r"\b20(\d\d)\b", lambda m: f"20{(int(m.group(1)) + 1) % 100:02d}", t)
    return t


def spec_of(r):
    return r[1][:60] if len(r) > 1 and isinstance(r[1], str) else ""


def storm(rng, mon):
    """short texts full of one construct, several threads at the same construct at once"""
    fam = rng.choice(B.FAMILIES) if rng.random() < 0.5 else None
    k = rng.choice(["banner", "banner", "asa", "asa", "ios", "pfs"])
    kinds = ["name", "netobj", "svcobj", "netgrp", "svcgrp", "portgrp", "icmpgrp", "protogrp", "time", "interface", "natobj", "nat", "renat", "rules"]
    what = rng.sample(kinds, 2)
    iw = rng.choice(["named", "numbered", "v6", "netgrp", "svcgrp", "interface", "route"])

    def text():
        if k == "banner":
            ds = rng.sample(["^C", "#", "%", "$", "@", "~", "*", "x", "^"], 4)
            out = []
            for d in ds:
                w = "".join(rng.choice("#%$@~*x^C \n abc") for _ in range(rng.choice([5, 30]))).replace("\n", "\n ") + "-"
                if rng.random() < 0.7:
                    w = w.replace("^C", "") if d == "^C" else w.replace(d, "").replace("^C", "")
                out.append(f"banner motd {d}\n{w}\n{d}")
            return "ios", "\n".join(out) + f"\nip access-list standard L{rng.randint(1, 9)}\n permit host 10.0.0.{rng.randint(1, 9)}\n"
        if k == "asa":
            return k, Asa(rng, family=fam).build(size=rng.choice([3, 6]), nrules=rng.choice([1, 3]), weights={x: 9 if x in what else 0.3 for x in kinds}).text()
        if k == "ios":
            return k, Ios(rng, family=fam).build(size=rng.choice([3, 6]), weights={iw: 20}).text()
        return k, Pfs(rng).build(size=rng.choice([2, 5])).text()
    fs = ["ip src ANY except id a", "id /a*/ ip src 10.0.0.0/8"] if rng.random() < 0.3 else []
    jobs = [text() for _ in range(rng.choice([2, 4, 6]))]
    base = [Server.ask(d, t, fs) for d, t in jobs]
    lists = [[rng.randrange(len(jobs)) for _ in range(rng.choice([2, 4]))] for _ in range(rng.choice([2, 4, 8]))]
    res, sw = in_threads(rng, [lambda l=l: [now(*jobs[i], fs) for i in l] for l in lists], rng.choice([0.01, 0.1, 0.4]))
    note(mon, sw, "storm")
    for l, r in zip(lists, res):
        mon.equal("threads-parse", f"configurations of one kind ({k}), in a fresh interpreter and while {len(lists) - 1} other threads read others", ("ok", [base[i] for i in l]), r,
                  text=jobs[l[0]][1], others=[t[:1500] for _, t in jobs])
        mon.obs("jobs compared in threads", len(l))
    for b in base:
        mon.obs(f"storm of {k}: {b[0]} alone")


def run_case(spec, rng, mon):
    if spec[0] == "leak":
        return leak(rng, mon)
    if spec[0] == "storm":
        return storm(rng, mon)
    jobs = jobs_of(rng)
    seeds = [rng.randint(0, 4294967295), 0]
    base = isolated(jobs, seeds[0])
    other = isolated(jobs, seeds[1])
    for j, a, b in zip(jobs, base, other):
        mon.equal("hash-seed", f"{j[0]} configuration and filters with hash seed {seeds[0]} and {seeds[1]}", a, b, text=j[1], filters=j[2])
        mon.obs("configurations " + a[0] + " in isolation")
        mon.obs("isolated runs", 2)
    mon.nontrivial("hash seed", seeds[0])
    history(rng, mon, jobs, base)
    threads(rng, mon, jobs, base)
    mon.sample(jobs[0][1][:600])


def history(rng, mon, jobs, base):
    hist = []
    for _ in range(2 * len(jobs)):
        what = rng.choice(["job", "job", "job", "filter", "bad filter", "in place", "garbage"])
        i = rng.randrange(len(jobs))
        k, t, fs = jobs[i]
        if what == "job":
            got = mon.must("history-error", "reading a configuration failed", now, k, t, fs)
            mon.equal("history", f"{k} configuration and filters, after {hist[-8:]} and alone", base[i], got, text=t, filters=fs, history=hist)
            mon.obs("jobs compared after a history")
            mon.nontrivial("history", tuple(hist[-3:]), k, base[i][0])
            hist.append(f"{k} {base[i][0]}")
        elif what == "filter":
            mon.call(lambda: cafBlock.fromString(rng.choice(fs)))
            hist.append(what)
        elif what == "bad filter":
            mon.call(lambda: cafBlock.fromString(rng.choice(["( id a", "ip src", "id /x*", "((((", "ip src 1.2.3.4 union"])))
            hist.append(what)
        elif what == "garbage":
            s = mutate_text(rng, t)
            mon.call(lambda: iso.job(k, s, []))
            hist.append(what)
        else:
            # a configuration that is used up: expanded, sorted, collapsed, resolved
            o = mon.call({"asa": fwsmConfig, "ios": iosConfig, "pfs": pfsenseConfig, "auto": ACLConfig}[k].fromString, t, **({"options": PF()} if k in ("pfs", "auto") else {}))
            if o.ok:
                c = o.value
                mon.call(lambda: c.resolve(set(c.rules.rules)))
                mon.call(c.expand)
                for tab in refs.tables(c).values():
                    for g in tab.values():
                        for m in ("sort", "collapse"):
                            if hasattr(g, m):
                                mon.call(getattr(g, m))
                        if getattr(g, "objects", None):
                            g.objects.clear()
                c.rules.rules.clear()
                c.names.objects.clear()
            hist.append(what)


def mutate_text(rng, t):
    ls = t.split("\n")
    i = rng.randrange(len(ls))
    k = rng.randrange(4)
    if k == 0:
        ls[i] += " junk"
    elif k == 1:
        del ls[i]
    elif k == 2:
        ls[i] = ls[i][:len(ls[i]) // 2]
    else:
        ls.insert(i, rng.choice(["banner motd #", "banner login ^C x", "object network zz", "access-list x extended permit", "<", "time-range t", "name 1.2.3.4 web"]))
    return "\n".join(ls)


def threads(rng, mon, jobs, base):
    # parsing and filtering at once
    idx = [rng.randrange(len(jobs)) for _ in range(rng.choice([2, 3, 4, 6]))]
    res, sw = in_threads(rng, [lambda i=i: now(*jobs[i]) for i in idx])
    note(mon, sw, "parse")
    for i, r in zip(idx, res):
        mon.equal("threads-parse", f"{jobs[i][0]} configuration and filters, alone and while {len(idx) - 1} other threads do the like", ("ok", base[i]), r, text=jobs[i][1],
                  filters=jobs[i][2], others=[jobs[x][1][:1500] for x in idx])
        mon.obs("jobs compared in threads")
    # several threads on one configuration, with shared filters
    ok = [i for i, b in enumerate(base) if b[0] == "accepted"]
    if not ok:
        return
    i = rng.choice(ok)
    k, t, fs = jobs[i]
    conf = mon.must("history-error", "reading a configuration failed", {"asa": fwsmConfig, "ios": iosConfig, "pfs": pfsenseConfig, "auto": ACLConfig}[k].fromString, t,
                    **({"options": PF()} if k in ("pfs", "auto") else {}))
    blocks = {}
    for f in fs:
        o = mon.call(cafBlock.fromString, f)
        if o.ok:
            blocks[f] = o.value
    want = {f: b[2] for f, b in zip(fs, base[i][2]) if b[0] == "accepted"}
    asked = [rng.sample(sorted(blocks), len(blocks)) * rng.choice([1, 2, 4]) for _ in range(rng.choice([2, 3, 4]))]
    res, sw = in_threads(rng, [lambda l=l: [json.loads(json.dumps(iso.selection(conf, blocks[f]))) for f in l] for l in asked])
    note(mon, sw, "filter")
    for l, r in zip(asked, res):
        mon.equal("threads-filter", f"selections of {l} on a configuration shared by {len(asked)} threads", ("ok", [want.get(f) for f in l]), r, text=t)
        mon.obs("selections compared in threads", len(l))
    mon.equal("threads-changed", "the configuration after being filtered by several threads", base[i][1], json.loads(json.dumps(iso.canon(snap.config(conf)))), text=t)


def note(mon, sw, kind):
    mon.obs(kind + ": functions and lines of the code under test observed in threads", sw.events)
    mon.obs(kind + ": thread changes observed", len(sw.trace))
    mon.obs(kind + ": forced yields", sw.yields)
    if len(sw.trace) > 2:
        mon.nontrivial("interleaving", kind, tuple(sw.trace))
        mon.obs("interleavings with at least two thread changes")
