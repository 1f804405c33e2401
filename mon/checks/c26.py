"""C26: reading and querying touch nothing but their input."""
import http.server, io, os, random, re, resource, shutil, tempfile, threading
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import caf
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.pfs import Pfs, El
from mon import audit, entry, mutate, refs, report, snap as S

ID = "C26"
RULE = "distinct (kind of call, dialect, outcome, kinds of hostile content)"
CPU_LIMIT = 60
ASSUMPTIONS = ["what the interpreter's audit events and the listed process-wide settings show; sorting may look up service names in the system's service table"]


def cases(tier, rng):
    n = 1500 if tier == "quick" else 6000
    return [["work", i] for i in range(n)] + [["xml", i] for i in range(n)] + [["fetch", i] for i in range(n // 2)] + [["bomb", i] for i in range(8 if tier == "quick" else 40)]


HOSTILE = ["__import__('os').system('touch {d}/canary')", "{{self.__class__.__init__.__globals__}}", "$(touch {d}/canary)", "`touch {d}/canary`", "; touch {d}/canary", "file://{d}/secret",
           "http://127.0.0.1:9/x", "../../../../{d}/secret", "%s%s%n%n", "{{0.__class__}}", "{{% include '{d}/secret' %}}", "{{{{ 7*7 }}}}", "|touch {d}/canary", "exec(open('{d}/secret').read())",
           "!!python/object/apply:os.system ['touch {d}/canary']", "<xi:include href='{d}/secret'/>", "\\\\127.0.0.1\\x", "@{d}/secret", "<?php x?>"]
REMARK = re.compile(r"^(access-list \S+ remark| remark| description).*$", re.M)
_warm = []


def warm():
    """everything that is loaded on first use"""
    if _warm:
        return
    audit.install()
    before = audit.world()
    r = random.Random(1)
    # objects kept by caches hold no files; the first use of each part loads modules
    for t, c, o in ((Asa(r).build(size=8).text(), fwsmConfig, {}), (Ios(r).build(size=8).text(), iosConfig, {}), (Pfs(r).build(size=5).text(), pfsenseConfig, {"options": PF()}), ("junk", ACLConfig, {})):
        try:
            x = c.fromString(t, **o)
            report.render(x, x.resolve(x.filter(cafBlock.fromString("ip src any"))))
        except Exception:
            pass
    report.template("show.jinja2")
    try:
        import urllib.request
        urllib.request.urlopen("data:text/plain,x").read().decode("utf-8")
        pfsenseConfig.fromString("<pfsense><aliases><alias><name>T</name><type>urltable</type><url>data:text/plain,x</url><descr>d</descr></alias></aliases></pfsense>", options=pfsenseParserOptions(fetch_urltable=True))
    except Exception:
        pass
    after = audit.world()
    # loading modules may change the rest
    _warm.append([(k, before[k], after[k]) for k in ("working directory", "environment", "file mode mask", "recursion limit", "switch interval", "locale", "signal handlers", "standard streams",
                                                     "socket timeout", "random numbers", "garbage collector", "decimal context", "tracing", "string conversion limit") if before[k] != after[k]])


def judge(mon, w, what, allowed=(), **data):
    """allowed: predicates on events"""
    for e in w.events:
        mon.obs("audit events seen")
        if e[0] == "import":
            import importlib.util, sys
            m = sys.modules.get(e[1])
            f = getattr(m, "__file__", None) or getattr(getattr(m, "__spec__", None), "origin", None)
            if m is None or f in ("built-in", "frozen") or audit.code_file(f or "") or not f:
                continue
        if any(a(e) for a in allowed):
            mon.obs("audit events allowed: " + e[0])
            continue
        raise Violation("event-" + e[0].split(".")[0], f"{what}: {e}", events=[str(x) for x in w.events][:20], **data)
    mon.counts["comparisons"] += 1
    for k in w.before:
        if w.before[k] != w.after[k]:
            raise Violation("state-" + k.replace(" ", "-"), f"{what}: the {k} changed: {str(w.before[k])[:300]} -> {str(w.after[k])[:300]}", **data)
    mon.obs("calls watched")


def watched(mon, what, fn, *a, allowed=(), must=False, data=None, **kw):
    with audit.Watch() as w:
        o = mon.call(fn, *a, **kw)
    if o.exc is not None:
        o.exc.__traceback__ = None
        o.exc.__cause__ = o.exc.__context__ = None
    judge(mon, w, what + ("" if o.ok else " (rejected)"), allowed, **(data or {}))
    return o


def watched_entry(mon, rng, how, cls, text, data, **opt):
    with entry.opened(how, cls, text, rng.random() < 0.3, rng.choice(entry.NAMES)) as (fn, a, path):
        return watched(mon, f"{cls.__name__} by {how}", fn, *a, allowed=[lambda e: path is not None and e[:3] == ("open", os.fspath(path), "read")] if path else (), data=data, **opt)


def scratch():
    d = tempfile.mkdtemp(prefix="c26-")
    with open(os.path.join(d, "secret"), "w") as f:
        f.write("TOPSECRETCONTENT 203.0.113.77\n")
    return d


def finish(mon, d, what):
    left = sorted(os.listdir(d))
    shutil.rmtree(d)
    if [x for x in left if x not in ("secret", "input")]:
        raise Violation("canary", f"{what}: files appeared: {left}")


def services(e):
    return e[0] in ("socket.getservbyname", "socket.getservbyport") or e[0] == "open" and e[1] in ("/etc/services", "/etc/nsswitch.conf")


def run_case(spec, rng, mon):
    warm()
    for k, a, b in _warm[0]:
        raise Violation("state-" + k.replace(" ", "-"), f"first use: the {k} changed: {str(a)[:300]} -> {str(b)[:300]}")
    d = scratch()
    try:
        {"work": work, "xml": xml, "fetch": fetch, "bomb": bomb}[spec[0]](rng, mon, d)
        finish(mon, d, spec[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hostile(rng, d):
    return rng.choice(HOSTILE).format(d=d)


def work(rng, mon, d):
    dia, text, cls = policy.text(rng, size=rng.choice([3, 6]), nat=rng.random() < 0.5, nrules=rng.choice([3, 8]))
    if dia != "pfs":
        text = REMARK.sub(lambda m: m.group(1) + " " + hostile(rng, d) if rng.random() < 0.6 else m.group(0), text)
        k = rng.random()
        if k < 0.25:
            ls = text.split("\n")
            ls.insert(rng.randint(0, len(ls)), rng.choice(["access-list x extended permit ip host %s any", "object network %s", "hostname %s", "name 1.2.3.4 %s", "interface %s", "banner motd #%s#", "%s",
                                                           "object-group network g\n description %s", "boot system %s", "access-list a webtype permit url %s"]) % hostile(rng, d))
            text = "\n".join(ls)
        elif k < 0.4:
            text = text[:rng.randint(0, len(text))]
    else:
        text = re.sub(r"(<descr>)[^<]*", lambda m: m.group(1) + hostile(rng, d).replace("<", "&lt;") if rng.random() < 0.5 else m.group(0), text)
    path = os.path.join(d, "input")
    opt = {"options": PF()} if dia == "pfs" or rng.random() < 0.3 else {}
    which = rng.choice([cls, cls, ACLConfig])
    if which is ACLConfig:
        opt = {"options": PF()}
    if which is not pfsenseConfig and which is not ACLConfig:
        opt = {}
    data = dict(text=text)
    how = rng.choice(["string", "string", "missing"] + entry.WAYS)
    if how == "missing":
        o = watched(mon, f"{which.__name__}.fromPath", which.fromPath, path, allowed=[lambda e: e[:2] == ("open", path) and e[2] == "read"], data=data, **opt)
        if o.ok:
            raise Violation("missing", "a missing file was read")
        mon.nontrivial("missing", dia)
        return
    o = watched_entry(mon, rng, how, which, text, data, **opt)
    mon.nontrivial("parse", how, dia, which.__name__, o.ok, "touch" in text, "secret" in text)
    mon.obs("configurations " + ("accepted" if o.ok else "rejected"))
    if not o.ok:
        return
    conf = o.value
    prof = caf.Profile(S.config(conf), rng)
    f = caf.plain(caf.expression(rng, prof, rng.choice([1, 4])))
    if rng.random() < 0.3:
        f = rng.choice(["id ", "/* ", "id /", "ip src "]) + hostile(rng, d)
    if rng.random() < 0.2:
        # broken somewhere
        k = rng.randint(0, len(f))
        f = f[:k] + rng.choice(["(", ")", "/*", " ip ", " union ", "\x00", ""]) + f[k + rng.choice([0, 0, 1, 5]):]
    b = watched_entry(mon, rng, rng.choice(["string", "path"] + entry.WAYS), cafBlock, f, dict(text=f))
    mon.nontrivial("filter", b.ok, f[:4])
    calls = [("repr", lambda: repr(conf.rules.rules) + repr(conf.names)), ("resolve", lambda: conf.resolve(set(conf.rules.rules))), ("render", lambda: report.render(conf)),
             ("expanded copies", lambda: [g.expand(insitu=False) for t in refs.tables(conf).values() for g in t.values() if hasattr(g, "expand")])]
    if b.ok:
        calls += [("filter", lambda: conf.filter(b.value)), ("run", lambda: b.value.run(conf.rules)), ("repr of a filter", lambda: repr(b.value)),
                  ("filtered report", lambda: report.render(conf, conf.resolve(conf.filter(b.value)), f))]
    calls += [("expand", conf.expand), ("sort", lambda: [g.sort() for t in refs.tables(conf).values() for g in t.values() if hasattr(g, "sort")]),
              ("collapse", lambda: [g.collapse() for g in conf.groups.network.values()])]
    for name, fn in calls:
        o = watched(mon, name, fn, allowed=[services] if name == "sort" else (), data=data)
        mon.nontrivial(name, dia, o.ok)
        mon.obs("query " + name)
    mon.sample(text[:1000])


DOCTYPES = ['<!DOCTYPE {t} [<!ENTITY e SYSTEM "file://{d}/secret">]>', '<!DOCTYPE {t} [<!ENTITY % p SYSTEM "file://{d}/secret"> %p;]>', '<!DOCTYPE {t} SYSTEM "file://{d}/secret">',
            '<!DOCTYPE {t} SYSTEM "http://127.0.0.1:9/x.dtd">', '<!DOCTYPE {t} [<!ENTITY e "inner">]>', '<!DOCTYPE {t} [<!ENTITY e SYSTEM "{d}/secret" NDATA x><!NOTATION x SYSTEM "y">]>',
            '<?xml-stylesheet type="text/xsl" href="file://{d}/secret"?>', '<!DOCTYPE {t} PUBLIC "-//x//y" "http://127.0.0.1:9/x">']


def xml(rng, mon, d):
    g = Pfs(rng).build(size=rng.choice([1, 3]))
    text = g.text({"pretty": False, "comments": 0, "decl": False})
    tag = "opnsense" if g.opn else "pfsense"
    dt = rng.choice(DOCTYPES).replace("{t}", tag).replace("{d}", d)
    use = rng.choice(["&e;", "&e;", "", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{d}/secret" parse="text"/>'])
    where = rng.choice([r"<descr>", r"<name>", r"<address>", r"<hostname>", r"<type>", r"<url>"])
    if use:
        text = re.sub(where, lambda m: m.group(0) + use, text, count=rng.choice([1, 3]))
    text = '<?xml version="1.0"?>\n' + dt + text
    # URL tables point at files and hosts that nobody may ask for
    text = text.replace("https://list.invalid/", rng.choice([f"file://{d}/secret?", "http://127.0.0.1:9/", f"file://{d}/"]))
    which = rng.choice([pfsenseConfig, ACLConfig])
    o = watched(mon, which.__name__ + ".fromString, URL tables off", which.fromString, text, options=PF(), data=dict(text=text))
    mon.nontrivial("xml", dt[:30], use[:4], where, o.ok)
    mon.obs("documents with declarations " + ("accepted" if o.ok else "rejected"))
    if o.ok:
        mon.counts["comparisons"] += 1
        r = repr(S.config(o.value)) + report.render(o.value)
        if "TOPSECRETCONTENT" in r or "203.0.113.77" in r:
            raise Violation("disclosed", "the content of another file is part of the configuration", text=text)


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.server.seen.append(self.path)
        st, body = self.server.pages.get(self.path, (404, b""))
        self.send_response(st)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


def fetch(rng, mon, d):
    """with URL tables on: every table is asked for once, nothing else is"""
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    srv.seen, srv.pages = [], {}
    srv.daemon_threads = True
    th = threading.Thread(target=srv.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
    th.start()
    try:
        base = f"http://127.0.0.1:{srv.server_port}"
        g = Pfs(rng).build(size=rng.choice([0, 2, 4]))
        want = {}
        g.relocate(lambda n: f"{base}/{n}")
        text = g.text({"pretty": False, "comments": 0, "decl": False})
        for n in g.urls:
            lines, mem = [], []
            for _ in range(rng.randint(0, 8)):
                k = rng.random()
                if k < 0.4:
                    a = B.ip4(rng) if rng.random() < 0.7 else B.ip6(rng)
                    lines.append(a)
                    mem.append(B.c_host(a))
                elif k < 0.8:
                    x = B.netaddr4(rng) if rng.random() < 0.7 else B.net6(rng)
                    lines.append(f"{x.network_address}/{x.prefixlen}")
                    mem.append(B.c_net(x))
                else:
                    lines.append(rng.choice(["", "# x", "nothing", "1.2.3", f"file://{d}/secret", f"{base}/other"]))
            st = rng.choice([200, 200, 200, 404, 500])
            srv.pages["/" + n] = (st, rng.choice(["\n", "\r\n"]).join(lines).encode())
            want[n] = tuple(mem) if st == 200 else ()
        allowed = [lambda e: e[0].startswith(("socket.", "urllib.", "http.client", "os.getrandom"))]
        which = rng.choice([pfsenseConfig, ACLConfig])
        on = rng.random() < 0.75
        env = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
        try:
            if on:
                with audit.Watch() as w:
                    o = mon.call(which.fromString, text, options=pfsenseParserOptions(fetch_urltable=True))
                events = [e for e in w.events if not any(a(e) for a in allowed) and e[0] not in ("import", "_thread.start_new_thread", "_thread.start_joinable_thread")]
                bad = [e for e in events if not (e[0] == "open" and e[1] in ("/etc/mime.types", "/etc/hosts", "/etc/resolv.conf", "/etc/nsswitch.conf", "/etc/httpd/mime.types"))]
                mon.obs("audit events seen", len(w.events))
                other = [e for e in w.events if e[0] == "socket.connect" and str(srv.server_port) not in str(e)]
                if bad or other:
                    raise Violation("event-fetch", f"reading a configuration with URL tables: {(bad + other)[:5]}", text=text)
                # the server itself holds threads and open files
                for k in w.before:
                    if k not in ("threads", "open files") and w.before[k] != w.after[k]:
                        raise Violation("state-" + k.replace(" ", "-"), f"reading URL tables: the {k} changed: {str(w.before[k])[:300]} -> {str(w.after[k])[:300]}", text=text)
                asked = sorted(srv.seen)
                if not o.ok:
                    raise Violation("reject-fetch", f"a configuration with URL tables was rejected: {o!r}", text=text)
                mon.equal("fetched", "requests made", sorted("/" + n for n in g.urls), asked, text=text)
                sn = snapshot(mon, o.value)
                for n, m in want.items():
                    mon.equal("table", f"members of the URL table {n}", m, sn["netgrp"][n][3], text=text)
                    mon.obs("URL tables read")
                mon.nontrivial("fetch", len(want), tuple(sorted(s for s, _ in srv.pages.values())))
            else:
                o = watched(mon, which.__name__ + " with URL tables off", which.fromString, text, options=PF(), data=dict(text=text))
                mon.equal("fetched", "requests made with URL tables off", [], list(srv.seen), text=text)
                mon.nontrivial("no fetch", len(want), o.ok)
        finally:
            os.environ.update(env)
    finally:
        srv.shutdown()
        srv.server_close()
        th.join()


BOMBS = ["entities", "deep", "attributes", "long", "quadratic", "comment", "numbers", "parens"]


def bomb(rng, mon, d):
    """small inputs that denote huge things: an answer or a refusal within bounded time and memory"""
    k = BOMBS[mon.spec[1] % len(BOMBS)]
    fn, a, opt = pfsenseConfig.fromString, None, {"options": PF()}
    if k == "entities":
        n = rng.randint(8, 30)
        a = "<!DOCTYPE pfsense [<!ENTITY a0 \"aaaaaaaaaa\">" + "".join(f"<!ENTITY a{i} \"{f'&a{i - 1};' * 10}\">" for i in range(1, n)) + f"]><pfsense><system><hostname>&a{n - 1};</hostname></system></pfsense>"
    elif k == "quadratic":
        a = "<!DOCTYPE pfsense [<!ENTITY a \"" + "x" * 50000 + "\">]><pfsense><system><hostname>" + "&a;" * 20000 + "</hostname></system></pfsense>"
    elif k == "deep":
        n = rng.choice([500, 5000, 50000])
        a = "<pfsense>" + "<a>" * n + "</a>" * n + "</pfsense>"
    elif k == "attributes":
        a = "<pfsense " + " ".join(f"a{i}='x'" for i in range(20000)) + "/>"
    elif k == "long":
        fn, opt = fwsmConfig.fromString, {}
        a = "hostname " + "x" * 200000
    elif k == "comment":
        fn, opt = cafBlock.fromString, {}
        a = "/*" * 20000 + "*/ id x" if rng.random() < 0.5 else "/* " + "*" * 200000 + "/ id x"
    elif k == "numbers":
        fn, opt = fwsmConfig.fromString, {}
        a = "access-list a extended permit tcp any eq " + "9" * 5000 + " any"
    else:
        fn, opt = cafBlock.fromString, {}
        a = "(" * 3000 + "id x" + ")" * rng.choice([0, 3000])
    before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    o = watched(mon, f"{k} bomb", fn, a, data=dict(text=a[:300]), **opt)
    grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
    mon.counts["comparisons"] += 1
    if grown > 1 << 20:
        raise Violation("memory", f"{k} bomb of {len(a)} characters: {grown >> 10} MB of memory", text=a[:300])
    mon.nontrivial("bomb", k, o.ok)
    mon.obs("bombs " + ("accepted" if o.ok else "refused"))
