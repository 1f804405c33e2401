"""C09: irrelevant text, encoding and entry point do not change the result."""
import contextlib, io
from mon.checks.common import *
from mon.core import Violation
from mon import entry
from mon.gen import noise
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.pfs import Pfs, El, observed as pfs_observed

ID = "C09"
RULE = "distinct (dialect, kind of entry before, kind of entry after, first word inserted between) plus (dialect, transformation)"
ASSUMPTIONS = ["inserted statements are those the importer's grammar lists as recognised for the dialect; insertion points are entry boundaries (never between a remark and its rule)",
               "free-text fields are compared without trailing whitespace"]


def cases(tier, rng):
    n = 700 if tier == "quick" else 11000
    return [["asa", i] for i in range(n)] + [["ios", i] for i in range(n)] + [["pfs", i] for i in range(2 * n)]


def strip(x):
    if isinstance(x, str):
        return x.rstrip()
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(strip(v) for v in x)
    return x


def insert(cfg, rng, fn, p, mon, dialect):
    lines, prev = [], "start"
    for kind, ls in cfg.entries:
        if prev != "remark" and rng.random() < p:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                new = fn(rng)
                mon.nontrivial(dialect, prev, kind, (new[0].split() or [""])[0][:20])
                mon.obs("inserted statements")
                lines += new
        lines += [B.render_line(l) for l in ls]
        prev = kind
    for _ in range(rng.choice([0, 0, 1, 2])):
        lines += fn(rng)
    if dialect == "ios" and rng.random() < 0.3:
        lines += noise.ios_tail(rng)
    return "\n".join(lines) + "\n"


def pfs_case(rng, mon):
    """the layout of the XML text, comments in it and sections the importer has no use for"""
    g = Pfs(rng).build(size=rng.choice([0, 2, 6]))
    st = {"pretty": False, "comments": 0, "decl": False}
    text = g.text(st)
    o = mon.call(pfsenseConfig.fromString, text, options=PF())
    if not o.ok:
        mon.obs("skipped: the valid configuration itself was rejected (other properties)")
        return
    want = strip(pfs_observed(snapshot(mon, o.value)))
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 4)):
            g.root.kids.insert(rng.randint(0, len(g.root.kids)), El(rng.choice(["dhcpd", "cert", "openvpn", "rrd", "unbound", "gateways", "ipsec", "widgets"]),
                               kids=[El("rule", kids=[El("type", "pass")]), El("filter", kids=[El("rule", kids=[])]), El("hostname", "evil"), El("alias", "x")]))
    t = g.text({"pretty": rng.random() < 0.7, "comments": rng.choice([0, 0.1, 0.4]), "decl": rng.random() < 0.5})
    crlf, bom = rng.random() < 0.4, rng.random() < 0.5
    if crlf:
        t = t.replace("\n", "\r\n")
    if rng.random() < 0.3:
        t = t.rstrip()
    which = rng.choice(["string"] * 4 + entry.WAYS)
    label = f"pfsense: {which}{', CRLF' if crlf else ''}{', BOM' if bom and not which.startswith('string') else ''}"
    got = entry.read(lambda fn, *a, **k: mon.must("reject-pfsense", label + ": rejected", fn, *a, **k), which, pfsenseConfig, t, bom, rng.choice(entry.NAMES), options=PF())
    mon.nontrivial(label)
    mon.equal("changed-pfsense", label, want, strip(pfs_observed(snapshot(mon, got))), text=t, original=text)


def run_case(spec, rng, mon):
    dialect = spec[0]
    if dialect == "pfs":
        return pfs_case(rng, mon)
    if dialect == "asa":
        g = Asa(rng, family=family(rng))
        c = g.build(size=rng.choice([2, 5, 9]))
        cls, fn = fwsmConfig, noise.asa
    else:
        g = Ios(rng, family=family(rng))
        c = g.build(size=rng.choice([2, 5, 9]))
        cls, fn = iosConfig, noise.ios
    text = c.text()
    o = mon.call(cls.fromString, text)
    if not o.ok:
        mon.obs("skipped: the valid configuration itself was rejected (other properties)")
        return
    want = strip(snapshot(mon, o.value))
    neutral = insert(c, rng, fn, rng.choice([0.15, 0.4, 0.8]), mon, dialect)
    if dialect == "asa" and rng.random() < 0.2:
        # comments between the lines of the text of one ACL are neutral too; only the ends of the text here
        neutral = rng.choice([": Saved\n:\n", "\n\n", "!\n"]) + neutral
    variants = [("inserted statements", neutral)]
    base = neutral if rng.random() < 0.6 else text
    for name, t in [("CRLF", base.replace("\n", "\r\n")), ("no final newline", base[:-1]), ("extra final newlines", base + "\n" * rng.randint(1, 3)),
                    ("CRLF, no final newline", base.replace("\n", "\r\n")[:-2])]:
        if rng.random() < 0.4:
            variants.append((name, t))
    for name, t in variants:
        got = mon.must("reject-" + name.replace(" ", "-"), f"{dialect}: {name}: rejected", cls.fromString, t)
        mon.nontrivial(dialect, name)
        mon.equal("changed-" + name.replace(" ", "-"), f"{dialect}: {name}", want, strip(snapshot(mon, got)), text=t, original=text)
    # entry points
    name, t = rng.choice(variants)
    bom = rng.random() < 0.5
    which = rng.choice(entry.WAYS)
    label = f"{which}{' with BOM' if bom else ''}, {name}"
    got = entry.read(lambda fn, *a: mon.must("reject-" + which.split()[-1], f"{dialect}: {label}: rejected", fn, *a), which, cls, t, bom, rng.choice(entry.NAMES))
    mon.nontrivial(dialect, label)
    mon.equal("changed-" + which.split()[-1], f"{dialect}: {label}", want, strip(snapshot(mon, got)), text=t, original=text)
    if len(text) < 800 and rng.random() < 0.3:
        # with the trace of the parser switched on
        with contextlib.redirect_stderr(io.StringIO()):
            got = mon.must("reject-trace", f"{dialect}: rejected with a trace", cls.fromString, text, options=O.ACLParserOptions(trace=True))
        mon.nontrivial(dialect, "trace")
        mon.equal("changed-trace", f"{dialect}: read with a trace", want, strip(snapshot(mon, got)), text=text)
    mon.sample(neutral)
