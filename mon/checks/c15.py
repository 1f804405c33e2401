"""C15: filter text: layout and comments are neutral, malformed text is rejected."""
import contextlib, io
from mon.checks.common import *
from mon.core import Violation
from mon import entry
from mon.checks import policy
from mon.checks.c12 import check_expr
from mon.gen import caf

ID = "C15"
RULE = "distinct (layout of a filter text: token pairs and separators) and (class of malformed text, shape)"


def cases(tier, rng):
    n = 800 if tier == "quick" else 14000
    return [["layout", i] for i in range(n)] + [["bad", i] for i in range(2 * n)]


def small(rng, mon):
    while True:
        p = policy.load(mon, rng, dialects=("asa", "ios"), size=3, nrules=6)
        if p:
            return p


def select(mon, conf, block, label, **data):
    got = mon.must("filter-error", label + ": running it failed", block.run, conf.rules)
    ids = {id(r): i for i, r in enumerate(conf.rules.rules)}
    return sorted(ids.get(id(r), -1) for r in got)


def run_case(spec, rng, mon):
    if spec[0] == "bad":
        return bad(rng, mon)
    d, text, cls, conf = small(rng, mon)
    snap = snapshot(mon, conf)
    prof = caf.Profile(snap, rng)
    for _ in range(4):
        e = caf.expression(rng, prof, rng.choice([1, 2, 4, 8]))
        plain = caf.plain(e)
        base = mon.must("filter-rejected", f"valid filter text was rejected: {plain!r}", cafBlock.fromString, plain)
        want = select(mon, conf, base, plain)
        for _ in range(3):
            t = caf.layout(e, rng, rng.choice([0, 0.15, 0.5]))
            how, bom = rng.choice(["string"] * 4 + entry.WAYS), rng.random() < 0.4
            label = f"{how}{' with BOM' if bom and not how.startswith('string') else ''}: {t!r}"
            opt = {"trace": True} if len(t) < 120 and rng.random() < 0.1 else {}
            with contextlib.redirect_stderr(io.StringIO()):
                b = entry.read(lambda fn, *a, **k: mon.must("layout-rejected", label + " was rejected", fn, *a, **k), how, cafBlock, t, bom, rng.choice(entry.NAMES), **opt)
            mon.equal("layout", label, want, select(mon, conf, b, label), filter=t, plain=plain, text=text)
            mon.nontrivial(how, bool(opt), "/*" in t, "\r" in t, len(t) % 64, t.count("/*"))
            mon.obs("layouts compared")
    mon.sample(t)


BADADDR = ["10.0.0", "10.0.0.256", "300.1.1.1", "10.0.0.1.5", "10.0.0.0/33", "10.0.0.0/", "10.0.0.0/x", "10.0.0.0/-1", "10.0.0.0/24/24", "10.0.0.0//24", "2001:db8::/129", "1:2:3", "12345::", "::g",
           "1::2::3", "10.0.0.x", "host", "10.0.0.1-10.0.0.5", "10.0.0.1,10.0.0.2", "*", "10.0.0.0/255.255.255.0", "fe80::1%eth0", "any5", "Any", "aNY", "anyx", "-", "10.0.0.1x", "10..0.1", "::/x",
           "10.0.0.0/99999", "ANY64", "any-4", ":", "10.0.0.0 / x"]


def bad(rng, mon):
    prof = caf.Profile({"rules": [{"id": x} for x in ["outside_in", "A", "acl-1", "web.x"]], "netobj": {}, "netgrp": {}, "nat": {}}, rng)
    e = caf.expression(rng, prof, rng.choice([1, 2, 4]))
    toks = [t for t, _ in caf.tokens(e)]
    ids = [i for i, t in enumerate(toks) if t == "id" and not (i and toks[i - 1] == "id")]
    ips = [i for i, t in enumerate(toks) if t == "ip" and not (i and toks[i - 1] == "id")]
    ops = [i for i, t in enumerate(toks) if t in caf.OPS]
    # start of operands
    terms = [i for i, t in enumerate(toks) if t in ("id", "ip") and (i == 0 or toks[i - 1] in caf.OPS + ["(", ")"])]
    pars = [i for i, t in enumerate(toks) if t in "()"]
    kinds = ["parenthesis removed", "parenthesis added", "unknown word", "repeated id", "empty id", "missing address", "bad address", "missing direction", "bad direction",
             "term before parenthesis", "term after parenthesis", "two expressions", "unclosed comment", "misspelled keyword", "missing ip", "joined words", "bytes that are no text"]
    k = rng.choice(kinds)
    t = list(toks)
    if k == "parenthesis removed":
        if not pars:
            return
        del t[rng.choice(pars)]
    elif k == "parenthesis added":
        t.insert(rng.choice([0, len(t)] + ops), rng.choice("()"))
    elif k == "unknown word":
        t.insert(rng.choice(ops + ips + [len(t)]), rng.choice(["foo", "not", "and", "unions", "intersects", ",", ";", "&", "port", "=", "#", "//", "--", "!", "%", "\\", "\n#", "\n//", "\n!", "\n;", "src", "dst", "{"]))
    elif k == "repeated id":
        if not ids:
            return
        i = rng.choice(ids)
        t[i:i] = ["id", rng.choice(["A", "/x*/", t[i + 1]])]
    elif k == "empty id":
        # an id where the text ends or a parenthesis follows
        if rng.random() < 0.5:
            t += [rng.choice(caf.OPS), "id"]
        else:
            t = ["(", "id", ")"] if rng.random() < 0.3 else ["(", "id", ")", rng.choice(caf.OPS)] + t
    elif k == "missing address":
        # remove all addresses of a clause
        if not ips:
            return
        i = rng.choice(ips)
        j = i + 2
        while j < len(t) and t[j] not in caf.OPS + ["ip", "id", "(", ")"]:
            j += 1
        del t[i + 2:j]
    elif k == "bad address":
        if not ips:
            return
        i = rng.choice(ips) + 2
        if rng.random() < 0.4:
            t.insert(i + rng.choice([0, 1]), rng.choice(BADADDR))
        else:
            t[i] = rng.choice(BADADDR)
    elif k == "missing direction":
        if not ips:
            return
        del t[rng.choice(ips) + 1]
    elif k == "bad direction":
        if not ips:
            return
        t[rng.choice(ips) + 1] = rng.choice(["source", "dest", "srcc", "ds", "SRC", "Dst", "any", "both", "src,dst", "from", "ip"])
    elif k == "term before parenthesis":
        if not terms:
            return
        i = rng.choice([0] + [o + 1 for o in ops])
        t[i:i] = rng.choice([["id", "A", "("], ["ip", "src", "10.0.0.1", "("], ["id", "A", "ip", "dst", "any", "("]])
        t.insert(close(t, i, toks), ")")
    elif k == "term after parenthesis":
        t = ["("] + t + [")"] + rng.choice([["id", "A"], ["ip", "dst", "10.0.0.1"], ["ip", "src", "any", "ip", "dst", "any"]])
    elif k == "two expressions":
        t = ["("] + t + [")", "("] + toks + [")"]
    elif k == "unclosed comment":
        if any("*/" in x for x in t):
            return
        t.insert(rng.choice([0, len(t)]), rng.choice(["/*", "/* x", "/* x *", "*/", "/* x */ */", "/*/"]))
    elif k == "misspelled keyword":
        c = ids + ips + ops
        i = rng.choice(c)
        w = t[i]
        t[i] = rng.choice([w + "x", "x" + w, w.upper(), w.capitalize(), w[:-1]])
    elif k == "missing ip":
        if not ips:
            return
        i = rng.choice(ips)
        if i and t[i - 1] not in caf.OPS + ["("] and False:
            return
        del t[i]
    sep = rng.choice([" ", " ", "\n"])
    if k == "joined words":
        # a keyword and the word behind it written as one
        at = [i for i in range(len(t) - 1) if t[i] in caf.OPS + caf.KW + ["id", "ip", "src", "dst"] and not (i and t[i - 1] == "id") and (t[i + 1][0].isalnum() or t[i + 1][0] == "_")
              and not (t[i] in caf.KW and t[i + 1][0] in "46")]
        if not at:
            return
        i = rng.choice(at)
        t[i:i + 2] = [t[i] + t[i + 1]]
    if k == "bytes that are no text":
        i = rng.choice([i for i in range(len(t)) if t[i] not in "()"])
        n = rng.randint(0, len(t[i]))
        t[i] = t[i][:n] + "\ue0ff" + t[i][n:]
    f = sep.join(t)
    if rng.random() < 0.3:
        f += "\n"
    how = rng.choice(["string"] * 6 + entry.WAYS)
    if k == "bytes that are no text":
        how = rng.choice([w for w in entry.WAYS if not w.startswith("string")])
        f = f.encode("utf-8").replace("\ue0ff".encode("utf-8"), rng.choice([b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80"]))
    o = entry.read(mon.call, how, cafBlock, f, rng.random() < 0.3, rng.choice(entry.NAMES))
    mon.counts["comparisons"] += 1
    mon.obs("malformed: " + k)
    mon.nontrivial(k, tuple("w" if x not in caf.OPS + ["id", "ip", "(", ")", "src", "dst"] else x for x in t)[:14])
    if o.ok:
        raise Violation("accepted-" + k.replace(" ", "-"), f"{k}: {f!r} by {how} was accepted as {o.value!r}", filter=f)


def close(t, i, toks):
    """end of the operand that starts after the inserted opening parenthesis"""
    j = t.index("(", i) + 1
    depth = 0
    while j < len(t):
        if t[j] == "(":
            depth += 1
        elif t[j] == ")":
            if depth == 0:
                break
            depth -= 1
        elif depth == 0 and t[j] in caf.OPS:
            break
        j += 1
    return j
