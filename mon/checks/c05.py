"""C05: a reference denotes the definition with exactly that name and kind."""
from mon.checks.common import *
from mon.core import Violation
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.base import render_line, FAMILIES
from mon.gen.pfs import Pfs, observed

ID = "C05"
RULE = "distinct (mode, kind of reference, relation of the name to the defined names) of references compared or injected"
# token type -> kinds whose definition would make the reference valid at its place
KINDS = {"netobj": ["netobj"], "netgrp": ["netgrp"], "svcobj": ["svcobj"], "svcgrp": ["svcgrp", "protogrp"], "protogrp": ["svcgrp", "protogrp"],
         "portgrp": ["portgrp", "svcgrp", "netgrp"], "icmpgrp": ["icmpgrp"], "time": ["time"], "name": ["name"]}
RULES = ("extended", "standard", "webtype", "named-standard", "named-extended", "numbered-standard", "numbered-extended", "v6list")


def cases(tier, rng):
    n = 350 if tier == "quick" else 6000
    return [["clash", i] for i in range(n)] + [["family", i] for i in range(n)] + [["undefined", i] for i in range(n)] + [["ios", i] for i in range(n // 2)] + [["pfs", i] for i in range(n)]


def definitions(c):
    """{kind: {name: index of the defining entry}}"""
    r = {}
    for i, (kind, lines) in enumerate(c.entries):
        t = [x[1] for x in lines[0][1]]
        if kind in ("netobj", "svcobj", "netgrp", "svcgrp", "portgrp", "icmpgrp", "protogrp"):
            r.setdefault(kind, {}).setdefault(t[2], i)
        elif kind == "time":
            r.setdefault(kind, {}).setdefault(t[1], i)
        elif kind == "name":
            r.setdefault(kind, {}).setdefault(t[2], i)
        elif kind == "interface":
            r.setdefault("if", {}).setdefault(t[1], i)
            for _, l in lines[1:]:
                if l[0][1] == "nameif":
                    r.setdefault("if", {}).setdefault(l[1][1], i)
    return r


def gen(spec, rng):
    if spec[0] == "ios" or (spec[0] == "undefined" and rng.random() < 0.25):
        g = Ios(rng, rng.choice(FAMILIES))
        g.clash = rng.random() < 0.5
        return g.build(size=rng.choice([6, 12]), weights={"netgrp": 4, "svcgrp": 2, "portgrp": 2, "icmpgrp": 2, "protogrp": 2, "named": 3,
                                                          "numbered": 2, "v6": 1, "route": 0}), iosConfig
    g = Asa(rng, rng.choice(FAMILIES))
    g.clash = spec[0] == "clash" or rng.random() < 0.3
    for _ in range(rng.choice([0, 1, 3])):
        g.interface()
    return g.build(size=rng.choice([8, 14, 20]), weights={"interface": 0, "name": 3, "netobj": 4, "netgrp": 4, "svcobj": 2, "svcgrp": 2, "portgrp": 2,
                                                          "icmpgrp": 2, "protogrp": 2, "time": 2, "nat": 2, "natobj": 1, "renat": 1, "rules": 4}), fwsmConfig


def relation(name, others):
    r = set()
    for o in others:
        if o == name:
            continue
        if o.startswith(name) or name.startswith(o):
            r.add("prefix")
        if o.lower() == name.lower():
            r.add("case")
        if o.translate(TR) == name.translate(TR):
            r.add("punctuation")
    return tuple(sorted(r))


TR = {ord(c): None for c in "-_.+"}


def variants(rng, name, defs):
    v = [name[:-1], name + "x", name + "-1", name + ".", name.swapcase(), name.upper(), name.lower(), name.replace("-", "_"), name.replace(".", "-"),
         name + name, name[: max(1, len(name) // 2)], "no-such", "x" + name]
    for d in defs.values():
        v += list(d)
    return [x for x in v if x and x[0].isalpha()]


def aliases(rng, mon):
    """pfSense: what rules and aliases refer to"""
    g = Pfs(rng)
    g.build(size=rng.choice([3, 6, 10]), aliases=rng.choice([4, 8, 14]))
    text = g.text()
    conf = parse(mon, pfsenseConfig, text, options=PF())
    got, exp = observed(snapshot(mon, conf)), dict(g.exp)
    cut = lambda rs: [{k: r[k] for k in ("src", "sport", "dst", "dport")} for r in rs]
    nets, ports = set(exp["netgrp"]), set(exp["portgrp"])
    compare(mon, dict(exp, rules=cut(exp["rules"])), dict(got, rules=cut(got["rules"])), ["rules", "netgrp", "portgrp"], mech="ref-pfs-", text=text)
    # the shown name of an interface is taken for it as well: not judged
    ifs = set(g.iface) | set(g.iface.values())
    # (element, the reference, its place within the text, kind)
    places = []
    for sec in g.root.kids:
        if sec.tag == "filter":
            for r in sec.kids:
                for k in r.kids or []:
                    if r.tag == "rule" and k.tag in ("source", "destination"):
                        places += [(e, e.text, None, e.tag) for e in k.kids if e.tag == "address" and e.text in nets or e.tag == "port" and e.text in ports or e.tag == "network"]
        elif sec.tag == "aliases":
            for a in sec.kids:
                typ = next(k.text for k in a.kids if k.tag == "type")
                for k in a.kids:
                    if k.tag == "address" and typ in ("network", "port"):
                        places += [(k, w, i, "member-" + typ) for i, w in enumerate((k.text or "").split()) if w in (nets if typ == "network" else ports)]
    rng.shuffle(places)
    for e, w, n, kind in places[:6]:
        near = [w[:-1], w + "x", w + "1", w.swapcase(), w.upper(), w.lower(), w.replace("_", ""), w + "_", w[: max(1, len(w) // 2)], "nosuch", "x" + w] + sorted(nets | ports | ifs)
        near = [x for x in near if x and x.isidentifier() and x not in {"network": ifs, "port": ports, "member-port": ports}.get(kind, nets)]
        v = rng.choice(near)
        old = e.text
        e.text = v if n is None else " ".join(v if i == n else x for i, x in enumerate(old.split()))
        t = g.text()
        e.text = old
        o = mon.call(pfsenseConfig.fromString, t, options=PF())
        mon.counts["comparisons"] += 1
        mon.obs("undefined references injected: pfsense " + kind)
        mon.nontrivial("pfs", kind, relation(v, nets | ports), v in nets, v in ports, v in ifs)
        if o.ok and "port" in kind:
            # may be the name of a service: then it stays one
            after = observed(snapshot(mon, o.value))
            bound = [r[x] for r in after["rules"] for x in ("sport", "dport")] + [m for x in after["portgrp"].values() for m in x[4]]
            if ("port", "eq", v) in bound or any(isinstance(m, tuple) and v in m and m[0] != "portgrp" for m in bound):
                continue
        if o.ok:
            raise Violation("undefined-accepted-pfs-" + kind, f"{kind} {w!r} changed to {v!r}, which no such definition has, was accepted", text=t)
    mon.sample(text)


def run_case(spec, rng, mon):
    if spec[0] == "pfs":
        return aliases(rng, mon)
    c, cls = gen(spec, rng)
    text = c.text()
    conf = parse(mon, cls, text)
    got = snapshot(mon, conf)
    defs = definitions(c)
    mon.sample(text)
    for kind, lines in c.entries:
        for _, l in lines:
            for t, w in l:
                if t.startswith("ref:") or t in ("name", "namelen"):
                    k = t[4:] if t.startswith("ref:") else "name"
                    mon.obs("references compared: " + k)
                    w = w.split("/")[0]
                    alln = set().union(*defs.values())
                    mon.nontrivial("defined", k, relation(w, alln), sorted(x for x in defs if w in defs[x]))
    compare(mon, c.exp, got, ["rules", "nat", "netobj", "svcobj", "netgrp", "svcgrp", "portgrp", "protogrp", "icmpgrp", "time"], mech="ref-", text=text)
    if spec[0] not in ("undefined", "clash"):
        return
    # the same configuration with one reference renamed to something not defined (with that kind, at that place)
    refs = []
    for i, (kind, lines) in enumerate(c.entries):
        for j, (_, l) in enumerate(lines):
            for n, (t, w) in enumerate(l):
                if (t.startswith("ref:") and t != "ref:if") or t in ("name", "namelen", "ifpair"):
                    refs.append((i, j, n, t, w))
    rng.shuffle(refs)
    for i, j, n, t, w in refs[:5]:
        kind = c.entries[i][0]
        k = t[4:] if t.startswith("ref:") else "if" if t == "ifpair" else "name"
        ok = set(KINDS.get(k, [k]))
        if kind in ("nat", "netobj", "netobj-nat") and k in ("netobj", "netgrp"):
            ok = {"netobj", "netgrp"}
        # after an address stands a group of ports or of ICMP types
        if kind in RULES and k in ("netgrp", "icmpgrp", "portgrp"):
            ok |= {"portgrp", "svcgrp", "icmpgrp"}
        before = set()
        for x in ok:
            before |= {nm for nm, at in defs.get(x, {}).items() if at < i}
        if kind == "netobj" and k == "netobj":
            before.add(c.entries[i][1][0][1][2][1])
        base = w.split("/")[0] if t != "ifpair" else rng.choice(w.strip("()").split(","))
        cand = [v for v in variants(rng, base, defs) if v not in before]
        bad = ("any", "interface", "host", "pat-pool", "any4", "any6", "object", "description")
        cand = [v for v in cand if v not in bad]
        if not cand:
            continue
        v = rng.choice(cand)
        if t == "namelen":
            neww = v + "/" + w.split("/")[1]
        elif t == "ifpair":
            a, b = w.strip("()").split(",")
            neww = f"({v},{b})" if a == base else f"({a},{v})"
        else:
            neww = v
        lines = []
        for i2, (_, ls) in enumerate(c.entries):
            for j2, (ind, l) in enumerate(ls):
                if (i2, j2) == (i, j):
                    l = l[:n] + [(t, neww)] + l[n + 1:]
                lines.append(render_line((ind, l)))
        mtext = "\n".join(lines) + "\n"
        o = mon.call(cls.fromString, mtext)
        mon.obs("undefined references injected: " + k)
        elsewhere = sorted(x for x in defs if v in defs[x])
        mon.nontrivial("undefined", k, bool(elsewhere), relation(v, before), v in set().union(*defs.values()))
        mon.counts["comparisons"] += 1
        if o.ok:
            raise Violation("undefined-accepted-" + k, f"{k} reference {w!r} renamed to {v!r}, which is not defined with that kind, was accepted: "
                            f"{render_line((0, c.entries[i][1][j][1]))!r}", text=mtext, defined_elsewhere=elsewhere)
