"""C18: expanding groups preserves their meaning."""
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import caf
from mon import refs

ID = "C18"
RULE = "distinct (kind of group, nesting depth, objects inside, way of expanding, members)"
ASSUMPTIONS = ["ANY/ANY4/ANY6 terms are not compared where objects of fully qualified names exist"]
GROUPS = ["netgrp", "svcgrp", "portgrp", "protogrp", "icmpgrp"]


def cases(tier, rng):
    n = 1600 if tier == "quick" else 12000
    return [["expand", i] for i in range(n)]


def leaves(kind, name, sn, depth=0):
    """flat list of the leaf members in order"""
    out = []
    for m in sn[kind][name][-1]:
        if m[0] == kind:
            out += leaves(kind, m[1], sn, depth + 1)
        elif m[0] == "netobj":
            out += sn["netobj"][m[1]][3]
        elif m[0] == "svcobj":
            out.append(("svc",) + sn["svcobj"][m[1]][3:])
        else:
            out.append(m)
    return out


def depth(kind, name, sn):
    return 1 + max([depth(kind, m[1], sn) for m in sn[kind][name][-1] if m[0] == kind] or [0])


def build(mon, rng):
    if rng.random() < 0.6:
        from mon.gen.asa import Asa
        g = Asa(rng, family=family(rng))
        w = {"netobj": 3, "netgrp": 7, "svcobj": 2, "svcgrp": 5, "portgrp": 4, "icmpgrp": 2, "protogrp": 2, "name": 1, "rules": 1, "interface": 0.3}
        t = g.build(size=rng.choice([8, 16, 26]), weights=w, nrules=rng.choice([0, 6])).text()
        o = mon.call(fwsmConfig.fromString, t)
        return (t, fwsmConfig, o.value) if o.ok else None
    p = policy.load(mon, rng, dialects=("ios", "pfs"), size=rng.choice([6, 14]))
    return p and (p[1], p[2], p[3])


def want_config(sn, one=None):
    w = dict(sn)
    for k in GROUPS:
        w[k] = {n: d[:-1] + (tuple(leaves(k, n, sn)),) if one is None or one == (k, n) else d for n, d in sn[k].items()}
    return w


def run_case(spec, rng, mon):
    p = build(mon, rng)
    if p is None:
        mon.obs("skipped: configuration rejected (other properties)")
        return
    text, cls, conf = p
    sn = snapshot(mon, conf)
    names = [(k, n) for k in GROUPS for n in sn[k]]
    for k, n in names:
        mon.nontrivial(k, depth(k, n, sn), sum(m[0] in ("netobj", "svcobj") for m in sn[k][n][-1]), len(sn[k][n][-1]))
        mon.obs(k + " expanded")
        if depth(k, n, sn) > 1:
            mon.obs("nested groups expanded")
    tab = refs.tables(conf)
    prof = caf.Profile(sn, rng)
    # whether an object of a fully qualified name is "literally any" is not specified
    fq = any(m[0].startswith("any") for d in sn["netobj"].values() for m in d[3])
    filters = [f for f in (caf.plain([prof.term(rng)]) for _ in range(6)) if not (fq and "ANY" in f)]
    blocks = [mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f) for f in filters]

    def selections():
        r = []
        for b in blocks:
            s = mon.must("filter-error", "a filter failed", b.run, conf.rules)
            r.append(sorted(i for i, x in enumerate(conf.rules.rules) if x in s))
        return r
    sel = selections()
    # into new groups
    for k, n in rng.sample(names, min(len(names), 6)):
        g = tab[k][n]
        e = mon.must("expand-error", f"expanding {k} {n} into a new group failed", g.expand, insitu=False)
        want = sn[k][n][:-1] + (tuple(leaves(k, n, sn)),)
        mon.equal("expand-copy", f"{k} {n} expanded into a new group", want, mon.must("structure", "the new group cannot be read", snap.Snap(conf).definition, e), text=text)
        mon.equal("expand-copy-kind", f"{k} {n}", type(g).__name__, type(e).__name__, text=text)
        mon.equal("expand-touches", f"configuration after expanding {k} {n} into a new group", sn, snapshot(mon, conf), text=text)
        if e is g:
            raise Violation("expand-copy-same", f"{k} {n}: expand(insitu=False) returned the group itself", text=text)
        # the new group is a group of its own
        if e.objects:
            mon.must("expand-copy-add", "the new group cannot be extended", e.add, e.objects[0])
            mon.call(lambda: e.objects.reverse())
            mon.equal("expand-shares", f"configuration after changing the new group made from {k} {n}", sn, snapshot(mon, conf), text=text)
    # one group in place
    cur = sn
    if names and rng.random() < 0.6:
        k, n = rng.choice(names)
        r = mon.must("expand-error", f"expanding {k} {n} failed", tab[k][n].expand)
        cur = snapshot(mon, conf)
        mon.equal("expand-one", f"configuration after expanding {k} {n} in place", want_config(sn, (k, n)), cur, text=text)
        if r is not tab[k][n]:
            raise Violation("expand-result", f"{k} {n}: expand() did not return the group", text=text)
    mon.must("expand-error", "expanding the configuration failed", conf.expand)
    want = want_config(sn)
    mon.equal("expand-config", "configuration after expand()", want, snapshot(mon, conf), text=text)
    mon.equal("expand-selection", f"selections of {filters} after expanding", sel, selections(), text=text)
    # groups that grow between two expansions
    if rng.random() < 0.5:
        grown = {}
        for k, n in rng.sample(names, min(len(names), 5)):
            g = tab[k][n]
            other = [x for kk, x in names if kk == k and x != n and x not in grown.get(k, ())] + (["object"] * 2 if k in ("netgrp", "svcgrp") else [])
            if not other or any(n in t for t in grown.get(k, {}).values()):
                continue
            x = rng.choice(other)
            if x == "object":
                objs = conf.objects.network if k == "netgrp" else conf.objects.service
                objs = [o for o in objs.values() if k == "svcgrp" or o.addresses]
                if not objs:
                    continue
                m = rng.choice(objs)
            else:
                m = tab[k][x]
                grown.setdefault(k, {})[n] = [x]
            if rng.random() < 0.5:
                mon.must("expand-add", f"the expanded {k} {n} cannot be extended", g.add, m)
            elif g.objects:
                g.objects[rng.randrange(len(g.objects))] = m
            else:
                g.objects.append(m)
            mon.obs("groups grown after an expansion")
        bigger = snapshot(mon, conf)
        new = {k: n for k, n in names if rng.random() < 0.1}
        for k, n in new.items():
            e = mon.must("expand-error", f"expanding {k} {n} into a new group failed", tab[k][n].expand, insitu=False)
            mon.equal("expand-grown-copy", f"{k} {n}, that grew after an expansion, expanded into a new group", bigger[k][n][:-1] + (tuple(leaves(k, n, bigger)),), snap.Snap(conf).definition(e), text=text)
        mon.must("expand-error", "expanding the configuration again failed", conf.expand)
        want = want_config(bigger)
        mon.equal("expand-grown", "configuration whose groups grew after an expansion, expanded again", want, snapshot(mon, conf), text=text)
        sel = selections()
    # every expanded group is a group of its own
    for k, n in rng.sample(names, min(len(names), 4)):
        g = tab[k][n]
        if not g.objects:
            continue
        keep = list(g.objects)
        mon.must("expand-add", f"the expanded {k} {n} cannot be extended", g.add, keep[0])
        g.objects.reverse()
        now = snapshot(mon, conf)
        w = dict(want)
        w[k] = dict(want[k])
        w[k][n] = now[k].get(n)
        # rules and groups may refer to the group as a whole, and are read by its name
        mon.equal("expand-shares", f"configuration apart from {k} {n} after changing that group, once expanded", w, now, text=text)
        g.objects[:] = keep
    mon.must("expand-error", "expanding the configuration again failed", conf.expand)
    mon.equal("expand-again", "configuration after a second expand()", want, snapshot(mon, conf), text=text)
    mon.equal("expand-selection", f"selections of {filters} after expanding twice", sel, selections(), text=text)
    mon.sample(text[:1200])
