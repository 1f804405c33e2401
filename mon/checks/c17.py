"""C17: resolving a selection returns exactly the definitions it depends on."""
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import caf
from mon import refs

ID = "C17"
RULE = "distinct (kinds of definitions expected, kinds present but unreferenced, rules/NAT entries selected, how the selection was made)"


def cases(tier, rng):
    n = 1300 if tier == "quick" else 16000
    return [["resolve", i] for i in range(n)]


WEIGHTS = {"netobj": 2, "netgrp": 3, "rules": 4, "svcobj": 2, "svcgrp": 2, "portgrp": 2, "icmpgrp": 1.5, "protogrp": 1.5, "time": 1.5, "name": 3, "interface": 2,
           "natobj": 1.5, "nat": 2, "renat": 0.7}


def change(rng, mon, conf):
    """another member in a group, or another address in a rule"""
    tab = refs.tables(conf)
    kind = rng.choice(["netgrp", "netgrp", "svcgrp", "portgrp", "protogrp", "icmpgrp", "rule"])
    if kind == "rule":
        hosts = list(tab.get("netgrp", {}).values()) + list(tab.get("netobj", {}).values())
        if not hosts or not conf.rules.rules:
            return False
        r = rng.choice(conf.rules.rules)
        # a node may be shared between rules
        r.src = O.ACLNode(rng.choice(hosts), r.src.port)
        return True
    gs = tab.get(kind, {})
    if not gs:
        return False
    g = rng.choice(list(gs.values()))
    def inside(x):
        return x is g or any(inside(m) for m in getattr(x, "objects", ()))
    new = [x for x in gs.values() if not inside(x)] + list(tab.get({"netgrp": "netobj", "svcgrp": "svcobj"}.get(kind), {}).values())
    if not new:
        return False
    m = rng.choice(new)
    if g.objects and rng.random() < 0.4:
        g.objects[rng.randrange(len(g.objects))] = m
    else:
        mon.must("group-add", "a group cannot be extended", g.add, m)
    return True


def run_case(spec, rng, mon):
    k = rng.random()
    if k < 0.6:
        from mon.gen.asa import Asa
        g = Asa(rng, family=family(rng))
        for _ in range(rng.choice([0, 2])):
            g.interface()
        for side in rng.choice([[], [], ["source", "source", "destination", "destination"]]):
            g.service_object(nat=side)
        text = g.build(size=rng.choice([6, 14, 22]), weights=WEIGHTS, nrules=rng.choice([3, 10, 20])).text()
        cls = fwsmConfig
        o = mon.call(cls.fromString, text)
        if not o.ok:
            mon.obs("skipped: configuration rejected (other properties)")
            return
        conf = o.value
    else:
        p = policy.load(mon, rng, dialects=("ios", "pfs"), size=rng.choice([5, 12, 20]))
        if p is None:
            return
        _, text, cls, conf = p
    sn = snapshot(mon, conf)
    prof = caf.Profile(sn, rng)
    rules = conf.rules.rules
    nats = [(s, i, n) for s in (1, 2, 3) for i, n in enumerate(conf.nat[s])]
    owner = {}
    for kind, t in refs.tables(conf).items():
        for name, o in t.items():
            owner[id(o)] = (kind, name)
    for n in conf.names.objects:
        owner[id(n)] = ("name", n.hostname, str(n.address))
    for a, i in conf.interfaces.items():
        owner[id(i)] = ("interface", a)
    bound = {}
    for a, i in sn["interfaces"].items():
        for gname, _, _ in i["access_groups"].values():
            bound.setdefault(gname, set()).add(("interface", a))
    for acl, l in sn["access_groups"].items():
        for al, _, _ in l:
            bound.setdefault(acl, set()).add(("interface", al))
    ids = {x["id"] for x in sn["rules"]}
    grow = rng.random() < 0.3
    for turn in range(8):
        if grow and turn in (3, 5, 6):
            # the definitions and rules change, the answers with them
            if not change(rng, mon, conf):
                continue
            sn = snapshot(mon, conf)
            mon.obs("resolved after a change of the configuration")
        how = rng.choice(["subset", "subset", "one", "all", "none", "filter", "filter"])
        if turn < 2:
            how = ["one", "subset"][turn]
        if how == "filter":
            e = [prof.term(rng)] if rng.random() < 0.6 else caf.expression(rng, prof, 3)
            f = caf.plain(e)
            b = mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f)
            sel = mon.must("filter-error", f"{f!r} failed", conf.filter, b)
        else:
            pr = {"one": 0, "all": 1, "none": 0, "subset": rng.choice([0.1, 0.4, 0.8])}[how]
            sel = {r for r in rules if rng.random() < pr} | {n for _, _, n in nats if rng.random() < pr}
            if how == "one" and rules + nats:
                x = rng.choice([*rules, *(n for _, _, n in nats)])
                sel = {x}
        want, marks = set(), set()
        selrules = [i for i, r in enumerate(rules) if r in sel]
        selnats = [(s, i) for s, i, n in nats if n in sel]
        chosen = set(sel)
        start = set()
        for i in selrules:
            start |= refs.of_rule(sn["rules"][i])
            want |= bound.get(sn["rules"][i]["id"], set())
        for s, i in selnats:
            start |= refs.of_nat(sn["nat"][s][i])
        want |= refs.closure(start, sn)
        marks = {refs.KINDS.get(w[0]) or {"name": "Names", "interface": "Interface"}[w[0]] for w in want}
        if selnats:
            marks.add("NAT")
        try:
            got = mon.must("resolve-error", "resolving a selection failed", conf.resolve, set(sel), )
        except Violation as v:
            v.data.update(text=text, selected=[sn["rules"][i] for i in selrules][:3])
            raise
        def read():
            have = {id(x) for x in got}
            seen = {d for o, d in owner.items() if o in have}
            strings = {x for x in got if isinstance(x, str)}
            return have, seen, strings
        have, seen, strings = mon.must("resolve-result", "the result cannot be read", read)
        # a re-defined name denotes the address it had; the record of another address is not judged
        label = f"{how}: {len(selrules)} rules, {len(selnats)} NAT entries"
        data = dict(text=text, selected=[sn["rules"][i] for i in selrules][:4] + [sn["nat"][s][i] for s, i in selnats][:4])
        mon.equal("resolve-selection", label + ": the selected rules and NAT entries in the result", [True] * len(chosen), [id(x) in have for x in chosen], **data)
        other = [x for x in [*rules, *(n for _, _, n in nats)] if x not in chosen and id(x) in have]
        mon.equal("resolve-foreign", label + ": rules and NAT entries in the result that were not selected", 0, len(other), **data)
        mon.equal("resolve-missing", label + ": definitions missing from the result", [], sorted(map(repr, want - seen)), **data)
        mon.equal("resolve-extra", label + ": definitions in the result that nothing refers to", [], sorted(map(repr, seen - want)), **data)
        allm = set(refs.KINDS.values()) | {"Names", "Interface", "NAT"}
        mon.equal("resolve-marker", label + ": markers", sorted(marks - ids), sorted((strings & allm) - ids), **data)
        for w in want:
            mon.obs("resolved " + w[0])
        mon.obs("unreferenced definitions left out", len(owner) - len(seen))
        if selrules or selnats:
            mon.nontrivial(how, tuple(sorted({w[0] for w in want})), tuple(sorted({o[0] for o in owner.values()} - {w[0] for w in want})), min(4, len(selrules)), min(3, len(selnats)))
    after = snapshot(mon, conf)
    mon.equal("changed", "the configuration after resolving", sn, after, text=text)
    mon.sample(text[:1200])
