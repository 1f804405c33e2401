"""C16: filtering, resolving and reporting are read-only and repeatable."""
import copy
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import caf
from mon import refs, report

ID = "C16"
RULE = "distinct (dialect, sequence of queries run on one configuration)"


def cases(tier, rng):
    n = 520 if tier == "quick" else 4200
    return [["seq", i] for i in range(n)]


KINDS = ["filter", "filter", "run", "resolve", "resolve", "resolve all", "repr", "render", "render filtered", "render unselected", "expanded copy", "sorted copy", "snapshot", "twice"]


def answer(mon, conf, q):
    """plain answer of one query"""
    kind, ftext, block = q
    ids = {id(r): ("rule", i) for i, r in enumerate(conf.rules.rules)}
    ids.update({id(n): ("nat", k, i) for k in (1, 2, 3) for i, n in enumerate(conf.nat[k])})

    def plain(sel):
        got = [ids.get(id(x)) for x in sel]
        if None in got:
            return "holds something that is no rule or NAT entry of the configuration"
        if len(set(got)) != len(got):
            return "holds an entry twice"
        return sorted(got)

    def resolved(sel):
        own = {}
        for k, t in refs.tables(conf).items():
            for n, o in t.items():
                own[id(o)] = (k, n)
        for n in conf.names.objects:
            own[id(n)] = ("name", n.hostname)
        for a, i in conf.interfaces.items():
            own[id(i)] = ("iface", a)
        r = conf.resolve(sel)
        return sorted(repr(x) for x in ({own[id(x)] for x in r if id(x) in own} | {ids[id(x)] for x in r if id(x) in ids} | {x for x in r if isinstance(x, str)}))

    def page(sel, show=False):
        return sorted(report.neutral(conf, report.render(conf, sel, ftext, show)).split("\n"))

    def go():
        if kind == "filter":
            return plain(conf.filter(block))
        if kind == "twice":
            return [plain(conf.filter(block)), plain(conf.filter(block)), plain(block.run(conf.rules))]
        if kind == "run":
            return plain(block.run(conf.rules))
        if kind == "resolve":
            return resolved(conf.filter(block))
        if kind == "resolve all":
            return resolved(set(conf.rules.rules))
        if kind == "repr":
            return [snap.AGE.sub("", repr(x)) for x in conf.rules.rules] + [repr(o) for t in refs.tables(conf).values() for o in t.values()] + [repr(conf.names), repr(block)]
        if kind == "render":
            return page(None)
        if kind == "render filtered":
            return page(conf.resolve(conf.filter(block)))
        if kind == "render unselected":
            return page(conf.resolve(conf.filter(block)), True)
        if kind == "snapshot":
            return snap.config(conf)
        s = snap.Snap(conf)
        g = [(k, n, o) for k, t in refs.tables(conf).items() if k in ("netgrp", "svcgrp", "portgrp", "protogrp") for n, o in t.items()]
        if kind == "expanded copy":
            return [(k, n, s.definition(o.expand(insitu=False))) for k, n, o in g]
        if kind == "sorted copy":
            return [(k, n, sorted(map(repr, s.definition(o.sort(insitu=False))[3:]))) for k, n, o in g]
    o = mon.call(go)
    return o.value if o.ok else "raised " + type(o.exc).__name__


def results_are_own(mon, rng, conf, filters, blocks, text):
    """what a caller does with a returned set, and rules added or removed since, show in no or in every later answer"""
    f, b = rng.choice(list(zip(filters, blocks)))
    for name, q in (("filter", lambda: conf.filter(b)), ("run", lambda: b.run(conf.rules)), ("resolve", lambda: conf.resolve(set(conf.filter(b))))):
        first = mon.call(q)
        if not first.ok:
            return
        keep = set(first.value)
        rng.choice([first.value.clear, lambda: first.value.add("x"), lambda: [first.value.discard(x) for x in list(keep)[:1]]])()
        again = mon.call(q)
        if not again.ok or {id(x) if not isinstance(x, str) else x for x in again.value} != {id(x) if not isinstance(x, str) else x for x in keep}:
            raise Violation("result-shared", f"{name} {f!r} answers differently after the caller changed the set it returned", text=text, filter=f)
        mon.counts["comparisons"] += 1
    if len(conf.rules.rules) < 2:
        return
    # the same rules without one, and with it again
    i = rng.randrange(len(conf.rules.rules))
    full = b.run(conf.rules)
    r = conf.rules.rules.pop(i)
    part = b.run(conf.rules)
    conf.rules.rules.insert(i, r)
    back = b.run(conf.rules)
    ids = lambda s: {id(x) for x in s}
    mon.counts["comparisons"] += 2
    if ids(part) != ids(full) - {id(r)} or ids(back) != ids(full):
        raise Violation("stale", f"{f!r} does not follow a rule that is taken away and put back", text=text, filter=f)
    # another rule in its place, an altered rule, two rules swapped
    j = rng.choice([x for x in range(len(conf.rules.rules)) if x != i])
    other = conf.rules.rules[j]
    conf.rules.rules[i] = copy.copy(other)
    there = b.run(conf.rules)
    mon.counts["comparisons"] += 1
    if ids(there) != ids(full) - {id(r)} | ({id(conf.rules.rules[i])} if other in full else set()):
        raise Violation("stale", f"{f!r} does not follow a rule that is replaced by another", text=text, filter=f)
    conf.rules.rules[i] = r
    keep = r.id, r.src, r.dst
    r.id, r.src, r.dst = other.id, other.src, other.dst
    there = b.run(conf.rules)
    r.id, r.src, r.dst = keep
    back = b.run(conf.rules)
    mon.counts["comparisons"] += 2
    if ids(there) != ids(full) - {id(r)} | ({id(r)} if other in full else set()) or ids(back) != ids(full):
        raise Violation("stale", f"{f!r} does not follow a rule that is altered and altered back", text=text, filter=f)
    mon.obs("results changed by the caller, rules taken away and put back")


def run_case(spec, rng, mon):
    p = policy.load(mon, rng, size=rng.choice([3, 6, 10]), nat=rng.random() < 0.6, nrules=rng.choice([3, 8]))
    if p is None:
        return
    d, text, cls, conf = p
    before = snapshot(mon, conf)
    prof = caf.Profile(before, rng)
    bound = {k: len(v) for k, v in dict(conf.access_groups).items()}
    filters = []
    for _ in range(3):
        e = [prof.term(rng)] if rng.random() < 0.4 else caf.expression(rng, prof, rng.choice([2, 5]))
        filters.append(caf.plain(e))
    blocks = [mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f) for f in filters]
    reprs = [mon.must("repr", "a filter cannot be shown", repr, b) for b in blocks]
    # the same filters also serve another configuration in between
    p2 = policy.load(mon, rng, dialects=("asa", "ios"), size=2, nrules=3)
    seq = []
    n = rng.choice([4, 7, 10])
    while len(seq) < n:
        if seq and rng.random() < 0.25:
            seq.append(rng.choice(seq))
        else:
            seq.append((rng.choice(KINDS), rng.randrange(3)))
    got = []
    for kind, fi in seq:
        if p2 and rng.random() < 0.2:
            mon.call(lambda: p2[3].resolve(p2[3].filter(blocks[fi])))
            mon.obs("queries on another configuration in between")
        got.append(answer(mon, conf, (kind, filters[fi], blocks[fi])))
        after = snapshot(mon, conf)
        mon.equal("changed-by-" + kind.replace(" ", "-"), f"the configuration after {kind} {filters[fi]!r}", before, after, text=text, sequence=[list(s) for s in seq])
        mon.equal("changed-bindings", f"number of bindings per access list after {kind} {filters[fi]!r}", bound, {k: len(v) for k, v in dict(conf.access_groups).items()}, text=text)
    for f, b, r in zip(filters, blocks, reprs):
        mon.equal("filter-changed", f"the filter {f!r} after use", r, mon.must("repr", "a filter cannot be shown", repr, b), text=text)
    # each query alone, on a fresh parse
    alone = {}
    for (kind, fi), g in zip(seq, got):
        if (kind, fi) not in alone:
            fresh = policy.reload(mon, cls, text)
            alone[kind, fi] = answer(mon, fresh, (kind, filters[fi], mon.must("filter-rejected", "rejected", cafBlock.fromString, filters[fi])))
        mon.equal("not-repeatable-" + kind.replace(" ", "-"), f"answer of {kind} {filters[fi]!r} within a sequence and alone", alone[kind, fi], g, text=text, sequence=[list(s) for s in seq],
                  filter=filters[fi])
        if isinstance(g, str):
            if not g.startswith("raised"):
                raise Violation("foreign", f"{kind} {filters[fi]!r}: the result {g}", text=text, filter=filters[fi])
            mon.obs("queries that raised (judged elsewhere)")
        mon.obs("query " + kind)
    results_are_own(mon, rng, conf, filters, blocks, text)
    mon.nontrivial(d, tuple(k for k, _ in seq))
    mon.sample("\n".join(f"{k} {filters[i]}" for k, i in seq))
