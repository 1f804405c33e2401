"""C14: filtering a configuration also selects exactly the concerned NAT entries."""
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import caf

ID = "C14"
RULE = "distinct (NAT section, stated parts on the real and mapped side, stated constraints, verdict) plus expression shapes"
ASSUMPTIONS = ["not judged: entries on fully qualified names, empty groups against any"]


def cases(tier, rng):
    n = 1300 if tier == "quick" else 16000
    return [["nat", i] for i in range(n)]


def run_case(spec, rng, mon):
    p = policy.load(mon, rng, dialects=("asa",) * 9 + ("ios",), nat=True, nrules=rng.choice([0, 2, 5]))
    if p is None:
        return
    d, text, cls, conf = p
    snap = snapshot(mon, conf)
    prof = caf.Profile(snap, rng)
    ids = {id(r): ("rule", i) for i, r in enumerate(conf.rules.rules)}
    ids.update({id(n): ("nat", k, i) for k in (1, 2, 3) for i, n in enumerate(conf.nat[k])})
    for _ in range(12):
        e = [prof.term(rng)] if rng.random() < 0.6 else caf.expression(rng, prof, rng.choice([2, 4, 8]))
        f = caf.plain(e)
        block = mon.must("filter-rejected", f"valid filter text was rejected: {f!r}", cafBlock.fromString, f)
        got = mon.must("filter-error", f"filtering the configuration failed: {f!r}", conf.filter, block)
        found = mon.must("filter-result", "the result cannot be read", lambda: [ids.get(id(r)) for r in got])
        if None in found or len(set(found)) != len(found):
            raise Violation("foreign", "the selection holds something that is neither rule nor NAT entry of the configuration, or twice", filter=f, text=text)
        rules, unj = caf.reference(e, snap)
        nats, unjn = caf.reference_nat(e, snap)
        want = {("rule", i) for i in rules} | {("nat",) + x for x in nats}
        skip = {("rule", i) for i in unj} | {("nat",) + x for x in unjn}
        mon.obs("NAT entries selected", len(nats))
        mon.obs("NAT entries passed over", sum(map(len, snap["nat"].values())) - len(nats))
        mon.equal("nat-selection", f"{f!r}", sorted(want - skip), sorted(set(found) - skip), filter=f, text=text)
        if len(e) == 1 and e[0][0] == "term":
            s, dd = caf.sides(e[0])
            for k in (1, 2, 3):
                for i, n in enumerate(snap["nat"][k]):
                    mon.nontrivial(k, [(x and x[0]) for side in ("real", "mapped") for x in n[side][1:3]], bool(s), bool(dd), e[0][1] is not None, (k, i) in nats)
        else:
            mon.nontrivial("expr", len(e), tuple(op for op, _ in e[1:]))
    mon.sample(f + "\n" + text[:1000])
