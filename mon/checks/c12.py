"""C12: a filter term selects exactly the rules it describes."""
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import caf

ID = "C12"
RULE = "distinct (form of id, number and kinds of src/dst addresses, kinds of rule addresses met, verdict)"
ASSUMPTIONS = ["not judged: rules on URL objects or fully qualified names against addresses, empty groups against any"]


def cases(tier, rng):
    n = 1600 if tier == "quick" else 24000
    return [["term", i] for i in range(n)]


def form(i):
    return None if i is None else "glob" if i[0] == i[-1] == "/" else "exact"


def check_expr(mon, conf, snap, expr, mech, label, text):
    f = caf.plain(expr)
    block = mon.must("filter-rejected", f"valid filter text was rejected: {f!r}", cafBlock.fromString, f)
    got = mon.must("filter-error", f"running the filter failed: {f!r}", block.run, conf.rules)
    want, unj = caf.reference(expr, snap)
    ids = {id(r): i for i, r in enumerate(conf.rules.rules)}
    found = mon.must("filter-result", "the result cannot be read", lambda: [ids.get(id(r)) for r in got])
    if None in found:
        raise Violation(mech + "-foreign", f"{label}: the selection holds something that is no rule of the configuration", filter=f, text=text)
    if unj:
        mon.obs("rules not judged", len(unj))
    mon.equal(mech, f"{label} {f!r}", sorted(want - unj), sorted(set(found) - unj), filter=f, text=text)
    return want, unj


def extend(rng, conf, mon):
    """no dialect writes any into a network group, the object model allows it"""
    gs = list(conf.groups.network.values())
    if not gs or rng.random() < 0.6:
        return
    for g in rng.sample(gs, min(len(gs), rng.choice([1, 1, 2]))):
        k = rng.choice([O.NetworkAny, O.NetworkAny4, O.NetworkAny6, O.NetworkAny4, O.NetworkAny6])
        mon.must("group-add", "adding an address to a network group failed", g.add, k())
        mon.obs("groups extended by " + k.__name__)


def run_case(spec, rng, mon):
    p = policy.load(mon, rng)
    if p is None:
        return
    d, text, cls, conf = p
    extend(rng, conf, mon)
    snap = snapshot(mon, conf)
    prof = caf.Profile(snap, rng)
    for _ in range(14):
        t = prof.term(rng)
        want, unj = check_expr(mon, conf, snap, [t], "term", d, text)
        s, dd = caf.sides(t)
        mon.obs("terms run")
        mon.obs("rules selected", len(want))
        mon.obs("rules passed over", len(snap["rules"]) - len(want))
        for i, r in list(enumerate(snap["rules"]))[:20]:
            mon.nontrivial(form(t[1]), len(s), len(dd), s[:1] and (s[0] if s[0] in caf.KW else "addr"), dd[:1] and (dd[0] if dd[0] in caf.KW else "addr"),
                           r["src"][0], r["dst"][0], i in want)
    mon.sample(caf.plain([t]) + "\n" + text[:800])
