"""C01: ASA/FWSM access rules are recorded exactly as written."""
from mon.checks.common import *
from mon.gen.asa import Asa

ID = "C01"
RULE = "distinct (entry kind, protocol kind, address kinds, port forms, option and remark combination) of access-list entries compared"


def cases(tier, rng):
    return [["cfg", i] for i in range(2400 if tier == "quick" else 9000)]


def run_case(spec, rng, mon):
    g = Asa(rng, family(rng))
    c = g.build(size=rng.choice([3, 6, 10, 14]), weights={"rules": 8, "nat": 0.3, "natobj": 0.3},
                nrules=rng.choice([2, 4, 8]))
    text = c.text()
    conf = parse(mon, fwsmConfig, text)
    got = snapshot(mon, conf)
    mon.sample(text)
    for r in c.exp["rules"]:
        mon.obs("rules compared")
        mon.nontrivial(r["mode"], r["protocol"][:1], r["src"][:1], r["dst"][:1], r["sport"] and r["sport"][:2], r["dport"] and r["dport"][:2],
                       r["icmp"] and r["icmp"][:1], tuple(sorted(r["options"])), len(r["remark"]))
    for k in c.features:
        mon.obs("feature " + k)
    compare(mon, c.exp, got, ["rules"], text=text)
