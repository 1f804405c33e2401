"""C02: IOS access rules are recorded with their device meaning."""
from mon.checks.common import *
from mon.gen.ios import Ios

ID = "C02"
RULE = "distinct (list kind, protocol kind, address kinds, port forms, icmp form, options, remark count) combinations of entries compared"


def cases(tier, rng):
    return [["cfg", i] for i in range(2400 if tier == "quick" else 9000)]


def run_case(spec, rng, mon):
    g = Ios(rng, family(rng))
    c = g.build(size=rng.choice([3, 6, 10, 14]), weights={"route": 0.3, "interface": 0.7})
    text = c.text()
    got = snapshot(mon, parse(mon, iosConfig, text))
    mon.sample(text)
    for r in c.exp["rules"]:
        mon.obs("rules compared")
        mon.nontrivial(r["mode"], r["protocol"][:1], r["src"][:1], r["dst"][:1], r["sport"] and r["sport"][:2], r["dport"] and r["dport"][:2],
                       r["icmp"] and r["icmp"][:1], tuple(sorted(r["options"])), len(r["remark"]))
    for k in c.features:
        mon.obs("feature " + k)
    compare(mon, c.exp, got, ["rules"], text=text)
