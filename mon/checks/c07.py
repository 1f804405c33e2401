"""C07: NAT entries are recorded as written and in their section."""
from mon.checks.common import *
from mon.gen.asa import Asa

ID = "C07"
RULE = "distinct (section, type, real/mapped part kinds, service kinds, fallback, options) of NAT entries compared"


def cases(tier, rng):
    return [["cfg", i] for i in range(2400 if tier == "quick" else 9000)]


def run_case(spec, rng, mon):
    g = Asa(rng, family(rng))
    for _ in range(rng.choice([0, 2, 3])):
        g.interface()
    for _ in range(rng.choice([1, 3])):
        g.network_object()
        g.network_group()
    for side in rng.choice([[], ["source", "destination"], ["source", "source", "destination", "destination"]]):
        g.service_object(nat=side)
    c = g.build(size=rng.choice([6, 12, 18]), weights={"nat": 7, "natobj": 4, "renat": 4, "netobj": 3, "rules": 0.3, "time": 0.2, "interface": 0,
                                                       "icmpgrp": 0.1, "protogrp": 0.1, "svcgrp": 0.3, "portgrp": 0.3})
    text = c.text()
    conf = parse(mon, fwsmConfig, text)
    got = snapshot(mon, conf)
    mon.sample(text)
    for s, l in c.exp["nat"].items():
        for n in l:
            mon.obs(f"section {s} entries compared")
            mon.nontrivial(s, n["type"], [x and x[:1] for x in n["real"][1:]], [x and x[:1] for x in n["mapped"][1:]], n["fallback"],
                           sorted(n["options"]), bool(n["description"]))
    for k in c.features:
        if "nat" in k or "twice" in k:
            mon.obs("feature " + k)
    compare(mon, c.exp, got, ["nat"], text=text)
    # object NAT stands for the addresses of its object
    for e, n in zip(c.exp["nat"][2], conf.nat[2]):
        o = n.real.src.node
        mon.equal("nat-object", "addresses of the object of an object NAT entry", list(c.exp["netobj"][e["real"][1][1]][3]),
                  [snap.Snap(conf).addr(a) for a in o.addresses], text=text)
