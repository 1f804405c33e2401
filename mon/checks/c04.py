"""C04: objects, groups, names and time ranges are recorded as written."""
from mon.checks.common import *
from mon.gen.asa import Asa
from mon.gen.ios import Ios

ID = "C04"
RULE = "distinct (dialect, kind of definition, member kinds, nesting) of definitions compared"


def cases(tier, rng):
    n = 1800 if tier == "quick" else 8000
    return [["asa", i] for i in range(n)] + [["ios", i] for i in range(n // 3)]


def run_case(spec, rng, mon):
    if spec[0] == "asa":
        g = Asa(rng, family(rng))
        c = g.build(size=rng.choice([4, 10, 16, 24]), weights={"rules": 0.5, "nat": 0.3, "interface": 0.4})
        cls = fwsmConfig
    else:
        g = Ios(rng, family(rng))
        c = g.build(size=rng.choice([4, 10, 16]), weights={"netgrp": 4, "svcgrp": 4, "portgrp": 3, "icmpgrp": 2, "protogrp": 2, "named": 1,
                                                           "numbered": 0.5, "v6": 0.5, "route": 0.3})
        cls = iosConfig
    text = c.text()
    got = snapshot(mon, parse(mon, cls, text))
    mon.sample(text)
    for k in SECTIONS["defs"]:
        for d in (c.exp[k].values() if isinstance(c.exp[k], dict) else c.exp[k]):
            mon.obs(k + " compared")
            mon.nontrivial(spec[0], k, [x[:1] if isinstance(x, tuple) else None for x in (d[-1] if isinstance(d[-1], tuple) else d)][:4])
    compare(mon, c.exp, got, SECTIONS["defs"], text=text)
