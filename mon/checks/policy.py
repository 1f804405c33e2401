"""Policies (parsed configurations of every dialect) that the query checks ask about."""
from mon.checks.common import *
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.pfs import Pfs


def text(rng, dialects=("asa", "asa", "ios", "pfs"), size=None, nat=False, nrules=None):
    d = rng.choice(dialects)
    if d == "asa":
        g = Asa(rng, family=family(rng))
        w = {"netobj": 3, "netgrp": 5, "rules": 4, "svcobj": 0.5, "svcgrp": 0.5, "portgrp": 0.5, "icmpgrp": 0.3, "protogrp": 0.3, "time": 0.3}
        if nat:
            w.update({"natobj": 3, "nat": 4, "renat": 1, "rules": 2})
        c = g.build(size=size or rng.choice([4, 8, 14]), weights=w, nrules=rng.choice([4, 10, 20]) if nrules is None else nrules)
        return d, c.text(), fwsmConfig
    if d == "ios":
        g = Ios(rng, family=family(rng))
        c = g.build(size=size or rng.choice([4, 8, 12]), weights={"netgrp": 4, "named": 5})
        return d, c.text(), iosConfig
    g = Pfs(rng).build(size=size or rng.choice([5, 15, 30]))
    return d, g.text(), pfsenseConfig


def load(mon, rng, **kw):
    """(dialect, text, configuration) or None when the configuration is rejected (judged elsewhere)"""
    d, t, cls = text(rng, **kw)
    o = mon.call(cls.fromString, t, **({"options": PF()} if cls is pfsenseConfig else {}))
    if not o.ok:
        mon.obs("skipped: configuration rejected (other properties)")
        return None
    return d, t, cls, o.value


def reload(mon, cls, t):
    return mon.must("reparse", "the same text was rejected the second time", cls.fromString, t, **({"options": PF()} if cls is pfsenseConfig else {}))
