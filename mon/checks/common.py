"""Shared by the checks: parsing and comparing with the generator's expected model."""
from mon.load import *  # noqa: F401,F403
from mon.load import fwsmConfig, iosConfig, pfsenseConfig, PF, O
from mon import snap
from mon.gen import base as B

SECTIONS = {
    "rules": ["rules"],
    "defs": ["names", "netobj", "svcobj", "time", "netgrp", "svcgrp", "portgrp", "protogrp", "icmpgrp"],
    "host": ["hostname", "domainname", "version", "interfaces", "access_groups", "routes"],
    "nat": ["nat"],
}


def parse(mon, cls, text, mech="reject", **kw):
    if cls is pfsenseConfig:
        kw.setdefault("options", PF())
    return mon.must(mech, "a valid configuration was rejected", cls.fromString, text, **kw)


def compare(mon, exp, got, keys, mech="", **data):
    if "nat" in keys and "nat" in exp:
        exp = dict(exp, nat=settle(exp["nat"], got.get("nat")))
    for k in keys:
        if k in exp:
            mon.equal((mech + k) if mech else k, k, exp[k], got.get(k), **data)


def settle(exp, got):
    """the interface of a translated destination may be recorded as either interface of the entry"""
    r = {}
    for s, l in exp.items():
        r[s] = []
        for i, n in enumerate(l):
            dst = n["mapped"][2]
            if dst and dst[0] == "iface?":
                try:
                    g = got[s][i]["mapped"][2]
                except (KeyError, IndexError, TypeError):
                    g = None
                dst = g if g in (("iface", dst[1]), ("iface", dst[2])) else ("iface", dst[1])
                n = dict(n, mapped=n["mapped"][:2] + (dst,) + n["mapped"][3:])
            r[s].append(n)
    return r


def family(rng, p=0.35):
    """a family of confusable names, or none"""
    return rng.choice(B.FAMILIES) if rng.random() < p else None


def snapshot(mon, conf):
    return mon.must("structure", "the parsed configuration cannot be read", snap.config, conf)
