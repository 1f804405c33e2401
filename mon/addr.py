"""Reference address algebra: a set of addresses is a list of (version, value, care) patterns; a pattern holds
the addresses whose bits under care equal value.  Written independently of the code under test, over canonical
snapshots (mon.snap) and the generators' expectations."""
import ipaddress
from mon.snap import full

ALL4 = (4, 0, 0)
ALL6 = (6, 0, 0)


class Unjudged(Exception):
    """a corner the properties do not speak about"""


def of_canon(a, defs=None, seen=()):
    """canonical address (snap) -> (patterns, universal): universal = plain any or an interface reference"""
    k = a[0]
    if k in ("any", "iface"):
        return [ALL4, ALL6], True
    if k == "any4":
        return [ALL4], False
    if k == "any6":
        return [ALL6], False
    if k == "net":
        n = ipaddress.ip_network(a[1])
        return [(n.version, int(n.network_address), int(n.netmask))], False
    if k == "wild":
        return [(a[1], a[2], a[3])], False
    if k in ("netobj", "netgrp"):
        r, u = [], False
        for m in defs[k][a[1]][3]:
            x, y = of_canon(m, defs)
            r += x
            u |= y
        return r, u
    raise Unjudged(a)


def meet(p, q):
    return p[0] == q[0] and (p[1] ^ q[1]) & p[2] & q[2] == 0


def intersects(A, B):
    """does some address belong to both; a universal expression matches every (non-empty) one"""
    (a, ua), (b, ub) = A, B
    if ua or ub:
        return True
    return any(meet(p, q) for p in a for q in b)


def empty(A):
    return not A[0] and not A[1]
