"""C11: address matching is exactly set intersection."""
import ipaddress
from mon.checks.common import *
from mon import addr
from mon.gen.base import ip4, ip6, net6, netaddr4, c_net, c_host, many
from mon.gen.ios import WILDS, c_wild
from mon.snap import cubetuple, full

ID = "C11"
RULE = "distinct (kind of left expression, kind of right expression, verdict) triples with nesting depth"
ASSUMPTIONS = ["an empty group or object matches nothing except that its behaviour against any/interface is not judged",
               "network objects of type fqdn without known addresses are not judged"]
CPU_LIMIT = 20


def cases(tier, rng):
    n = 12000 if tier == "quick" else 200000
    return [["pairs", i] for i in range(n)] + [["growing", i] for i in range(n // 6)] + [["edge", i] for i in range(40)]


def leaf(rng, pool):
    """(object, canonical)"""
    k = rng.choice(["host", "host6", "net", "net", "net6", "net6", "wild", "wild", "wild6", "any", "any4", "any6", "iface"])
    if k == "iface" and pool.get("nofree"):
        k = "wild"
    if k == "host":
        a = near(rng, pool, 4)
        return O.NetworkHost(a), c_host(a)
    if k == "host6":
        a = near(rng, pool, 6)
        return O.NetworkHost(a), c_host(a)
    if k == "net":
        a = near(rng, pool, 4)
        pl = rng.choice([0, 1, 8, 15, 16, 23, 24, 25, 30, 31, 32, rng.randint(0, 32)])
        return O.Network(ipaddress.ip_address(a), pl), c_net(ipaddress.ip_network(f"{a}/{pl}", strict=False))
    if k == "net6":
        a = near(rng, pool, 6)
        pl = rng.choice([0, 1, 32, 48, 63, 64, 65, 96, 112, 127, 128, rng.randint(0, 128)])
        return O.Network(ipaddress.ip_address(a), pl), c_net(ipaddress.ip_network(f"{a}/{pl}", strict=False))
    if k == "wild":
        a = near(rng, pool, 4)
        w = rng.choice(WILDS) if rng.random() < 0.6 else str(ipaddress.IPv4Address(rng.getrandbits(32) & rng.getrandbits(32)))
        if rng.random() < 0.2:
            w = str(ipaddress.IPv4Address(rng.getrandbits(32) | rng.getrandbits(32)))
        return O.NetworkWildcard(a, w), c_wild(a, w)
    if k == "wild6":
        a = near(rng, pool, 6)
        bits = rng.choice([0, 1, 0xff, 0xff00, 1 << 127, (1 << 64) - 1, ((1 << 64) - 1) << 64, 0x10001 << 30, full(6), full(6) ^ 1,
                           rng.getrandbits(128) & rng.getrandbits(128), rng.getrandbits(128) | rng.getrandbits(128), 1 << rng.randrange(128)])
        return O.NetworkWildcard(a, str(ipaddress.IPv6Address(bits))), cubetuple(6, int(ipaddress.IPv6Address(a)), ~bits & full(6))
    if k == "any":
        return O.NetworkAny(), ("any",)
    if k == "any4":
        return O.NetworkAny4(), ("any4",)
    if k == "any6":
        return O.NetworkAny6(), ("any6",)
    return O.NetworkInterface("outside"), ("iface", "outside")


def near(rng, pool, v):
    """addresses around a few anchors, also with the same integer value in both families"""
    x = rng.choice(pool[v])
    r = rng.random()
    if r < 0.35:
        pass
    elif r < 0.6:
        x ^= 1 << rng.randrange(32 if v == 4 else 128)
    elif r < 0.75:
        x ^= rng.getrandbits(8)
    elif r < 0.85:
        x = (x + rng.choice([-1, 1, 256])) % (1 << (32 if v == 4 else 128))
    elif r < 0.92:
        x = rng.choice([0, full(v), 1, full(v) - 1])
    elif v == 6:
        # an IPv4 address within an IPv6 address
        x = rng.choice(pool[4])
        x = rng.choice([x, x | 0xFFFF << 32, x | 0xFFFF << 32, x | 0x64ff9b << 96, x << 80 | 0x2002 << 112])
    return str(ipaddress.IPv4Address(x) if v == 4 else ipaddress.IPv6Address(x))


def expr(rng, pool, depth):
    k = rng.random()
    if depth == 0 or k < 0.5:
        o, c = leaf(rng, pool)
        return o, addr.of_canon(c), c[0], c
    if k < 0.7:
        # network object, as the parsers build it
        t = rng.choice(["host", "subnet", "range", "range6", "host6", "fqdn"])
        if t in ("host", "host6"):
            a = near(rng, pool, 4 if t == "host" else 6)
            return O.NetworkObject("o", None, type="host", address=ipaddress.ip_address(a)), addr.of_canon(c_host(a)), "netobj", a
        if t == "subnet":
            a = near(rng, pool, 4)
            pl = rng.randint(0, 32)
            n = ipaddress.ip_network(f"{a}/{pl}", strict=False)
            return O.NetworkObject("o", None, type="subnet", address=n.network_address, mask=n.netmask), addr.of_canon(c_net(n)), "netobj", str(n)
        if t == "fqdn":
            l = rng.choice(["v4", "v6"])
            return O.NetworkObject("o", None, type="fqdn", fqdn="www.x.y", limit=l), addr.of_canon(("any4",) if l == "v4" else ("any6",)), "netobj", l
        v = 4 if t == "range" else 6
        a = int(ipaddress.ip_address(near(rng, pool, v)))
        b = min(full(v), a + rng.choice([0, 1, 2, 7, 100, 255, 256, 5000]))
        cls = ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address
        from mon.gen.asa import cidrs
        pats = [(n.version, int(n.network_address), int(n.netmask)) for n in cidrs(a, b, 32 if v == 4 else 128)]
        return O.NetworkObject("o", None, type="range", start=cls(a), stop=cls(b)), (pats, False), "netobj", (str(cls(a)), str(cls(b)))
    g = O.NetworkGroup("g", None)
    pats, u, what = [], False, []
    for _ in range(many(rng, [0, 1, 1, 2, 3, 4], (20, 80)) if depth < 3 else rng.choice([0, 1, 1, 2, 3, 4])):
        p = dict(pool, nofree=True)
        while True:
            o, A, kind, w = expr(rng, p, depth - 1)
            if not isinstance(o, (O.NetworkWildcard, O.NetworkInterface)):     # group members are never wildcards or interfaces
                break
        g.add(o)
        pats += A[0]
        u |= A[1]
        what.append(w)
    if rng.random() < 0.02:
        # deep inside of other groups
        for i in range(rng.choice([5, 9, 20, 40])):
            h = O.NetworkGroup(f"h{i}", None)
            h.add(g)
            if rng.random() < 0.3:
                a = near(rng, pool, 4)
                h.objects.insert(rng.choice([0, 1]), O.NetworkHost(a))
                pats += addr.of_canon(c_host(a))[0]
                what.append(("within", i, a))
            g = h
    return g, (pats, u), "netgrp", what


def judge(mon, a, b, what):
    x, A, ka, wa = a
    y, B, kb, wb = b
    if (addr.empty(A) or addr.empty(B)):
        # an empty group matches no address; only against any/interface nothing is required
        if A[1] or B[1]:
            mon.obs("not judged: empty against any")
            return
    want = addr.intersects(A, B)
    for l, r, wl, wr in ((x, y, wa, wb), (y, x, wb, wa)):
        o = mon.call(lambda: bool(l & r))
        if not o.ok:
            raise Violation("match-error", f"{type(l).__name__} & {type(r).__name__} raised {o.exc!r}", left=repr(wl), right=repr(wr))
        mon.equal("match", f"{type(l).__name__} {wl} & {type(r).__name__} {wr}", want, o.value, left=repr(wl), right=repr(wr))
    mon.nontrivial(ka, kb, want, len(A[0]) > 1, len(B[0]) > 1)
    mon.obs(f"verdict {want}")


def run_case(spec, rng, mon):
    if spec[0] == "edge":
        # every kind against every kind at the edges of the address space
        anchors = {4: [0, full(4), 1 << 31], 6: [0, full(6), 1 << 127, full(4)]}
        es = [expr(rng, anchors, 0) for _ in range(60)]
        for a in es:
            for b in es[:30]:
                judge(mon, a, b, "edge")
        return
    if spec[0] == "growing":
        return growing(rng, mon)
    pool = {4: [int(ipaddress.IPv4Address(ip4(rng))) for _ in range(2)], 6: [int(ipaddress.IPv6Address(ip6(rng))) for _ in range(2)]}
    es = [expr(rng, pool, rng.choice([0, 0, 1, 2, 3])) for _ in range(24)]
    mon.sample(repr([(e[2], e[3]) for e in es[:6]]))
    for i, a in enumerate(es):
        for b in es[i:]:
            judge(mon, a, b, "pair")


def growing(rng, mon):
    """groups and objects that gain and lose members between the questions"""
    pool = {4: [int(ipaddress.IPv4Address(ip4(rng)))], 6: [int(ipaddress.IPv6Address(ip6(rng)))], "nofree": True}

    def member():
        while True:
            o, A, k, w = expr(rng, pool, 0)
            if not isinstance(o, (O.NetworkWildcard, O.NetworkInterface)) and (k != "any" or rng.random() < 0.1):
                return o, A, k, w
    probes = [expr(rng, pool, rng.choice([0, 0, 1])) for _ in range(6)]
    inner, outer, obj = O.NetworkGroup("i", None), O.NetworkGroup("o", None), O.NetworkObject("x", None)
    # the members of each, the groups and the object among them included
    parts = {id(inner): [], id(outer): [], id(obj): []}
    outer.objects.append(inner)
    inner.objects.append(obj)

    def value(o):
        own, pats, u = parts[id(o)], [], False
        for m, A in own:
            pats, u = pats + A[0], u | A[1]
        for m in {id(outer): [inner], id(inner): [obj]}.get(id(o), []):
            p, v = value(m)
            pats, u = pats + p, u | v
        return pats, u
    for step in range(rng.choice([3, 6, 12])):
        x = rng.choice([inner, outer, obj])
        held = x.addresses if x is obj else x.objects
        own = parts[id(x)]
        k = rng.random()
        if own and k < 0.3:
            m = own.pop(rng.randrange(len(own)))
            held[:] = [y for y in held if y is not m[0]]
        elif own and k < 0.45:
            # another member in the place of one: the number of members stays
            i = rng.randrange(len(own))
            n = member()
            held[:] = [n[0] if y is own[i][0] else y for y in held]
            own[i] = (n[0], n[1])
        else:
            for _ in range(rng.choice([1, 1, 6])):
                n = member()
                own.append((n[0], n[1]))
                if x is not obj and rng.random() < 0.5:
                    x.add(n[0])
                else:
                    held.insert(rng.randint(0, len(held)), n[0])
        for y in (inner, outer, obj):
            for p in probes:
                judge(mon, (y, value(y), "changed", f"{y.name} after {step + 1} changes"), p, "growing")
    mon.obs("groups and objects changed between questions")


from mon.core import Violation  # noqa: E402
