"""C19: sorting and collapsing groups preserve their content."""
import collections, copy, ipaddress, socket
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.checks.c18 import build, leaves
from mon import refs
from mon.gen import base as B

ID = "C19"
RULE = "distinct (operation, kind of group, kinds of members, number of members, in place)"
ASSUMPTIONS = ["order is judged among addresses, among ports with a number or a service name known with one number to the table and the system, among numeric protocols and among services; "
               "collapsing groups that hold any/any4/any6 (also as fully qualified names) is not judged"]


def cases(tier, rng):
    n = 1800 if tier == "quick" else 9000
    return [["config", i] for i in range(n)] + [["net", i] for i in range(3 * n)] + [["port", i] for i in range(n)]


# ---------------------------------------------------------------- oracle
def minimal(nets):
    """minimal disjoint cover of CIDR blocks, by a binary trie"""
    out = []
    for v, w in ((4, 32), (6, 128)):
        s = {(n.prefixlen, int(n.network_address) >> (w - n.prefixlen)) for n in nets if n.version == v}
        s = {(p, b) for p, b in s if not any((q, b >> (p - q)) in s for q in range(p))}
        for p in range(w, 0, -1):
            for q, b in [x for x in s if x[0] == p]:
                if (p, b) in s and (p, b ^ 1) in s:
                    s -= {(p, b), (p, b ^ 1)}
                    s.add((p - 1, b >> 1))
        cls = ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address
        out += [f"{cls(b << (w - p))}/{p}" for p, b in s]
    return sorted(out)


_sys = {}


def portnum(x):
    """number of a port or None when it has no undisputed number"""
    if isinstance(x, int):
        return x
    if x not in _sys:
        try:
            a = socket.getservbyname(x)
        except OSError:
            a = None
        b = {s.port for s in O.PortUtil.services() if s.name == x and s.protocol != "ICMP"}
        _sys[x] = a if b == {a} else None
    return _sys[x]


def key(kind, m):
    """comparable key of a member or None when its place is not specified"""
    if kind == "netgrp":
        return int(ipaddress.ip_network(m[1]).network_address) if m[0] == "net" else None
    if kind == "portgrp":
        if m[0] == "port":
            return portnum(m[2])
        return portnum(m[1]) if m[0] == "range" else None
    if kind == "protogrp":
        return m[1] if m[0] == "proto" and isinstance(m[1], int) else None
    if kind == "svcgrp":
        if m[0] != "svc":
            return None
        k = [str(m[1][1])]
        for p in m[2:4]:
            n = 0 if p is None else key("portgrp", p)
            if n is None:
                return None
            k.append(n)
        return tuple(k)


def check_order(mon, kind, label, members, **data):
    ks = [key(kind, m) for m in members]
    ks = [k for k in ks if k is not None]
    mon.counts["comparisons"] += 1
    for a, b in zip(ks, ks[1:]):
        if a > b:
            raise Violation("sort-order-" + kind, f"{label}: {a} before {b}", observed=repr(members)[:2000], **data)
    mon.obs(kind + " members ordered", len(ks))


def content(kind, members):
    return collections.Counter(map(repr, members))


# ---------------------------------------------------------------- operations
def check_sort(mon, kind, g, read, label, insitu, **data):
    before = read(g)
    r = mon.must("sort-error-" + kind, f"{label}: sorting failed", g.sort, insitu=insitu)
    after = read(r)
    mon.equal("sort-content-" + kind, f"{label}: content after sorting", content(kind, before), content(kind, after), **data)
    mon.equal("sort-kind", f"{label}: kind and name of the sorted group", (type(g).__name__, g.name, g.description), (type(r).__name__, r.name, r.description), **data)
    check_order(mon, kind, label, after, **data)
    if insitu:
        mon.equal("sort-insitu", f"{label}: the group itself after sorting it in place", after, read(g), **data)
    else:
        mon.equal("sort-original", f"{label}: the original after sorting a copy", before, read(g), **data)
        if r.objects:
            r.objects.reverse()
            mon.equal("sort-shares", f"{label}: the original after changing the sorted copy", before, read(g), **data)
            r.objects.reverse()
    again = mon.must("sort-error-" + kind, f"{label}: sorting again failed", r.sort)
    mon.equal("sort-again-" + kind, f"{label}: order after sorting again", after, read(again), **data)
    # the members moved or replaced after sorting
    if len(r.objects) > 1:
        r.objects.append(r.objects.pop(0))
        r.objects.reverse()
        x = read(r)
        once = mon.must("sort-error-" + kind, f"{label}: sorting the rearranged group failed", r.sort)
        mon.equal("sort-content-" + kind, f"{label}: content after sorting the rearranged group", content(kind, x), content(kind, read(once)), **data)
        check_order(mon, kind, label + " rearranged and sorted again", read(once), **data)
        mon.obs("sorted after a change")
    mon.obs("sorted " + kind)


def check_collapse(mon, g, read, flat, label, insitu, **data):
    """flat: canonical addresses the group stands for"""
    before = read(g)
    if any(m[0] not in ("net",) for m in flat):
        # leaves something unjudged; it must still not change the original
        if not insitu:
            o = mon.call(g.collapse, insitu=False)
            mon.equal("collapse-original", f"{label}: the original after collapsing a copy ({o})", before, read(g), **data)
        return
    nested = any(m[0] in ("netgrp", "netobj") for m in before)
    o = mon.call(g.collapse, insitu=insitu)
    if not o.ok:
        mon.counts["comparisons"] += 1
        if insitu and nested and isinstance(o.exc, ValueError):
            mon.equal("collapse-refused", f"{label}: the group after collapse was refused", before, read(g), **data)
            mon.obs("collapse refused")
            return
        raise Violation("collapse-error", f"{label}: collapse(insitu={insitu}) {o}", **data)
    after = read(o.value)
    want = minimal([ipaddress.ip_network(m[1]) for m in flat])
    mon.equal("collapse-content", f"{label}: networks after collapse", [("net", x) for x in want], sorted((m[:2] for m in after), key=lambda m: m[1]), **data)
    if insitu:
        mon.equal("collapse-insitu", f"{label}: the group itself", after, read(g), **data)
    else:
        mon.equal("collapse-original", f"{label}: the original after collapsing a copy", before, read(g), **data)
    mon.equal("collapse-name", f"{label}: name and description", (g.name, g.description), (o.value.name, o.value.description), **data)
    again = mon.must("collapse-error", f"{label}: collapsing again failed", o.value.collapse)
    mon.equal("collapse-again", f"{label}: after collapsing again", after, read(again), **data)
    # more members after collapsing: the neighbour of the first or last network
    if after:
        n = ipaddress.ip_network((after[0] if len(after) % 2 else after[-1])[1])
        c, top = type(n.network_address), (1 << n.max_prefixlen) - 1
        x = (int(n.network_address) ^ int(n.num_addresses)) if n.num_addresses <= top else 0
        m = ipaddress.ip_network((c(x & top), n.prefixlen), strict=False)
        r = o.value
        mon.must("collapse-add", f"{label}: the collapsed group cannot be extended", r.add, O.Network(str(m.network_address), m.prefixlen))
        mon.must("collapse-error", f"{label}: collapsing the extended group failed", r.collapse)
        mon.equal("collapse-content", f"{label}: networks after collapse with {m} added", [("net", y) for y in minimal([m] + [ipaddress.ip_network(y) for y in want])], sorted((y[:2] for y in read(r)), key=lambda y: y[1]), **data)
    mon.obs("collapsed groups")
    mon.obs("networks before collapse", len(flat))
    mon.obs("networks after collapse", len(after))


# ---------------------------------------------------------------- workloads
def run_case(spec, rng, mon):
    {"config": run_config, "net": run_net, "port": run_port}[spec[0]](rng, mon)


def run_config(rng, mon):
    p = build(mon, rng)
    if p is None:
        return
    text, cls, conf = p
    sn = snapshot(mon, conf)
    s = snap.Snap(conf)
    if rng.random() < 0.4:
        mon.must("expand-error", "expanding failed", conf.expand)
        sn = snapshot(mon, conf)
    tab = refs.tables(conf)
    names = [(k, n) for k in ("netgrp", "svcgrp", "portgrp", "protogrp") for n in sn[k]]
    rng.shuffle(names)

    def reader(g):
        return lambda x: list(mon.must("structure", "a group cannot be read", s.definition, x)[-1])
    for k, n in names[:8]:
        g = tab[k][n]
        read = reader(g)
        insitu = rng.random() < 0.5
        mon.nontrivial("sort", k, tuple(sorted({m[0] for m in read(g)})), min(9, len(g.objects)), insitu)
        check_sort(mon, k, g, read, f"{k} {n}", insitu, text=text)
        if not insitu:
            mon.equal("sort-touches", f"configuration after sorting a copy of {k} {n}", sn, snapshot(mon, conf), text=text)
        else:
            now = snapshot(mon, conf)
            w = dict(sn)
            w[k] = dict(sn[k])
            w[k][n] = now[k].get(n)
            mon.equal("sort-touches", f"configuration apart from {k} {n} after sorting it", w, now, text=text)
            sn = now
    for n in list(sn["netgrp"]):
        if rng.random() < 0.7:
            insitu = rng.random() < 0.4
            flat = leaves("netgrp", n, sn)
            mon.nontrivial("collapse", tuple(sorted({m[0] for m in sn["netgrp"][n][3]})), min(9, len(flat)), insitu)
            check_collapse(mon, tab["netgrp"][n], reader(n), flat, f"network group {n}", insitu, text=text)
            now = snapshot(mon, conf)
            w = dict(sn)
            w["netgrp"] = dict(sn["netgrp"])
            w["netgrp"][n] = now["netgrp"].get(n)
            mon.equal("collapse-touches", f"configuration apart from network group {n}", w, now, text=text)
            sn = now
    mon.sample(text[:1000])


def run_net(rng, mon):
    """hostile address sets, built through the public interface"""
    g = O.NetworkGroup("g", "d")
    flat = []
    base = rng.choice([0, (1 << 32) - 1, rng.getrandbits(32)])
    base6 = rng.choice([0, (1 << 128) - 1, rng.getrandbits(128)])
    v6 = rng.choice([0, 0, 0.3, 1])
    hostsonly = rng.random() < 0.2
    span = rng.choice([0, 2, 3, 5, 8, 32])
    repeat = rng.choice([0, 0, 0.2, 0.8])
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16, 40])):
        w, b = (128, base6) if rng.random() < v6 else (32, base)
        p = w if hostsonly else w - min(w, rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, span), rng.randint(0, w)]))
        x = (b ^ rng.getrandbits(min(span, w) or 1)) if rng.random() < 0.9 else rng.getrandbits(w)
        n = ipaddress.ip_network((ipaddress.IPv4Address(x) if w == 32 else ipaddress.IPv6Address(x), p), strict=False)
        k = rng.random()
        if p == w and k < 0.7:
            a = O.NetworkHost(str(n.network_address))
        else:
            a = O.Network(str(n.network_address), p if w == 128 or k < 0.5 else str(n.netmask))
        flat.append(("net", str(n)))
        if rng.random() < 0.12:
            h = O.NetworkObject(f"o{len(flat)}", None, type="host", address=str(n.network_address))
            flat.append(("net", f"{n.network_address}/{w}"))
            g.add(h)
        if rng.random() < 0.1:
            hi = min(int(n.network_address) + rng.randint(0, 9), (1 << w) - 1)
            cls = type(n.network_address)
            h = O.NetworkObject(f"o{len(flat)}", None, type="range", start=str(n.network_address), stop=str(cls(hi)))
            flat += [("net", f"{cls(i)}/{w}") for i in range(int(n.network_address), hi + 1)]
            g.add(h)
        if rng.random() < 0.15:
            h = O.NetworkGroup(f"n{len(flat)}", None)
            h.add(a)
            g.add(h)
        else:
            g.add(a)
        # equal members, each an object of its own
        if rng.random() < repeat:
            for _ in range(rng.choice([1, 1, 2, 5])):
                h = copy.deepcopy(g.objects[rng.randrange(len(g.objects))]) if rng.random() < 0.5 else copy.deepcopy(g.objects[-1])
                g.objects.insert(rng.randint(0, len(g.objects)), h)
    s = snap.Snap(None)
    read = lambda x: [s.addr(m) for m in x.objects]
    if rng.random() < 0.15:
        for a in rng.sample([O.NetworkAny, O.NetworkAny4, O.NetworkAny6], rng.choice([1, 1, 2, 3])):
            g.objects.insert(rng.randint(0, len(g.objects)), a())
            flat.append(s.addr(a()))
    data = dict(built=repr(flat))
    kinds = tuple(sorted({type(m).__name__ for m in g.objects}))
    order = rng.sample(["sort", "sortcopy", "copy", "insitu", "insitu"], 5)
    for what in order:
        mon.nontrivial(what, kinds, len(g.objects), v6, span)
        if what == "sort" or what == "sortcopy":
            check_sort(mon, "netgrp", g, read, "group built from objects", what == "sort", **data)
        else:
            check_collapse(mon, g, read, flat, "group built from objects", what == "insitu", **data)
            if what == "insitu" and all(m[0] == "net" for m in read(g)):
                flat = read(g)


PROTOS = ["tcp", "udp", "icmp", "icmp6", "ip", "6", "17", "100", "9", "50", "255", "gre"]


def run_port(rng, mon):
    s = snap.Snap(None)
    kind = rng.choice(["portgrp", "protogrp", "svcgrp"])
    n = rng.choice([0, 1, 2, 5, 12])

    def port():
        x = rng.choice(B.PORT_EDGES + [rng.randint(0, 65535)])
        if rng.random() < 0.3:
            y = rng.randint(0, 65535)
            if x != y:
                return O.PortRange(*map(str, sorted((x, y))))
        if rng.random() < 0.25:
            x = rng.choice(B.PORT_NAMES)
        return O.Port(rng.choice(B.OPS), str(x))
    if kind == "portgrp":
        g = O.PortGroup("g", O.Protocol("tcp"), "d")
        for _ in range(n):
            g.add(port())
        if rng.random() < 0.2:
            h = O.PortGroup("h", O.Protocol("tcp"), None)
            h.add(port())
            g.add(h)
        read = lambda x: [s.port(m) for m in x.objects]
    elif kind == "protogrp":
        g = O.ProtocolGroup("g", None)
        for _ in range(n):
            g.add(O.Protocol(rng.choice(PROTOS)))
        read = lambda x: [s.protocol(m) for m in x.objects]
    else:
        g = O.ServiceGroup("g", None)
        for i in range(n):
            a = dict(protocol=O.Protocol(rng.choice(PROTOS[:6])), src=port() if rng.random() < 0.5 else None, dst=port() if rng.random() < 0.6 else None)
            if a["protocol"].name.startswith("icmp"):
                a = dict(protocol=a["protocol"], icmp_type=rng.choice([None, "8", "echo", "unreachable", "10", "9"]))
                if a["icmp_type"] and rng.random() < 0.4:
                    a["icmp_code"] = rng.choice(["0", "3", "10"])
            g.add(O.Service(**a) if rng.random() < 0.8 else O.ServiceObject(f"o{i}", None, **a))
        read = lambda x: [s.svcmember(m) for m in x.objects]
        # objects count with their content
        read = lambda x: [("svc",) + s.service(m) if isinstance(m, O.Service) else s.svcmember(m) for m in x.objects]
    mon.nontrivial("sort", kind, len(g.objects), tuple(sorted({m[0] for m in read(g)})))
    for insitu in rng.sample([True, False], 2):
        check_sort(mon, kind, g, read, kind + " built from objects", insitu, built=repr(read(g)))
