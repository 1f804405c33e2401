"""Canonical, plain-data view of what the code under test recorded.

Addresses by what they denote, numbers as numbers, references as (kind, name) -- with a '!' marker and the
referenced content when the referenced object is not the definition of the configuration.
"""
import datetime, ipaddress, re
from mon.load import O, Webtype, CAF


def num(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    s = str(x)
    return int(s) if s.isascii() and s.isdigit() else s


def text(x):
    return None if x is None else str(x).rstrip()


AGE = re.compile(r"\(-?\d+ days\)")


def remark(x):
    """the age of a pfSense rule depends on the moment of the import"""
    return None if x is None else AGE.sub("(# days)", text(x))


def desc(x):
    """descriptions: absent and empty are the same, the white space that separates them is no part of them"""
    return (text(x) or "").strip() or None


def full(v):
    return (1 << (32 if v == 4 else 128)) - 1


def cubetuple(version, value, care):
    """canonical form of an address pattern (care: set bits must match)"""
    ign = ~care & full(version)
    value &= care
    if ign & (ign + 1) == 0:
        plen = (32 if version == 4 else 128) - ign.bit_length()
        return ("net", f"{ipaddress.ip_address(value) if version == 4 else ipaddress.IPv6Address(value)}/{plen}")
    return ("wild", version, value, care)


def target(t):
    if t is None:
        return ()
    return (("name", t.hostname, str(t.address)),)


class Snap:
    def __init__(self, config=None):
        self.c = config
        self.depth = 0
        self.refs = 0

    # --- definitions
    def _ref(self, kind, table, o):
        self.refs += 1
        name = o.name
        if self.c is not None:
            d = table.get(name) if isinstance(table, dict) else None
            if d is not o and (d is None or self.definition(d) != self.definition(o)):
                return (kind + "!", name, self.definition(o))
        return (kind, name)

    def definition(self, o):
        self.depth += 1
        try:
            if self.depth > 60:
                return ("too deep",)
            if isinstance(o, O.NetworkObject):
                return ("netobj", o.name, desc(o.description), tuple(self.addr(a) for a in o.addresses))
            if isinstance(o, O.ServiceObject):
                return ("svcobj", o.name, desc(o.description)) + self.service(o)
            if isinstance(o, O.NetworkGroup):
                return ("netgrp", o.name, desc(o.description), tuple(self.addr(a) for a in o.objects))
            if isinstance(o, O.PortGroup):
                return ("portgrp", o.name, desc(o.description), self.protocol(o.protocol), tuple(self.port(a) for a in o.objects))
            if isinstance(o, O.ServiceGroup):
                return ("svcgrp", o.name, desc(o.description), tuple(self.svcmember(a) for a in o.objects))
            if isinstance(o, O.ProtocolGroup):
                return ("protogrp", o.name, desc(o.description), tuple(self.protocol(a) for a in o.objects))
            if isinstance(o, O.ICMPGroup):
                return ("icmpgrp", o.name, desc(o.description), tuple(self.icmp(a) for a in o.objects))
            if isinstance(o, O.TimeRange):
                return ("time", o.name, tuple(self.timeobj(a) for a in o.objects))
            return ("?", type(o).__name__)
        finally:
            self.depth -= 1

    def addr(self, a):
        if isinstance(a, Webtype):
            return ("url", a.url)
        if isinstance(a, CAF.cafNetworkAny):
            return ("ANY",)
        if isinstance(a, CAF.cafNetworkAny4):
            return ("ANY4",)
        if isinstance(a, CAF.cafNetworkAny6):
            return ("ANY6",)
        if isinstance(a, O.NetworkAny):
            return ("any",)
        if isinstance(a, O.NetworkAny4):
            return ("any4",)
        if isinstance(a, O.NetworkAny6):
            return ("any6",)
        if isinstance(a, O.NetworkHost):
            v = a.address.version
            return cubetuple(v, int(a.address), full(v)) + target(a.target)
        if isinstance(a, O.Network):
            n = a.network
            return cubetuple(n.version, int(n.network_address), int(n.netmask)) + target(a.target)
        if isinstance(a, O.NetworkWildcard):
            v = a.address.version
            return cubetuple(v, int(a.address), ~int(a.wildcard) & full(v))
        if isinstance(a, O.NetworkInterface):
            return ("iface", a.name)
        if isinstance(a, O.NetworkObject):
            return self._ref("netobj", self.c.objects.network if self.c else None, a)
        if isinstance(a, O.NetworkGroup):
            return self._ref("netgrp", self.c.groups.network if self.c else None, a)
        return ("?", type(a).__name__)

    def port(self, p):
        if p is None:
            return None
        if isinstance(p, O.Port):
            return ("port", p.op, num(p.num))
        if isinstance(p, O.PortRange):
            return ("range", num(p.start), num(p.stop))
        if isinstance(p, O.PortGroup):
            return self._ref("portgrp", self.c.groups.port if self.c else None, p)
        if isinstance(p, (str, int)):
            return ("port", "eq", num(p))
        return ("?", type(p).__name__)

    def protocol(self, p):
        if p is None:
            return None
        if isinstance(p, O.Protocol):
            return ("proto", num(p.name))
        if isinstance(p, O.ProtocolGroup):
            return self._ref("protogrp", self.c.groups.protocol if self.c else None, p)
        if isinstance(p, O.ServiceGroup):
            return self._ref("svcgrp", self.c.groups.service if self.c else None, p)
        if isinstance(p, O.ServiceObject):
            return self._ref("svcobj", self.c.objects.service if self.c else None, p)
        if isinstance(p, O.Service):
            return ("svc",) + self.service(p)
        return ("?", type(p).__name__)

    def service(self, s):
        return (self.protocol(s.protocol), self.port(s.src), self.port(s.dst), num(s.icmp_type), num(s.icmp_code))

    def svcmember(self, s):
        if isinstance(s, O.ServiceGroup) or isinstance(s, O.ServiceObject):
            return self.protocol(s)
        if isinstance(s, O.Service):
            return ("svc",) + self.service(s)
        return self.protocol(s)

    def icmp(self, i):
        if i is None:
            return None
        if isinstance(i, O.ICMP):
            return ("icmp", num(i.type), num(i.code))
        if isinstance(i, O.ICMPGroup):
            return self._ref("icmpgrp", self.c.groups.icmp if self.c else None, i)
        return ("?", type(i).__name__)

    def timeobj(self, t):
        if isinstance(t, O.TimeRangeObjectAbsolute):
            return ("absolute", iso(t.start), iso(t.end))
        if isinstance(t, O.TimeRangeObjectPeriodic):
            d = t.startDays
            d = (d,) if isinstance(d, str) else tuple(d)
            return ("periodic", d, iso(t.startTime), t.endDays or None, iso(t.endTime))
        return ("?", type(t).__name__)

    def options(self, o):
        r = {}
        for k, v in dict(o or {}).items():
            if isinstance(v, O.ACLRuleOptionLog):
                r[k] = ("log",) + flat(v.options)
            elif isinstance(v, O.ACLRuleOptionInActive):
                r[k] = True
            elif isinstance(v, O.ACLRuleOptionInterface):
                r[k] = ("ifaces", tuple(v.interfaces), v.direction)
            elif isinstance(v, O.TimeRange):
                r[k] = self._ref("time", self.c.objects.time if self.c else None, v)
            else:
                r[k] = v if v is None or isinstance(v, (bool, int)) else text(v)
        return r

    def rule(self, r):
        return {
            "id": r.id, "mode": r.mode, "protocol": self.protocol(r.protocol),
            "src": self.addr(r.src.host), "sport": self.port(r.src.port),
            "dst": self.addr(r.dst.host), "dport": self.port(r.dst.port),
            "icmp": self.icmp(r.icmp), "remark": [remark(x) for x in (r.remark or [])],
            "options": self.options(r.options),
            "head": [(text(h.text), h.bg) for h in (r.head or [])],
        }

    def nataddr(self, n):
        if n is None or n.node is None:
            return None
        return self.addr(n.node)

    def nat(self, n):
        fb = getattr(n.mapped.src, "fallback", None)
        if fb is not None:
            fb = (self.addr(fb.interface) if fb.interface is not None else None, bool(fb.ipv6))
        return {
            "real": (n.real.iface.name, self.nataddr(n.real.src), self.nataddr(n.real.dst), self.protocol(n.real.service)),
            "mapped": (n.mapped.iface.name, self.nataddr(n.mapped.src), self.nataddr(n.mapped.dst), self.protocol(n.mapped.service)),
            "type": n.mapped.src.type if n.mapped.src is not None else None,
            "fallback": fb,
            "description": desc(n.description),
            "options": {k: v if isinstance(v, bool) else text(v) for k, v in n.options.items()},
        }

    def interface(self, i):
        sw = None
        if i.switchport is not None:
            tr = i.switchport.trunk
            sw = (i.switchport.mode, None if tr is None else tuple(
                (num(v.value), num(v.value)) if isinstance(v, O.VLAN) else (num(v.start), num(v.end)) for v in tr.items))
        return {
            "alias": i.alias, "nameif": i.nameif, "description": desc(i.description),
            "addresses": [str(a.interface) for a in i.addresses],
            "access_groups": {k: (g.name, g.direction, getattr(g.iface, "alias", g.iface)) for k, g in i.access_groups.items()},
            "switchport": sw,
            "routes": sorted(route(r) for r in i.routes),
        }

    def config(self, c=None):
        c = self.c = c or self.c
        d = {
            "hostname": c.hostname, "domainname": c.domainname, "version": text(getattr(c, "version", None)),
            "names": [(n.hostname, str(n.address), desc(n.description)) for n in c.names.objects],
            "interfaces": {k: self.interface(i) for k, i in c.interfaces.items()},
            "rules": [self.rule(r) for r in c.rules.rules],
            "access_groups": {k: sorted((getattr(g.iface, "alias", str(g.iface)), str(g.direction), g.name) for g in l)
                              for k, l in dict(c.access_groups).items() if l},
            "nat": {k: [self.nat(n) for n in l] for k, l in c.nat.items()},
        }
        for k, t in (("netobj", c.objects.network), ("svcobj", c.objects.service), ("time", c.objects.time),
                     ("netgrp", c.groups.network), ("svcgrp", c.groups.service), ("portgrp", c.groups.port),
                     ("protogrp", c.groups.protocol), ("icmpgrp", c.groups.icmp)):
            d[k] = {n: self.definition(o) for n, o in t.items()}
        if hasattr(c, "routes"):
            d["routes"] = sorted(route(r) for r in c.routes)
        return d


def route(r):
    gw = r.gw
    return (str(r.network), getattr(gw, "alias", None) or str(gw))


def iso(t):
    if t is None:
        return None
    if isinstance(t, datetime.datetime):
        return t.strftime("%Y-%m-%dT%H:%M")
    if isinstance(t, datetime.time):
        return t.strftime("%H:%M")
    return str(t)


def flat(x):
    r = []
    for i in x or []:
        if i is None:
            continue
        if isinstance(i, (list, tuple)):
            r.extend(flat(i))
        else:
            r.append(str(i))
    return tuple(r)


def config(c):
    return Snap(c).config()
