"""ASA/FWSM configurations with their expected meaning."""
import calendar, ipaddress
from mon.gen.base import *  # noqa: F401,F403
from mon.gen import base as B

LOGS = [[], ["debugging"], ["disable"], ["default"], ["notifications"], ["warnings"], ["critical"]] + [[str(i)] for i in range(8)]


SPACES = {"netobj": "obj", "svcobj": "obj", "netgrp": "grp", "svcgrp": "grp", "portgrp": "grp", "icmpgrp": "grp", "protogrp": "grp"}
# kinds whose equal names the syntax cannot tell apart
CONFLICTS = {"netgrp": ["netgrp", "svcgrp", "portgrp"], "svcgrp": ["svcgrp", "netgrp", "protogrp"],
             "portgrp": ["portgrp", "netgrp"], "protogrp": ["protogrp", "svcgrp"]}


RESERVED = {"host", "interface", "object", "object-group", "any", "any4", "any6", "ip"}


class Asa:
    def __init__(self, rng, family=None, share=True):
        self.rng = rng
        self.c = Config()
        self.exp = self.c.exp
        self.family = family
        self.share = share
        self.names = {}        # hostname -> address
        self.nets = {}         # network objects -> list of canonical addrs (known, concrete) or None (fqdn)
        self.opened = set()
        self.svcs = {}         # service objects -> dict(src,dst)
        self.g = {k: {} for k in ("net", "svc", "port", "proto", "icmp")}   # groups -> expected definition
        self.times = []
        self.ifs = []          # (alias, nameif)
        self.pending = {}      # acl id -> remarks waiting directly above
        self.last_remark_ids = []
        self.used = {}
        self.clash = False
        self.acls = []
        self.chaining = False
        self.n = 0

    # ---------------------------------------------------------------- names
    def fresh(self, kind, chars="obj"):
        """an unused name; with clash, names may repeat across kinds the syntax can tell apart"""
        rng = self.rng
        space = kind if self.clash else SPACES.get(kind, kind)
        taken = set().union(*(self.used.setdefault(k, set()) for k in (CONFLICTS.get(kind, [kind]) if self.clash else [space])))
        for _ in range(60):
            if self.clash and rng.random() < 0.5:
                n = rng.choice(sorted(set().union(*self.used.values())) or ["x"])
            elif rng.random() < 0.08 and self.used.get(space):
                # differs from another name of the kind in case only
                n = rng.choice([str.swapcase, str.upper, str.lower, str.capitalize])(rng.choice(sorted(self.used[space])))
            elif self.family and rng.random() < 0.85:
                n = rng.choice(self.family)
                if rng.random() < 0.2:
                    n += rng.choice(["-1", ".2", "_3", "4", "-a", "B", "-net"])
            else:
                self.n += 1
                n = rng.choice(["srv", "dmz", "grp", "obj-", "N_", "LAN."]) + str(self.n)
            if chars == "ident" and not ((n[0].isalpha() or n[0] == "_") and "+" not in n):
                continue
            if chars == "name" and (not (n[0].isalpha() or n[0] == "_") or "+" in n):
                continue
            # words of the syntax are no names
            if n not in taken and n not in RESERVED:
                self.used[space].add(n)
                return n
        while True:
            self.n += 1
            n = f"zz{self.n}"
            if n not in taken:
                self.used[space].add(n)
                return n

    # ---------------------------------------------------------------- pieces
    def port(self):
        rng = self.rng
        if rng.random() < 0.4:
            p = rng.choice(PORT_NAMES)
            return p, p
        n = rng.choice(PORT_EDGES + [rng.randint(0, 65535)])
        return str(n), n

    def op(self):
        """(tokens, expected)"""
        rng = self.rng
        if rng.random() < 0.25:
            return self.prange()
        o = rng.choice(OPS)
        t, v = self.port()
        return [("op", o), ("port", t)], ("port", o, v)

    def prange(self):
        rng = self.rng
        a, b = sorted(rng.sample(PORT_EDGES + [rng.randint(0, 65535)], 2))
        if a == b:
            b = a + 1 if a < 65535 else a
            a = b - 1
        if rng.random() < 0.15:
            n = rng.choice(PORT_NAMES)
            return ([("op", "range"), ("port", n), ("port", str(b))], ("range", n, b)) if rng.random() < 0.5 else \
                   ([("op", "range"), ("port", str(a)), ("port", n)], ("range", a, n))
        return [("op", "range"), ("plo", str(a)), ("phi", str(b))], ("range", a, b)

    def icmp_type(self):
        rng = self.rng
        if rng.random() < 0.5:
            t = rng.choice(ICMP_NAMES)
            return t, t
        n = num(rng, [0, 1, 3, 8, 11, 30, 128, 254, 255], 0, 255)
        return str(n), n

    def icmp_code(self):
        n = num(self.rng, [0, 1, 9, 15, 254, 255], 0, 255)
        return str(n), n

    def mask(self, n):
        return str(n.netmask)

    def netpair(self):
        """A M | NAME M | v6/len | NAME/len"""
        rng = self.rng
        k = rng.random()
        if self.names and k < 0.3:
            h = rng.choice(list(self.names))
            a = ipaddress.ip_address(self.names[h])
            t = ("name", h, str(a))
            if a.version == 4:
                plen = rng.choice([32, 24, 16, 30, 31])
                n = ipaddress.ip_network(f"{a}/{plen}", strict=False)
                return [("name", h), ("mask", str(n.netmask))], c_net(n) + (t,)
            plen = rng.choice([128, 64, 48])
            n = ipaddress.ip_network(f"{a}/{plen}", strict=False)
            return [("namelen", f"{h}/{plen}")], c_net(n) + (t,)
        if k < 0.75:
            n = netaddr4(rng)
            return [("net4", str(n.network_address)), ("mask", self.mask(n))], c_net(n)
        n = net6(rng)
        return [("net6", f"{n.network_address}/{n.prefixlen}")], c_net(n)

    def hostaddr(self, names=True):
        rng = self.rng
        k = rng.random()
        if names and self.names and k < 0.35:
            h = rng.choice(list(self.names))
            a = self.names[h]
            return [("name", h)], c_host(a) + (("name", h, str(ipaddress.ip_address(a))),)
        if k < 0.8:
            a = ip4(rng)
            return [("host4", a)], c_host(a)
        a = ip6(rng)
        return [("host6", a)], c_host(a)

    def addr(self, kinds=None):
        """An address of an access rule: (tokens, expected)."""
        rng = self.rng
        ks = ["host", "net", "any", "host", "net", "any4", "any6"]
        if self.ifs:
            ks.append("interface")
        if self.nets:
            ks += ["object"] * 3
        if self.g["net"]:
            ks += ["group"] * 3
        k = rng.choice(ks)
        if kinds:
            k = rng.choice([x for x in ks if x in kinds] or ["any"])
        self.c.features.add("addr:" + k)
        if k == "host":
            t, e = self.hostaddr()
            return kw("host") + t, e
        if k == "net":
            return self.netpair()
        if k in ("any", "any4", "any6"):
            return kw(k), (k,)
        if k == "interface":
            n = rng.choice([x[1] for x in self.ifs if x[1]] or ["outside"])
            return kw("interface") + [("ifname", n)], ("iface", n)
        if k == "object":
            n = rng.choice(list(self.nets))
            return kw("object") + [("ref:netobj", n)], ("netobj", n)
        n = rng.choice(list(self.g["net"]))
        return kw("object-group") + [("ref:netgrp", n)], ("netgrp", n)

    # ---------------------------------------------------------------- definitions
    def hostname(self):
        n = self.rng.choice(["fw", "fw-1", "FW_2.x", "a", "_x", "asa-5520-dc1", "fw.example.com", "a.a", "FW.corp.local", "corp.local", "x-y.z"])
        self.c.add("hostname", (0, kw("hostname") + [("id", n)]))
        self.exp["hostname"] = n

    def domainname(self):
        n = self.rng.choice(["example.com", "a", "x-y.z", "corp.local"])
        self.c.add("domainname", (0, kw("domain-name") + [("id", n)]))
        self.exp["domainname"] = n

    def version(self):
        n = self.rng.choice(["ASA Version 9.1(2) ", "ASA Version 8.4(7)", "FWSM Version 4.1(5) <system>"])
        self.c.add("version", (0, [("free", n)]))
        self.exp["version"] = n.rstrip()

    def name(self):
        rng = self.rng
        h = self.fresh("name", "name")
        a = ip4(rng) if rng.random() < 0.7 else ip6(rng)
        t = kw("name") + [("ip", a), ("id", h)]
        d = None
        if rng.random() < 0.4:
            d = free_text(rng)
            t += kw("description") + [("free", d)]
        self.c.add("name", (0, t))
        self.names[h] = a
        self.exp["names"].append((h, str(ipaddress.ip_address(a)), d))

    def interface(self):
        rng = self.rng
        self.n += 1
        alias = rng.choice(["Ethernet0/", "GigabitEthernet0/0.", "Vlan", "Management0/", "Po1."]) + str(self.n)
        # the name of one interface may be the hardware name of another
        free = [x for _, x in self.ifs if x and x not in self.exp["interfaces"]]
        if free and rng.random() < 0.06:
            alias = rng.choice(free)
        lines = [(0, kw("interface") + [("id", alias)])]
        nameif = d = None
        addrs = []
        extra = ["no shutdown", "security-level 100", "speed 100", "no ip address", "no nameif", "vlan 3", "shutdown", "no security-level"]
        body = []
        if rng.random() < 0.4:
            d = free_text(rng)
            body.append((1, kw("description") + [("free", d)]))
        if rng.random() < 0.85:
            nameif = self.fresh("if", "ident")
            free = [a for a, _ in self.ifs if "/" not in a and a not in self.used["if"]]
            if free and rng.random() < 0.06:
                nameif = rng.choice(free)
                self.used["if"].add(nameif)
            body.append((1, kw("nameif") + [("id", nameif)]))
        body.append((1, [("free", rng.choice(extra))]))
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.65:
                a = ip4(rng)
                plen = rng.choice([24, 30, 8, 16, 32, 31, 1])
                m = ipaddress.ip_network(f"0.0.0.0/{plen}").netmask
                t = kw("ip", "address") + [("ip4", a), ("mask", str(m))]
                if rng.random() < 0.4:
                    t += kw("standby") + [("ip4", ip4(rng))]
                addrs.append(f"{a}/{plen}")
            else:
                a = ip6(rng)
                plen = rng.choice([64, 128, 10, 48])
                t = kw("ipv6", "address") + [("net6", f"{a}/{plen}")]
                if rng.random() < 0.4:
                    t += kw("standby") + [("ip6", ip6(rng))]
                addrs.append(f"{ipaddress.ip_address(a)}/{plen}")
            body.append((1, t))
        if rng.random() < 0.3:
            body.append((1, [("free", rng.choice(extra))]))
        if not nameif and rng.random() < 0.5:
            body.append((1, [("free", "no nameif")]))
        self.c.add("interface", *(lines + body))
        self.ifs.append((alias, nameif))
        self.exp["interfaces"][alias] = {"alias": alias, "nameif": nameif, "description": d, "addresses": addrs,
                                         "access_groups": {}, "switchport": None, "routes": []}

    def access_group(self, acl=None):
        rng = self.rng
        cand = [x for x in self.ifs if x[1]]
        if not cand or rng.random() < 0.1:
            self.c.add("access-group", (0, kw("access-group") + [("aclid", acl or "glob"), ("kw", "global")]))
            return
        alias, nameif = rng.choice(cand)
        d = rng.choice(["in", "out"])
        i = self.exp["interfaces"][alias]
        if d in i["access_groups"]:
            return
        acl = acl or rng.choice(self.acls or ["ACLX"])
        self.c.add("access-group", (0, kw("access-group") + [("aclid", acl), ("kw", d), ("kw", "interface"), ("ref:if", nameif)]))
        i["access_groups"][d] = (acl, d, alias)
        self.exp["access_groups"].setdefault(acl, []).append((alias, d, acl))

    def network_object(self, nat=False, reopen=False, name=None):
        """object network; with nat an object NAT line (in the same or in a second block)"""
        rng = self.rng
        n = name or self.fresh("netobj")
        k = rng.choice(["host", "host", "subnet", "subnet", "subnet6", "range", "range6", "host6", "fqdn"] if not nat else
                       ["host", "subnet", "range", "host6"])
        self.c.features.add("netobj:" + k)
        if k == "host":
            a = ip4(rng)
            t, e = kw("host") + [("ip4", a)], [c_host(a)]
        elif k == "host6":
            a = ip6(rng)
            t, e = kw("host") + [("ip6", a)], [c_host(a)]
        elif k == "subnet":
            x = netaddr4(rng)
            t, e = kw("subnet") + [("net4", str(x.network_address)), ("mask", str(x.netmask))], [c_net(x)]
        elif k == "subnet6":
            x = net6(rng)
            t, e = kw("subnet") + [("net6", f"{x.network_address}/{x.prefixlen}")], [c_net(x)]
        elif k == "range":
            a = int(ipaddress.ip_address(ip4(rng)))
            b = min(0xFFFFFFFF, a + rng.choice([0, 1, 2, 5, 17, 255, 256, 1000]))
            t = kw("range") + [("ip4", str(ipaddress.IPv4Address(a))), ("ip4", str(ipaddress.IPv4Address(b)))]
            e = [c_net(x) for x in cidrs(a, b, 32)]
        elif k == "range6":
            a = int(ipaddress.ip_address(ip6(rng)))
            b = min((1 << 128) - 1, a + rng.choice([0, 1, 3, 16, 255]))
            t = kw("range") + [("ip6", str(ipaddress.IPv6Address(a))), ("ip6", str(ipaddress.IPv6Address(b)))]
            e = [c_net(x) for x in cidrs(a, b, 128)]
        else:
            lim = rng.choice([None, "v4", "v6"])
            t = kw("fqdn") + (kw(lim) if lim else []) + [("free", rng.choice(["www.example.com", "a.b", "x-y.example.org"]))]
            e = [{None: ("any",), "v4": ("any4",), "v6": ("any6",)}[lim]]
        d = free_text(rng) if rng.random() < 0.3 else None
        lines = [(0, kw("object", "network") + [("id", n)]), (1, t)]
        natline = None
        self.nets[n] = None if k == "fqdn" else e
        if nat:
            self.opened.add(n)
        if nat and not reopen:
            natline = self.objnat(n)
            lines.append(natline)
        if d:
            lines.append((1, kw("description") + [("free", d)]))
        self.c.add("netobj", *lines)
        if nat and reopen:
            self.c.features.add("nat:reopened")
            natline = self.objnat(n)
            self.c.add("netobj-nat", (0, kw("object", "network") + [("id", n)]), natline)
        self.exp["netobj"][n] = ("netobj", n, d, tuple(e))
        return n

    def op_side(self, word):
        t, e = self.op()
        return kw(word) + t, e

    def svc_body(self, allow_proto_names=True):
        """protocol and ports of a service object or service group member: (tokens, (proto, src, dst, type, code))"""
        rng = self.rng
        k = rng.choice(["icmp", "tcpudp", "tcpudp", "tcpudp", "num", "name"])
        if k == "icmp":
            p = rng.choice(ICMP_PROTOS)
            t, ty, co = [("proto", p)], None, None
            if rng.random() < 0.7:
                x, ty = self.icmp_type()
                t.append(("icmptype", x))
                if rng.random() < 0.5:
                    x, co = self.icmp_code()
                    t.append(("icmpcode", x))
            return t, (("proto", p), None, None, ty, co)
        if k == "tcpudp" or (k == "name" and not allow_proto_names):
            p = rng.choice(["tcp", "udp", "tcp-udp"])
            t, s, d = [("proto", p)], None, None
            if rng.random() < 0.5:
                x, s = self.op_side("source")
                t += x
            if rng.random() < 0.7:
                x, d = self.op_side("destination")
                t += x
            return t, (("proto", p), s, d, None, None)
        if k == "num":
            n = num(rng, [0, 1, 6, 17, 47, 50, 99, 100, 254, 255], 0, 255)
            return [("protonum", str(n))], (("proto", n), None, None, None, None)
        p = rng.choice([x for x in PROTO_NAMES if x not in ("tcp", "udp")])
        return [("proto", p)], (("proto", p), None, None, None, None)

    def service_object(self, nat=None, name=None):
        rng = self.rng
        n = name or self.fresh("svcobj")
        if nat:
            p = rng.choice(["tcp", "udp"])
            x, e = self.op_side(nat)
            t = [("proto", p)] + x
            ev = (("proto", p), e if nat == "source" else None, e if nat == "destination" else None, None, None)
        else:
            t, ev = self.svc_body(allow_proto_names=False)
        d = free_text(rng) if rng.random() < 0.3 else None
        lines = [(0, kw("object", "service") + [("id", n)]), (1, kw("service") + t)]
        if d:
            lines.append((1, kw("description") + [("free", d)]))
        self.c.add("svcobj", *lines)
        self.svcs[n] = ev
        self.exp["svcobj"][n] = ("svcobj", n, d) + ev
        return n

    def group_head(self, tokens, maxd=0.3):
        rng = self.rng
        d = free_text(rng) if rng.random() < maxd else None
        lines = [(0, kw("object-group") + tokens)]
        if d:
            lines.append((1, kw("description") + [("free", d)]))
        return d, lines

    def pick(self, groups):
        """a group to refer to, in a chain the latest"""
        l = list(groups)
        return l[-1] if self.chaining else self.rng.choice(l)

    def nests(self, groups, m, p):
        return bool(groups) and (not m if self.chaining else self.rng.random() < p)

    def kind(self, k, groups, m):
        """kind of the next member; a group of a chain starts with the group before it"""
        if not self.chaining:
            return k
        return "group" if not m and groups else "plain" if k == "group" else k

    def again(self, lines, m):
        """a member stated twice"""
        head = len(lines) - len(m)
        if m and not self.chaining and head in (1, 2) and self.rng.random() < 0.05:
            i = self.rng.randrange(len(m))
            lines.append(lines[head + i])
            m.append(m[i])

    def chain(self):
        """groups within groups within groups"""
        f = {"netgrp": self.network_group, "svcgrp": self.service_group, "portgrp": self.port_group, "icmpgrp": self.icmp_group, "protogrp": self.protocol_group}
        k = self.rng.choice(list(f))
        self.chaining = True
        for _ in range(self.rng.choice([8, 14, 25])):
            f[k](size=self.rng.choice([3, 4]))
        self.chaining = False

    def network_group(self, size=None, nest=True, name=None):
        rng = self.rng
        n = name or self.fresh("netgrp")
        d, lines = self.group_head(kw("network") + [("id", n)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 1, 2, 3, 5, 8])):
            k = self.kind(rng.choice(["host", "host", "net", "net", "object", "group"]), self.g["net"], m)
            if k == "object" and self.nets:
                o = rng.choice(list(self.nets))
                lines.append((1, kw("network-object", "object") + [("ref:netobj", o)]))
                m.append(("netobj", o))
            elif k == "group" and self.g["net"] and nest:
                o = self.pick(self.g["net"])
                lines.append((1, kw("group-object") + [("ref:netgrp", o)]))
                m.append(("netgrp", o))
            elif k == "net":
                t, e = self.netpair()
                lines.append((1, kw("network-object") + t))
                m.append(e)
            else:
                t, e = self.hostaddr()
                lines.append((1, kw("network-object", "host") + t))
                m.append(e)
        self.again(lines, m)
        self.c.add("netgrp", *lines)
        self.g["net"][n] = m
        self.exp["netgrp"][n] = ("netgrp", n, d, tuple(m))
        return n

    def service_group(self, size=None, name=None):
        rng = self.rng
        n = name or self.fresh("svcgrp")
        d, lines = self.group_head(kw("service") + [("id", n)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 2, 3, 5])):
            k = self.kind(rng.choice(["svc", "svc", "svc", "object", "group"]), self.g["svc"], m)
            if k == "object" and self.svcs:
                o = rng.choice(list(self.svcs))
                lines.append((1, kw("service-object", "object") + [("ref:svcobj", o)]))
                m.append(("svcobj", o))
            elif k == "group" and self.g["svc"]:
                o = self.pick(self.g["svc"])
                lines.append((1, kw("group-object") + [("ref:svcgrp", o)]))
                m.append(("svcgrp", o))
            else:
                t, e = self.svc_body()
                lines.append((1, kw("service-object") + t))
                m.append(("svc",) + e)
        self.again(lines, m)
        self.c.add("svcgrp", *lines)
        self.g["svc"][n] = m
        self.exp["svcgrp"][n] = ("svcgrp", n, d, tuple(m))
        return n

    def port_group(self, size=None, name=None):
        rng = self.rng
        n = name or self.fresh("portgrp")
        p = rng.choice(["tcp", "udp", "tcp-udp"])
        d, lines = self.group_head(kw("service") + [("id", n), ("proto", p)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 2, 3, 5])):
            k = self.kind(rng.choice(["eq", "eq", "range", "group"]), self.g["port"], m)
            if k == "group" and self.g["port"]:
                o = self.pick(self.g["port"])
                lines.append((1, kw("group-object") + [("ref:portgrp", o)]))
                m.append(("portgrp", o))
            elif k == "range":
                t, e = self.prange()
                lines.append((1, kw("port-object") + t))
                m.append(e)
            else:
                t, v = self.port()
                lines.append((1, kw("port-object") + [("op", "eq"), ("port", t)]))
                m.append(("port", "eq", v))
        self.again(lines, m)
        self.c.add("portgrp", *lines)
        self.g["port"][n] = m
        self.exp["portgrp"][n] = ("portgrp", n, d, ("proto", p), tuple(m))
        return n

    def icmp_group(self, size=None, name=None):
        rng = self.rng
        n = name or self.fresh("icmpgrp")
        d, lines = self.group_head(kw("icmp-type") + [("id", n)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 2, 3, 5])):
            if self.nests(self.g["icmp"], m, 0.25):
                o = self.pick(self.g["icmp"])
                lines.append((1, kw("group-object") + [("ref:icmpgrp", o)]))
                m.append(("icmpgrp", o))
            else:
                t, v = self.icmp_type()
                lines.append((1, kw("icmp-object") + [("icmptype", t)]))
                m.append(("icmp", v, None))
        self.again(lines, m)
        self.c.add("icmpgrp", *lines)
        self.g["icmp"][n] = m
        self.exp["icmpgrp"][n] = ("icmpgrp", n, d, tuple(m))
        return n

    def protocol_group(self, size=None, name=None):
        rng = self.rng
        n = name or self.fresh("protogrp")
        d, lines = self.group_head(kw("protocol") + [("id", n)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 2, 3, 5])):
            if self.nests(self.g["proto"], m, 0.25):
                o = self.pick(self.g["proto"])
                lines.append((1, kw("group-object") + [("ref:protogrp", o)]))
                m.append(("protogrp", o))
            elif rng.random() < 0.6:
                p = rng.choice(PROTO_NAMES + ICMP_PROTOS)
                lines.append((1, kw("protocol-object") + [("proto", p)]))
                m.append(("proto", p))
            else:
                p = num(rng, [0, 1, 6, 17, 99, 255], 0, 255)
                lines.append((1, kw("protocol-object") + [("protonum", str(p))]))
                m.append(("proto", p))
        self.again(lines, m)
        self.c.add("protogrp", *lines)
        self.g["proto"][n] = m
        self.exp["protogrp"][n] = ("protogrp", n, d, tuple(m))
        return n

    def time_range(self, name=None):
        rng = self.rng
        n = name or self.fresh("time")
        lines = [(0, kw("time-range") + [("id", n)])]
        m = []

        def tm():
            h, mi = num(rng, [0, 1, 8, 9, 12, 17, 22, 23], 0, 23), num(rng, [0, 1, 5, 10, 30, 59], 0, 59)
            return (f"{h:02d}:{mi:02d}" if rng.random() < 0.7 else f"{h}:{mi:02d}"), f"{h:02d}:{mi:02d}"

        def date():
            t, v = tm()
            mo, y = num(rng, [2, 2, 4, 12], 1, 12), num(rng, [1999, 2000, 2009, 2020, 2024, 2031], 1993, 2035)
            last = calendar.monthrange(y, mo)[1]
            d = num(rng, [1, 2, 9, 10, 28, last, last], 1, last)
            return ([("time", t), ("day", str(d) if rng.random() < 0.6 else f"{d:02d}"), ("month", MONTHS[mo - 1]), ("year", str(y))],
                    f"{y}-{mo:02d}-{d:02d}T{v}")
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < 0.45:
                s = e = None
                t = kw("absolute")
                if rng.random() < 0.7:
                    x, s = date()
                    t += kw("start") + x
                if rng.random() < 0.7 or s is None:
                    x, e = date()
                    t += kw("end") + x
                m.append(("absolute", s, e))
            else:
                t = kw("periodic")
                k = rng.random()
                (st, sv), (et, ev) = tm(), tm()
                ed = None
                if k < 0.4:
                    days = (rng.choice(["weekdays", "weekend", "daily"]),)
                    t += [("day", days[0]), ("time", st), ("kw", "to"), ("time", et)]
                else:
                    days = tuple(rng.sample(DAYS, rng.choice([1, 1, 2, 3, 7])))
                    t += [("day", x) for x in days] + [("time", st), ("kw", "to")]
                    if rng.random() < 0.4:
                        ed = rng.choice(DAYS)
                        t.append(("day", ed))
                    t.append(("time", et))
                m.append(("periodic", days, sv, ed, ev))
            lines.append((1, t))
        self.c.add("time", *lines)
        self.times.append(n)
        self.exp["time"][n] = ("time", n, tuple(m))
        return n

    # ---------------------------------------------------------------- access rules
    def remark(self, acl, txt=None):
        txt = free_text(self.rng, 0, 5) if txt is None else txt
        self.c.add("remark", (0, kw("access-list") + [("aclid", acl), ("kw", "remark"), ("free", txt)]))
        self.last_remark_ids.append((acl, txt.rstrip()))

    def take_remarks(self, acl):
        """remarks of this acl directly above (contiguous run of remark lines)"""
        i = len(self.c.entries) - 1
        r = []
        while i >= 0 and self.c.entries[i][0] == "remark":
            toks = self.c.entries[i][1][0][1]
            if toks[1][1] == acl:
                r.append(toks[3][1].rstrip())
            i -= 1
        return r[::-1]

    def acl_opts(self):
        rng = self.rng
        ts, e = [], {}
        if rng.random() < 0.3:
            l = rng.choice(LOGS)
            t = kw("log") + [("loglvl", x) for x in l]
            x = list(l)
            if l not in (["disable"], ["default"]) and rng.random() < 0.4:
                i = str(num(rng, [1, 60, 300, 600], 1, 600))
                t += kw("interval") + [("int", i)]
                x += ["interval", i]
            e["log"] = ("log",) + tuple(x)
            ts.append(t)
        if self.times and rng.random() < 0.3:
            n = rng.choice(self.times)
            ts.append(kw("time-range") + [("ref:time", n)])
            e["time-range"] = ("time", n)
        if rng.random() < 0.15:
            ts.append(kw("inactive"))
            e["inactive"] = True
        # usually in the order the device prints them
        if rng.random() < 0.35:
            rng.shuffle(ts)
        return sum(ts, []), e

    def rule_exp(self, acl, mode, proto, src, sport, dst, dport, icmp, opts, remarks):
        self.exp["rules"].append({"id": acl, "mode": mode, "protocol": proto, "src": src, "sport": sport, "dst": dst, "dport": dport,
                                  "icmp": icmp, "remark": remarks, "options": opts, "head": []})

    def rport(self):
        rng = self.rng
        # where ports stand, a service group of that name would be meant
        groups = [n for n in self.g["port"] if n not in self.g["svc"]]
        if groups and rng.random() < 0.3:
            n = rng.choice(groups)
            return kw("object-group") + [("ref:portgrp", n)], ("portgrp", n)
        return self.op()

    def extended(self, acl, icmp=None):
        rng = self.rng
        rem = self.take_remarks(acl)
        mode = rng.choice(["permit", "deny"])
        t = kw("access-list") + [("aclid", acl), ("kw", "extended"), ("act", mode)]
        ks = ["ip", "tcp", "tcp", "udp", "icmp", "icmp", "num", "name"]
        if self.svcs:
            ks.append("svcobj")
        if self.g["svc"]:
            ks.append("svcgrp")
        if self.g["proto"]:
            ks.append("protogrp")
        k = rng.choice(ks) if not icmp else "icmp"
        self.c.features.add("proto:" + k)
        sport = dport = ic = None
        if k == "icmp":
            p = rng.choice(ICMP_PROTOS)
            s, se = self.addr()
            d, de = self.addr()
            t += [("proto", p)] + s + d
            x = rng.random()
            if x < 0.25 and self.g["icmp"]:
                n = rng.choice(list(self.g["icmp"]))
                t += kw("object-group") + [("ref:icmpgrp", n)]
                ic = ("icmpgrp", n)
            elif x < 0.75:
                a, ty = self.icmp_type()
                t.append(("icmptype", a))
                co = None
                if rng.random() < 0.4:
                    a, co = self.icmp_code()
                    t.append(("icmpcode", a))
                ic = ("icmp", ty, co)
            pe = ("proto", p)
        else:
            if k in ("ip", "tcp", "udp"):
                t.append(("proto", k))
                pe = ("proto", k)
            elif k == "num":
                n = num(rng, [0, 1, 6, 17, 47, 99, 100, 200, 255], 0, 255)
                t.append(("protonum", str(n)))
                pe = ("proto", n)
            elif k == "name":
                n = rng.choice(PROTO_NAMES)
                t.append(("proto", n))
                pe = ("proto", n)
            elif k == "svcobj":
                n = rng.choice(list(self.svcs))
                t += kw("object") + [("ref:svcobj", n)]
                pe = ("svcobj", n)
            else:
                n = rng.choice(list(self.g["svc" if k == "svcgrp" else "proto"]))
                t += kw("object-group") + [(f"ref:{k}", n)]
                pe = (k, n)
            ports = k in ("tcp", "udp") or (k == "protogrp" and rng.random() < 0.3)
            s, se = self.addr()
            t += s
            if ports and rng.random() < 0.4:
                x, sport = self.rport()
                t += x
            d, de = self.addr()
            t += d
            if ports and rng.random() < 0.6:
                x, dport = self.rport()
                t += x
        o, oe = self.acl_opts()
        self.c.add("extended", (0, t + o))
        self.rule_exp(acl, mode, pe, se, sport, de, dport, ic, oe, rem)

    def standard(self, acl):
        rng = self.rng
        rem = self.take_remarks(acl)
        mode = rng.choice(["permit", "deny"])
        t, e = self.addr(["host", "net", "any", "any4"])
        self.c.add("standard", (0, kw("access-list") + [("aclid", acl), ("kw", "standard"), ("act", mode)] + t))
        self.rule_exp(acl, mode, ("proto", "ip"), e, None, ("any",), None, None, {}, rem)

    def webtype(self, acl):
        rng = self.rng
        rem = self.take_remarks(acl)
        mode = rng.choice(["permit", "deny"])
        t = kw("access-list") + [("aclid", acl), ("kw", "webtype"), ("act", mode)]
        dport = None
        if rng.random() < 0.5:
            u = rng.choice(["any", "http://www.example.com/*", "https://*.corp.local:8443/x?y=z", "cifs://srv/share", "ftp://10.0.0.1"])
            t += [("proto", "url"), ("url", u)]
            pe, de = ("proto", "url"), ("url", u)
        else:
            x, de = self.addr(["host", "net", "any"])
            t += [("proto", "tcp")] + x
            pe = ("proto", "tcp")
            if rng.random() < 0.5:
                x, dport = self.op()
                t += x
        o, oe = self.acl_opts()
        self.c.add("webtype", (0, t + o))
        self.rule_exp(acl, mode, pe, ("any",), None, de, dport, None, oe, rem)

    def ethertype(self, acl):
        rng = self.rng
        self.c.add("ethertype", (0, kw("access-list") + [("aclid", acl), ("kw", "ethertype"), ("free", rng.choice(["permit", "deny"]) + " " + rng.choice(["ipx", "bpdu", "any", "0x800", "mpls-unicast"]))]))

    def rules(self, n, remarks=0.35):
        """n access-list entries over a few lists, with remarks"""
        rng = self.rng
        cross = 0.15
        if not self.acls:
            pool = ["acl_in", "acl_out", "acl", "ACL", "inside_access_in", "101", "a-b.c+d", "dmz", "acl_in2", "eth", "std", "web", LONG, LONG + "2"]
            if rng.random() < 0.35:
                # names that are easily taken for one another
                pool = rng.choice([["acl", "ACL", "Acl", "acl_", "acl-", "acl.", "ac", "acl1", "acl+"], ["a-b.c+d", "a_b.c+d", "A-b.c+d", "a-b.c", "a-b", "a-b.c+d2"], ["101", "10", "1", "1011", "101a"], ["acl", "ACL", "Acl", "aCL"]])
                cross = 0.4
            self.acls = rng.sample(pool, min(len(pool), many(rng, [1, 2, 3], (9, 12))))
        kinds = {a: rng.choice(["extended"] * 6 + ["standard", "webtype", "ethertype"]) for a in self.acls}
        for _ in range(n):
            a = rng.choice(self.acls)
            if rng.random() < remarks:
                for _ in range(many(rng, [1, 1, 2, 3], (9, 20))):
                    self.remark(a if rng.random() >= cross else rng.choice(self.acls))
            getattr(self, kinds[a])(a)
            if rng.random() < 0.03 and kinds[a] != "ethertype":
                # the same entry again
                kind, lines = self.c.entries[-1]
                rem = []
                if rng.random() < 0.5:
                    self.remark(a)
                    rem = self.take_remarks(a)
                self.c.add(kind, *lines)
                self.exp["rules"].append(dict(self.exp["rules"][-1], remark=rem))

    # ---------------------------------------------------------------- NAT
    def ifpair(self):
        rng = self.rng
        names = [x[1] for x in self.ifs if x[1]] + [x[0] for x in self.ifs if not x[1]]
        r = rng.choice(names) if names and rng.random() < 0.8 else "any"
        m = rng.choice(names) if names and rng.random() < 0.9 else "any"

        def shown(n):
            # an interface may be referred to by its security name only
            return n
        return [("ifpair", f"({r},{m})")], shown(r), shown(m)

    def objnat(self, obj):
        """the nat line of a network object: returns the line, records the expectation"""
        rng = self.rng
        it, r, m = self.ifpair()
        typ = rng.choice(["static", "dynamic"])
        t = kw("nat") + it + kw(typ)
        ks = ["address", "address", "interface", "address6"]
        others = [n for n in self.nets if n != obj]
        if others:
            ks += ["object", "object"]
        if self.g["net"]:
            ks += ["group", "group"]
        if typ == "dynamic" and (others or self.g["net"]):
            ks += ["pool", "pool"]
        k = rng.choice(ks)
        self.c.features.add(f"objnat:{typ}:{k}")
        fb = None
        opts = {"auto": True}
        if k == "address":
            a = ip4(rng)
            t.append(("ip4", a))
            me = c_host(a)
        elif k == "address6":
            if rng.random() < 0.5:
                a = ip6(rng)
                t.append(("ip6", a))
                me = c_host(a)
            else:
                n = net6(rng)
                t.append(("net6", f"{n.network_address}/{n.prefixlen}"))
                me = c_net(n)
        elif k == "interface":
            t += kw("interface")
            if rng.random() < 0.2:
                t += kw("ipv6")
            me = ("iface", m)
        elif k == "object":
            n = rng.choice(others)
            t.append(("ref:netobj", n))
            me = ("netobj", n)
        elif k == "group":
            n = rng.choice(list(self.g["net"]))
            if n in self.nets:
                n2 = [x for x in self.g["net"] if x not in self.nets]
                if not n2:
                    t.append(("ip4", "192.0.2.9"))
                    k, n = "address", None
                    me = c_host("192.0.2.9")
                else:
                    n = rng.choice(n2)
            if n is not None:
                t.append(("ref:netgrp", n))
                me = ("netgrp", n)
        else:
            t += kw("pat-pool")
            gs = [x for x in self.g["net"]]
            os_ = [x for x in others if x not in self.g["net"]]
            if os_ and (rng.random() < 0.5 or not gs):
                n = rng.choice(os_)
                t.append(("ref:netobj", n))
                me = ("netobj", n)
            elif gs:
                n = rng.choice(gs)
                t.append(("ref:netgrp", n))
                me = ("netgrp", n)
            else:
                t.pop()
                t.append(("ip4", "192.0.2.8"))
                me = c_host("192.0.2.8")
            if t[-2][1] == "pat-pool":
                for o in rng.choice([[], [], ["round-robin"], ["extended"], ["flat"], ["flat", "include-reserve"], ["round-robin", "extended"]]):
                    t += kw(o)
        if k != "interface" and rng.random() < 0.25:
            v6 = rng.random() < 0.3
            t += kw("interface") + (kw("ipv6") if v6 else [])
            fb = (("iface", m), v6)
        svc = (None, None)
        if typ == "static":
            x = rng.random()
            if x < 0.3:
                p = rng.choice(["tcp", "udp"])
                (a, av), (b, bv) = self.port(), self.port()
                t += kw("service") + [("proto", p), ("port", a), ("port", b)]
                svc = (("svc", ("proto", p), None, ("port", "eq", av), None, None), ("svc", ("proto", p), None, ("port", "eq", bv), None, None))
            elif x < 0.45:
                t += kw("dns")
                opts["dns"] = True
        os_ = [o for o in ("route-lookup", "no-proxy-arp", "dns") if rng.random() < 0.2 and o not in opts]
        rng.shuffle(os_)
        for o in os_:
            t += kw(o)
            opts[o] = True
        self.exp["nat"][2].append({
            "real": (r, ("netobj", obj), ("any",), svc[0]), "mapped": (m, me, ("any",), svc[1]), "type": typ, "fallback": fb,
            "description": None, "options": opts})
        return (1, t)

    def reopen_nat(self):
        """object NAT of an object defined earlier, as the device stores it"""
        c = [n for n, e in self.nets.items() if e and n not in self.opened and e[0][0] == "net"]
        if c:
            n = self.rng.choice(c)
            self.opened.add(n)
            self.c.features.add("nat:reopened later")
            self.c.add("netobj-nat", (0, kw("object", "network") + [("id", n)]), self.objnat(n))

    def netref(self, kinds=("obj", "grp")):
        """a network object or group usable in twice NAT"""
        rng = self.rng
        os_ = [n for n in self.nets if n not in self.g["net"]] if "obj" in kinds else []
        gs = [n for n in self.g["net"] if n not in self.nets] if "grp" in kinds else []
        c = [("ref:netobj", n, ("netobj", n)) for n in os_] + [("ref:netgrp", n, ("netgrp", n)) for n in gs]
        return rng.choice(c) if c else None

    def twice_nat(self):
        rng = self.rng
        if not self.netref():
            return
        it, r, m = self.ifpair()
        t = kw("nat") + it
        opts = {}
        sec = 1
        if rng.random() < 0.35:
            sec = 3
            t += [("kw", rng.choice(["after-auto", "after-object"]))]
            if rng.random() < 0.3:
                t.append(("int", str(num(rng, [1, 2, 9, 10], 1, 2147483647))))
            opts["after-auto"] = True
        typ = rng.choice(["static", "dynamic"])
        t += kw("source", typ)
        x = self.netref()
        if rng.random() < 0.15:
            t += kw("any")
            rs = ("any",)
        else:
            t.append((x[0], x[1]))
            rs = x[2]
        fb = None
        if typ == "static":
            k = rng.choice(["ref", "ref", "same", "any", "interface"])
        else:
            k = rng.choice(["ref", "ref", "interface", "pool"])
        self.c.features.add(f"twice:{typ}:{k}")
        if k == "any":
            t += kw("any")
            ms = ("any",)
        elif k == "interface" and typ == "dynamic":
            t += kw("interface") + (kw("ipv6") if rng.random() < 0.2 else [])
            ms = ("iface", m)
        elif k == "interface":
            t += kw("interface") + (kw("ipv6") if rng.random() < 0.2 else [])
            ms = ("iface", m)
        elif k == "pool":
            y = self.netref()
            t += kw("pat-pool") + [(y[0], y[1])]
            ms = y[2]
            for o in rng.choice([[], [], ["round-robin"], ["extended"], ["flat"], ["flat", "include-reserve"]]):
                t += kw(o)
        else:
            y = self.netref() if k == "ref" or rs == ("any",) else x
            t.append((y[0], y[1]))
            ms = y[2]
        if typ == "dynamic" and k != "interface" and rng.random() < 0.3:
            v6 = rng.random() < 0.3
            t += kw("interface") + (kw("ipv6") if v6 else [])
            fb = (("iface", m), v6)
        rd = md = None
        if rng.random() < 0.45:
            y, z = self.netref(), self.netref()
            t += kw("destination", "static")
            if rng.random() < 0.2:
                # the device means the real interface, the importer records the mapped one: either is accepted
                t += kw("interface") + (kw("ipv6") if rng.random() < 0.2 else [])
                md = ("iface?", r, m)
                self.c.features.add("twice:destination interface")
            else:
                t.append((y[0], y[1]))
                md = y[2]
            t.append((z[0], z[1]))
            rd = z[2]
        svc = (None, None)
        srcs = [n for n, e in self.svcs.items() if e[1] and not e[2] and e[0][1] in ("tcp", "udp")]
        dsts = [n for n, e in self.svcs.items() if e[2] and not e[1] and e[0][1] in ("tcp", "udp")]
        if rng.random() < 0.5:
            if typ == "static" and srcs and (rng.random() < 0.5 or not dsts):
                a, b = rng.choice(srcs), rng.choice(srcs)
                svc = (("svcobj", a), ("svcobj", b))
                t += kw("service") + [("ref:svcobj", a), ("ref:svcobj", b)]
            elif dsts:
                a, b = rng.choice(dsts), rng.choice(dsts)
                svc = (("svcobj", b), ("svcobj", a))
                t += kw("service") + [("ref:svcobj", a), ("ref:svcobj", b)]
        os_ = [o for o in ("net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup") if rng.random() < 0.15]
        rng.shuffle(os_)
        for o in os_:
            t += kw(o)
            opts[o] = True
        d = None
        if rng.random() < 0.25:
            d = free_text(rng)
            t += kw("description") + [("free", d)]
        self.c.add("nat", (0, t))
        self.exp["nat"][sec].append({"real": (r, rs, rd, svc[0]), "mapped": (m, ms, md, svc[1]), "type": typ, "fallback": fb,
                                     "description": d, "options": opts})

    # ---------------------------------------------------------------- whole configurations
    def build(self, size=12, weights=None, nrules=None, acl_groups=True):
        rng = self.rng
        w = {"name": 2, "interface": 1, "netobj": 3, "svcobj": 2, "netgrp": 3, "svcgrp": 2, "portgrp": 2, "icmpgrp": 1, "protogrp": 1,
             "time": 1, "rules": 4, "natobj": 1, "nat": 1, "renat": 0.7}
        w.update(weights or {})
        if rng.random() < 0.5:
            self.version()
        if rng.random() < 0.6:
            self.hostname()
        if rng.random() < 0.4:
            self.domainname()
        if w["interface"]:
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                self.interface()
        f = {"name": self.name, "interface": self.interface, "netobj": self.network_object, "svcobj": self.service_object,
             "netgrp": self.network_group, "svcgrp": self.service_group, "portgrp": self.port_group, "icmpgrp": self.icmp_group,
             "protogrp": self.protocol_group, "time": self.time_range,
             "rules": lambda: self.rules(many(rng, [1, 1, 2, 4], (30, 80))),
             "natobj": lambda: self.network_object(nat=True, reopen=rng.random() < 0.5),
             "nat": self.twice_nat, "renat": self.reopen_nat}
        ks, ws = list(w), list(w.values())
        if size > 3 and w["netgrp"] and rng.random() < 0.02:
            self.chain()
        crowd = []
        if size > 3 and rng.random() < 0.025:
            # very many of one kind
            crowd = [rng.choice([k for k in ks if w[k]])] * rng.choice([11, 25, 40, 70])
        for k in crowd + [None] * size:
            f[k or rng.choices(ks, ws)[0]]()
        if nrules is not None:
            self.rules(nrules)
        if acl_groups:
            for _ in range(rng.choice([0, 1, 2, 3])):
                self.access_group()
        for l in self.exp["access_groups"].values():
            l.sort()
        return self.c


def cidrs(a, b, width):
    """the CIDR blocks of an address range, written independently of the code under test"""
    cls = ipaddress.IPv4Address if width == 32 else ipaddress.IPv6Address
    r = []
    while a <= b:
        size = (a & -a) if a else 1 << width
        while size > b - a + 1:
            size >>= 1
        r.append(ipaddress.ip_network(f"{cls(a)}/{width - size.bit_length() + 1}"))
        a += size
    return r
