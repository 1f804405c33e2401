"""IOS configurations with their expected meaning."""
import ipaddress
from mon.gen.base import *  # noqa: F401,F403
from mon.gen.asa import Asa, cidrs
from mon.snap import cubetuple, full

WILDS = ["0.0.0.0", "0.0.0.255", "0.0.255.255", "255.255.255.255", "0.0.0.3", "0.0.0.1", "127.255.255.255", "0.255.255.255",
         "0.0.255.0", "0.0.0.254", "255.0.255.0", "0.0.1.254", "0.255.0.255", "128.0.0.0", "0.0.0.128", "254.255.255.255"]


def c_wild(a, w):
    """what the device matches: bits set in the wildcard are ignored"""
    return cubetuple(4, int(ipaddress.IPv4Address(a)), ~int(ipaddress.IPv4Address(w)) & full(4))


class Ios(Asa):
    def __init__(self, rng, family=None):
        Asa.__init__(self, rng, family)
        self.exp["routes"] = []
        self.exp["version"] = None
        self.used_acl = set()
        self.routes_ = []

    # ---------------------------------------------------------------- host identity
    def version(self):
        n = self.rng.choice(["12.4", "15.1 ", "12.2(33)SXI"])
        self.c.add("version", (0, [("kw", "version"), ("free", n)]))
        self.exp["version"] = None   # compared as free text by the checks that state it
        self.version_text = n

    def domainname(self):
        n = self.rng.choice(["example.com", "a", "x-y.z", "corp.local"])
        self.c.add("domainname", (0, kw("ip", "domain", "name") + [("id", n)]))
        self.exp["domainname"] = n

    def interface(self):
        rng = self.rng
        self.n += 1
        alias = rng.choice(["Vlan", "GigabitEthernet0/", "FastEthernet0/0.", "Loopback", "Port-channel"]) + str(self.n)
        lines = [(0, kw("interface") + [("id", alias)])]
        body = []
        d = None
        addrs, ag = [], {}
        sw = None
        if rng.random() < 0.5:
            d = free_text(rng)
            body.append((1, kw("description") + [("free", d)]))
        if rng.random() < 0.3:
            body.append((1, [("free", rng.choice(["no ip address", "shutdown", "speed 100", "ip nat inside", "no shutdown", "ip helper-address 10.0.0.1", "ipv6 enable"]))]))
        if rng.random() < 0.25:
            m = rng.choice(["access", "trunk"])
            items = []
            t = []
            for _ in range(many(rng, [1, 1, 2, 4], (10, 30))):
                a = num(rng, [1, 2, 9, 10, 100, 1000, 4094], 1, 4094)
                if rng.random() < 0.4:
                    b = a + rng.choice([1, 5, 10])
                    items.append((a, b))
                    t.append(f"{a}-{b}")
                else:
                    items.append((a, a))
                    t.append(str(a))
            body.append((1, kw("switchport", "mode", m)))
            vl = None
            if rng.random() < 0.7:
                body.append((1, kw("switchport", "trunk", "allowed", "vlan") + [("free", ",".join(t))]))
                vl = list(items)
                for _ in range(rng.choice([0, 0, 1, 2])):
                    a = num(rng, [3, 30, 300], 1, 4000)
                    body.append((1, kw("switchport", "trunk", "allowed", "vlan", "add") + [("free", f"{a},{a + 1}-{a + 3}")]))
                    vl += [(a, a), (a + 1, a + 3)]
            sw = (m, None if vl is None else tuple(vl))
        else:
            for i in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < 0.65:
                    a = ip4(rng)
                    plen = rng.choice([24, 30, 8, 16, 32, 31, 1, 0])
                    t = kw("ip", "address") + [("ip4", a), ("mask", str(ipaddress.ip_network(f"0.0.0.0/{plen}").netmask))]
                    if addrs and rng.random() < 0.8:
                        t += kw("secondary")
                    addrs.append(f"{a}/{plen}")
                elif rng.random() < 0.7:
                    a = ip6(rng)
                    plen = rng.choice([64, 128, 10, 48])
                    t = kw("ipv6", "address") + [("net6", f"{a}/{plen}")]
                    addrs.append(f"{ipaddress.ip_address(a)}/{plen}")
                else:
                    a = "fe80::" + rng.choice(["1", "abcd", "1:2:3:4"])
                    t = kw("ipv6", "address") + [("ip6", a)] + kw("link-local")
                    addrs.append(f"{a}/128")
                body.append((1, t))
            for v, w in (("ip", ("access-group",)), ("ipv6", ("traffic-filter",))):
                for dr in ("in", "out"):
                    if rng.random() < 0.25:
                        acl = rng.choice(["acl_in", "101", "7", "v6acl", "a.b-c", "ACL"] + [a for a, _ in self.acls])
                        body.append((1, kw(v, *w) + [("aclid", acl), ("kw", dr)]))
                        ag[f"{v}-{dr}"] = (acl, dr, alias)
                        self.exp["access_groups"].setdefault(acl, []).append((alias, dr, acl))
        if rng.random() < 0.3:
            rng.shuffle(body) if sw is None else None
            # order of addresses and bindings follows the text
            addrs = []
            for _, t in body:
                w = [x[1] for x in t]
                if w[:2] == ["ip", "address"]:
                    addrs.append(f"{w[2]}/{ipaddress.ip_network('0.0.0.0/' + w[3]).prefixlen}")
                elif w[:2] == ["ipv6", "address"]:
                    a = w[2].split("/")
                    addrs.append(f"{ipaddress.ip_address(a[0])}/{a[1] if len(a) > 1 else 128}")
        self.c.add("interface", *(lines + body))
        self.ifs.append((alias, None))
        self.exp["interfaces"][alias] = {"alias": alias, "nameif": None, "description": d, "addresses": addrs,
                                         "access_groups": ag, "switchport": sw, "routes": []}

    def route(self):
        """ip route P M GW (the gateway may lie in an interface's network, or be an interface)"""
        rng = self.rng
        n = netaddr4(rng)
        t = kw("ip", "route") + [("ip4", str(n.network_address)), ("mask", str(n.netmask))]
        ifs = [a for a, _ in self.ifs]
        if ifs and rng.random() < 0.25:
            gw = rng.choice(ifs)
            t.append(("id", gw))
        else:
            cand = [x for i in self.exp["interfaces"].values() for x in i["addresses"] if ":" not in x]
            gw = ip4(rng)
            if cand and rng.random() < 0.7:
                i = ipaddress.ip_interface(rng.choice(cand))
                gw = str(i.network[rng.choice([0, -1, min(1, i.network.num_addresses - 1)])])
                if rng.random() < 0.2:
                    gw = str(ipaddress.IPv4Address((int(i.network[-1]) + 1) % (1 << 32)))
            t.append(("ip4", gw))
        self.c.add("route", (0, t))
        self.exp["routes"].append((str(n), gw))

    def finish(self):
        for l in self.exp["access_groups"].values():
            l.sort()
        for i in self.exp["interfaces"].values():
            i["routes"] = sorted(
                r for r in self.exp["routes"]
                if r[1] == i["alias"] or (r[1][0].isdigit() and any(ipaddress.ip_address(r[1]) in ipaddress.ip_interface(a).network
                                                                     for a in i["addresses"])))
        self.exp["routes"].sort()

    # ---------------------------------------------------------------- groups
    def network_group(self, size=None, nest=True, name=None):
        rng = self.rng
        n = name or self.fresh("netgrp")
        d, lines = self.group_head(kw("network") + [("id", n)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 1, 2, 3, 5])):
            k = self.kind(rng.choice(["host", "host", "net", "net", "range", "group"]), self.g["net"], m)
            if k == "group" and self.g["net"] and nest:
                o = self.pick(self.g["net"])
                lines.append((1, kw("group-object") + [("ref:netgrp", o)]))
                m.append(("netgrp", o))
            elif k == "range":
                a = int(ipaddress.IPv4Address(ip4(rng)))
                b = min(a + rng.choice([0, 1, 2, 3, 7, 14, 255, 256, 1000]), (1 << 32) - 1)
                lines.append((1, kw("range") + [("lo4", str(ipaddress.IPv4Address(a))), ("hi4", str(ipaddress.IPv4Address(b)))]))
                m += [c_net(x) for x in cidrs(a, b, 32)]
            elif k == "net":
                x = netaddr4(rng) if rng.random() < 0.7 else net6(rng)
                if x.version == 4:
                    lines.append((1, [("net4", str(x.network_address)), ("mask", str(x.netmask))]))
                else:
                    lines.append((1, [("net6", f"{x.network_address}/{x.prefixlen}")]))
                m.append(c_net(x))
            else:
                a = ip4(rng) if rng.random() < 0.75 else ip6(rng)
                lines.append((1, kw("host") + [("host4" if "." in a else "host6", a)]))
                m.append(c_host(a))
        if all(x[1][0][1] != "range" for x in lines[1:]):
            self.again(lines, m)
        self.c.add("netgrp", *lines)
        self.g["net"][n] = m
        self.exp["netgrp"][n] = ("netgrp", n, d, tuple(m))
        return n

    def service_group(self, size=None, name=None):
        rng = self.rng
        n = name or self.fresh("svcgrp")
        d, lines = self.group_head(kw("service") + [("id", n)])
        m = []
        for _ in range(size if size is not None else many(rng, [0, 1, 2, 3, 5])):
            if self.nests(self.g["svc"], m, 0.25):
                o = self.pick(self.g["svc"])
                lines.append((1, kw("group-object") + [("ref:svcgrp", o)]))
                m.append(("svcgrp", o))
            else:
                t, e = self.svc_body()
                lines.append((1, t))
                m.append(("svc",) + e)
        if all(x[1][0][1] != "range" for x in lines[1:]):
            self.again(lines, m)
        self.c.add("svcgrp", *lines)
        self.g["svc"][n] = m
        self.exp["svcgrp"][n] = ("svcgrp", n, d, tuple(m))
        return n

    # ---------------------------------------------------------------- access rules
    def wild(self):
        rng = self.rng
        a = ip4(rng)
        k = rng.random()
        if k < 0.75:
            w = rng.choice(WILDS)
        elif k < 0.9:
            w = str(ipaddress.IPv4Address((1 << rng.randint(0, 32)) - 1))
        else:
            w = str(ipaddress.IPv4Address(rng.getrandbits(32)))
        if rng.random() < 0.7:
            # the address as the device shows it: ignored bits zero
            a = str(ipaddress.IPv4Address(int(ipaddress.IPv4Address(a)) & ~int(ipaddress.IPv4Address(w)) & full(4)))
        return [("net4", a), ("wild", w)], c_wild(a, w)

    def host(self, std=False):
        rng = self.rng
        ks = ["host", "wild", "wild", "any"]
        if std:
            ks.append("bare")      # extended entries need an explicit form, "A B" would be address and wildcard
        if self.g["net"]:
            ks += ["group"]
        k = rng.choice(ks)
        self.c.features.add("addr:" + k)
        if k == "host":
            a = ip4(rng)
            return kw("host") + [("host4", a)], c_host(a)
        if k == "bare":
            a = ip4(rng)
            return [("host4", a)], c_host(a)
        if k == "any":
            return kw("any"), ("any",)
        if k == "group":
            n = rng.choice(list(self.g["net"]))
            return kw("object-group") + [("ref:netgrp", n)], ("netgrp", n)
        return self.wild()

    def proto(self):
        rng = self.rng
        ks = ["ip", "tcp", "tcp", "udp", "num", "name"]
        if self.g["svc"]:
            ks.append("svcgrp")
        if self.g["proto"]:
            ks.append("protogrp")
        k = rng.choice(ks)
        self.c.features.add("proto:" + k)
        if k in ("ip", "tcp", "udp"):
            return [("proto", k)], ("proto", k), k != "ip"
        if k == "num":
            n = num(rng, [0, 1, 6, 17, 47, 99, 100, 255], 0, 255)
            return [("protonum", str(n))], ("proto", n), False
        if k == "name":
            n = rng.choice([p for p in PROTO_NAMES if p not in ("tcp", "udp")])
            return [("proto", n)], ("proto", n), False
        n = rng.choice(list(self.g["svc" if k == "svcgrp" else "proto"]))
        return kw("object-group") + [(f"ref:{k}", n)], (k, n), False

    def ext_opts(self):
        rng = self.rng
        t, e = [], {}
        for o in rng.sample(["established", "log", "log-input", "dscp", "precedence", "tos", "time-range", "fragments"], rng.choice([0, 0, 1, 1, 2, 3])):
            if o == "log-input" and "log" in e or o == "log" and "log-input" in e:
                continue
            v = None
            t += kw(o)
            if o in ("dscp", "precedence", "tos"):
                v = rng.choice(["ef", "af11", "critical", "max-reliability", "cs1"])
            elif o == "time-range":
                v = rng.choice(["work", "off-hours", "T_1"])
            if v:
                t.append(("id", v))
            e[o] = v
        # a word after log would be taken for its argument only when it is the last option
        if t and t[-1][1] in ("log", "log-input") and rng.random() < 0.3:
            v = rng.choice(["cookie1", "TAG"])
            e[t[-1][1]] = v
            t.append(("id", v))
        elif any(x[1] in ("log", "log-input") for x in t[:-1]):
            # keep the log keyword last: what follows it may be read as its word
            i = [n for n, x in enumerate(t) if x[1] in ("log", "log-input")][0]
            t.append(t.pop(i))
        return t, e

    def ext_entry(self, numbered=False):
        """(tokens after the action, protocol, src, sport, dst, dport, icmp, options)"""
        rng = self.rng
        sport = dport = ic = None
        if rng.random() < 0.25:
            p = rng.choice(ICMP_PROTOS)
            pe = ("proto", p)
            s, se = self.host()
            d, de = self.host()
            t = [("proto", p)] + s + d
            x = rng.random()
            if x < 0.25 and self.g["icmp"]:
                n = rng.choice(list(self.g["icmp"]))
                t += kw("object-group") + [("ref:icmpgrp", n)]
                ic = ("icmpgrp", n)
            elif x < 0.75:
                a, ty = self.icmp_type()
                t.append(("icmptype", a))
                co = None
                if rng.random() < 0.4:
                    a, co = self.icmp_code()
                    t.append(("icmpcode", a))
                ic = ("icmp", ty, co)
        else:
            t, pe, ports = self.proto()
            s, se = self.host()
            t = t + s
            if ports and rng.random() < 0.4:
                x, sport = self.rport()
                t += x
            d, de = self.host()
            t += d
            if ports and rng.random() < 0.6:
                x, dport = self.rport()
                t += x
        o, oe = self.ext_opts()
        return t + o, pe, se, sport, de, dport, ic, oe

    def std_entry(self):
        rng = self.rng
        s, se = self.host(True)
        o, oe = [], {}
        if rng.random() < 0.3:
            o, oe = kw("log"), {"log": None}
            if rng.random() < 0.4:
                o, oe = o + [("id", "word1")], {"log": "word1"}
        return s + o, se, oe

    def named(self):
        rng = self.rng
        while True:
            n = rng.choice(["acl_in", "acl_out", "ACL", "a.b-c", "101", "7", "WEB", "web", "remark", "permit", "x+y", LONG]) + rng.choice(["", "", "1", "-2"]) + (f".{len(self.used_acl)}" if len(self.used_acl) > 9 else "")
            if n not in self.used_acl:
                self.used_acl.add(n)
                break
        kind = rng.choice(["standard", "extended", "extended"])
        lines = [(0, kw("ip", "access-list", kind) + [("aclid", n)])]
        seq = 0
        for _ in range(many(rng, [0, 1, 2, 3, 6])):
            rem = []
            sq = lambda: [("seq", str(seq))] if rng.random() < 0.3 else []
            for _ in range(many(rng, [0, 0, 0, 1, 2, 3], (9, 20))):
                r = free_text(rng, 0, 4)
                lines.append((1, sq() + kw("remark") + [("free", r)]))
                rem.append(r.rstrip())
            seq += 10 if rng.random() < 0.97 else rng.choice([100, 90000, 1 << 20])
            mode = rng.choice(["permit", "deny"])
            head = sq() + [("act", mode)]
            if kind == "standard":
                t, se, oe = self.std_entry()
                lines.append((1, head + t))
                self.rule_exp(n, mode, ("proto", "ip"), se, None, ("any",), None, None, oe, rem)
            else:
                t, pe, se, sport, de, dport, ic, oe = self.ext_entry()
                lines.append((1, head + t))
                self.rule_exp(n, mode, pe, se, sport, de, dport, ic, oe, rem)
        self.c.add("named-" + kind, *lines)
        self.acls.append((n, kind))

    def numbered(self, n=None):
        rng = self.rng
        std = rng.random() < 0.4
        if n is None:
            n = rng.choice(["1", "9", "10", "42", "99", "1300", "1350", "1399", str(rng.randint(1, 99)), str(rng.randint(1300, 1399))] if std else
                           ["100", "101", "110", "150", "199", "2000", "2001", "2699", "2500", str(rng.randint(100, 199)), str(rng.randint(2000, 2699))])
        else:
            std = int(n) < 100 or 1300 <= int(n) < 1400
        for _ in range(many(rng, [1, 1, 2, 4])):
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                m = n if rng.random() < 0.85 else rng.choice(["1", "100", "101"])
                self.c.add("remark", (0, kw("access-list") + [("aclid", m), ("kw", "remark"), ("free", free_text(rng))]))
            rem = self.take_remarks(n)
            mode = rng.choice(["permit", "deny"])
            head = kw("access-list") + [("aclid", n), ("act", mode)]
            if std:
                t, se, oe = self.std_entry()
                self.c.add("numbered-standard", (0, head + t))
                self.rule_exp(n, mode, ("proto", "ip"), se, None, ("any",), None, None, oe, rem)
            else:
                t, pe, se, sport, de, dport, ic, oe = self.ext_entry(True)
                self.c.add("numbered-extended", (0, head + t))
                self.rule_exp(n, mode, pe, se, sport, de, dport, ic, oe, rem)
        self.acls.append((n, "numbered"))

    def host6(self):
        rng = self.rng
        k = rng.choice(["host", "net", "any"])
        self.c.features.add("addr6:" + k)
        if k == "host":
            a = ip6(rng)
            return kw("host") + [("host6", a)], c_host(a)
        if k == "any":
            return kw("any"), ("any",)
        n = net6(rng)
        return [("net6", f"{n.network_address}/{n.prefixlen}")], c_net(n)

    def v6list(self):
        rng = self.rng
        while True:
            n = rng.choice(["v6acl", "V6", "IN-v6", "a.b", "v6"]) + rng.choice(["", "1", "-2"]) + (f".{len(self.used_acl)}" if len(self.used_acl) > 9 else "")
            if ("6", n) not in self.used_acl:
                self.used_acl.add(("6", n))
                break
        lines = [(0, kw("ipv6", "access-list") + [("aclid", n)])]
        seq = 0
        for _ in range(many(rng, [1, 2, 3, 6])):
            seq += rng.choice([1, 10, 10]) if rng.random() < 0.95 else rng.choice([100, 90000, 1 << 20])
            mode = rng.choice(["permit", "deny"])
            sport = dport = None
            o, oe = [], {"sequence": str(seq)}
            if rng.random() < 0.3:
                p = rng.choice(ICMP_PROTOS)
                pe = ("proto", p)
                s, se = self.host6()
                d, de = self.host6()
                t = [("proto", p)] + s + d
                for _ in range(rng.choice([0, 1, 1])):
                    x = rng.choice(["nd-ns", "nd-na", "router-solicitation", "echo-request", "echo-reply", "packet-too-big", "time-exceeded", "redirect"])
                    o += kw(x)
                    oe[x] = None
            else:
                t, pe, ports = self.proto()
                s, se = self.host6()
                t = t + s
                if ports and rng.random() < 0.4:
                    x, sport = self.op()
                    t += x
                d, de = self.host6()
                t += d
                if ports and rng.random() < 0.6:
                    x, dport = self.op()
                    t += x
                for x in rng.sample(["dscp", "flow-label", "fragments", "log", "log-input", "mobility", "routing", "time-range", "mobility-type", "routing-type"], rng.choice([0, 0, 1, 2])):
                    v = {"mobility-type": "3", "routing-type": rng.choice([None, "2"]), "dscp": "ef", "flow-label": "FL1", "time-range": "work"}.get(x)
                    o += kw(x) + ([("id", v)] if v else [])
                    oe[x] = v
            lines.append((1, kw("sequence") + [("seq", str(seq)), ("act", mode)] + t + o))
            self.rule_exp(n, mode, pe, se, sport, de, dport, None, oe, [])
        self.c.add("v6list", *lines)
        self.acls.append((n, "v6"))

    def build(self, size=10, weights=None):
        rng = self.rng
        w = {"interface": 2, "netgrp": 2, "svcgrp": 1, "portgrp": 1, "icmpgrp": 0.7, "protogrp": 0.7, "named": 4, "numbered": 3, "v6": 2, "route": 1.5}
        w.update(weights or {})
        if rng.random() < 0.5:
            self.version()
        if rng.random() < 0.6:
            self.hostname()
        if rng.random() < 0.4:
            self.domainname()
        f = {"interface": self.interface, "netgrp": self.network_group, "svcgrp": self.service_group, "portgrp": self.port_group,
             "icmpgrp": self.icmp_group, "protogrp": self.protocol_group, "named": self.named, "numbered": self.numbered,
             "v6": self.v6list, "route": self.route}
        ks, ws = list(w), list(w.values())
        if size > 3 and w["netgrp"] and rng.random() < 0.02:
            self.chain()
        crowd = []
        if size > 3 and rng.random() < 0.025:
            # very many of one kind
            crowd = [rng.choice([k for k in ks if w[k]])] * rng.choice([11, 25, 40, 70])
        for k in crowd + [None] * size:
            f[k or rng.choices(ks, ws)[0]]()
        self.finish()
        return self.c
