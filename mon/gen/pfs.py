"""Generator of pfSense / OPNsense configurations with the expected canonical model."""
import datetime, html, ipaddress, re
from xml.sax.saxutils import escape

from mon.gen import base as B

ALIAS_FAMILIES = [
    ["web", "web1", "web10", "web_1", "WEB", "Web", "we", "w"],
    ["net", "net4", "net_4", "NET4", "network_a", "ne"],
    ["any_net", "anyhow", "any4x", "Any1", "anyx"],
    ["LAN", "lan_net", "lan1", "lanx", "Lan", "wan_net", "DMZ", "dmz"],
    ["x1", "x_1", "x11", "X1", "x", "xx"],
]
DESCRS = ["DMZ", "GUEST", "Guest WiFi", "VPN & more", "Büro", "lan2", "opt", "DMZ 2", "dmz", "A<B", "SRV", "wan2", "x-y"]
TEXTS = ["allow web", "", "a & b", "<b>bold</b>", "Büro", "x > y \"q\"", "permit ip any any", "&lt;kept&gt;", "ticket #42", "100%", "äöü ß €", "'"]
ICMPT = ["echoreq", "echorep", "unreach", "timex", "trace", "redir", "paramprob", "neighbrsol"]
PROTOS = ["tcp", "udp", "tcp/udp", "icmp", "esp", "ah", "gre", "igmp", "ospf", "any", "carp", "pfsync", "ipv6", "sctp"]
HOSTNAMES = ["www.example.com", "host-1", "fw.example.org", "xn--bcher-kva.example", "a.b", "2host.example", "localhost"]
COLORS = ["bg-info", "bg-warning", "bg-danger", "bg-success"]
IGN = [("ipprotocol", ["inet", "inet6", "inet46"]), ("id", ["", "1"]), ("tag", ["", "T"]), ("tagged", ["", "T"]), ("max", ["", "10"]),
       ("max-src-nodes", ["", "2"]), ("max-src-conn", [""]), ("max-src-states", [""]), ("statetimeout", ["", "30"]), ("os", ["", "FreeBSD"])]


class El:
    def __init__(self, tag, text=None, kids=None, cdata=False):
        self.tag, self.text, self.kids, self.cdata = tag, text, kids, cdata

    def render(self, out, ind, style):
        pad = style["nl"] + style["ind"] * ind if style["pretty"] else ""
        if style["rng"].random() < style["comments"]:
            out.append(pad + "<!-- " + style["rng"].choice(["<rule/>", "old", "<filter><rule><type>pass</type></rule></filter>", "x"]) + " -->")
        if self.kids is not None:
            if not self.kids:
                out.append(f"{pad}<{self.tag}/>")
                return
            a = f' uuid="{style["rng"].getrandbits(64):016x}"' if style["attrs"] and style["rng"].random() < 0.5 else ""
            out.append(f"{pad}<{self.tag}{a}>")
            for k in self.kids:
                k.render(out, ind + 1, style)
            out.append(f"{pad}</{self.tag}>")
        elif self.text is None or self.text == "":
            out.append(f"{pad}<{self.tag}/>" if style["rng"].random() < 0.5 else f"{pad}<{self.tag}></{self.tag}>")
        elif self.cdata and "]]>" not in self.text:
            out.append(f"{pad}<{self.tag}><![CDATA[{self.text}]]></{self.tag}>")
        else:
            t = escape(self.text)
            if style["refs"]:
                t = "".join(f"&#{ord(c)};" if ord(c) > 127 or style["rng"].random() < 0.1 and c.isalnum() else c for c in t) if "&" not in t else t
            out.append(f"{pad}<{self.tag}>{t}</{self.tag}>")


class Pfs:
    def __init__(self, rng, opn=None):
        self.rng = rng
        self.opn = rng.random() < 0.3 if opn is None else opn
        self.features = set()
        self.stored = []
        self.exp = {"hostname": "", "rules": [], "netgrp": {}, "portgrp": {}, "interfaces": {}}
        self.names = rng.sample(rng.choice(ALIAS_FAMILIES), 5) + ["alias_a", "alias_b", "P1", "P10", "p1", "H", "HH", "N1", "N11", "U1"]
        rng.shuffle(self.names)
        self.urls = {}

    # --- texts
    def descr(self, tag="descr", stored=None):
        """a description stored html escaped -> element, text"""
        rng = self.rng
        t = rng.choice(TEXTS) if stored is None else stored
        esc = html.escape(t, quote=False) if rng.random() < 0.7 else t
        if html.unescape(esc) != t:
            t = html.unescape(esc)
        return El(tag, esc, cdata=rng.random() < 0.5), t

    # --- sections
    def aliases(self, n):
        rng = self.rng
        while len(self.names) < n:
            self.names.append(f"{rng.choice(self.names)[:25]}_{len(self.names)}")
            self.names = list(dict.fromkeys(self.names))
        names = [self.names.pop() for _ in range(n)]
        kinds = {x: rng.choice(["host", "host", "network", "network", "port", "port", "urltable"]) for x in names}
        # acyclic: an alias refers to names of higher rank only, in any textual order
        rank = {x: i for i, x in enumerate(names)}
        els = []
        for x in names:
            k = kinds[x]
            mem, words = [], []
            same = [y for y in names if rank[y] > rank[x] and (kinds[y] == "port") == (k == "port")]
            for _ in range(B.many(rng, [0, 1, 1, 2, 3, 6])):
                if same and rng.random() < 0.2:
                    y = rng.choice(same)
                    words.append(y)
                    mem.append(("portgrp" if k == "port" else "netgrp", y))
                    self.features.add("nested alias")
                    continue
                if k == "host":
                    if rng.random() < 0.15:
                        words.append(rng.choice(HOSTNAMES))
                        mem.append(("any",))
                        self.features.add("host name in an alias")
                        continue
                    a = B.ip4(rng) if rng.random() < 0.7 else B.ip6(rng)
                    words.append(a)
                    mem.append(B.c_host(a))
                elif k == "network":
                    net = B.netaddr4(rng) if rng.random() < 0.7 else B.net6(rng)
                    words.append(f"{net.network_address}/{net.prefixlen}")
                    mem.append(B.c_net(net))
                elif k == "port":
                    if rng.random() < 0.3:
                        a, b = sorted(rng.sample(B.PORT_EDGES + [rng.randint(1, 65535)], 2))
                        words.append(f"{a}:{b}")
                        mem.append(("range", a, b))
                    else:
                        p = B.num(rng, B.PORT_EDGES, 0, 65535)
                        words.append(str(p))
                        mem.append(("port", "eq", p))
            d, dt = self.descr()
            kids = [El("name", x), El("type", k), d, El("detail", "||".join("Entry added" for _ in words))]
            if k == "urltable":
                url = f"https://list.invalid/{x}"
                kids += [El("url", url), El("updatefreq", "7"), El("address", rng.choice(["", url]))]
                self.urls[x] = url
                mem = [("any",)]
                words = []
            else:
                kids.append(El("address", " ".join(words)))
            rng.shuffle(kids)
            els.append(El("alias", kids=kids))
            dt = dt.strip() or None
            if k == "port":
                self.exp["portgrp"][x] = ("portgrp", x, dt, ("proto", "any"), tuple(mem))
            else:
                self.exp["netgrp"][x] = ("netgrp", x, dt, tuple(mem))
            self.features.add("alias " + k)
        rng.shuffle(els)
        return El("aliases", kids=els)

    def interfaces(self):
        rng = self.rng
        tags = ["wan", "lan"][:rng.choice([1, 2, 2])] + [f"opt{i}" for i in rng.sample(range(1, 12), rng.choice([0, 1, 2, 4]))]
        if rng.random() < 0.03:
            tags += [f"opt{i}" for i in rng.sample(range(1, 140), rng.choice([12, 30, 60])) if f"opt{i}" not in tags]
        if rng.random() < 0.15:
            # what other packages and plugins add
            tags += rng.sample(["lo0", "openvpn", "wireguard", "ovpn", "tailscale0"], rng.choice([1, 2]))
        descrs = [d if i < len(DESCRS) else f"{d} {i}" for i, d in enumerate(rng.sample(DESCRS, len(DESCRS)) * 9)][:len(tags)]
        els = []
        self.iface = {}       # tag -> shown id
        for t, d in zip(tags, descrs):
            kids = [El("enable", "")] if rng.random() < 0.5 else []
            dev = rng.choice(["em0", "igb1", "vtnet0.10", "re0", "ovpns1", "lagg0.4000"])
            kids.append(El("if", dev))
            has = rng.random() < (0.9 if t.startswith("opt") else 0.5)
            if t.startswith("opt") and not has:
                alias, desc = t, t
            elif t.startswith("opt"):
                alias, desc = d, t
            else:
                alias, desc = t, (d if has else None)
            if has:
                kids.append(self.descr(stored=d)[0])
            elif rng.random() < 0.3:
                kids.append(El("descr", ""))
            adds = []
            k = rng.random()
            if k < 0.55:
                a, l = B.ip4(rng), rng.choice([8, 16, 24, 30, 31, 32, 25])
                kids += [El("ipaddr", a), El("subnet", str(l))]
                adds.append(f"{a}/{l}")
            elif k < 0.8:
                kids.append(El("ipaddr", "dhcp"))
            if rng.random() < 0.4:
                a, l = B.ip6(rng), rng.choice([64, 128, 48, 127])
                kids += [El("ipaddrv6", a), El("subnetv6", str(l))]
                adds.append(f"{ipaddress.ip_address(a)}/{l}")
            elif rng.random() < 0.3:
                kids.append(El("ipaddrv6", rng.choice(["dhcp6", "slaac", "track6"])))
            for tag, v in (("spoofmac", ""), ("gateway", "GW"), ("mtu", "1500"), ("blockpriv", "1")):
                if rng.random() < 0.2:
                    kids.append(El(tag, v))
            rng.shuffle(kids)
            els.append(El(t, kids=kids))
            self.iface[t] = alias
            self.exp["interfaces"][alias] = {"alias": alias, "description": desc, "addresses": adds, "nameif": None if k < 0.55 else dev}
        return El("interfaces", kids=els)

    def addr(self):
        """-> elements, canonical"""
        rng = self.rng
        k = rng.random()
        if k < 0.25:
            return [El("any", rng.choice(["", "", "1"]))], ("any",)
        if k < 0.45 and self.exp["netgrp"]:
            n = rng.choice(list(self.exp["netgrp"]))
            self.features.add("rule refers to alias")
            return [El("address", n)], ("netgrp", n)
        if k < 0.6:
            t = rng.choice(list(self.iface))
            self.features.add("interface network")
            return [El("network", t)], ("iface", self.iface[t])
        if k < 0.8:
            a = B.ip4(rng) if rng.random() < 0.7 else B.ip6(rng)
            return [El("address", a)], B.c_host(a)
        n = B.netaddr4(rng) if rng.random() < 0.7 else B.net6(rng)
        return [El("address", f"{n.network_address}/{n.prefixlen}")], B.c_net(n)

    def port(self):
        rng = self.rng
        k = rng.random()
        if k < 0.3 and self.exp["portgrp"]:
            n = rng.choice(list(self.exp["portgrp"]))
            self.features.add("rule refers to port alias")
            return El("port", n), ("portgrp", n)
        if k < 0.65:
            p = B.num(rng, B.PORT_EDGES, 0, 65535)
            return El("port", str(p)), ("port", "eq", p)
        a, b = sorted(rng.sample(B.PORT_EDGES + [rng.randint(1, 65535)], 2))
        return El("port", f"{a}-{b}"), ("range", a, b)

    def when(self, tag):
        rng = self.rng
        t = str(rng.randint(1_000_000_000, 1_700_000_000)) + (f".{rng.randint(0, 9999)}" if self.opn else "")
        kids = [El("time", t), El("username", "admin@10.0.0.1")]
        rng.shuffle(kids)
        self.dates[tag] = datetime.datetime.fromtimestamp(int(float(t))).strftime("%Y-%m-%d")
        return El(tag, kids=kids)

    def rule(self, iface=None, floating=False):
        rng = self.rng
        mode = rng.choice(["pass", "pass", "pass", "block", "reject", "match"])
        kids = [El("type", mode)]
        opts = {"xref": -1}
        if rng.random() < 0.8:
            tr = str(rng.choice([rng.randint(1, 9), rng.randint(1_000_000_000, 1_700_000_000), 100000101]))
            kids.append(El("tracker", tr))
            opts["xref"] = tr
        if floating:
            tags = rng.sample(list(self.iface), rng.randint(1, len(self.iface)))
            d = rng.choice(["in", "out", "any"])
            kids += [El("interface", ",".join(tags)), El("floating", "yes"), El("direction", d)]
            rid = "floating"
            opts["floating"] = ("ifaces", tuple(self.iface[t] for t in tags), d)
            if rng.random() < 0.5:
                kids.append(El("quick", "yes"))
        else:
            kids.append(El("interface", iface))
            rid = self.iface.get(iface, iface)
            if rng.random() < 0.1:
                kids.append(El("floating", "no"))
        proto = "any"
        if rng.random() < 0.8:
            proto = rng.choice(PROTOS)
            kids.append(El("protocol", proto))
        icmp = None
        if proto == "icmp" and rng.random() < 0.7:
            t = ",".join(rng.sample(ICMPT, rng.choice([1, 1, 1, 2, 3])))
            kids.append(El("icmptype", t))
            icmp = ("icmp", t, None)
        sides = {}
        for side in ("source", "destination"):
            if rng.random() < 0.04:
                sides[side] = (("any",), None)      # nothing stored: unrestricted
                continue
            e, a = self.addr()
            p = None
            if proto in ("tcp", "udp", "tcp/udp") and rng.random() < 0.6:
                pe, p = self.port()
                e = e + [pe]
                rng.shuffle(e)
            sides[side] = (a, p)
            kids.append(El(side, kids=e))
        d, dt = self.descr()
        if rng.random() < 0.9:
            kids.append(d)
        else:
            dt = None
        if rng.random() < 0.2:
            kids.append(El("disabled", rng.choice(["", "1"])))
            opts["inactive"] = True
        if rng.random() < 0.3:
            kids.append(El("log", rng.choice(["", "1"])))
            opts["log"] = ("log",)
        if rng.random() < 0.5:
            s = rng.choice(["keep state", "keep state", "sloppy state", "synproxy state", "none"])
            kids.append(El("statetype", s, cdata=rng.random() < 0.5))
            if s != "keep state":
                opts["statetype"] = s
        if dt is None:
            kids.append(El("descr", ""))
            dt = ""
        self.dates = {}
        for t in ("created", "updated"):
            if rng.random() < 0.6:
                kids.append(self.when(t))
        for t, v in IGN:
            if rng.random() < 0.15:
                kids.append(El(t, rng.choice(v)))
        rng.shuffle(kids)
        self.exp["rules"].append({"id": rid, "mode": "permit" if mode == "pass" else "deny", "protocol": ("proto", B_num(proto)),
                                  "src": sides["source"][0], "sport": sides["source"][1], "dst": sides["destination"][0],
                                  "dport": sides["destination"][1], "icmp": icmp, "remark": [dt.rstrip()], "options": opts, "head": []})
        self.stored.append((self.dates.get("created"), self.dates.get("updated")))
        return El("rule", kids=kids)

    def filter(self, n):
        rng = self.rng
        els = []
        extra = [x for x in ("enc0", "openvpn", "GROUP1", "op") if x not in self.iface]
        ifs = list(self.iface) + rng.sample(extra, rng.choice([0, 1]))
        order = [rng.choice(ifs + ["floating"]) for _ in range(n)]
        if rng.random() < 0.7:
            order.sort(key=lambda x: (x != "floating", ifs.index(x) if x in ifs else -1))
        for o in order:
            els.append(self.rule(o, o == "floating"))
        seps = {}
        where = []
        k = 0
        if rng.random() < 0.6 and n:
            per = {}
            for i, o in enumerate(order):
                per.setdefault(o, []).append(i)
            for o, idx in per.items():
                if rng.random() < 0.5:
                    continue
                group = []
                for j in range(rng.choice([1, 1, 2, 3])):
                    row = rng.choice([0, len(idx) - 1, rng.randrange(len(idx)), len(idx), len(idx) + 3])
                    d, t = self.descr("text")
                    color = rng.choice(COLORS)
                    store = {"floating": "floatingrules"}.get(o, o)
                    kids = [El("row", f"fr{row}"), d, El("color", color), El("if", store)]
                    rng.shuffle(kids)
                    group.append(El(f"sep{j}", kids=kids))
                    if row < len(idx):
                        self.exp["rules"][idx[row]]["head"].append((t.rstrip(), color))
                    self.features.add("separator")
                where.append(El({"floating": "floatingrules"}.get(o, o), kids=group))
        if where or rng.random() < 0.3:
            els.insert(len(els) if rng.random() < 0.7 else rng.randint(0, len(els)), El("separator", kids=where))
        return El("filter", kids=els)

    def build(self, size=6, aliases=None):
        rng = self.rng
        secs = []
        if size and rng.random() < 0.03:
            size = rng.choice([30, 60, 120])
        al = self.aliases(B.many(rng, [0, 2, 4, 7], (20, 45, 80)) if aliases is None else aliases)
        ifs = self.interfaces()
        fl = self.filter(size)
        secs = [al, ifs, fl]
        host, dom = rng.choice(["fw", "pf-1", "edge"]), rng.choice(["example.com", "localdomain", "x-y.z"])
        sk = [El("hostname", host), El("domain", dom), El("timezone", "Etc/UTC"), El("optimization", "normal")]
        rng.shuffle(sk)
        secs.append(El("system", kids=sk))
        self.exp["hostname"] = f"{host}.{dom}"
        rv = [El("time", "1500000000" + (".1234" if self.opn else "")), El("description", "x"), El("username", "admin")]
        rng.shuffle(rv)
        secs.append(El("revision", kids=rv))
        for tag in ("version", "lastchange", "theme"):
            secs.append(El(tag, rng.choice(["", "15.8"])))
        secs.append(El("nat", kids=[El("rule", kids=[El("type", "pass"), El("interface", "wan")])]))
        secs.append(El("cron", kids=[El("item", kids=[El("command", "/usr/bin/nice &")])]))
        rng.shuffle(secs)
        self.root = El("opnsense" if self.opn else "pfsense", kids=secs)
        return self

    def relocate(self, where):
        """the URL tables come from where(name)"""
        new = {u: (n, where(n)) for n, u in self.urls.items()}
        todo = [self.root]
        while todo:
            e = todo.pop()
            todo += e.kids or []
            if e.text in new:
                e.text = new[e.text][1]
        self.urls = dict(new.values())

    def text(self, style=None):
        import random
        rng = random.Random(self.rng.random())
        st = {"pretty": rng.random() < 0.8, "ind": rng.choice(["\t", "  "]), "nl": "\n", "comments": rng.choice([0, 0, 0.05]), "rng": rng, "attrs": rng.random() < 0.25, "refs": rng.random() < 0.15, "decl": rng.random() < 0.8}
        st.update(style or {})
        out = []
        self.root.render(out, 0, st)
        s = "".join(out).lstrip("\n")
        if st["decl"]:
            s = rng.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding='utf-8'?>"]) + "\n" + s
        return s + "\n"


def B_num(s):
    return int(s) if s.isdigit() else s


def dates(rules, stored):
    """stored dates of the rules as they are shown; dates the document does not state are not compared"""
    r = []
    for x, s in zip(rules, stored):
        m = re.fullmatch(r"c: (\S+) \(# days\) / m: (\S+) \(# days\)", x["remark"][1] if len(x["remark"]) == 2 else "")
        r.append(tuple(g if w else None for g, w in zip(m.groups(), s)) if m else x["remark"][1:])
    return r


def observed(d):
    """the part of a snapshot that a generated pfSense configuration determines"""
    return {"hostname": d["hostname"],
            "rules": [dict(r, remark=r["remark"][:1], icmp=r["icmp"]) for r in d["rules"]],
            "netgrp": d["netgrp"], "portgrp": d["portgrp"],
            "interfaces": {k: {x: i[x] for x in ("alias", "description", "addresses", "nameif")} for k, i in d["interfaces"].items()},
            "nothing else": {k: d[k] for k in ("names", "netobj", "svcobj", "time", "svcgrp", "protogrp", "icmpgrp", "nat", "access_groups") if any(d[k].values() if k == "nat" else [d[k]])}}
