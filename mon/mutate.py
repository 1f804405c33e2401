"""Typed corruptions of generated configurations: each makes one entry malformed, for certain.

A corruption is (class, function(rng, words, index, ctx) -> new list of words for the line or None).
"""
import calendar, ipaddress

from mon.gen.base import render_line
from mon.gen.asa import MONTHS

BAD = {
    "ip4": ["256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.a", "10..1.1", "300.1.1.1", "1.2.3.4x", "1.2.3.-4", "1,2.3.4", "10.0.0.0/8", "a.b.c.d"],
    "ip6": ["2001:db8::1::2", "12345::1", "fe80::g", "1:2:3", ":::", "2001:db8:::1", "1:2:3:4:5:6:7:8:9", "::1x", "::300.1.2.3"],
    "mask": ["255.0.255.0", "255.255.255.256", "255.255.256.0", "255.255.255", "255.255.255.253", "/24", "24", "x", "255.255.255.0.0", "253.0.0.0", "0.255.0.255"],
    "wild": ["0.0.0.256", "0.0.0", "0.0.0.0.0", "/24", "x", "0.0.0.x", "1.0.0.999"],
    "port": ["65536", "70000", "-1", "httpp", "http-x", "80x", "8o", "0x50", "99999999999", "1-2", "htt", "80,443"],
    "op": ["eqq", "equal", "=", "==", "gte", "rang", "betwen"],
    "proto": ["tpc", "tcpp", "ipp", "xtcp", "tcp-x", "icmp7", "udplite", "tcp,udp"],
    "protonum": ["256", "300", "-1", "6x", "99999", "x6"],
    "icmptype": ["ecko", "256", "300", "-1", "echoo", "echo-x", "99999", "8x"],
    "icmpcode": ["256", "999", "-1", "0x"],
    "act": ["permitt", "allow", "den", "drop", "permit,deny", "x"],
    "aclid": ["acl@x", "a/b", "x!", "a$b", "(x)"],
    "id": ["a@b", "x/y", "na!me", "a$b", "n,m"],
    "time": ["24:00", "12:60", "12", "1:2:3", "x", "99:99", "12-30", "25:00"],
    "dom": ["32", "0", "x", "99"],
    "dow": ["Mon", "Funday", "monda", "Mondayy", "weekdayss", "everyday"],
    "month": ["Jany", "13", "x", "Febuary", "Juneau"],
    "year": ["20", "x", "20200", "202"],
    "loglvl": ["9", "debuging", "x", "88", "warningss"],
    "int": ["x", "-1", "1x"],
    "seq": ["x", "-1", "1.5"],
    "ipblank": ["1.2.3.4.5"],
}
FREE_LAST = ("free", "url")


def line_types(line):
    return [t for t, _ in line[1]]


def classify(kind, j, n, t, w, prev):
    """kinds of bad replacement for a token"""
    if t in ("host4", "ip4", "net4", "lo4", "hi4"):
        return ["ip4"]
    if t in ("host6", "ip6"):
        return ["ip6"]
    if t == "net6":
        return ["net6"]
    if t == "ip":
        return ["ip6" if ":" in w else "ip4"]
    if t in ("mask", "wild", "port", "op", "proto", "protonum", "icmptype", "icmpcode", "act", "time", "month", "year", "loglvl", "int", "seq"):
        return [t]
    if t in ("plo", "phi"):
        return ["port"]
    if t == "day":
        return ["dom"] if w.isdigit() else ["dow"]
    if t == "aclid":
        return ["aclid"]
    if t == "id" and kind not in ("time",):
        return ["id"]
    return []


SKIP = ("hostname", "domainname", "version", "interface", "access-group", "ethertype", "route")
DROP = {"host", "any", "any4", "any6", "object", "object-group", "interface"}
UNINDENT = ("network-object", "port-object", "group-object", "icmp-object", "protocol-object", "service-object")


def corruptions(cfg, dialect, rng):
    """all single corruptions of a configuration as (label, entry, line, new lines of text for that line)"""
    out = []
    E = cfg.entries
    for i, (kind, lines) in enumerate(E):
        if kind in SKIP:
            continue
        for j, line in enumerate(lines):
            indent, toks = line
            words = [w for _, w in toks]
            types = [t for t, _ in toks]
            if indent and types and words[0] == "description":
                # the key word of a description line
                out.append(("misspelled keyword description", i, j, [" " + " ".join(["descripton"] + words[1:])]))
                continue

            def put(label, new, raw=None):
                out.append((label, i, j, raw if raw is not None else [" " * indent + " ".join(new)]))

            free = any(t in FREE_LAST for t in types)
            nat = "nat" in words[:1]
            for n, (t, w) in enumerate(toks):
                for cls in classify(kind, j, n, t, w, words[:n]):
                    if cls == "net6":
                        a, _, l = w.partition("/")
                        put("bad " + cls, words[:n] + [rng.choice([f"{a}/129", f"{a}/x", f"{a}/-1", f"{a}//64", f"{a}x/64", f"1:2:3/{l}", f"{a}/128/1"])] + words[n + 1:])
                        continue
                    bad = rng.choice(BAD[cls])
                    if cls == "mask" and bad in ("24",) and dialect == "ios":
                        continue
                    if t == "int" and kind == "nat" and bad == "1x":
                        pass
                    put("bad " + cls, words[:n] + [bad] + words[n + 1:])
                if t == "day" and w.isdigit() and types[n + 1:n + 3] == ["month", "year"]:
                    # a day that month does not have
                    mo, y = MONTHS.index(words[n + 1]) + 1, int(words[n + 2])
                    last = calendar.monthrange(y, mo)[1]
                    if last < 31:
                        put("no such day", words[:n] + [str(rng.choice([last + 1, 31]))] + words[n + 1:])
                    leap = rng.choice([1999, 2001, 2023, 2026, 2030])
                    put("no such day", words[:n] + ["29", "February", str(leap)] + words[n + 3:])
                if t == "namelen":
                    a, _, l = w.partition("/")
                    put("bad prefix length", words[:n] + [rng.choice([a + "/129" if ":" else a, a + "/x", a + "//1"])] + words[n + 1:])
                if t.startswith("ref:") and t != "ref:if":
                    put("undefined reference", words[:n] + ["no-such-name"] + words[n + 1:])
                if t == "ifpair":
                    a, b = w.strip("()").split(",")
                    put("bad interface pair", words[:n] + [rng.choice([f"({a};{b})", f"{a},{b}", f"({a},{b}", f"(nosuchif,{b})", f"({a},nosuchif)", f"({a},{b},{b})"])] + words[n + 1:])
                if t == "plo" and n + 1 < len(types) and types[n + 1] == "phi":
                    put("port range order", words[:n] + [words[n + 1], w] + words[n + 2:])
                if t == "lo4" and words[n] != words[n + 1]:
                    put("address range order", words[:n] + [words[n + 1], w] + words[n + 2:])
                if t == "ip4" and words[0] == "range" and n == 1 and words[1] != words[2]:
                    put("address range order", [words[0], words[2], words[1]])
                if t == "ip6" and words[0] == "range" and n == 1 and ipaddress.ip_address(words[1]) != ipaddress.ip_address(words[2]):
                    put("address range order", [words[0], words[2], words[1]])
                if t == "kw":
                    if n == 0:
                        put("misspelled keyword", ["q" + w] + words[1:])
                    elif w != "ipv6" or True:
                        bad = rng.choice([w + "x", "q" + w, w[:-1] + "Q" if len(w) > 2 else w + "q", w[::-1] if w[::-1] != w else w + "z"])
                        put("misspelled keyword", words[:n] + [bad] + words[n + 1:])
                        if dialect == "asa" and not nat and kind in ("extended", "standard", "webtype", "netgrp", "svcgrp") and w in DROP and n >= 2 or \
                                (w in ("start", "end", "to", "source", "destination", "static", "dynamic") and kind in ("time", "nat", "svcobj", "svcgrp")):
                            put("missing keyword " + w, words[:n] + words[n + 1:])
                # something required is missing
                nxt = words[n + 1] if n + 1 < len(words) else None
                if dialect == "asa" and (t in ("mask", "host4", "host6", "net4", "net6", "name", "namelen", "op", "port", "plo", "phi", "act", "ip4", "ip6")
                                         or t.startswith("ref:")) and nxt not in ("interface", "ipv6") and not (nat and "interface" in words[n + 1:n + 3]) and kind != "interface" \
                        and not (t in ("port", "op") and kind == "x"):
                    if words[:1] == ["no"]:
                        continue
                    put("missing " + t.split(":")[0], words[:n] + words[n + 1:])
                # a line broken in two before something no statement starts with
                if n and t in ("mask", "wild", "host4", "net4", "port", "plo", "phi", "op") and not w[0].isalpha():
                    put("broken line", None, [" " * indent + " ".join(words[:n]), " ".join(words[n:])])
            # junk
            if not free and types[-1:] != ["free"]:
                last = words[-1]
                junk = rng.choice(["junk", "foo-bar", ",", "}", "'", "255.255.255.999", "1.2.3.4.5", "@", "permit,"])
                wordish = junk[0].isalpha()
                if not (wordish and last in ("log", "log-input")):
                    put("trailing junk", words + [junk])
                # a time range may be named with any characters
                if types[-1] not in ("tname", "ref:time") and words[0] != "time-range":
                    put("trailing junk", None, [" " * indent + " ".join(words) + rng.choice(["@", ";", "!", "/", "="])])
                # joined with the line that follows
                k = j + 1
                follow = lines[k] if k < len(lines) else (E[i + 1][1][0] if i + 1 < len(E) else None)
                # "object network NAME nat (...)" may stand on one line
                if kind.startswith("netobj") and j == 0 and follow is not None and follow[1][0][1] in ("nat", "description"):
                    continue
                # an ICMP type followed by a protocol number reads as type and code
                if follow is not None and kind == "svcgrp" and (follow[1][0][1].isdigit() or j == 0 and len(follow[1]) == 1):
                    continue
                if follow is not None and not (follow[1][0][1][0].isalpha() and last in ("log", "log-input")):
                    out.append(("joined lines", i, j, ("join", indent)))
            if indent and words[0] in UNINDENT and dialect == "asa":
                put("missing indent", None, [" ".join(words)])
            if indent and kind in ("named-standard", "named-extended", "v6list") and words[0] in ("permit", "deny", "sequence"):
                put("missing indent", None, [" ".join(words)])
    return out


def apply(cfg, corruption):
    label, i, j, new = corruption
    lines = []
    join = False
    for i2, (_, ls) in enumerate(cfg.entries):
        for j2, l in enumerate(ls):
            t = render_line(l)
            if join:
                lines[-1] += " " + t.lstrip(" ")
                join = False
                continue
            if (i2, j2) == (i, j):
                if isinstance(new, tuple):
                    lines.append(t)
                    join = True
                else:
                    lines += new
            else:
                lines.append(t)
    return "\n".join(lines) + "\n"


# --- pfSense documents
BAD_PFS = {
    "address": ["256.1.1.1", "1.2.3", "no-such-alias", "10.0.0.0/33", "10.0.0.0/x", "::1/129", "10.0.0.0/24/3", "10.0.0.0/-1", "/24", "10.0.0.0/", "::g", "", "1.2.3.4,1.2.3.5",
                "10.0.0.0/255.0.255.0", "12345::1", "1.2.3.4-1.2.3.9"],
    "member": ["10.0.0.0/33", "10.0.0.0/x", "::1/129", "10.0.0.0/24/3", "10.0.0.0/-1", "/24", "10.0.0.0/", "300.0.0.0/8", "::g/64", "2001:db8::1::/64"],
    "port": ["65536", "70000", "99999999999", "80-", "-80", "900-80", "1-65536", "70000-70001", "1-2-3", "", "80-80"],
    "pmember": ["65536", "70000", "99999999999", "80:", ":80", "900:80", "1:65536", "70000:70001", "1:2:3"],
    "network": ["opt999", "lanip", "(self)", "nosuch", "", "wan lan"],
    "ipaddr": ["300.1.1.1", "1.2.3", "1.2.3.4.5", "a.b.c.d"],
    "subnet": ["33", "x", "-1", "129"],
    "ipaddrv6": ["::g", "1::2::3", ":::", "12345::"],
    "subnetv6": ["129", "x", "-1"],
}
UNKNOWN = {"rule": ["not", "gateway", "sched", "dscp", "bogus", "sources", "ports", "vlanprio", "Type", "log2"], "side": ["not", "bogus", "ports", "networks", "addr", "Any"], "filter": ["rules", "bypassstaticroutes", "foo"]}


def pfs_corruptions(g):
    """single corruptions of a generated pfSense document: [(label, apply, undo)]"""
    from mon.gen.pfs import El
    rng, out = g.rng, []

    def text(label, el, new):
        out.append((f"bad {label}", lambda: (el.text, setattr(el, "text", new))[0], lambda old: setattr(el, "text", old)))

    def add(label, el, kid):
        n = rng.randint(0, len(el.kids))
        out.append((label, lambda: el.kids.insert(n, kid), lambda old: el.kids.pop(n)))

    def drop(label, el, kid):
        n = el.kids.index(kid)
        out.append((label, lambda: el.kids.pop(n), lambda old: el.kids.insert(n, kid)))

    def tag(label, el, new):
        out.append((label, lambda: (el.tag, setattr(el, "tag", new))[0], lambda old: setattr(el, "tag", old)))

    def unknown(el, where):
        t = rng.choice(UNKNOWN[where])
        add(f"unknown element in {where}", el, El(t, rng.choice(["", "1"])))

    tag("other root", g.root, rng.choice(["config", "pfSense", "opnsense-config", "filter", "pf", "firewall", "xml1", "m0n0wall"]))
    for sec in g.root.kids:
        if sec.tag == "filter":
            unknown(sec, "filter")
            for r in sec.kids:
                if r.tag == "rule":
                    unknown(r, "rule")
                    floating = any(k.tag == "floating" and k.text == "yes" for k in r.kids)
                    for k in r.kids:
                        if k.tag in ("source", "destination"):
                            unknown(k, "side")
                            for e in k.kids:
                                if e.tag in ("address", "port", "network"):
                                    text(f"{e.tag} in a rule", e, rng.choice(BAD_PFS[e.tag]))
                                if e.tag in ("address", "any", "network"):
                                    drop("address missing in a rule", k, e)
                                    tag("misspelled element in a rule", e, e.tag + "x")
                        elif k.tag in ("created", "updated"):
                            for e in k.kids:
                                if e.tag == "time":
                                    text("time of a rule", e, rng.choice(["x", "12:00", "1.5.2"]))
                        elif k.tag in ("type", "interface") or k.tag == "direction" and floating:
                            drop(f"{k.tag} missing in a rule", r, k)
                            tag("misspelled element in a rule", k, rng.choice([k.tag + "s", k.tag.capitalize(), "x" + k.tag]))
                        elif k.tag in ("protocol", "icmptype", "statetype", "log", "disabled"):
                            tag("misspelled element in a rule", k, rng.choice([k.tag + "s", k.tag.capitalize(), "x" + k.tag]))
                elif r.tag == "separator":
                    for i in r.kids:
                        for s in i.kids:
                            for k in s.kids:
                                if k.tag == "row":
                                    text("row of a separator", k, rng.choice(["frx", "fr", "f1x", "frfr1"]))
        elif sec.tag == "aliases":
            for a in sec.kids:
                typ = next(k.text for k in a.kids if k.tag == "type")
                for k in a.kids:
                    if k.tag == "type":
                        text("alias type", k, rng.choice(["hosts", "Network", "url", "urltable_ports", "xport", "geoip", ""]))
                    if k.tag == "address" and typ in ("network", "port"):
                        ws = (k.text or "").split()
                        n = rng.randint(0, len(ws))
                        new = " ".join(ws[:n] + [rng.choice(BAD_PFS["member" if typ == "network" else "pmember"])] + ws[n + rng.randint(0, 1):])
                        text(f"member of a {typ} alias", k, new)
        elif sec.tag == "interfaces":
            for i in sec.kids:
                for k in i.kids:
                    if k.tag in ("ipaddr", "ipaddrv6") and k.text[:1].isalpha() and k.text in ("dhcp", "dhcp6", "slaac", "track6"):
                        continue
                    if k.tag in ("ipaddr", "subnet", "ipaddrv6", "subnetv6"):
                        new = rng.choice(BAD_PFS[k.tag])
                        text(f"{k.tag} of an interface", k, new)
    return out
