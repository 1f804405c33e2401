"""C23: the rendered report shows exactly the selected policy with working links."""
import collections, ipaddress
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy, c18
from mon.gen import caf
from mon import refs, report
from mon.page import Page, clean

ID = "C23"
RULE = "distinct (dialect, display options, kinds of definitions shown, number of rules shown and hidden, kinds of rule cells)"
ASSUMPTIONS = ["fields the template does not display (e.g. the number of a switchport access VLAN the importer does not record) are not judged"]
GREY = "filterd_by_the_filter"
ANCHOR = {"netobj": "network_object", "netgrp": "network_group", "svcobj": "service_object", "svcgrp": "service_group", "portgrp": "port_group", "protogrp": "protocol_group",
          "icmpgrp": "icmp_group", "time": "time_range", "name": "name_alias"}
TITLE = {"netobj": "Network Objects", "netgrp": "Network Groups", "svcobj": "Service Objects", "svcgrp": "Service Groups", "portgrp": "Port Groups", "protogrp": "Protocol Groups",
         "icmpgrp": "ICMP Groups", "time": "Time Ranges", "name": "Name Aliases"}


def cases(tier, rng):
    n = 1400 if tier == "quick" else 7000
    return [["page", i] for i in range(n)]


# ---------------------------------------------------------------- reading cells back
def link(kind, name):
    return f"#{ANCHOR[kind]}_{name}"


def want_host(a):
    """(canonical form or text, links)"""
    if a is None:
        return "", []
    if a[0] in ANCHOR:
        return a[1], [link(a[0], a[1])]
    if a[0] == "iface":
        return a[1], [f"#interface_{a[1]}"]
    if a[0] == "url":
        return clean(a[1] or ""), []
    if a[0] in ("net", "wild"):
        n = a[-1] if isinstance(a[-1], tuple) else None
        return (a[:-1] if n else a), ([link("name", n[1])] if n else [])
    return a[0], []


def got_host(cell_text):
    t = cell_text
    if t.startswith("VERIFY "):
        t = t[7:]
    try:
        if "/" in t:
            x, y = t.split("/")
            if "." in y or ":" in y:
                v = ipaddress.ip_address(x).version
                return snap.cubetuple(v, int(ipaddress.ip_address(x)), ~int(ipaddress.ip_address(y)) & snap.full(v))
            n = ipaddress.ip_network(t)
            return snap.cubetuple(n.version, int(n.network_address), int(n.netmask))
        v = ipaddress.ip_address(t)
        return snap.cubetuple(v.version, int(v), snap.full(v.version))
    except ValueError:
        return cell_text


def host(want, cell):
    w, links = want_host(want)
    g = got_host(cell.text) if isinstance(w, tuple) else cell.text
    return (w, links), (g, cell.links)


def port(p, cell):
    if p is None:
        return ("", []), (cell.text, cell.links)
    if p[0] == "port":
        l = cell.text.split()
        return (p, []), (("port", l[0], snap.num(l[1])) if len(l) == 2 else cell.text, cell.links)
    if p[0] == "range":
        # names may contain dashes
        t = cell.text
        for i, c in enumerate(t):
            if c == "-" and (snap.num(t[:i]), snap.num(t[i + 1:])) == p[1:]:
                return (p, []), (p, cell.links)
        return (p, []), (t, cell.links)
    return (p[1], [link(p[0], p[1])]), (cell.text, cell.links)


def protocol(p, cell):
    if p is None:
        return ("", []), (cell.text, cell.links)
    if p[0] == "proto":
        return (p[1], []), (snap.num(cell.text), cell.links)
    if p[0] in ANCHOR:
        return (p[1], [link(p[0], p[1])]), (cell.text, cell.links)
    return None, None


def icmp(i, cell):
    if i[0] == "icmp":
        l = [snap.num(x) for x in cell.text.split("/")]
        return ([x for x in i[1:] if x is not None], []), (l, cell.links)
    return (i[1], [link(i[0], i[1])]), (cell.text, cell.links)


# ---------------------------------------------------------------- what has to be there
class Judge:
    def __init__(self, mon, sn, page, data):
        self.mon, self.sn, self.page, self.data = mon, sn, page, data

    def same(self, mech, what, pair):
        if pair[0] is not None:
            self.mon.equal(mech, what, pair[0], pair[1], **self.data)

    def rules(self, selected, show):
        rows = [r for r in self.page.sections.get("Access Control List", [])]
        pos = 0

        def take(what):
            nonlocal pos
            if pos >= len(rows):
                raise Violation("rule-missing", f"the page ends before {what}", **self.data)
            pos += 1
            return rows[pos - 1]
        last, i, j = object(), 0, 0
        seen = collections.Counter()
        for k, r in enumerate(self.sn["rules"]):
            label = f"rule {k + 1}"
            if r["id"] != last:
                last, i, j = r["id"], i + 1, 0
                if selected is None or show or any(self.sn["rules"][x]["id"] == last for x in selected):
                    h = take(f"the heading of {last}")
                    self.mon.equal("heading", f"heading of {last}", ("different_acl_id", True), (h.cells[0].cls, f"access_group_{last}" in h.cells[0].anchors), **self.data)
                    w = sorted(f"{a}/{d}" for a, d, _ in self.sn["access_groups"].get(last, []))
                    self.mon.equal("binding", f"interfaces {last} is bound to", clean(" ".join([str(last)] + w)), clean(" ".join([h.cells[0].text.split(" ")[0]] + sorted(h.cells[0].text.split(" ")[1:]))
                                   if len(w) > 1 and not any(" " in x for x in w) else h.cells[0].text), **self.data)
                    self.mon.equal("binding-link", f"links to interfaces {last} is bound to", sorted(f"#interface_{a}" for a, _, _ in self.sn["access_groups"].get(last, [])), sorted(h.cells[0].links), **self.data)
                    if take("column titles").cells[0].text != "#":
                        raise Violation("heading", f"no column titles after the heading of {last}", **self.data)
            j += 1
            on = selected is None or k in selected
            if not on and not show:
                continue
            if r["head"]:
                take("blank line before a caption")
                for text, bg in r["head"]:
                    h = take("a caption")
                    self.mon.equal("caption", f"caption over {label}", (clean(text or ""), bg), (clean(h.cells[1].text), h.cells[1].cls), **self.data)
            row = take(label)
            c = row.cells
            if len(c) != 8:
                raise Violation("rule-row", f"{label}: {row} instead of the rule", **self.data)
            self.mon.equal("index", f"number of {label}", f"{i}.{j}", c[0].text, **self.data)
            self.mon.equal("mode", f"action of {label}", (r["mode"], "mode_" + r["mode"]), (c[1].text, c[1].cls), **self.data)
            self.same("protocol", f"protocol of {label}", protocol(r["protocol"], c[2]))
            self.same("source", f"source of {label}", host(r["src"], c[3]))
            self.same("source-port", f"source port of {label}", port(r["sport"], c[4]))
            self.same("destination", f"destination of {label}", host(r["dst"], c[5]))
            if r["icmp"] is not None:
                (w, wl), (g, gl) = icmp(r["icmp"], c[6])
                if isinstance(w, list) and len(w) == 2 and g == w[:1]:
                    self.mon.violation("icmp-code", f"the code of the ICMP type of {label} is not shown", **self.data)
                elif r["protocol"] != ("proto", "icmp") and c[6].text == "":
                    self.mon.violation("icmp-not-icmp", f"the ICMP type of {label}, of protocol {r['protocol'][1]}, is not shown", **self.data)
                else:
                    self.mon.equal("icmp", f"ICMP of {label}", (w, wl), (g, gl), **self.data)
            else:
                self.same("destination-port", f"destination port of {label}", port(r["dport"], c[6]))
            self.options(label, r, c[7])
            cls = row.cls
            off = "inactive" in r["options"]
            w = "hidden" if not on else "inactive" if off else "shown"
            g = "hidden" if cls == GREY else "inactive" if cls == "mode_inactive" else "shown"
            self.mon.equal("rule-class", f"{label} is marked as", w, g, **self.data)
            for t in r["remark"]:
                x = take(f"a remark of {label}")
                self.mon.equal("remark", f"remark of {label}", clean(t or ""), snap.AGE.sub("(# days)", x.cells[-1].text), **self.data)
            seen[w] += 1
            self.mon.nontrivial("cells", r["protocol"][0], r["src"][0], r["sport"] and r["sport"][0], r["dst"][0], r["dport"] and r["dport"][0], r["icmp"] and r["icmp"][0], tuple(sorted(r["options"])), w)
        if pos != len(rows):
            raise Violation("rule-extra", f"{rows[pos]} is shown after the last rule", **self.data)
        for w, n in seen.items():
            self.mon.obs(f"rules {w}", n)
        return seen

    def options(self, label, r, cell):
        t = cell.text
        links = []
        for k, v in r["options"].items():
            if isinstance(v, tuple) and v[0] == "time":
                links.append(link("time", v[1]))
                ok = v[1] in t
            elif isinstance(v, tuple) and v[0] == "log":
                ok = all(x in t for x in ["log", *(str(y) for y in v[1:] if y is not None)])
            elif isinstance(v, tuple) and v[0] == "ifaces":
                ok = clean(",".join(v[1])) in t
            elif k == "inactive":
                ok = "inactive" in t
            else:
                ok = clean(str(k)) in t and clean(str(v)) in t
            self.mon.counts["comparisons"] += 1
            if not ok:
                raise Violation("option", f"{label}: the option {k} {v!r} is not shown in {t!r}", **self.data)
        self.mon.equal("option-link", f"time ranges of {label}", links, cell.links, **self.data)
        if not r["options"]:
            self.mon.equal("option", f"options of {label}", "", t, **self.data)

    def definitions(self, kinds, selected, show):
        """selected: set of (kind, name) or None"""
        for kind in kinds:
            rows = self.page.sections.get(TITLE[kind], [])
            at = collections.OrderedDict()
            cur = None
            for r in rows:
                a = [x for c in r.cells for x in c.anchors]
                if a:
                    cur = a[0]
                    if cur in at and kind != "name":
                        raise Violation("definition-twice", f"{cur} is listed twice", **self.data)
                    at.setdefault(cur, [])
                if cur is not None:
                    at[cur].append(r)
            own = dict.fromkeys(n for n, _, _ in self.sn["names"]) if kind == "name" else self.sn[kind]
            mine = {n for n in own if selected is None or (kind, n) in selected}
            want = {link(kind, n)[1:] for n in (own if show or selected is None else mine)}
            self.mon.equal("definitions-" + kind, f"{TITLE[kind]} listed", sorted(want), sorted(at), **self.data)
            for n in own:
                rows = at.get(link(kind, n)[1:])
                if rows is None:
                    continue
                self.mon.obs(f"{kind} shown")
                grey = {r.cls == GREY for r in rows}
                if kind != "name":
                    self.mon.equal("definition-class", f"{kind} {n} is marked as not selected", {n not in mine}, grey, **self.data)
                self.definition(kind, n, rows)

    def definition(self, kind, n, rows):
        what = f"{kind} {n}"
        if kind == "name":
            adr = {(a, clean(d or "")) for h, a, d in self.sn["names"] if h == n}
            got = {(r.cells[1].text, r.cells[2].text) for r in rows}
            if not got <= adr:
                raise Violation("name", f"{what}: shown as {got} instead of {adr}", **self.data)
            return
        d = self.sn[kind][n]
        if kind == "time":
            shown = [r for r in rows[2:] if r.cells[-1].text]
            self.mon.equal("members-time", f"number of entries of {what}", len(d[2]), len(shown), **self.data)
            for o, r in zip(d[2], shown):
                self.time(what, o, r.cells[-1].text)
            return
        text = clean(" ".join(c.text for r in rows for c in r.cells))
        self.mon.counts["comparisons"] += 1
        if d[2] and clean(d[2]) not in text:
            raise Violation("description", f"{what}: the description {d[2]!r} is not shown", **self.data)
        if kind == "netobj":
            c = rows[0].cells[1]
            if len(d[3]) == 1:
                self.same("members-netobj", f"address of {what}", host(d[3][0], c))
            else:
                w, l = zip(*map(want_host, d[3])) if d[3] else ((), ())
                self.mon.equal("members-netobj", f"addresses of {what}", (list(w), sum(l, [])), ([got_host(x) if isinstance(y, tuple) else x for x, y in zip(c.text.split(), list(w) + [""] * 99)], c.links), **self.data)
        elif kind == "svcobj":
            self.service(what, d[3:], rows[0].cells[2:])
        elif kind == "svcgrp":
            r = rows[1:]
            while r and not (len(r[0].cells) == 5 and r[0].cells[1].text == "Name" and r[0].cells[2].text == "Protocol"):
                r = r[1:]
            r = r[1:]
            self.mon.equal("members-svcgrp", f"number of members of {what}", len(d[3]), len(r), **self.data)
            for m, row in zip(d[3], r):
                if m[0] == "svc":
                    self.service(f"a member of {what}", m[1:], row.cells[2:])
                elif m[0] in ANCHOR:
                    self.mon.equal("members-svcgrp", f"member of {what}", (m[1], [link(m[0], m[1])]), (row.cells[1].text, row.cells[1].links), **self.data)
                else:
                    self.same("members-svcgrp", f"member of {what}", protocol(m, row.cells[-1]))
        else:
            read = {"netgrp": host, "portgrp": port, "protogrp": protocol, "icmpgrp": icmp}[kind]
            r = rows[1:]
            if kind in ("netgrp", "portgrp") and d[2]:
                r = r[1:]
            cells = [c for x in r for c in x.cells[1:]]
            # the last line may be filled up
            self.mon.equal("members-" + kind, f"number of members of {what}", len(d[-1]), len(cells), **self.data)
            for m, c in zip(d[-1], cells):
                self.same("members-" + kind, f"member of {what}", read(m, c))
            if kind == "portgrp":
                self.mon.counts["comparisons"] += 1
                if f"({d[3][1]})" not in rows[0].cells[0].text:
                    raise Violation("portgrp-protocol", f"{what}: the protocol {d[3][1]} is not shown in {rows[0].cells[0].text!r}", **self.data)

    def service(self, what, s, cells):
        p, src, dst, it, ic = s
        self.same("service-protocol", f"protocol of {what}", protocol(p, cells[0]))
        if it is not None:
            self.mon.equal("service-icmp", f"ICMP type and code of {what}", [x for x in (it, ic) if x is not None], [snap.num(x) for x in cells[1].text.split("/")], **self.data)
        elif src is not None or dst is not None:
            self.same("service-source", f"source port of {what}", port(src, cells[1]))
            self.same("service-destination", f"destination port of {what}", port(dst, cells[2]))
        else:
            self.mon.equal("service-nothing", f"ports or ICMP type of {what}", "", clean(cells[1].text + (cells[2].text if len(cells) > 3 else "")), **self.data)

    def time(self, what, o, text):
        import datetime
        if o[0] == "absolute":
            parts = [datetime.datetime.fromisoformat(x).strftime("%H:%M %d %B %Y") for x in o[1:] if x]
        else:
            parts = [str(x) for x in (*o[1], *((o[3],) if isinstance(o[3], str) else o[3] or ()))] + [str(x)[:5] for x in (o[2], o[4]) if x]
        for x in parts:
            self.mon.counts["comparisons"] += 1
            if x.lower() not in text.lower():
                raise Violation("time", f"{what}: {x!r} is not shown in {text!r}", **self.data)

    def interfaces(self, selected, show):
        rows = self.page.sections.get("Interface Configuration", [])
        at, cur = collections.OrderedDict(), None
        for r in rows:
            a = [x for c in r.cells for x in c.anchors]
            if a:
                cur = a[0]
                at.setdefault(cur, [])
            if cur is not None:
                at[cur].append(r)
        ifs = self.sn["interfaces"]
        mine = {a for a in ifs if selected is None or ("interface", a) in selected}
        self.mon.equal("definitions-interface", "interfaces listed", sorted(f"interface_{a}" for a in (ifs if show or selected is None else mine)), sorted(at), **self.data)
        for a, i in ifs.items():
            rows = at.get(f"interface_{a}")
            if rows is None:
                continue
            text = " | ".join(c.text for r in rows for c in r.cells)
            w = [clean(i["description"] or "")] + i["addresses"] + ([i["nameif"]] if i["nameif"] else [])
            w += [f"{d} {g}" for d, (g, *_) in i["access_groups"].items()]
            if i["switchport"]:
                w.append(str(i["switchport"][0] or ""))
                w.append("".join(str(x) if x == y else f"{x}-{y}" for x, y in i["switchport"][1] or []) and ",".join(str(x) if x == y else f"{x}-{y}" for x, y in i["switchport"][1]))
            w += [f"{n} via {g}" for n, g, *_ in (r for r in i["routes"] if len(r) >= 2)] if False else []
            for x in w:
                self.mon.counts["comparisons"] += 1
                if x and x.replace(" ", "") not in text.replace(" ", ""):
                    raise Violation("interface", f"interface {a}: {x!r} is not shown in {text!r}", **self.data)
            self.mon.obs("interfaces shown")

    def nats(self, selected, show):
        rows = self.page.sections.get("NAT")
        want = {k: [(i, n) for i, n in enumerate(l) if selected is None or show or (k, i) in selected] for k, l in self.sn["nat"].items()}
        if rows is None:
            if any(want.values()):
                raise Violation("nat-section", "the page has no NAT section", **self.data)
            return
        rows = [r for r in rows if r.cells]
        pos = 0
        while pos < len(rows) and rows[pos].cells[0].text == "":
            pos += 1

        def take(what):
            nonlocal pos
            if pos >= len(rows):
                raise Violation("nat-missing", f"the page ends before {what}", **self.data)
            pos += 1
            return rows[pos - 1]
        for k, title in ((1, "1"), (2, "2 auto"), (3, "3 after-auto")):
            self.mon.equal("nat-heading", f"heading of section {k}", title, take(f"NAT section {k}").cells[0].text, **self.data)
            take("titles"), take("titles")
            for i, n in want[k]:
                what = f"NAT entry {i + 1} of section {k}"
                r = take(what)
                c = r.cells
                if len(c) != 7:
                    raise Violation("nat-row", f"{what}: {r} instead of the entry", **self.data)
                self.mon.equal("nat-interface", f"interfaces of {what}", (n["real"][0], n["mapped"][0]), (c[0].text, c[3].text), **self.data)
                self.same("nat-real", f"real source of {what}", host(n["real"][1], c[1]))
                self.same("nat-real", f"real destination of {what}", host(n["real"][2], c[2]))
                self.same("nat-mapped", f"mapped destination of {what}", host(n["mapped"][2], c[5]))
                src = c[4].text.split(" :: ") if " :: " in c[4].text else [c[4].text.rstrip(": "), ""]
                w, l = want_host(n["mapped"][1])
                rest = src[1]
                fb = n["fallback"] or (None, False)
                tail = []
                if rest.endswith("ipv6") and fb[1]:
                    rest = rest[:-4].strip()
                    tail.append(True)
                if fb[0] is not None:
                    x = f"({fb[0][1]})"
                    if rest.endswith(x):
                        rest = rest[:-len(x)].strip()
                        tail.append(fb[0])
                self.mon.equal("nat-mapped", f"mapped source of {what}", (n["type"], w, ([True] if fb[1] else []) + ([fb[0]] if fb[0] is not None else [])),
                               (src[0], got_host(rest) if isinstance(w, tuple) else rest, tail), **self.data)
                for o, v in n["options"].items():
                    if o not in ("auto", "after-auto", "after-object"):
                        self.mon.counts["comparisons"] += 1
                        if o not in c[6].text.split() and f"{o}{v}" not in c[6].text:
                            raise Violation("nat-option", f"{what}: the option {o} is not shown in {c[6].text!r}", **self.data)
                off = "inactive" in n["options"]
                on = selected is None or (k, i) in selected
                self.mon.equal("nat-class", f"{what} is marked as", "hidden" if not on else "inactive" if off else "shown",
                               "hidden" if r.cls == GREY else "inactive" if r.cls == "mode_inactive" else "shown", **self.data)
                if n["real"][3] is not None:
                    s = take(f"the service of {what}").cells
                    self.natservice(what, n["real"][3], s[0:3])
                    if n["mapped"][3] is not None:
                        self.natservice(what + " (mapped)", n["mapped"][3], [None, *s[4:6]])
                if n["description"]:
                    self.mon.equal("nat-description", f"description of {what}", clean(n["description"]), take(f"the description of {what}").cells[-1].text, **self.data)
                self.mon.obs("NAT entries shown")
        if pos != len(rows):
            raise Violation("nat-extra", f"{rows[pos]} is shown after the last NAT entry", **self.data)

    def natservice(self, what, s, cells):
        s = self.sn["svcobj"][s[1]][3:] if s[0] == "svcobj" else s[1:]
        if cells[0] is not None:
            self.same("nat-service", f"protocol of {what}", protocol(s[0], cells[0]))
        for side, p, c in (("source", s[1], cells[1]), ("destination", s[2], cells[2])):
            # object NAT states a bare port
            w, g = port(p, c)
            if p and p[:2] == ("port", "eq") and snap.num(g[0]) == p[2]:
                g = (p, g[1])
            self.same("nat-service", f"{side} port of {what}", (w, g))

    def links(self, full):
        ids = set(self.page.anchors)
        names = {x for a, i in self.sn["interfaces"].items() for x in (a, i["nameif"])}
        for title, href in self.page.links:
            if href.startswith("#"):
                if href.startswith("#access_group_") or href.startswith("#interface_") and (not full or href[11:] not in names):
                    continue
                self.mon.counts["links followed"] += 1
                if href[1:] not in ids:
                    raise Violation("dead-link", f"the link {href} in {title!r} leads nowhere", **self.data)


def build(mon, rng):
    k = rng.random()
    if k < 0.35:
        p = c18.build(mon, rng)
        return p and ({"fwsmConfig": "asa", "iosConfig": "ios"}.get(p[1].__name__, "pfs"), *p)
    if k < 0.65:
        from mon.checks.c17 import WEIGHTS
        from mon.gen.asa import Asa
        g = Asa(rng, family=family(rng))
        for _ in range(rng.choice([0, 2])):
            g.interface()
        for side in rng.choice([[], ["source", "source", "destination", "destination"]]):
            g.service_object(nat=side)
        t = g.build(size=rng.choice([6, 14, 22]), weights=WEIGHTS, nrules=rng.choice([3, 10])).text()
        o = mon.call(fwsmConfig.fromString, t)
        return ("asa", t, fwsmConfig, o.value) if o.ok else None
    return policy.load(mon, rng, dialects=("ios", "ios", "pfs"), size=rng.choice([5, 12]), nrules=rng.choice([4, 12]))


def run_case(spec, rng, mon):
    p = build(mon, rng)
    if p is None:
        mon.obs("skipped: configuration rejected (other properties)")
        return
    d, text, cls, conf = p
    shape = rng.choice(["as parsed", "as parsed", "as parsed", "expanded", "sorted"])
    if shape == "expanded":
        mon.call(conf.expand)
    elif shape == "sorted":
        for i in ("network", "service", "port", "protocol"):
            for g in getattr(conf.groups, i).values():
                mon.call(g.sort)
    sn = snapshot(mon, conf)
    prof = caf.Profile(sn, rng)
    kinds = list(ANCHOR)
    rules, nats = conf.rules.rules, {id(n): (k, i) for k in (1, 2, 3) for i, n in enumerate(conf.nat[k])}
    for how in ("all", *rng.sample(["filter", "filter", "subset", "none"], 2)):
        f = ""
        if how == "all":
            sel = want = chosen = None
            show = False
            nat = None
        else:
            if how == "filter":
                f = caf.plain([prof.term(rng)] if rng.random() < 0.5 else caf.expression(rng, prof, 3))
                b = mon.must("filter-rejected", f"{f!r} was rejected", cafBlock.fromString, f)
                s = mon.must("filter-error", f"{f!r} failed", conf.filter, b)
            else:
                pr = 0 if how == "none" else rng.choice([0.2, 0.6])
                s = {r for r in rules if rng.random() < pr} | {n for k in (1, 2, 3) for n in conf.nat[k] if rng.random() < pr}
            chosen = {i for i, r in enumerate(rules) if r in s}
            nat = {nats[id(n)] for n in s if id(n) in nats}
            start, bound = set(), set()
            for i in chosen:
                start |= refs.of_rule(sn["rules"][i])
                bound |= {("interface", a) for a, _, _ in sn["access_groups"].get(sn["rules"][i]["id"], [])}
            for k, i in nat:
                start |= refs.of_nat(sn["nat"][k][i])
            want = {x[:2] for x in refs.closure(start, sn)} | bound
            show = rng.random() < 0.4
            sel = mon.must("resolve-error", "resolving a selection failed", conf.resolve, set(s))
        name = rng.choice(["static.jinja2"] * 4 + ["show.jinja2"])
        data = dict(text=text, filter=f, how=how, show=show, template=name)
        html = mon.must("render-error", f"rendering ({how}, {shape}, show_not_selected={show}) failed", report.render, conf, sel, f, show, name, True)
        page = Page(html)
        data["page"] = html[html.find("<body"):][:20000]
        j = Judge(mon, sn, page, data)
        # markers that are names of access lists are not judged
        if page.odd:
            raise Violation("unknown-markup", f"text of the configuration is shown as markup: {sorted(page.odd)}", **data)
        if page.broken:
            mon.violation("nat-heading-row", f"headings of NAT sections are no table rows: {sorted(page.broken)}", **data)
        plain = Page(mon.must("render-error", f"rendering ({how}, {shape}, show_not_selected={show}) failed", report.render, conf, sel, f, show, name))
        if plain.odd:
            mon.violation("markup", f"text of the configuration is shown as markup: {sorted(plain.odd)}", **data)
        mon.equal("filter-text", "the filter shown", clean(f), clean(page.pre or ""), **data)
        seen = j.rules(chosen, show)
        j.definitions(kinds, want, show)
        j.interfaces(want, show)
        j.nats(nat, show)
        j.links(how == "all")
        if page.stray.strip():
            raise Violation("stray", f"text outside of the tables: {clean(page.stray)[:300]!r}", **data)
        mon.nontrivial(d, how, show, shape, tuple(k for k in kinds if page.sections.get(TITLE[k])), len(rules), len(chosen or ()))
        mon.obs("pages read of " + name)
    mon.sample(clean(html[html.find("<h2>Access"):])[:1500])
