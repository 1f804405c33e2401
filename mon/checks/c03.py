"""C03: pfSense/OPNsense filter rules and aliases are recorded as stored."""
from mon.checks.common import *
from mon.gen.pfs import Pfs, dates, observed
import base64

ID = "C03"
RULE = "distinct (rule shape: mode, protocol, kinds of source/destination/ports, options) and alias/interface/separator features of generated XML configurations"
ASSUMPTIONS = ["elements the importer does not know (negation, gateways, schedules, ...) are rejected loudly and are not generated; host names in aliases are recorded as any (documented in the code)"]


def cases(tier, rng):
    n = 20000 if tier == "quick" else 500000
    return [["cfg", i] for i in range(n)] + [["url", i] for i in range(n // 20)]


def run_case(spec, rng, mon):
    g = Pfs(rng)
    if spec[0] == "url":
        return url_case(g, rng, mon)
    g.build(size=rng.choice([0, 1, 3, 8, 15]))
    text = g.text()
    conf = parse(mon, pfsenseConfig, text, f"reject-{'opnsense' if g.opn else 'pfsense'}")
    sn = snapshot(mon, conf)
    mon.equal("dates", "dates of creation and change", g.stored, dates(sn["rules"], g.stored), text=text)
    got = observed(sn)
    for k, v in dict(g.exp, **{"nothing else": {}}).items():
        mon.equal(k, k, v, got[k], text=text)
    for r in g.exp["rules"]:
        mon.obs("rules compared")
        mon.nontrivial(r["mode"], r["protocol"], r["src"][0], r["dst"][0], (r["sport"] or ("",))[0], (r["dport"] or ("",))[0],
                       sorted(r["options"]), len(r["head"]), bool(r["remark"][0]))
    for f in g.features:
        mon.nontrivial(f)
    mon.sample(text)


def url_case(g, rng, mon):
    """URL tables are fetched (from data: URLs, no network)"""
    lines, want = [], []
    for _ in range(rng.randint(0, 12)):
        k = rng.random()
        if k < 0.3:
            a = B.ip4(rng) if rng.random() < 0.7 else B.ip6(rng)
            lines.append(a + rng.choice(["", " ", "\r"]))
            want.append(B.c_host(a))
        elif k < 0.6:
            n = B.netaddr4(rng) if rng.random() < 0.7 else B.net6(rng)
            lines.append(rng.choice(["", " "]) + f"{n.network_address}/{n.prefixlen}")
            want.append(B.c_net(n))
        elif k < 0.7:
            a = B.ip4(rng)
            lines.append(f"{a}/24")
            import ipaddress
            want.append(B.c_net(ipaddress.ip_network(f"{a}/24", strict=False)))
        else:
            lines.append(rng.choice(["", "# comment", "; old", "#10.0.0.0/8", "not an address", "1.2.3/4", "http://x/y", "1.2.3.4.5"]))
    url = "data:text/plain;base64," + base64.b64encode("\n".join(lines).encode()).decode()
    text = f"<pfsense><aliases><alias><name>T</name><type>urltable</type><url>{url}</url><descr>d</descr><address>x</address></alias></aliases></pfsense>"
    from acltk.pfsenseObjects import pfsenseParserOptions
    conf = mon.must("reject-urltable", "a configuration with an URL table was rejected", pfsenseConfig.fromString, text, options=pfsenseParserOptions(fetch_urltable=True))
    got = snapshot(mon, conf)["netgrp"]
    mon.equal("urltable", "URL table", {"T": ("netgrp", "T", "d", tuple(want))}, got, text="\n".join(lines))
    mon.nontrivial("urltable", len(want))
