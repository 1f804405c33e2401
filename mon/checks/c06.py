"""C06: interfaces, bindings, routes and host identity are recorded as written."""
from mon.checks.common import *
from mon.gen.asa import Asa
from mon.gen.ios import Ios

ID = "C06"
RULE = "distinct (dialect, address forms, description, switchport, bindings, routes) of interfaces compared"


def cases(tier, rng):
    n = 1300 if tier == "quick" else 6000
    return [["asa", i] for i in range(n)] + [["ios", i] for i in range(n)]


def run_case(spec, rng, mon):
    if spec[0] == "asa":
        g = Asa(rng, family(rng))
        c = g.build(size=rng.choice([3, 6, 10]), weights={"interface": 6, "rules": 2})
        for _ in range(rng.choice([0, 2, 4])):
            g.access_group()
        for l in c.exp["access_groups"].values():
            l.sort()
        cls = fwsmConfig
    else:
        g = Ios(rng, family(rng))
        c = g.build(size=rng.choice([4, 8, 14]), weights={"interface": 8, "route": 6})
        cls = iosConfig
    text = c.text()
    conf = parse(mon, cls, text)
    got = snapshot(mon, conf)
    mon.sample(text)
    for i in c.exp["interfaces"].values():
        mon.obs("interfaces compared")
        mon.nontrivial(spec[0], [":" in a for a in i["addresses"]], bool(i["nameif"]), bool(i["description"]), sorted(i["access_groups"]),
                       i["switchport"] and (i["switchport"][0], i["switchport"][1] and len(i["switchport"][1])), len(i["routes"]))
    mon.obs("routes compared", len(c.exp.get("routes", [])))
    mon.obs("bindings compared", sum(map(len, c.exp["access_groups"].values())))
    compare(mon, c.exp, got, ["hostname", "domainname", "interfaces", "access_groups", "routes"], text=text)
    mon.equal("name", "name of the configuration", f"{c.exp['hostname']}.{c.exp['domainname']}", mon.must("name", "the name cannot be read", lambda: conf.name), text=text)
    version = c.exp["version"] if spec[0] == "asa" else getattr(g, "version_text", None)
    mon.equal("version", "software version", (version or "").strip(), (getattr(conf, "version", None) or "").strip(), text=text)
