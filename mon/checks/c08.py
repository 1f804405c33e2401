"""C08: malformed configuration text is rejected, never silently altered."""
from mon.checks.common import *
from mon.core import Violation
from mon import entry, mutate
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.pfs import Pfs

ID = "C08"
RULE = "distinct (dialect, entry kind, corruption class, corrupted line shape) of corrupted configurations run"
ASSUMPTIONS = ["a text counts as malformed only where no reading of it is valid: single typed corruptions of generated valid configurations"]


def cases(tier, rng):
    n = 900 if tier == "quick" else 14000
    return [["asa", i] for i in range(n)] + [["ios", i] for i in range(n // 2)] + [["pfs", i] for i in range(n // 3)] + [["natservice", i] for i in range(20 if tier == "quick" else 200)]


def nat_service(rng, mon):
    """static NAT between a service object of source ports and one of destination ports"""
    g = Asa(rng)
    c = g.build(size=rng.choice([2, 4]), weights={"nat": 0, "natobj": 1}, nrules=rng.choice([0, 1]), acl_groups=False)
    p = rng.choice(["tcp", "udp"])
    port = lambda: rng.choice(["eq %d" % rng.randrange(1, 65536), "range %d %d" % (rng.randrange(1, 30000), rng.randrange(30001, 65536)), "gt 1024"])
    text = c.text() + f"interface Vlan991\n nameif zi\ninterface Vlan992\n nameif zo\nobject network ZA\n host 192.0.2.1\nobject network ZB\n host 192.0.2.2\n"
    text += f"object service ZS\n service {p} source {port()}\nobject service ZD\n service {p} destination {port()}\nobject service ZE\n service {p}\n"
    names = ["ZS", "ZD", "ZE"]
    for a in names:
        for b in names:
            line = f"nat (zi,zo) source static ZA ZB service {a} {b}"
            o = mon.call(fwsmConfig.fromString, text + line + "\n")
            mon.counts["comparisons"] += 1
            if a == b:
                if a != "ZE" and not o.ok:
                    mon.obs("skipped: the valid configuration itself was rejected (other properties)")
                    return
                continue
            mon.obs("corrupted: service objects of different sides")
            mon.nontrivial("natservice", a, b, p, text.count("\n") // 10)
            if o.ok:
                raise Violation("accepted-service-objects-of-different-sides", f"{line!r} was accepted, {a} and {b} state different sides", text=text + line)


def pfs(rng, mon):
    g = Pfs(rng)
    g.build(size=rng.choice([1, 2, 4]))
    if not mon.call(pfsenseConfig.fromString, g.text(), options=PF()).ok:
        mon.obs("skipped: the valid configuration itself was rejected (other properties)")
        return
    todo, el = [g.root], []
    while todo:
        e = todo.pop()
        todo += e.kids or []
        if e.text and (e.tag in ("subnet", "ipaddr", "ipaddrv6") or e.tag == "address" and "/" in e.text and " " not in e.text):
            el.append(e)
    if el:
        e = rng.choice(el)
        old, k = e.text, rng.randint(0, len(e.text))
        e.text = old[:k] + MARK + old[k:]
        text = g.text()
        e.text = old
        undecodable(rng, mon, text, pfsenseConfig, f"pfs {e.tag}", options=PF())
    cs = mutate.pfs_corruptions(g)
    rng.shuffle(cs)
    seen = set()
    for label, do, undo in cs:
        if label in seen:
            continue
        seen.add(label)
        old = do()
        text = g.text()
        undo(old)
        o = mon.call(pfsenseConfig.fromString, text, options=PF())
        mon.counts["comparisons"] += 1
        mon.obs("corrupted: pfsense: " + label)
        mon.nontrivial("pfs", label, len(g.exp["rules"]), len(g.exp["netgrp"]))
        if o.ok:
            raise Violation("accepted-pfsense-" + label.replace(" ", "-"), f"pfSense document with one corruption ({label}) was accepted", text=text)


MARK = "\ue0ff"
BYTES = [b"\xff", b"\xfe", b"\x80", b"\xc3", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5", b"\xe2\x82", b"\xff\xff"]


def undecodable(rng, mon, text, cls, what, **opt):
    """text with a mark within an address, a number or a keyword: the file holds bytes there that are no text"""
    if MARK not in text:
        return      # written as a character reference
    data = text.encode("utf-8").replace(MARK.encode("utf-8"), rng.choice(BYTES))
    # the way that reads text alone cannot hold such bytes
    how = rng.choice([w for w in entry.WAYS if not w.startswith("string")])
    o = entry.read(mon.call, how, cls, data, rng.random() < 0.3, rng.choice(entry.NAMES), **opt)
    mon.counts["comparisons"] += 1
    mon.obs("corrupted: bytes that are no text")
    mon.nontrivial("bytes", what, how)
    if o.ok:
        raise Violation("accepted-bytes-that-are-no-text", f"{what}: accepted by {how}: {data[max(0, text.index(MARK) - 60):][:120]!r}", text=repr(data))


def run_case(spec, rng, mon):
    if spec[0] == "natservice":
        return nat_service(rng, mon)
    if spec[0] == "pfs":
        return pfs(rng, mon)
    if spec[0] == "asa":
        g = Asa(rng)
        c = g.build(size=rng.choice([3, 5, 8]), weights={"nat": 2, "natobj": 1, "interface": 0, "time": 1.5, "svcobj": 2.5}, nrules=rng.choice([0, 1, 2]), acl_groups=False)
        cls = fwsmConfig
    else:
        g = Ios(rng)
        c = g.build(size=rng.choice([3, 5, 7]), weights={"interface": 0.2, "route": 0})
        cls = iosConfig
    base = mon.call(cls.fromString, c.text())
    if not base.ok:
        mon.obs("skipped: the valid configuration itself was rejected (other properties)")
        return
    if rng.random() < 0.4:
        at = [(i, j, n, t) for i, (_, ls) in enumerate(c.entries) for j, (_, l) in enumerate(ls) for n, (t, w) in enumerate(l)
              if t in ("mask", "wild", "host4", "host6", "net4", "net6", "port", "plo", "phi", "ip4", "ip6") and w[0].isalnum() or t == "kw" and w in ("permit", "deny", "host", "object-group", "network-object", "extended")]
        if at:
            i, j, n, t = rng.choice(at)
            w = c.entries[i][1][j][1][n][1]
            k = rng.randint(0, len(w))
            lines = [mutate.render_line((ind, l[:n] + [(t, w[:k] + MARK + w[k:])] + l[n + 1:] if (i2, j2) == (i, j) else l)) for i2, (_, ls) in enumerate(c.entries) for j2, (ind, l) in enumerate(ls)]
            undecodable(rng, mon, "\n".join(lines) + "\n", cls, f"{spec[0]} {c.entries[i][0]} {t}")
    cs = mutate.corruptions(c, spec[0], rng)
    rng.shuffle(cs)
    seen = {}
    picked = []
    # prefer classes not yet used in this configuration
    for x in cs:
        k = (x[0], c.entries[x[1]][0])
        if seen.get(k, 0) < 1:
            seen[k] = 1
            picked.append(x)
    for x in picked[:7]:
        text = mutate.apply(c, x)
        o = mon.call(cls.fromString, text)
        mon.counts["comparisons"] += 1
        mon.obs("corrupted: " + x[0])
        kind = c.entries[x[1]][0]
        line = c.entries[x[1]][1][x[2]]
        mon.nontrivial(spec[0], kind, x[0], tuple(t if t != "kw" else w for t, w in line[1])[:8])
        if o.ok:
            raise Violation("accepted-" + x[0].replace(" ", "-") + "-" + kind,
                            f"{x[0]} in {kind}: {mutate.render_line(line)!r} -> {x[3]!r} was accepted", text=text)
        mon.sample(f"{x[0]}: {mutate.render_line(line)!r} -> {x[3]!r}: {type(o.exc).__name__}")
