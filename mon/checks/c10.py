"""C10: automatic dialect detection gives the dialect's own result."""
from mon.checks.common import *
from mon.core import Violation
from mon import entry, mutate
from mon.gen import noise
from mon.gen.asa import Asa
from mon.gen.ios import Ios
from mon.gen.pfs import Pfs

ID = "C10"
RULE = "distinct (dialect or kind of unacceptable text, entry point, kinds of entries contained)"
ASSUMPTIONS = ["IOS texts are judged when they hold a named, standard or IPv6 access list with at least one entry; other texts of that family are ambiguous"]
DIALECTS = [fwsmConfig, iosConfig, pfsenseConfig]


def cases(tier, rng):
    n = 500 if tier == "quick" else 8000
    return [["asa", i] for i in range(n)] + [["ios", i] for i in range(n)] + [["pfs", i] for i in range(n)] + [["bad", i] for i in range(n)]


def generic(mon, text, how, rng, opt, name):
    return entry.read(mon.call, how, ACLConfig, text, rng.random() < 0.3, name, **opt)


HOWS = ["string", "string", "string with a file name"] + entry.WAYS
NAMES = entry.NAMES


def asa_text(rng):
    g = Asa(rng, family=family(rng))
    c = g.build(size=rng.choice([1, 3, 7]))
    return c, c.text(), noise.asa


def ios_text(rng):
    for _ in range(50):
        g = Ios(rng, family=family(rng))
        c = g.build(size=rng.choice([1, 3, 7]))
        for k, ls in c.entries:
            if k in ("named-standard", "named-extended", "v6list") and any(l[1][0][1] in ("permit", "deny", "sequence") or len(l[1]) > 2 and l[0] for l in ls[1:]):
                return c, c.text(), noise.ios
            if k == "numbered-standard":
                return c, c.text(), noise.ios
    return None, None, None


def own(cls, text, options=None):
    return cls.fromString(text, options=options or PF()) if cls is pfsenseConfig else cls.fromString(text)


def run_case(spec, rng, mon):
    how, name = rng.choice(HOWS), rng.choice(NAMES)
    if spec[0] == "bad":
        return bad(rng, mon, how, name)
    opt, mine = {}, None
    if spec[0] == "pfs":
        g = Pfs(rng).build(size=rng.choice([0, 2, 6]), aliases=rng.choice([0, None]))
        # URL tables: not fetched, or fetched from data: URLs (no network); fetching is the default
        g.relocate(lambda n: f"data:text/plain,{B.ip4(rng)}%0A{B.ip4(rng)}/32")
        text, kinds, cls = g.text(), sorted(g.features), pfsenseConfig
        fetch = rng.choice([None, None, "generic", True, False, False])
        if fetch == "generic":
            opt = {"options": O.ACLParserOptions()}
        elif fetch is not None:
            opt = {"options": pfsenseParserOptions(fetch_urltable=fetch)}
        mine = pfsenseParserOptions(fetch_urltable=fetch is not False)
        kinds += [f"fetch {fetch} {bool(g.urls)}"]
    else:
        c, text, fn = (asa_text if spec[0] == "asa" else ios_text)(rng)
        if c is None:
            return
        cls = fwsmConfig if spec[0] == "asa" else iosConfig
        kinds = sorted({k for k, _ in c.entries})
        if rng.random() < 0.3:
            text = "\n".join("\n".join(fn(rng)) for _ in range(3)) + "\n" + text
        if rng.random() < 0.3:
            opt = {"options": O.ACLParserOptions()}
    o = mon.call(own, cls, text, mine)
    if not o.ok:
        mon.obs("skipped: the valid configuration itself was rejected (other properties)")
        return
    g = generic(mon, text, how, rng, opt, name)
    label = f"{spec[0]} by {how} ({name})"
    if not g.ok:
        raise Violation("reject-" + spec[0], f"{label}: rejected: {g!r}", text=text)
    mon.equal("type-" + spec[0], label + ": kind of configuration", type(o.value).__name__, type(g.value).__name__, text=text)
    mon.equal("changed-" + spec[0], label, snapshot(mon, o.value), snapshot(mon, g.value), text=text)
    mon.nontrivial(spec[0], how, tuple(kinds))
    mon.sample(label + "\n" + text)


JUNK = ["", "<config><version>1</version></config>\n", "<xml/>", "<pfSense/>", "<opnsense2><filter/></opnsense2>", "\n\n", "garbage\n", "<html></html>", "<pfsense>", "<pfsense></opnsense>", "{\"rules\": []}", "permit ip any any\n", "access-list\n", "\x00", "<config><filter/></config>",
        "access-list x extended permit\n", "ip access-list extended X\n permit\n", "<?xml version=\"1.0\"?>\n", "hostname\n", "object network\n", "<pfsense><filter><rule/></filter></pfsense>",
        "<pfsense><filter><foo/></filter></pfsense>", "set firewall name X\n", "-A INPUT -j DROP\n", "*filter\n:INPUT DROP [0:0]\n", "# comment only\n", "interfaces {\n}\n"]


def bad(rng, mon, how, name):
    k = rng.random()
    if k < 0.15:
        text, label = rng.choice(JUNK), "junk"
    elif k < 0.3:
        text, label = "".join(rng.choice("ab \n<>!:accs-listperm0.19/") for _ in range(rng.randint(1, 60))), "random"
    elif k < 0.4:
        a, b = asa_text(rng)[1], Pfs(rng).build(size=2, aliases=0).text()
        text, label = rng.choice([a + b, b + a]), "mixture"
    elif k < 0.5:
        g = Pfs(rng).build(size=3, aliases=rng.choice([0, 2]))
        t = g.text()
        if rng.random() < 0.5:
            # one corruption of the document, or any other root element
            label, do, _ = rng.choice((lambda cs: cs[:1] * 10 + cs)(mutate.pfs_corruptions(g)))
            do()
            text, label = g.text(), "pfs " + label
        else:
            text, label = rng.choice([t[:len(t) // 2], t.replace("</filter>", "", 1), t.replace("<type>", "<tipe>", 1), t.replace("<source>", "<source><bogus/>", 1)]), "broken xml"
    else:
        dialect = rng.choice(["asa", "ios"])
        g = (Asa if dialect == "asa" else Ios)(rng)
        c = g.build(size=4)
        cs = mutate.corruptions(c, dialect, rng)
        if not cs:
            return
        x = rng.choice(cs)
        text, label = mutate.apply(c, x), dialect + " " + x[0]
    accepted = []
    for cls in DIALECTS:
        if mon.call(own, cls, text).ok:
            accepted.append(cls.__name__)
    g = generic(mon, text, how, rng, {"options": PF()}, name)
    mon.counts["comparisons"] += 1
    mon.nontrivial("bad", label, how, tuple(accepted))
    mon.obs("texts no dialect accepts" if not accepted else "texts some dialect accepts (" + ",".join(accepted) + ")")
    if accepted and label.startswith("pfs "):
        raise Violation("accepted-other", f"{label}: not a document of any dialect, yet {accepted} accepts it", text=text)
    if not accepted and g.ok:
        raise Violation("accepted", f"{label} by {how}: no dialect accepts the text, the generic entry point returned {type(g.value).__name__}", text=text)
