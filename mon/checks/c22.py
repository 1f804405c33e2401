"""C22: the shipped parsers implement the shipped grammars."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from tatsu.infos import ParserConfig
from mon.checks.common import *
from mon.core import Violation
from mon.checks import policy
from mon.gen import sentence, caf
from mon.gen.asa import Asa
from mon.gen.ios import Ios

ID = "C22"
RULE = "distinct (grammar, rule, accepted or rejected) observed with both parsers"
ASSUMPTIONS = ["names of defined objects are stood in for by a fixed pattern in both parsers (their rules match nothing in the grammar files)"]
LANGS = ("caf", "fwsm", "ios")
S = {}


def prepare(tier):
    d = S["dir"] = tempfile.mkdtemp(prefix="c22-")
    src = os.path.join(os.path.dirname(sys.modules["acltk"].__file__))

    def gen(n):
        p = subprocess.run([os.path.join(os.path.dirname(sys.executable), "tatsu"), "--generate-parser", "--name", n, "--outfile", f"{d}/{n}.py", f"{src}/{n}.bnf"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return n, p.returncode == 0 and os.path.exists(f"{d}/{n}.py"), p.stdout
    import tatsu
    models = {}
    with ThreadPoolExecutor(3) as ex:
        jobs = [ex.submit(gen, n) for n in LANGS]
        for n in LANGS:
            try:
                with open(f"{src}/{n}.bnf") as f:
                    models[n] = tatsu.compile(f.read(), n, filename=f"{src}/{n}.bnf")
            except Exception as e:
                models[n] = e
        res = [j.result() for j in jobs]
    for n, ok, out in res:
        if not ok:
            S["broken"] = f"{n}.bnf does not generate a parser: {out[-400:]}"
            return
    for n in LANGS:
        spec = importlib.util.spec_from_file_location("regen_" + n, f"{d}/{n}.py")
        m = importlib.util.module_from_spec(spec)
        sys.modules["regen_" + n] = m
        sys.dont_write_bytecode = True
        spec.loader.exec_module(m)
        shipped = importlib.import_module("acltk." + n)
        smp = sentence.Sampler(models[n], sep=" " if n == "caf" else "")
        ids = [r for r in smp.rules if smp.always_fails(r)]
        S[n] = (smp, stand_in(getattr(shipped, n + "Parser"), ids), stand_in(getattr(m, n + "Parser"), ids), sorted(smp.rules))
    S["regen"] = {n: getattr(sys.modules["regen_" + n], n + "Parser") for n in LANGS}


def stand_in(cls, ids):
    from tatsu.parsing import tatsumasu

    def rule(name):
        def f(self):
            self._pattern("Zq[0-9]+")
        f.__name__ = f"_{name}_"
        return tatsumasu()(f)
    return type(cls.__name__, (cls,), {f"_{r}_": rule(r) for r in ids})


def cleanup():
    if "dir" in S:
        shutil.rmtree(S["dir"], ignore_errors=True)


def cases(tier, rng):
    n = 90 if tier == "quick" else 1600
    return [["rules", l, i] for l in LANGS for i in range(n if l != "caf" else n // 2)] + [["whole", i] for i in range(n)]


def plain(x, depth=0):
    if isinstance(x, dict):
        return {k: plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    return x


def run_parser(mon, cls, lang, rule, text):
    kw = dict(parseinfo=False, trace_length=200, rule_name=rule, nameguard=True)
    if lang != "caf":
        kw["whitespace"] = ""

    def go():
        p = cls(config=ParserConfig(**kw))
        ast = p.parse(text, start=rule)
        return plain(ast), getattr(p, "pos", None) or getattr(p, "_pos", None)
    o = mon.call(go)
    if o.ok:
        return ("accepted",) + o.value
    from tatsu.exceptions import ParseException
    return ("rejected",) if isinstance(o.exc, ParseException) else ("raised", type(o.exc).__name__)


def run_case(spec, rng, mon):
    if "broken" in S:
        raise Violation("no-parser", S["broken"])
    if spec[0] == "whole":
        return whole(rng, mon)
    lang, turn = spec[1], spec[2]
    smp, shipped, regen, rules = S[lang]
    # every case takes its share of the rules, and some at random
    k = 20
    pick = [rules[(turn * k + i) % len(rules)] for i in range(k)] + rng.sample(rules, min(6, len(rules)))
    for rule in pick:
        for _ in range(5):
            s = smp.sentence(rule, rng, rng.choice([10, 40, 120]))
            m = rng.random()
            if m < 0.5:
                s = sentence.mutate(s, rng, smp.tokens)
            elif m < 0.6 and lang != "caf":
                s += "\n"
            a = run_parser(mon, regen, lang, rule, s)
            b = run_parser(mon, shipped, lang, rule, s)
            mon.equal("differs", f"{lang} rule {rule} on {s[:200]!r}: grammar file and shipped parser", a, b, text=s, rule=rule)
            mon.nontrivial(lang, rule, a[0])
            mon.obs(f"{lang} {a[0]}")
    mon.sample(f"{lang} {rule}: {s!r}")


def whole(rng, mon):
    """complete imports, with the regenerated parser in place of the shipped one"""
    k = rng.choice(["asa", "ios", "caf"])
    if k == "caf":
        prof = caf.Profile({"rules": [{"id": x} for x in ["outside_in", "A", "acl-1", "web.x"]], "netobj": {}, "netgrp": {}, "nat": {}}, rng)
        for _ in range(6):
            t = caf.layout(caf.expression(rng, prof, rng.choice([1, 3, 6])), rng)
            if rng.random() < 0.4:
                t = sentence.mutate(t, rng, S["caf"][0].tokens)
            a = outcome(mon, "caf", cafBlock, t, repr)
            b = outcome(mon, None, cafBlock, t, repr)
            mon.equal("differs-import", f"filter {t[:200]!r}: grammar file and shipped parser", a, b, text=t)
            mon.nontrivial("whole caf", a[0])
            mon.obs("whole filters " + a[0])
        return
    if k == "asa":
        g = Asa(rng, family=family(rng))
        t = g.build(size=rng.choice([4, 8]), nrules=4).text()
        cls, n = fwsmConfig, "fwsm"
    else:
        g = Ios(rng, family=family(rng))
        t = g.build(size=rng.choice([4, 8])).text()
        cls, n = iosConfig, "ios"
    for i in range(3):
        if i:
            ls = t.split("\n")
            j = rng.randrange(len(ls))
            ls[j] = sentence.mutate(ls[j], rng, S[n][0].tokens)
            s = "\n".join(ls)
        else:
            s = t
        a = outcome(mon, n, cls, s, snap.config)
        b = outcome(mon, None, cls, s, snap.config)
        mon.equal("differs-import", f"{n} configuration: grammar file and shipped parser", a, b, text=s)
        mon.nontrivial("whole " + n, a[0], i > 0)
        mon.obs(f"whole {n} configurations {a[0]}")


def outcome(mon, lang, cls, text, view):
    """result of the importer; with lang, on top of the rules generated from the grammar file"""
    if lang is None:
        o = mon.call(lambda: view(cls.fromString(text)))
    else:
        shipped = getattr(importlib.import_module("acltk." + lang), lang + "Parser")
        old = {}
        for k, f in S["regen"][lang].__dict__.items():
            if k.startswith("_") and k.endswith("_") and not k.startswith("__"):
                old[k] = shipped.__dict__.get(k)
                setattr(shipped, k, f)
        try:
            o = mon.call(lambda: view(cls.fromString(text)))
        finally:
            for k, f in old.items():
                setattr(shipped, k, f) if f is not None else delattr(shipped, k)
    return ("accepted", o.value) if o.ok else ("raised",)
