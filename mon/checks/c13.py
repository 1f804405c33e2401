"""C13: filter expressions follow set algebra with fixed precedence."""
from mon.checks.common import *
from mon.checks import policy
from mon.checks.c12 import check_expr
from mon.gen import caf

ID = "C13"
RULE = "distinct operator/parenthesis skeletons of the expressions run"
ASSUMPTIONS = ["length and nesting are bounded by the interpreter's recursion limit: up to 160 operands and 50 levels are run"]


def cases(tier, rng):
    n = 640 if tier == "quick" else 16000
    return [["expr", i] for i in range(n)] + [["deep", i] for i in range(n // 5)]


def skeleton(e):
    def o(x):
        return "(" + skeleton(x[1]) + ")" if x[0] == "paren" else "t"
    return o(e[0]) + "".join(op[0] + o(x) for op, x in e[1:])


def run_case(spec, rng, mon):
    p = policy.load(mon, rng)
    if p is None:
        return
    d, text, cls, conf = p
    snap = snapshot(mon, conf)
    prof = caf.Profile(snap, rng)
    if spec[0] == "deep":
        terms = [prof.term(rng) for _ in range(12)]
        k = rng.choice(["long", "long", "long", "left", "right", "wrapped"])
        n = rng.choice([7, 9, 12, 20, 60, 160]) if k == "long" else rng.choice([10, 25, 50])
        e = [rng.choice(terms)]
        if k == "long":
            # one operator throughout, runs of operators, or any
            ops = rng.choice([[rng.choice(caf.OPS)], [rng.choice(caf.OPS)], rng.sample(caf.OPS, 2), caf.OPS])
            run = rng.choice([1, 1, 3, 20])
            op = None
            # the first operand selects much, the others little: every operand tells
            if rng.random() < 0.6:
                terms = [x for x in terms + [prof.term(rng) for _ in range(30)] if x[1] or len(x[2]) > 1] or terms
                e = [("term", None, [("src", ["any"])])]
                if rng.random() < 0.5:
                    terms = [("term", i, []) for i in prof.ids if set(i) <= caf.IDCHARS] + [("term", None, [(rng.choice(["src", "dst"]), [prof.word(rng)])]) for _ in range(12)]
            for i in range(n - 1):
                if i % run == 0 or op is None:
                    op = rng.choice(ops)
                e.append((op, rng.choice(terms)))
        for _ in range(n):
            if k == "left":
                e = [("paren", e), (rng.choice(caf.OPS), rng.choice(terms))]
            elif k == "right":
                e = [rng.choice(terms), (rng.choice(caf.OPS), ("paren", e))]
            elif k == "wrapped":
                e = [("paren", e)]
        es = [e]
    else:
        es = [caf.expression(rng, prof, rng.choice([3, 6, 12, 25])) for _ in range(8)]
        # the bare sequences of operators, all orders of length 4
        t = [prof.term(rng) for _ in range(5)]
        es.append([t[0]] + [(rng.choice(caf.OPS), x) for x in t[1:]])
    for e in es:
        want, unj = check_expr(mon, conf, snap, e, "expression", d, text)
        sk = skeleton(e)
        mon.nontrivial(sk if len(sk) < 120 else sk[:100] + str(len(sk)))
        mon.obs("expressions run")
        mon.obs("selected something and not all" if 0 < len(want) < len(snap["rules"]) else "selected all or nothing")
    mon.sample(caf.plain(es[0]))
