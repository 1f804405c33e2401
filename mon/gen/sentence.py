"""Random sentences of a TatSu grammar rule, and mutations of them."""
import random
try:
    from re import _parser as sre, _constants as K
except ImportError:      # pragma: no cover
    import sre_parse as sre, sre_constants as K
from tatsu import grammars as G

IDS = ["Zq1", "Zq2", "Zq3", "Zq12"]
_rx = {}
CHARS = "abcxyzABCZ019.-_:/ *#\"é"


def regex(pattern, rng):
    t = _rx.get(pattern)
    if t is None:
        t = _rx[pattern] = list(sre.parse(pattern))
    return "".join(_re(x, rng) for x in t)


def _in(items, rng):
    neg, chars = False, []
    for op, a in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            chars.append(chr(a))
        elif op is K.RANGE:
            chars += [chr(a[0]), chr(a[1]), chr(rng.randint(*a))]
        elif op is K.CATEGORY:
            chars += list({K.CATEGORY_DIGIT: "0159", K.CATEGORY_SPACE: " \t", K.CATEGORY_WORD: "ab9_", K.CATEGORY_NOT_SPACE: CHARS.replace(" ", ""),
                           K.CATEGORY_NOT_DIGIT: "ab.", K.CATEGORY_NOT_WORD: "-."}[a])
    if neg:
        c = [x for x in CHARS if x not in chars]
        if any(o is K.CATEGORY and a is K.CATEGORY_SPACE for o, a in items):
            c = [x for x in c if not x.isspace()]
        return rng.choice(c)
    return rng.choice(chars)


def _re(node, rng):
    op, a = node
    if op is K.LITERAL:
        return chr(a)
    if op is K.NOT_LITERAL:
        return rng.choice([c for c in CHARS if c != chr(a)])
    if op is K.ANY:
        return rng.choice(CHARS)
    if op is K.IN:
        return _in(a, rng)
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = a
        hi = hi if isinstance(hi, int) and hi < 1000 else 1000
        n = min(hi, lo + (rng.choice([0, 1, 2, 4]) if rng.random() < 0.8 else rng.choice([3, 5, 6, 8, 12, 30, 80])))
        return "".join(_re(x, rng) for _ in range(max(lo, n)) for x in sub)
    if op is K.BRANCH:
        return "".join(_re(x, rng) for x in rng.choice(a[1]))
    if op is K.SUBPATTERN:
        return "".join(_re(x, rng) for x in a[-1])
    return ""


class Sampler:
    def __init__(self, model, sep=""):
        self.rules = {r.name: r for r in model.rules}
        self.sep = sep
        self.tokens = sorted({t for r in model.rules for t in tokens(r)})

    def always_fails(self, name):
        return isinstance(self.rules[name].exp, G.NegativeLookahead)

    def sentence(self, rule, rng, budget=60):
        self.budget = budget
        return self.gen(self.rules[rule], rng, 0)

    def gen(self, n, rng, depth):
        self.budget -= 1
        g = lambda x: self.gen(x, rng, depth + 1)
        small = self.budget < 0 or depth > 70
        if isinstance(n, G.Rule):
            if self.always_fails(n.name):
                return rng.choice(IDS)
            return g(n.exp)
        if isinstance(n, G.RuleRef):
            return g(self.rules[n.name]) if depth < 150 else ""
        if isinstance(n, G.Token):
            return n.token
        if isinstance(n, G.Pattern):
            return regex(n.pattern, rng)
        if isinstance(n, G.Choice):
            o = list(n.options)
            return g(rng.choice(o[:2]) if small else rng.choice(o))
        if isinstance(n, G.Sequence):
            return self.sep.join(filter(None, (g(x) for x in n.sequence))) if self.sep else "".join(g(x) for x in n.sequence)
        if isinstance(n, (G.Lookahead, G.NegativeLookahead)):
            return ""
        if isinstance(n, (G.Gather, G.Join)):
            k = 1 if small else rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else rng.choice([7, 20])
            return g(n.sep).join(g(n.exp) for _ in range(k))
        if isinstance(n, G.PositiveClosure):
            return self.sep.join(g(n.exp) for _ in range(1 if small else rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else rng.choice([7, 20])))
        if isinstance(n, G.Closure):
            return self.sep.join(g(n.exp) for _ in range(0 if small else rng.choice([0, 1, 2, 3]) if rng.random() < 0.97 else rng.choice([7, 20])))
        if isinstance(n, G.Optional):
            return g(n.exp) if not small and rng.random() < 0.5 else ""
        if isinstance(n, (G.Constant, G.Void, G.Cut, G.EOF)):
            return ""
        if isinstance(n, G.Decorator):
            return g(n.exp)
        return ""


def tokens(n):
    if isinstance(n, G.Token):
        yield n.token
    for c in n.children():
        yield from tokens(c)


def alike(c):
    if c.isspace():
        return "\t\r\n\x0b\x0c\x1c\x85\xa0\u2003\u2028\u3000\u200b\ufeff"
    if c in "0123456789":
        return "".join(chr(b + int(c)) for b in (0x660, 0x966, 0xff10, 0x1d7ce)) + "\u00b2\u2460"
    if c in "-./":
        return {"-": "\u2010\u2013\u2212_", ".": "\u3002\uff0e,", "/": "\u2044\uff0f\\"}[c]
    return chr(0xfee0 + ord(c) & 0xffff) + c.swapcase() + {"k": "\u212a", "s": "\u017f", "i": "\u0131", "I": "\u0130"}.get(c, "\u0430")


def mutate(s, rng, toks):
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(11)
        i = rng.randint(0, len(s))
        j = min(len(s), i + rng.choice([1, 1, 2, 5]))
        w = s.split(" ")
        if k == 0:
            s = s[:i] + s[j:]
        elif k == 1:
            s = s[:i] + rng.choice(toks) + s[i:]
        elif k == 2:
            s = s[:i] + rng.choice([" ", "\n", "\t", "0", "1", "x", "-", ".", "/", "\r", "  ", "any", IDS[0], "é"]) + s[i:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            s += rng.choice([" ", "\n", "x", " x", " \n", "1", "\r\n", " " + rng.choice(toks)])
        elif k == 5 and len(w) > 1:
            a = rng.randrange(len(w))
            w[a] = rng.choice(toks + IDS + ["1", "65536", "256", "10.0.0.1", "255.255.255.0", "::1"])
            s = " ".join(w)
        elif k == 6 and len(w) > 1:
            a, b = rng.randrange(len(w)), rng.randrange(len(w))
            w[a], w[b] = w[b], w[a]
            s = " ".join(w)
        elif k == 7 and len(w) > 1:
            del w[rng.randrange(len(w))]
            s = " ".join(w)
        elif k == 10:
            # characters that some notion takes for the one that stands there
            c = [a for a, x in enumerate(s) if x.isdigit() or x.isspace() or x.isalpha() or x in "-./"]
            if c:
                i = rng.choice(c)
                s = s[:i] + rng.choice(alike(s[i])) + s[i + 1:]
        elif k == 8:
            s = s[:i] + s[i:j].swapcase() + s[j:]
        else:
            s = s[:i] + s[i:j] * 2 + s[j:]
    return s
