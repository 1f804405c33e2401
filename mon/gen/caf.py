"""Filter expressions: generator, renderer and an independent reference evaluation over canonical snapshots.

expr = [operand, (op, operand), ...] ; operand = ("term", id, clauses) | ("paren", expr)
clauses = [(direction, [word, ...])]
"""
import fnmatch, ipaddress

from mon import addr
from mon.addr import Unjudged

OPS = ["union", "intersect", "except"]
KW = ["any", "any4", "any6", "ANY", "ANY4", "ANY6"]
IDCHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.?*[]!/")


# ------------------------------------------------------------------ what a configuration offers to ask for
class Profile:
    def __init__(self, snap, rng):
        self.ids = sorted({r["id"] for r in snap["rules"]}) or ["x"]
        self.nets = []

        def add(a):
            if isinstance(a, tuple):
                if len(a) > 1 and a[0] == "net" and isinstance(a[1], str) and "/" in a[1]:
                    self.nets.append(ipaddress.ip_network(a[1]))
                elif len(a) == 4 and a[0] == "wild" and isinstance(a[2], int):
                    v = a[2] | (rng.getrandbits(32 if a[1] == 4 else 128) & ~a[3] & ((1 << (32 if a[1] == 4 else 128)) - 1))
                    self.nets.append(ipaddress.ip_network((v, 32 if a[1] == 4 else 128)) if a[1] == 4 or v >> 32 else ipaddress.ip_network(f"{ipaddress.IPv6Address(v)}/128"))
                else:
                    for x in a:
                        add(x)
            elif isinstance(a, dict):
                for x in a.values():
                    add(x)
            elif isinstance(a, list):
                for x in a:
                    add(x)
        for k in ("rules", "netobj", "netgrp", "nat"):
            add(snap[k])
        self.nets = self.nets[:400] or [ipaddress.ip_network("10.0.0.0/8")]

    def word(self, rng):
        """one address of a filter"""
        k = rng.random()
        if k < 0.18:
            return rng.choice(KW)
        n = rng.choice(self.nets)
        bits = 32 if n.version == 4 else 128
        cls = ipaddress.IPv4Address if n.version == 4 else ipaddress.IPv6Address
        lo, hi = int(n.network_address), int(n.broadcast_address)
        if k < 0.55:
            x = rng.choice([lo, hi, lo - 1, hi + 1, rng.randint(lo, hi), rng.randint(lo, hi)])
            x = min(max(x, 0), (1 << bits) - 1)
            return str(cls(x)) + (f"/{bits}" if rng.random() < 0.1 else "")
        if k < 0.9:
            pl = rng.choice([n.prefixlen, max(0, n.prefixlen - 1), min(bits, n.prefixlen + 1), max(0, n.prefixlen - 8), rng.randint(0, bits), 0])
            x = rng.randint(lo, hi)
            if rng.random() < 0.2:
                x ^= 1 << rng.randrange(bits)
            return f"{cls(x) if rng.random() < 0.3 else ipaddress.ip_network((x, pl), strict=False).network_address}/{pl}"
        if k < 0.95:
            return rng.choice(["0.0.0.0", "255.255.255.255", "::", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "0.0.0.0/0", "::/0", "0.0.0.0/1", "128.0.0.0/1"])
        return rng.choice(["10.0.0.0/8", "192.168.0.0/16", "2001:db8::/32", "8.8.8.8"])

    def id(self, rng):
        i = rng.choice(self.ids)
        k = rng.random()
        if k < 0.35:
            p = i
        elif k < 0.5:
            p = rng.choice([i[:-1] or i, i + "x", i.swapcase(), i + "-1", i[1:] or i, "nosuch", i + "*", i.replace("-", "_"), i.upper()])
        else:
            n = rng.randint(0, len(i))
            p = rng.choice([i[:n] + "*", "*" + i[n:], "*", "*" + i[n // 2:n] + "*", "".join(c if rng.random() < 0.7 else "?" for c in i), i, i.swapcase(), i[:-1] or i,
                            (f"[{i[0]}x]" + i[1:]), (f"[!{i[0]}]*"), (f"[!{'q' if i[0] != 'q' else 'z'}]*"), "[a-m]*", "[A-Z]*", "?" * len(i), "*?", i + "?", "[", "[]a]*", i.upper() + "*"])
            p = "/" + p + "/"
        if set(p) <= IDCHARS and p and p.lower() not in ("union", "intersect", "except", "ip", "id"):
            return p
        p = "/" + "".join(c if c in IDCHARS and c not in "[]*!" else "?" for c in i) + "/"
        return p

    def term(self, rng, many=True):
        ident = self.id(rng) if rng.random() < 0.5 else None
        clauses = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]) if ident else rng.choice([1, 1, 1, 2, 2, 3])):
            clauses.append((rng.choice(["src", "dst"]), [self.word(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]))
        if many and rng.random() < 0.08:
            # long lists of one side, in one clause or many; also the same number as IPv4 and IPv6 address
            d = rng.choice(["src", "dst"])
            ws = [self.word(rng) for _ in range(rng.choice([5, 9, 17, 33, 70]))]
            kind = rng.choice(["mixed", "hosts", "networks", "4", "6"])
            if kind != "mixed":
                def some(w):
                    if w in KW:
                        w = str(rng.choice(self.nets))
                    n = ipaddress.ip_network(w, strict=False)
                    if kind == "networks":
                        return str(n) if n.num_addresses > 1 else str(n.supernet(rng.randint(1, 8)))
                    n = n.network_address
                    if kind == "4":
                        n = ipaddress.IPv4Address(int(n) % (1 << 32))
                    elif kind == "6":
                        n = ipaddress.IPv6Address(int(n))
                    return str(n)
                ws = [some(w) for w in ws]
                if kind == "hosts":
                    ws += [str(ipaddress.IPv6Address(int(a))) if a.version == 4 else str(ipaddress.IPv4Address(int(a) % (1 << 32))) for a in map(ipaddress.ip_address, rng.sample(ws, min(3, len(ws))))]
                    rng.shuffle(ws)
            clauses += [(d, ws)] if rng.random() < 0.5 else [(d, [w]) for w in ws]
            if rng.random() < 0.5:
                clauses = clauses[-(len(ws)):] if len(clauses) > len(ws) else clauses
            if rng.random() < 0.3:
                rng.shuffle(clauses)
        return ("term", ident, clauses)


def expression(rng, prof, budget, depth=0):
    n = rng.choice([1, 2, 2, 3, 4]) if depth else rng.choice([2, 2, 3, 4, 6])
    if budget <= 1 or depth > 12:
        n = rng.choice([1, 2])
    e = []
    for i in range(n):
        if budget > 2 and rng.random() < (0.6 if depth == 0 else 0.35):
            x = ("paren", expression(rng, prof, budget // n, depth + 1))
        elif rng.random() < 0.1:
            x = ("paren", [("paren", [prof.term(rng)])])
        else:
            x = prof.term(rng)
        e.append(x if i == 0 else (rng.choice(OPS), x))
    return e


# ------------------------------------------------------------------ text
def tokens(expr):
    """flat list of (token, may a comment stand before it)"""
    out = []

    def operand(o):
        if o[0] == "paren":
            out.append(("(", True))
            ex(o[1])
            out.append((")", True))
            return
        first = True
        if o[1] is not None:
            out.append(("id", True))
            out.append((o[1], False))
            first = False
        for d, ws in o[2]:
            out.append(("ip", True))
            out.append((d, False))
            for w in ws:
                out.append((w, False))

    def ex(e):
        operand(e[0])
        for op, o in e[1:]:
            out.append((op, True))
            operand(o)
    ex(expr)
    return out


def plain(expr):
    return " ".join(t for t, _ in tokens(expr))


COMMENTS = ["/**/", "/* x */", "/***/", "/* ip src 1.2.3.4 */", "/* ( union */", "/* a\n b */", "/* ** */", "/*/ */", "/* // é */", "/* \" */", "/****/", "/* id x */", "/* * / */",
            "/*)*/", "/* except\n*/", "/* /* */", "/*\t*/", "/*any*/", "/* **/", "/* é\r\n */"]


def layout(expr, rng, comments=0.3):
    out = []
    toks = tokens(expr)

    def ws():
        return rng.choice([" ", " ", "  ", "\n", "\t", "\r\n", " \n\t ", "\n\n"])
    prev = None
    was_id = False
    for t, c in toks:
        s = ws()
        if prev is None:
            s = rng.choice(["", ws()])
        elif (t in "()" or prev in "()") and rng.random() < 0.4:
            s = ""
        if c and rng.random() < comments:
            k = rng.choice([1, 1, 2])
            cs = rng.choice(["", " ", "\n"]).join(rng.choice(COMMENTS) for _ in range(k))
            # an id may hold the characters of a comment mark
            s = (s or (" " if was_id else "")) + cs + rng.choice(["", ws()])
        out.append(s + t)
        was_id = prev == "id" and not was_id
        prev = t
    tail = rng.choice(["", ws()])
    if rng.random() < comments:
        tail = rng.choice([" ", "\n", " " if was_id else ""]) + rng.choice(COMMENTS) + rng.choice(["", ws()])
    return "".join(out) + tail


# ------------------------------------------------------------------ reference semantics
def literal(a, kind, defs):
    if a[0] == kind:
        return True
    if a[0] == "netgrp":
        return any(literal(m, kind, defs) for m in defs["netgrp"][a[1]][3])
    if a[0] == "url":
        raise Unjudged(a)
    if a[0] == "netobj" and defs["netobj"][a[1]][3] and defs["netobj"][a[1]][3][0][0] in ("any", "any4", "any6"):
        raise Unjudged(a)
    return False


def check_fqdn(a, defs):
    if a[0] == "netobj" and any(m[0] in ("any", "any4", "any6") for m in defs["netobj"][a[1]][3]):
        raise Unjudged("fqdn")
    if a[0] == "netgrp":
        for m in defs["netgrp"][a[1]][3]:
            check_fqdn(m, defs)


_cache = {}


def canon_word(w):
    r = _cache.get(w)
    if r is None:
        if w in KW:
            r = (w.lower(),)
        else:
            r = ("net", str(ipaddress.ip_network(w, strict=False)))
        _cache[w] = r
    return r


def share(words, a, defs, memo):
    """does the address a of a rule share an address with the union of the words"""
    if not words:
        return True
    check_fqdn(a, defs)
    for w in words:
        if w in ("ANY", "ANY4", "ANY6"):
            if literal(a, w.lower(), defs):
                return True
            continue
        if a[0] == "url":
            raise Unjudged("url")
        if a not in memo:
            memo[a] = addr.of_canon(a, defs)
        A, B = addr.of_canon(canon_word(w)), memo[a]
        if addr.empty(B) and A[1]:
            raise Unjudged("empty group against any")
        if addr.intersects(A, B):
            return True
    return False


def id_matches(pattern, name):
    if pattern is None:
        return True
    if len(pattern) > 2 and pattern[0] == pattern[-1] == "/":
        return fnmatch.fnmatchcase(name, pattern[1:-1])
    return pattern == name


def sides(term):
    r = {"src": [], "dst": []}
    for d, ws in term[2]:
        r[d] += ws
    return r["src"], r["dst"]


def term_rule(term, rule, defs, memo):
    s, d = sides(term)
    # undecided corners count only where they matter
    vals = []
    for f in (lambda: id_matches(term[1], rule["id"]), lambda: share(s, rule["src"], defs, memo), lambda: share(d, rule["dst"], defs, memo)):
        try:
            v = f()
        except Unjudged:
            v = None
        if v is False:
            return False
        vals.append(v)
    if None in vals:
        raise Unjudged("rule")
    return True


def term_nat(term, nat, defs, memo):
    s, d = sides(term)
    und = False
    for side in ("real", "mapped"):
        _, src, dst, _ = nat[side]
        if src is None and dst is None:
            continue
        vals = []
        for ws, a in ((s, src), (d, dst)):
            if a is None:
                continue
            try:
                vals.append(share(ws, a, defs, memo))
            except Unjudged:
                vals.append(None)
        if False in vals:
            continue
        if None in vals:
            und = True
            continue
        return True
    if und:
        raise Unjudged("nat")
    return False


def selected(expr, f):
    """evaluate an expression for one rule or NAT entry; f(term) -> bool"""
    def operand(o):
        return ev(o[1]) if o[0] == "paren" else f(o)

    def ev(e):
        # sums of products
        acc, op = None, None
        i = 0
        vals = [("start", operand(e[0]))] + [(o, operand(x)) for o, x in e[1:]]
        groups = []
        for o, v in vals:
            if o == "intersect":
                groups[-1][1] = groups[-1][1] and v
            else:
                groups.append([o, v])
        for o, v in groups:
            if o == "start":
                acc = v
            elif o == "union":
                acc = acc or v
            else:
                acc = acc and not v
        return acc
    return ev(expr)


def reference(expr, snap):
    """(indices selected, indices not judged) of the rules"""
    defs, memo = snap, {}
    sel, unj = set(), set()
    for i, r in enumerate(snap["rules"]):
        try:
            if selected(expr, lambda t: term_rule(t, r, defs, memo)):
                sel.add(i)
        except Unjudged:
            unj.add(i)
    return sel, unj


def reference_nat(expr, snap):
    defs, memo = snap, {}
    sel, unj = set(), set()
    for k in (1, 2, 3):
        for i, n in enumerate(snap["nat"][k]):
            try:
                if selected(expr, lambda t: term_nat(t, n, defs, memo)):
                    sel.add((k, i))
            except Unjudged:
                unj.add((k, i))
    return sel, unj
