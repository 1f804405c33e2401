"""C24: the service-name table answers by name and protocol."""
import collections
from mon.checks.common import *
from mon.core import Violation

ID = "C24"
RULE = "distinct (name, protocol) pairs looked up"
LEVEL = "exploration"


def cases(tier, rng):
    return [["names", i] for i in range(16)] + [["enumerate"], ["unknown", 0]] + [["unknown", i] for i in range(1, 20 if tier == "quick" else 400)] + [
        ["history", i] for i in range(60 if tier == "quick" else 1500)]


# well-known assignments the table has to agree with, whatever happens to its text
KNOWN = {("aol", "TCP"): 5190, ("bgp", "TCP"): 179, ("biff", "UDP"): 512, ("bootpc", "UDP"): 68, ("bootps", "UDP"): 67, ("chargen", "TCP"): 19, ("citrix-ica", "TCP"): 1494,
         ("cmd", "TCP"): 514, ("ctiqbe", "TCP"): 2748, ("daytime", "TCP"): 13, ("discard", "TCP"): 9, ("discard", "UDP"): 9, ("domain", "TCP"): 53, ("domain", "UDP"): 53,
         ("dnsix", "UDP"): 195, ("echo", "TCP"): 7, ("echo", "UDP"): 7, ("exec", "TCP"): 512, ("finger", "TCP"): 79, ("ftp", "TCP"): 21, ("ftp-data", "TCP"): 20, ("gopher", "TCP"): 70,
         ("https", "TCP"): 443, ("h323", "TCP"): 1720, ("hostname", "TCP"): 101, ("ident", "TCP"): 113, ("imap4", "TCP"): 143, ("irc", "TCP"): 194, ("isakmp", "UDP"): 500,
         ("kerberos", "TCP"): 750, ("kerberos", "UDP"): 750, ("klogin", "TCP"): 543, ("kshell", "TCP"): 544, ("ldap", "TCP"): 389, ("ldaps", "TCP"): 636, ("lpd", "TCP"): 515,
         ("login", "TCP"): 513, ("lotusnotes", "TCP"): 1352, ("mobile-ip", "UDP"): 434, ("nameserver", "UDP"): 42, ("netbios-ns", "UDP"): 137, ("netbios-dgm", "UDP"): 138,
         ("netbios-ssn", "TCP"): 139, ("nntp", "TCP"): 119, ("ntp", "UDP"): 123, ("pcanywhere-status", "UDP"): 5632, ("pcanywhere-data", "TCP"): 5631, ("pim-auto-rp", "TCP"): 496,
         ("pim-auto-rp", "UDP"): 496, ("pop2", "TCP"): 109, ("pop3", "TCP"): 110, ("pptp", "TCP"): 1723, ("radius", "UDP"): 1645, ("radius-acct", "UDP"): 1646, ("rip", "UDP"): 520,
         ("secureid-udp", "UDP"): 5510, ("smtp", "TCP"): 25, ("snmp", "UDP"): 161, ("snmptrap", "UDP"): 162, ("sqlnet", "TCP"): 1521, ("ssh", "TCP"): 22, ("sunrpc", "TCP"): 111,
         ("sunrpc", "UDP"): 111, ("syslog", "UDP"): 514, ("tacacs", "TCP"): 49, ("tacacs", "UDP"): 49, ("talk", "TCP"): 517, ("talk", "UDP"): 517, ("telnet", "TCP"): 23,
         ("tftp", "UDP"): 69, ("time", "UDP"): 37, ("uucp", "TCP"): 540, ("who", "UDP"): 513, ("whois", "TCP"): 43, ("www", "TCP"): 80, ("xdmcp", "UDP"): 177,
         ("echo", "ICMP"): 8, ("echo-reply", "ICMP"): 0, ("information-reply", "ICMP"): 16, ("information-request", "ICMP"): 15, ("mask-reply", "ICMP"): 18, ("mask-request", "ICMP"): 17,
         ("mobile-redirect", "ICMP"): 32, ("parameter-problem", "ICMP"): 12, ("redirect", "ICMP"): 5, ("router-advertisement", "ICMP"): 9, ("router-solicitation", "ICMP"): 10,
         ("source-quench", "ICMP"): 4, ("time-exceeded", "ICMP"): 11, ("timestamp-reply", "ICMP"): 14, ("timestamp-request", "ICMP"): 13, ("unreachable", "ICMP"): 3, ("traceroute", "ICMP"): 30}


def look(mon, name, proto=None, *a):
    r = mon.must("error", f"looking up {name!r} {proto!r} failed", O.PortUtil.getservbyname, name, *(() if proto is None else (proto,)))
    return r


def letters(rng, p):
    return rng.choice([p, p.lower(), p.capitalize(), "".join(c.swapcase() if rng.random() < 0.5 else c for c in p)])


def run_case(spec, rng, mon):
    known = list(KNOWN.items())
    if spec[0] == "names":
        for (n, p), port in known[spec[1]::16]:
            mon.equal("port", f"{n} with {p}", port, look(mon, n, p))
            for _ in range(3):
                q = letters(rng, p)
                mon.equal("port-case", f"{n} with {q}", port, look(mon, n, q))
            ports = {v for (m, _), v in known if m == n}
            got = look(mon, n)
            mon.counts["comparisons"] += 1
            if got not in ports:
                raise Violation("port-any", f"{n} without protocol: {got!r} instead of {sorted(ports)}")
            if type(got) is not int or type(look(mon, n, p)) is not int:
                raise Violation("port-type", f"{n}: the port is no number: {got!r}")
            for q in ("TCP", "UDP", "ICMP", "SCTP", "TC", "TCPX", "TCP,UDP", " "):
                if (n, q) not in KNOWN:
                    mon.equal("port-other", f"{n} with {q!r}, which is not listed", None, look(mon, n, q))
                    mon.obs("pairs not listed")
            mon.nontrivial(n, p)
            mon.obs("pairs looked up")
    elif spec[0] == "enumerate":
        got = mon.must("error", "enumerating failed", lambda: [(s.name, s.protocol, s.port) for s in O.PortUtil.services()])
        again = mon.must("error", "enumerating failed", lambda: [(s.name, s.protocol, s.port) for s in O.PortUtil.services()])
        want = collections.Counter((n, p, v) for (n, p), v in known)
        mon.equal("enumerate", "entries", sorted(want.items()), sorted(collections.Counter(got).items()))
        mon.equal("enumerate-again", "entries the second time", got, again)
        half = iter(O.PortUtil.services())
        next(half)
        look(mon, "www", "tcp")
        rest = mon.must("error", "enumerating failed", lambda: [(s.name, s.protocol, s.port) for s in half])
        mon.equal("enumerate-interleaved", "entries with a lookup in between", got[1:], rest)
        mon.obs("entries enumerated", len(got))
    elif spec[0] == "history":
        history(rng, mon, known)
    else:
        names = [n for n, _ in KNOWN]
        for _ in range(40):
            n = rng.choice(names)
            u = rng.choice([n + "x", n[:-1], n.upper(), n + " ", " " + n, "", "|", "80", n + "\n", n.replace("-", "_") + "_", "rpc", "(rpc)", "sunrpc (rpc)", "TCP", n[1:], n.title(), "*", "nosuch"])
            if u in names:
                continue
            for p in (None, "TCP", "udp"):
                mon.equal("unknown", f"unknown name {u!r} with {p}", None, look(mon, u, p))
                mon.nontrivial("unknown", u)
                mon.obs("unknown names")


def history(rng, mon, known):
    """many lookups one after the other: each answer depends on its own question alone"""
    names = sorted({n for n, _ in KNOWN})
    several = [n for n in names if sum(m == n for m, _ in KNOWN) > 1]
    some = rng.sample(names, 6) + rng.sample(several, 3) + ["echo"]
    asked = []
    for step in range(120):
        n = rng.choice(some)
        if rng.random() < 0.15:
            n = rng.choice([n.upper(), n + "x", n[:-1], ""])
        p = rng.choice([None, "TCP", "UDP", "ICMP", "TCP", "UDP", "ICMP", "SCTP", "6", "tcp "])
        if p and rng.random() < 0.5:
            p = letters(rng, p)
        if rng.random() < 0.03:
            # an enumeration that is left half way
            it = iter(O.PortUtil.services())
            for _ in range(rng.randint(1, 5)):
                next(it)
        asked.append((n, p))
        got = look(mon, n, p) if p is not None or rng.random() < 0.5 else mon.must("error", f"looking up {n!r} None failed", O.PortUtil.getservbyname, n, None)
        if p is None:
            want = {v for (m, _), v in known if m == n} or {None}
        else:
            want = {KNOWN.get((n, p.upper()))}
        mon.counts["comparisons"] += 1
        if got not in want:
            raise Violation("history", f"{n!r} with {p!r} after {len(asked) - 1} other lookups: {got!r} instead of {sorted(want, key=str)}", asked=asked)
        mon.nontrivial("history", n, p and p.upper())
        mon.obs("lookups in a sequence")
