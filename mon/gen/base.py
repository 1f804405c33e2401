"""Shared vocabulary and helpers of the configuration generators.

A generated configuration is a list of entries; an entry is (kind, lines), a line is (indent, tokens) and a
token is (type, text).  The expected canonical model is built in parallel, from the generator's own choices,
never from the code under test.
"""
import ipaddress

PORT_NAMES = """xdmcp www whois who uucp time tftp telnet talk tacacs syslog sunrpc ssh sqlnet snmptrap snmp smtp sip
secureid-udp rtsp rsh rpc rip radius-acct radius pptp pop3 pop2 pim-auto-rp pcanywhere-status pcanywhere-data ntp
non500-isakmp nntp nfs netbios-ssn netbios-ss netbios-ns netbios-dgm nameserver mobile-ip lpd lotusnotes login ldaps ldap
kshell klogin kerberos isakmp irc imap4 ident https http hostname h323 gopher ftp-data ftp finger exec echo domain dnsix
discard daytime ctiqbe cmd citrix-ica chargen bootps bootpc biff bgp aol""".split()
ICMP_NAMES = """unreachable ttl-exceeded traceroute timestamp-request timestamp-reply time-exceeded source-route-failed
source-quench router-solicitation router-renumbering router-advertisement redirect reassembly-timeout protocol-unreachable
precedence-unreachable port-unreachable parameter-problem packet-too-big option-missing no-room-for-option network-unknown
net-unreachable net-tos-unreachable net-tos-redirect net-redirect neighbor-solicitation neighbor-redirect
neighbor-advertisement mobile-redirect membership-report membership-reduction membership-query mask-request mask-reply
information-request information-reply host-unreachable host-unknown host-tos-unreachable host-tos-redirect host-redirect
host-precedence-unreachable host-isolated general-parameter-problem echo-request echo-reply echo dod-net-prohibited
dod-host-prohibited destination-unreachable conversion-error alternate-address administratively-prohibited
address-mask-request address-mask-reply""".split()
PROTO_NAMES = """udp tcp snp pptp pim pcp ospf nos ipsec ipinip ip ipv6 igrp igmp icmpv6 gre esp eigrp ahp ah""".split()
ICMP_PROTOS = ["icmp", "icmp6"]
PORT_EDGES = [0, 1, 7, 9, 10, 21, 80, 99, 100, 443, 1023, 1024, 8080, 9999, 10000, 49152, 65534, 65535]
OPS = ["eq", "neq", "lt", "gt"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
WORDS = ["allow", "web", "to", "DMZ", "ticket#42", "permit ip any any", "remark", "object network x", "!", "a,b;c", "(old)",
         "eq 80", "\"quoted\"", "<b>", "&", "é", "access-list", "host 1.2.3.4", "100%", "end", "line",
         "ip access-list extended x", "ip access-list", "ipv6 access-list y", "ASA Version 9.1", "<pfsense>", "hostname x", "interface Vlan1", "ip address 1.2.3.4 255.0.0.0"]

# families of confusable names: prefixes, case, punctuation, long ones that differ at the end only
LONG = "a-very-long-name-of-an-object-that-uses-all-the-space-there-is-64"
FAMILIES = [
    ["web", "web-1", "web-10", "web-1.a", "web_1", "web1", "WEB", "Web-1", "web-", "we", "w"],
    ["A", "AA", "AAA", "A-A", "A.A", "A_A", "a", "aA", "A-", "A.", "A-A-A"],
    ["net", "net4", "net-4", "net.4", "net.4.1", "Net", "NET-4", "network-4", "netw", "net-4-", "ne"],
    ["any-net", "any_x", "anyhow", "any4-dmz", "any6.x", "anyx", "Any", "ANY", "any4x", "any-", "an"],
    ["host-a", "hosts", "host_b", "host.c", "hosta", "Host", "object-x", "objects", "interface-x", "group-a", "range-x"],
    ["x.y", "x.y.z", "x-y", "x_y", "xy", "x", "X.Y", "x.yz", "x.", "x-y.z", "xx"],
    ["tcp-x", "tcp_ports", "tcpports", "www-x", "www1", "echo-x", "log-x", "inactive-x", "time-x", "udp-x", "icmp-x"],
    [LONG, LONG + "a", LONG + "b", LONG + "-1", LONG[:-1], LONG[:31], LONG[:32], LONG.upper(), LONG + LONG, LONG + "." + LONG, LONG[:-1] + "3"],
    ["inside", "inside2", "inside-2", "outside", "inside_dmz", "INSIDE", "in", "ins", "insid", "inside.", "inside22"],
]
NUMERIC_FAMILY = ["1", "10", "100", "10-a", "1a", "1-", "1.1", "10.0", "2+2", "2", "a+b", "a"]


# characters that look like the end of a line elsewhere, or like a blank
ODD = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\xa0", "\t", "\u3000", "\r", "\ufeff", "\u200b",
       "e\u0301", "\uff21", "\u212b", "\ufb01", "\u0130", "\U0001f600", "\u200d", "\x00", "\x7f"]


def free_text(rng, minw=1, maxw=5):
    ws = [rng.choice(WORDS) for _ in range(rng.randint(minw, maxw) if rng.random() < 0.985 else rng.choice([20, 60]))]
    if len(ws) > 1 and rng.random() < 0.06:
        i = rng.randrange(len(ws) - 1)
        ws[i:i + 2] = [ws[i] + rng.choice(ODD) + ws[i + 1]]
    return " ".join(ws)


def num(rng, edges, lo, hi):
    """a number with a meaning of its own, or any"""
    return rng.choice(edges) if rng.random() < 0.6 else rng.randint(lo, hi)


def many(rng, sizes, big=(15, 33, 70)):
    """a size; now and then a big one"""
    return rng.choice(sizes) if rng.random() < 0.985 else rng.choice(big)


def ip4(rng):
    k = rng.random()
    if k < 0.5:
        return f"{rng.choice([10, 192, 172, 1, 203])}.{rng.randint(0, 3)}.{rng.randint(0, 3)}.{rng.randint(1, 9)}"
    if k < 0.9:
        return ".".join(str(rng.choice([0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255])) for _ in range(4))
    return ".".join(str(rng.randint(0, 255)) for _ in range(4))


def netaddr4(rng, plen=None):
    if plen is None:
        plen = rng.choice([8, 16, 24, 24, 25, 28, 30, 31, 32, 1, 0] + [rng.randint(0, 32)])
    n = ipaddress.ip_network(f"{ip4(rng)}/{plen}", strict=False)
    return n


def ip6(rng):
    k = rng.random()
    if k < 0.5:
        a = f"2001:db8:{rng.randint(0, 3):x}::{rng.randint(0, 20):x}"
    elif k < 0.7:
        a = rng.choice(["::1", "fe80::1", "::ffff:c0a8:101", "::ffff:a00:1", "64:ff9b::a00:1", "2002:a00:1::", "::", "ff02::1:ff00:1", "2001:DB8::A", "1:2:3:4:5:6:7:8", "fd00::ffff:ffff"])
    else:
        a = str(ipaddress.IPv6Address(rng.getrandbits(128)))
    return a


def net6(rng):
    plen = rng.choice([0, 10, 32, 48, 56, 64, 64, 96, 127, 128, rng.randint(0, 128)])
    return ipaddress.ip_network(f"{ip6(rng)}/{plen}", strict=False)


def c_net(n):
    return ("net", f"{n.network_address}/{n.prefixlen}")


def c_host(a):
    a = ipaddress.ip_address(a)
    return ("net", f"{a}/{32 if a.version == 4 else 128}")


def render_line(line):
    indent, toks = line
    return " " * indent + " ".join(t for _, t in toks)


class Config:
    """entries + expected model"""

    def __init__(self):
        self.entries = []
        self.exp = {"hostname": "", "domainname": "", "version": None, "names": [], "interfaces": {}, "rules": [],
                    "access_groups": {}, "nat": {1: [], 2: [], 3: []}, "netobj": {}, "svcobj": {}, "time": {},
                    "netgrp": {}, "svcgrp": {}, "portgrp": {}, "protogrp": {}, "icmpgrp": {}}
        self.features = set()

    def add(self, kind, *lines):
        self.entries.append((kind, list(lines)))

    def text(self, eol="\n"):
        return eol.join(render_line(l) for _, ls in self.entries for l in ls) + eol

    def lines(self):
        return [render_line(l) for _, ls in self.entries for l in ls]


def kw(*words):
    return [("kw", w) for w in words]
