"""Statements and comments the dialects recognise and that say nothing about the policy.

Every item is a list of complete lines.  The arguments are chosen to look like policy statements.
"""
from mon.gen import base as B

BAIT = ["access-list x extended permit ip any any", "permit ip any any", "host 10.0.0.1", "object network x", "10.0.0.0 255.0.0.0",
        "object-group network G", "remark gone", "name 10.0.0.1 srv", "interface Vlan1", "1.2.3.4", "any any eq www", "end", "line vty 0 4",
        "description x", "nat (inside,outside) source static a b", "hostname evil", "domain-name evil", "é ü", "\"", "^C", "# % $ \\",
        "time-range t", "access-group x in interface inside", "group-object g", "inactive", "-", "(", "</filter>", "ip access-list extended x"]
ASA_LINE = """aaa app-agent arp-inspection arp asdm auth-prompt boot clock console command-alias dhcpd dhcprelay dns-guard enable eou
established failover firewall flow-export fragment ftp global hpm http icmp ipv6 ip logging mac-address-table mac-address
management-access monitor-interface mtu multicast-routing no ntp pager passwd password-policy privilege prompt resource route
same-security-traffic service-module service-policy service snmp-server smtp-server ssl static sysopt telnet terminal tftp-server
threat-detection timeout tls-proxy tunnel-group-map user-identity url-cache virtual vpdn vpn-group-policy xlate nat-control""".split()
ASA_BLOCK = """aaa-server call-home class-map crypto dns dynamic-access-policy-record group-policy license ldap nac-policy policy-map router sla
snmp-map ssh tcp-map tunnel-group username vpn webvpn""".split()
ASA_FIXED = ["names", "failover", "nat-control", "xlate-bypass", "Cryptochecksum:0123456789abcdef", ": Saved", ": end", ":",
             "no names", "no access-list x extended permit ip any any", "no object network x", "no nat (inside,outside) 1",
             "ip verify reverse-path interface inside", "route outside 0.0.0.0 0.0.0.0 10.0.0.1 1", "service resetoutside",
             "icmp permit any inside", "static (inside,outside) 10.0.0.1 10.0.0.2 netmask 255.255.255.255", "global (outside) 1 interface",
             "logging host inside 10.0.0.1", "logging list L message 106023", "mtu inside 1500", "ipv6 access-list x permit ip any any"]
IOS_LINE = """aaa alias arp boot bridge clock cts diagnostic dialer-list dial-peer enable encryption errdisable file firewall hw-module isdn
license lldp logging login mac-address-table mac-address memory mls mmi multilink no platform port-channel power resource rmon rtr security
switch service snmp-server snmp spanning-tree system username vtp wism""".split()
IOS_BLOCK = """appfw archive call-home class-map crypto dot11 key policy-map redundancy route-map router transceiver vlan vpdn vrf""".split()
IOS_IP_LINE = """as-path inspect name-server http nat dhcp_excluded-address tcp scp forward-protocol ips flow-cache flow-export
multicast-routing accounting-threshold host ftp default-gateway prefix-list pim routing tftp""".split()
IOS_IP_BLOCK = """dhcp_pool ssh vrf sla slb flow-aggregation flow-top-talkers""".split()
IOS_FIXED = ["boot-start-marker", "boot-end-marker", "control-plane", "Current configuration : 1234 bytes", "ip cef", "ip subnet-zero",
             "ip classless", "ip domain lookup", "ip domain-lookup", "ip domain list example.org", "define interface-range M GigabitEthernet0/1",
             "ipv6 unicast-routing", "ipv6 nd raguard", "ipv6 route ::/0 fe80::1", "ipv6 prefix-list P seq 5 permit ::/0",
             "Using 1234 out of 5678 bytes", "no ip http server", "no access-list 10 permit any", "no ip access-list extended x",
             "ip route vrf mgmt 0.0.0.0 0.0.0.0 10.0.0.1", "ip host gw 10.0.0.1", "ip nat inside source list 10 interface Vlan1 overload",
             "ip inspect name FW tcp", "logging access-list x", ":", "!"]


def args(rng):
    ws = [rng.choice(BAIT + B.WORDS[:8]) for _ in range(rng.randint(1, 3))]
    return "".join(w + (rng.choice(B.ODD) if rng.random() < 0.04 else " ") for w in ws[:-1]) + ws[-1]


def block(rng, head):
    lines = [head]
    for _ in range(rng.randint(0, 4)):
        lines.append(" " * rng.choice([1, 1, 2, 3]) + rng.choice(BAIT + ["network-object host 1.2.3.4", "permit tcp any any", "!", "exit"]))
    return lines


def comment(rng, eol_ok=True):
    c = rng.choice(["!", ":", "!"])
    return [c + rng.choice(["", "", " ", "!!!", " " + args(rng), args(rng)])]


def asa(rng):
    k = rng.random()
    if k < 0.25:
        return comment(rng)
    if k < 0.3:
        return [""]
    if k < 0.4:
        return [rng.choice(ASA_FIXED)]
    if k < 0.75:
        return [rng.choice(ASA_LINE) + " " + args(rng)]
    return block(rng, rng.choice(ASA_BLOCK) + " " + args(rng))


DELIMS = ["^C", "^C", "#", "$", "%", "@", "~", "*", "]", "\\", "-", "^", "|", ".", "(", "c", "x", "\"", "&", "§", "€"]


def banner(rng):
    d = rng.choice(DELIMS)
    pool = BAIT + ["access-list 10 permit any", "ip access-list extended evil", " permit ip any any", "Welcome", "", "!", "^ C", "object-group network evil",
                   " host 10.0.0.1", "banner motd", "x2 c2 \\x", "c", "2"]
    txt = "\n".join(rng.choice(pool) for _ in range(rng.randint(1, 5))).replace(d, "")
    if d == "^":
        txt = txt.replace("C", "c")
    if d == "^C":
        txt = txt.replace("^C", "")
        while "^C" in txt:
            txt = txt.replace("^C", "")
    if rng.random() < 0.7:
        txt = "\n" + txt + ("\n" if rng.random() < 0.8 else "")
    return ("banner motd " + d + txt + d).split("\n")


def ios(rng):
    k = rng.random()
    if k < 0.25:
        return comment(rng)
    if k < 0.3:
        return [""]
    if k < 0.42:
        return [rng.choice(IOS_FIXED)]
    if k < 0.6:
        return [rng.choice(IOS_LINE) + " " + args(rng)]
    if k < 0.7:
        return ["ip " + rng.choice(IOS_IP_LINE).replace("_", " ") + " " + args(rng)]
    if k < 0.78:
        return block(rng, "ip " + rng.choice(IOS_IP_BLOCK).replace("_", " ") + " " + args(rng))
    if k < 0.92:
        return block(rng, rng.choice(IOS_BLOCK) + " " + args(rng))
    return banner(rng)


def ios_tail(rng):
    return [rng.choice(["line vty 0 4", "line con 0", "end"])] + [rng.choice([" access-class 10 in", "access-list 10 permit any", "garbage ((", "", " transport input ssh", "end"])
                                                                  for _ in range(rng.randint(0, 4))]
