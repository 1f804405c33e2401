"""What rules, NAT entries and definitions refer to, over canonical snapshots; and the objects behind the names."""
KINDS = {"netobj": "NetworkObject", "svcobj": "ServiceObject", "time": "TimeRange", "netgrp": "NetworkGroup", "svcgrp": "ServiceGroup",
         "portgrp": "PortGroup", "protogrp": "ProtocolGroup", "icmpgrp": "ICMPGroup"}


def tables(conf):
    return {"netobj": conf.objects.network, "svcobj": conf.objects.service, "time": conf.objects.time, "netgrp": conf.groups.network,
            "svcgrp": conf.groups.service, "portgrp": conf.groups.port, "protogrp": conf.groups.protocol, "icmpgrp": conf.groups.icmp}


def direct(x):
    """references in a canonical structure: (kind, name) or ("name", hostname, address)"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], str) and x[0] in KINDS and isinstance(x[1], str):
                out.add(tuple(x))
            elif len(x) == 3 and isinstance(x[0], str) and x[0][:-1] in KINDS and x[0][-1] == "!":
                out.add((x[0][:-1], x[1]))
            elif len(x) == 3 and x[0] == "name" and isinstance(x[1], str) and isinstance(x[2], str):
                out.add(tuple(x))
            else:
                for v in x:
                    walk(v)
    walk(x)
    return out


def closure(start, snap):
    done, todo = set(), list(start)
    while todo:
        r = todo.pop()
        if r in done:
            continue
        done.add(r)
        if r[0] in KINDS and r[1] in snap[r[0]]:
            todo += direct(snap[r[0]][r[1]][2:])
    return done


RULE_PARTS = ("protocol", "src", "sport", "dst", "dport", "icmp", "options")


def of_rule(r):
    return direct([r[k] for k in RULE_PARTS])


def of_nat(n):
    return direct([n["real"], n["mapped"]])
