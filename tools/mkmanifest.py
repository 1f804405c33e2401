"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: generated ASA/FWSM configurations run through the real importer; oracle = the generator's own model of every access rule",
 "C02": "runtime monitor: generated IOS configurations run through the real importer; oracle = generator's model with wildcard masks as bit sets",
 "C03": "runtime monitor: generated pfSense/OPNsense documents run through the real importer; oracle = generator's model",
 "C04": "runtime monitor: generated definitions run through the real importers; oracle = generator's model of every definition",
 "C05": "runtime monitor: confusable and clashing names, plus injected undefined references; oracle = generator's model and must-reject",
 "C06": "runtime monitor: generated interfaces, bindings and routes run through the real importers; oracle = generator's model",
 "C07": "runtime monitor: generated object and twice NAT run through the real importer; oracle = generator's model per section",
 "C08": "runtime monitor under fault injection: typed corruptions of valid configurations; oracle = the importer raises",
 "C09": "metamorphic runtime monitor: neutral text, encodings and entry points; oracle = equal canonical snapshots",
 "C10": "differential runtime monitor: generic entry points against the dialect's own importer",
 "C11": "runtime monitor on the match operator; oracle = independent bit-pattern set algebra, both operand orders, CPU watchdog",
 "C12": "runtime monitor on filter runs; oracle = independent reference filter over the generator's model",
 "C13": "runtime monitor on expression filters; oracle = independent precedence evaluator over observed term selections",
 "C14": "runtime monitor on whole-configuration filters; oracle = independent reference for NAT sides",
 "C15": "metamorphic runtime monitor on filter text with injected comments and malformations; oracle = same selection / must raise",
 "C16": "state-invariance monitor: canonical snapshots before and after random query histories, answers against fresh parses",
 "C17": "runtime monitor on resolve; oracle = independent reachability closure over the parsed structures",
 "C18": "runtime monitor on expand; oracle = independent flattening, idempotence and isolation snapshots",
 "C19": "runtime monitor on sort and collapse; oracle = permutation/order checks and independent minimal cover",
 "C20": "history, thread-schedule and process monitor: polluted processes, concurrent parses with tiny switch intervals, hash seeds; oracle = isolated baseline snapshots",
 "C21": "runtime monitor on pickle and deepcopy; oracle = equal snapshots, equal query results, no shared mutable objects",
 "C22": "differential runtime monitor: shipped parsers against parsers regenerated from the shipped grammars, on generated sentences and mutations per rule",
 "C23": "runtime monitor on rendered pages: parsed HTML against the selected policy and link targets",
 "C24": "runtime monitor, complete enumeration of the service table against an independent reading",
 "C25": "runtime monitor on filters made of rule objects and on the example programs' output; oracle = independent reference selection",
 "C26": "audit-event and process-state monitor (sys.addaudithook, loopback server) under hostile inputs; oracle = nothing but the given path is touched",
}
NOTE = {}
D = "Held on the executions produced (generated and hostile inputs, fixed seeds), never a proof; trusts the generator's model and the CPython/TatSu runtime."
checks = []
for i in range(1, 1 + len(T)):
    c = f"C{i:02d}"
    if os.path.exists(f"{V}/mon/checks/{c.lower()}.py"):
        checks.append({"property": c, "quick_cmd": f"./check {c}", "thorough_cmd": f"./check {c} --tier thorough", "evidence_file": f"evidence/{c}.json",
                       "technique": T[c], "level": "exploration", "level_note": NOTE.get(c, D)})
na = [{"property": f"C{i:02d}", "reason": "its check is not built yet"} for i in range(1, 1 + len(T)) if f"C{i:02d}" not in {x["property"] for x in checks}]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import tatsu, jinja2'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: every monitor observes public results and object state. Known and fixed findings: known_findings.txt."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
