"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C19": "pure closed-form functions of one number: no concurrency, time, I/O, randomness, history or multi-party behaviour for a simulation to vary; a seeded scheduler would only be input fuzzing under another name",
    "C20": "pure closed-form functions: nothing a scheduler, clock, network, disk or crash could influence (their effect on a stream is observed by C06 and C18)",
    "C21": "pure functions of a point and a parameter vector: no schedule, fault or history enters (their use in served predictions is observed by C15)",
    "C22": "pure arithmetic on three numbers (its use in model selection over a history is decided by C05 and C07)",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
        m = importlib.import_module("sim.props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
            "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, histories and faults against "
                         + getattr(m, "ORACLE", "a reference model"),
            "level": m.LEVEL,
            "level_note": f"Seeded exploration ({m.RUNS['quick']} simulated runs quick, {m.RUNS['thorough']} thorough), not exhaustive: "
                          "holds on every run explored; every failure is minimised and replayed in a fresh process before it is reported. Assumes: "
                          + "; ".join(m.ASSUMPTIONS) + ".",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo are needed: the package's own seams (constructor-injected distribution, method and arrays), Python's trace "
                "function (line and opcode granularity), allocation and thread seams are used from /verif. /repo carries only 'fix:' commits, "
                "listed in known_findings.json. check.py --replay FILE replays a reported violation."}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
