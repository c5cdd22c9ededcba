"""Write MANIFEST.json from the registry (run from /verif: python tools/mkmanifest.py)."""

import json
import sys

sys.path.insert(0, ".")
sys.dont_write_bytecode = True
from dst import registry  # noqa: E402

PY = "/opt/venv/bin/python"
NA = {
    "C30": "pure function of the callable's signature: no schedule, clock, fault or history "
    "for a simulator to control, so this technique does not apply",
    "C31": "pure function of a class definition: no schedule, clock, fault or history for a "
    "simulator to control, so this technique does not apply",
    "C32": "text formatting, a pure function of the call stack: no schedule, clock, fault or "
    "history for a simulator to control, so this technique does not apply",
}


def main():
    ids = [json.loads(line)["id"] for line in open("properties.jsonl")]
    checks = []
    for p in ids:
        if p not in registry.CHECKS:
            continue
        checks.append(
            {
                "property": p,
                "quick_cmd": f"{PY} -m dst check {p} --tier quick",
                "thorough_cmd": f"{PY} -m dst check {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "deterministic simulation with fault injection "
                "(seeded search over schedules, histories and faults)",
                "level": "exploration",
                "level_note": "Seeded sampling, not proof: "
                + registry.info(p)["rule"]
                + ". Real psygnal code runs; assumes "
                + "; ".join(registry.info(p)["assumptions"]),
            }
        )
    na = [
        {"property": p, "reason": NA.get(p, "not claimed yet: its simulation is not built")}
        for p in ids
        if p not in registry.CHECKS
    ]
    m = {
        "version": 1,
        "setup_cmd": f"{PY} -m dst selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks are needed in /repo: the simulator replaces the standard library's "
        "seams (threading, time, queue, weakref timing) inside its own process only. "
        "Commits in /repo are repairs (see known_findings.json).",
    }
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")


main()
