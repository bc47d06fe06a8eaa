#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
funcs = set(re.findall(r"^def (C\d\d)\(", (V / "bin" / "props.py").read_text(), re.M))
NA = {"C21": "what the interior-point solver converges to (tolerance of its result, local optimality) is numerical behaviour of "
             "Sleipnir, which is not part of this repository, is not installed and cannot be fetched; a TLA+ specification "
             "cannot decide it. The structural part (tolerance 1e-4 requested, whole problem handed over, result taken "
             "unchanged) is decided by C03, C08-C12."}
TECH = "TLA+ specification checked with TLC; behaviours it generates are replayed into the real code and the recorded run is checked against it"
NOTE = {
 "default": "Design checked exhaustively by TLC within small constants; the code is bound to the specification by conformance of "
            "TLC-generated behaviours (bounded, seeded). Trusts TLC, the drivers, and the stand-in for Sleipnir's headers.",
}
man = {"version": 1, "setup_cmd": "bin/setup",
       "checks": [{"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
                   "technique": TECH, "level": "model_checking", "level_note": NOTE.get(p, NOTE["default"])}
                  for p in ids if p in funcs],
       "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in ids if p not in funcs],
       "notes": "All checks: bin/check <id>. No hooks in /repo are needed; only fix: commits were made there."}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
