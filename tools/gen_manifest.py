#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "online monitor: shadow model in exact integer and double-double arithmetic",
 "C02": "online monitor: exact (integer) and double-double permutation-sum shadow determinant",
 "C03": "online monitor: residual and threshold oracle on every inversion observed",
 "C04": "online monitor: Q/R law oracle on every factorisation observed",
 "C05": "online monitor: P*A=L*U law oracle on every factorisation observed",
 "C06": "online monitor: tagged-element shadow layout, read/write histories",
 "C07": "online monitor: component-wise shadow model, exact and double-double",
 "C08": "online monitor: double-double norm oracle",
 "C09": "online monitor: characteristic-polynomial oracle",
 "C10": "online monitor: Hamilton-algebra shadow model, exact and double-double",
 "C11": "online monitor: reference rotations, branch-directed workload",
 "C12": "online monitor: reference rotations, singular-angle workload",
 "C13": "online monitor: complex-function reference and functional equations",
 "C14": "online monitor: great-arc reference",
 "C15": "trace monitor over operation histories against freshly built values",
 "C16": "online monitor: dual-number shadow algebra, operation histories",
 "C17": "online monitor: reference rigid motions",
 "C18": "online monitor: reference screw motions",
 "C19": "online monitor: reference elementary rotations, singular-angle workload",
 "C20": "online monitor: Rodrigues reference and exp/log round trips",
 "C21": "online monitor: series matrix exponential reference and round trips",
 "C22": "online monitor: reference homogeneous transforms",
 "C23": "online monitor: reference linear maps, basis and random vectors",
 "C24": "online monitor: definition oracle with graded near-rotations",
 "C25": "online monitor: definition oracle over float pairs incl. specials",
 "C26": "online monitor: definition oracle over slices",
 "C27": "fault-injecting sinks, watched child processes, text oracle",
 "C28": "differential monitor over two feature builds plus a freestanding link",
 "C29": "panic/overflow/hang monitor, repeat/thread/build-mode/precision comparison, Miri (thorough)",
 "C30": "online monitor: component-wise equality oracle, values with cached state and special floats",
}
NOTE = ("Holds on every execution observed: randomised, regime-directed workloads (seeded by VERIF_SEED) on the real crate, "
        "every result judged by an independent oracle with a derived error bound; required event classes must have been seen, else the run is inconclusive. "
        "Trusts the harness's reference models and the host's f64 arithmetic; inputs not generated are not covered.")
EXTRA = {
 "C17": " Known finding: DualQuaternion::transform_point omits the translation (see known_findings.txt).",
 "C28": " Absence of std is shown by linking a freestanding consumer on the host target; no bare-metal target is installed.",
 "C29": " The crate has no unsafe code, threads or shared state, so sanitizers beyond Miri, overflow checks and debug assertions have nothing further to watch.",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything observed is public API. Findings: known_findings.txt. Seeded changes: seeded/ (read by no check)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
