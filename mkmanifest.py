"""Write MANIFEST.json (kept with the code so the list cannot drift)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import sys; sys.path.insert(0, os.path.join(HERE, "sim"))
import plan
TECH = {
 "C02": "deterministic simulation: seeded event histories on the real event list against a sorted-multiset model",
 "C03": "deterministic simulation: same study re-run after other, failed and interrupted studies, in dirty directories, other hash seeds and clocks; byte comparison",
 "C04": "deterministic simulation: seeded studies against a reference stream model; metamorphic pairs",
 "C07": "deterministic simulation: seeded studies; feasibility and LP-optimality oracle on every recorded dispatch",
 "C08": "deterministic simulation: hours replayed on fresh state and pairs of histories with different pasts",
 "C13": "deterministic simulation with crash-point enumeration and disk fault injection over a journalled simulated disk",
 "C14": "deterministic simulation: crash and restart from each snapshot, history compared with the uninterrupted run",
 "C15": "deterministic simulation with disk fault injection on every output operation",
 "C16": "deterministic simulation with input faults: missing, unreadable, truncated, damaged files, read errors, short reads",
 "C17": "deterministic simulation: paired runs under option combinations, history and report comparison",
}
D = "deterministic simulation: seeded whole studies, every event checked against an executable reference model"
NOTE = {
 "C13": "Every crash point of each generated study is enumerated from its journal of file operations; studies and disk faults are sampled. Trusts: ordered name changes, fsync durability, the journal.",
}
GEN = "Held on every seeded run explored; nothing beyond those runs is claimed. Trusts the reference model and oracles in sim/ (see DESIGN.md), NumPy and the interpreter."
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [],
 "not_applicable": [
  {"property": "C18", "reason": "The automatic maintenance scheduler is a pure function of its input tables, run once before the simulation: no schedule, time, I/O or fault can influence it, so seeded simulation adds nothing over calling it; prescheduled outages, which the simulation does depend on, are decided under C05."},
  {"property": "C19", "reason": "Capacity outage tables and matrix routines are pure numerical functions without state, time, concurrency or I/O; their correctness is a matter of input-output testing or proof, not of schedules and faults. Their use in the dispatch is covered end to end by C07."},
 ],
 "notes": "No hooks in /repo: the seams are the package's module attributes, replaced in the simulating process. Repairs of genuine defects are the fix: commits listed in known-findings.txt.",
}
for p in sorted(plan.LEVEL):
    m["checks"].append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH.get(p, D),
        "level": plan.LEVEL[p],
        "level_note": NOTE.get(p, GEN),
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
