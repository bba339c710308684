"""Check one property by deterministic simulation.

  check.py C07 [--tier quick|thorough]      exit 0: held on everything explored
  check.py --replay FILE                    run a recorded violation again
"""
import os

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

import argparse
import copy
import json
import random
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import disk as simdisk  # noqa: E402
import gen  # noqa: E402
import plan  # noqa: E402
import runs  # noqa: E402
import world  # noqa: E402

OUT = os.environ.get("VERIF_OUT", os.path.join(ROOT, "evidence"))


def lp_python():
    for p in ("/opt/veriftools/pyvenv/bin/python", shutil.which("python3-vt") or "", sys.executable):
        if p and os.path.exists(p):
            r = subprocess.run([p, "-c", "import scipy.optimize"], capture_output=True)
            if r.returncode == 0:
                return p
    return None


def solve_lps(results, stats):
    """Batch LP oracle: adds violations to the results."""
    probs = [(i, p) for i, r in enumerate(results) if r for p in r.get("lps", ())]
    if not probs:
        return
    py = lp_python()
    if py is None:
        stats["lp"] = "no scipy available, optimality not decided"
        return
    d = tempfile.mkdtemp(prefix="verif-lp-", dir="/tmp")
    try:
        n = 8
        ps = []
        for k in range(n):
            part = probs[k::n]
            if not part:
                continue
            a, b = os.path.join(d, "%d.json" % k), os.path.join(d, "%d.out" % k)
            with open(a, "w") as f:
                json.dump([p for _, p in part], f)
            ps.append((part, b, subprocess.Popen([py, os.path.join(HERE, "lpbatch.py"), a, b], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        for part, b, p in ps:
            p.wait()
            with open(b) as f:
                ans = json.load(f)
            for (i, q), x in zip(part, ans):
                stats["lp_solved"] = stats.get("lp_solved", 0) + 1
                if x is None or isinstance(x, str):
                    stats["lp_unsolved"] = stats.get("lp_unsolved", 0) + 1
                    continue
                if q["tot"] > x + 0.02 or q["tot"] < x - 0.02:
                    what = "curtails %.3f MW, %.3f MW is the least" % (q["tot"], x)
                    if q["tot"] < x:
                        what = "reports %.3f MW curtailed, no dispatch has less than %.3f" % (q["tot"], x)
                    results[i]["v"].append([["C07"], "dispatch not minimal (%s): %s %s" % (q["k"], q["where"], what), None])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hits(prop, r):
    """Violations of the property among a run's."""
    if r is None:
        return []
    if "_died" in r:
        if r["_died"] == "harness":
            return []  # no verdict; counted in the evidence
        return [[["*"], "the study does not end (%s)" % r["_died"], None]]
    return [v for v in r["v"] if prop in v[0] or "*" in v[0]]


def execute(jobs, cpu=150, wall=400):
    rs = world.run_batch(jobs, runs.run_job, cpu=cpu, wall=wall)
    stats = {}
    solve_lps(rs, stats)
    return rs, stats


# --------------------------------------------------------------- minimiser
def reductions(job):
    """Smaller jobs, most drastic first."""
    out = []
    if job["kind"] == "events":
        ops = job.get("ops")
        if ops is None:
            return out
        n = len(ops)
        for size in (n // 2, n // 4, 8, 4, 2, 1):
            if size < 1:
                continue
            for i in range(0, n, size):
                c = ops[:i] + ops[i + size :]
                k = 0
                ok = True
                for o in c:
                    k += 1 if o[0] == "+" else -1
                    ok &= k >= 0
                if ok and len(c) < n:
                    out.append(dict(job, ops=c))
            if len(out) > 60:
                break
        return out
    scn = job["scn"]

    def with_(f):
        s = copy.deepcopy(scn)
        if f(s) is not False:
            j = dict(job, scn=s)
            out.append(j)

    mc = scn["mc"]
    if mc["FIN"] > 1:
        with_(lambda s: s["mc"].update({"FIN": 1}))
        with_(lambda s: s["mc"].update({"FIN": mc["FIN"] // 2}))
        with_(lambda s: s["mc"].update({"FIN": mc["FIN"] - 1}))
    if scn["contracts"]:
        with_(lambda s: s.update({"contracts": []}))
    if scn["owned"]:
        with_(lambda s: s.update({"owned": []}))
    if any(a["lfu"] for a in scn["areas"]):
        with_(lambda s: [a.update({"lfu": 0}) for a in s["areas"]] and None)
    if any(u["b1"] for u in scn["units"]):

        def nop(s):
            for u in s["units"]:
                u.update({"b1": 0, "d1": 0, "b2": 0, "d2": 0})

        with_(nop)
    if scn["load"].get("bumps"):
        with_(lambda s: s["load"].pop("bumps") and None)
    if any(a["sof"] < 30000 for a in scn["areas"]):
        with_(lambda s: [a.update({"sof": 30000.0}) for a in s["areas"]] and None)
    if mc["II"] or mc["IJ"]:
        with_(lambda s: s["mc"].update({"II": 0, "IJ": 0}))
    na = len(scn["areas"])
    if na > 1:

        def droparea(s):
            a = na - 1
            keep = [k for k, u in enumerate(s["units"]) if u["loc"] != a]
            mp = {k: i for i, k in enumerate(keep)}
            s["units"] = [s["units"][k] for k in keep]
            s["areas"] = s["areas"][:-1]
            s["lines"] = [l for l in s["lines"] if a not in (l["from"], l["to"])]
            s["contracts"] = [c for c in s["contracts"] if a not in (c["from"], c["to"])]
            s["owned"] = [dict(o, unit=mp[o["unit"]], pct=o["pct"][:-1]) for o in s["owned"] if o["unit"] in mp and not o["pct"][-1]]
            s["mc"]["KVL"] = min(s["mc"]["KVL"], a)
            s["load"].pop("order", None)
            if not s["units"]:
                return False

        with_(droparea)
    for k in range(len(scn["contracts"])):
        with_(lambda s: s["contracts"].pop(k) and None)
    if len(scn["lines"]) > na - 1:
        for k in range(len(scn["lines"])):
            if connected(na, [l for i, l in enumerate(scn["lines"]) if i != k]):
                with_(lambda s: s["lines"].pop(k) and None)
    own = {o["unit"] for o in scn["owned"]}
    for par in (0, 1):
        keep = [k for k in range(len(scn["units"])) if k % 2 == par or k in own]
        if 0 < len(keep) < len(scn["units"]):

            def half(s):
                mp = {k: i for i, k in enumerate(keep)}
                s["units"] = [s["units"][k] for k in keep]
                s["owned"] = [dict(o, unit=mp[o["unit"]]) for o in s["owned"]]

            with_(half)
    if scn["load"].get("order"):
        with_(lambda s: s["load"].pop("order") and None)
    for k, u in enumerate(scn["units"]):
        if k in own or sum(1 for x in scn["units"] if x["loc"] == u["loc"]) < 2:
            continue

        def dropunit(s):
            s["units"].pop(k)
            for o in s["owned"]:
                if o["unit"] > k:
                    o["unit"] -= 1

        with_(dropunit)
    return out


def connected(n, lines):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for l in lines:
            for x, y in ((l["from"], l["to"]), (l["to"], l["from"])):
                if x == a and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == n


def key(msg):
    return msg.split(":")[0]


def minimise(prop, job, viol, limit):
    job = dict(job)
    if viol[2]:
        job.update(viol[2])
    if job["kind"] != "events" and "scn" not in job:
        job["scn"] = gen.gen(job["seed"], job.get("style"))
    best, msg = job, viol
    t0 = time.monotonic()
    # the pinned job must fail by itself
    rs, _ = execute([job])
    h = hits(prop, rs[0])
    if not h:
        return None, None
    msg = h[0]
    pinned = {k for k in ("points", "faultlist") if k in job}
    tried = 0
    while time.monotonic() - t0 < limit:
        cand = reductions(best)
        if pinned:
            # operation numbers shift with the scenario: search again from the seed
            cand = []
        found = False
        for i in range(0, len(cand), 8):
            if time.monotonic() - t0 > limit:
                break
            part = cand[i : i + 8]
            rs, _ = execute(part, cpu=60, wall=90)
            hs = [hits(prop, r) for r in rs]
            tried += len(part)
            for c, h in zip(part, hs):
                h = [x for x in h if key(x[1]) == key(msg[1])] or ([] if "*" not in msg[0] else h)
                if h:
                    best, msg, found = c, h[0], True
                    break
            if found:
                break
        if not found:
            break
    return best, msg


def known_findings():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                out.append(json.loads(ln[len("known: ") :]))
    return out


def replay(path):
    d = json.load(open(path))
    world.load_package()
    rs, _ = execute([d["job"]])
    h = hits(d["property"], rs[0])
    if h:
        for x in h[:3]:
            print(x[1])
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced: property=%s" % d["property"])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--time", type=float, default=None, help="stop starting new batches after this many seconds")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.monotonic()
    world.load_package()
    prop = a.prop
    batches = plan.batches(prop, a.tier, a.seed)
    limit = a.time or (300 if a.tier == "quick" else 2400)
    tot = {"cov": {}, "faults": {}, "seams": {}, "runs": 0, "states": set(), "digests": set(), "kinds": {}, "samples": [], "skipped_jobs": 0, "stats": {}, "noverdict": [], "notes": []}
    fails = []
    first = None
    for jobs in batches:
        if fails or (time.monotonic() - t0 > limit):
            tot["skipped_jobs"] += len(jobs)
            continue
        rs, st = execute(jobs)
        for k, x in st.items():
            tot["stats"][k] = tot["stats"].get(k, 0) + x if isinstance(x, int) else x
        for j, r in zip(jobs, rs):
            tot["runs"] += 1
            tot["kinds"][j["kind"]] = tot["kinds"].get(j["kind"], 0) + 1
            if r.get("_died") == "harness":
                tot["noverdict"].append(r["_err"])
            tot["notes"] += r.get("notes", [])
            if "_died" not in r:
                for k, x in r["cov"].items():
                    if k == "states":
                        tot["states"].update(x)
                    else:
                        tot["cov"][k] = tot["cov"].get(k, 0) + x
                for k, x in r["faults"].items():
                    tot["faults"][k] = tot["faults"].get(k, 0) + x
                for k, x in r["seams"].items():
                    tot["seams"][k] = tot["seams"].get(k, 0) + x
                tot["digests"].add(r["digest"])
                if first is None:
                    first = (j, r["digest"])
                if len(tot["samples"]) < 5:
                    tot["samples"].append({"job": {k: v for k, v in j.items() if k != "scn"}, "digest": r["digest"]})
            for v in hits(prop, r):
                fails.append((j, v))
    # one seed, one execution
    det = None
    if first and not fails:
        rs, _ = execute([first[0]])
        det = rs[0].get("digest") == first[1]
        if not det:
            print("note: the first run did not repeat exactly (digest %s / %s)" % (first[1], rs[0].get("digest")))
    known = known_findings()
    code = 0
    reported = []
    shown = set()
    fresh = []
    for j, v in fails:
        kf = next((k for k in known if k["property"] == prop and k["match"] in v[1]), None)
        if kf:
            if kf["id"] not in shown:
                shown.add(kf["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
        else:
            fresh.append((j, v))
    if fresh:
        code = 1
        j, v = fresh[0]
        best, msg = None, None
        if not a.no_minimise:
            best, msg = minimise(prop, j, v, 60 if a.tier == "quick" else 240)
        if best is None:
            best, msg = dict(j), v
            if v[2] and a.no_minimise:
                best.update(v[2])
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "replay-%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "message": msg[1], "seed": j.get("seed"), "original_job": j, "job": best}, f, indent=1)
        seen = set()
        for _, x in fresh:
            if key(x[1]) not in seen and len(seen) < 6:
                seen.add(key(x[1]))
                print("  " + x[1][:400])
        reported = sorted(seen)
        print("minimised: " + msg[1][:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for x in tot["noverdict"][:2] + tot["notes"][:1]:
        print("note: a run was not (fully) judged:\n" + x)
    if code == 0 and len(tot["noverdict"]) * 2 > tot["runs"]:
        print("no verdict: %d of %d runs could not be judged" % (len(tot["noverdict"]), tot["runs"]))
        code = 2
    wall = time.monotonic() - t0
    write_evidence(prop, a, tot, wall, det, reported, len(fails))
    return code


def write_evidence(prop, a, tot, wall, det, reported, nfails):
    c = tot["cov"]
    meta = plan.META[prop]
    sim_h = float(c.pop("sim_hours", 0) or 0)
    ev = max(1, int(c.get("lives", tot["runs"]) or 1))
    doc = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": plan.LEVEL[prop],
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(tot["digests"]),
            "rule": meta["rule"],
            "samples": tot["samples"],
            "jobs": tot["runs"],
            "jobs_by_kind": tot["kinds"],
            "jobs_not_started_for_time": tot["skipped_jobs"],
            "counts": {k: (round(x, 1) if isinstance(x, float) else int(x)) for k, x in sorted(c.items())},
            "faults_injected": dict(sorted(tot["faults"].items())),
            "distinct_states": len(tot["states"]),
            "distinct_state_measure": meta.get("states", "hash of the unit, line and planned-outage states and the season of an evaluated hour"),
            "simulated_hours": round(sim_h, 1),
            "runs_per_hour": round(ev / wall * 3600),
            "seeds_per_hour": round(tot["runs"] / wall * 3600),
            "real_components": "all of the package under /repo, NumPy, pandas, files of a scratch directory",
            "stubbed_components": meta.get("stubs", "none; time is the study's own simulated clock"),
            "seams_hit": tot["seams"],
            "lp_oracle": tot["stats"],
            "runs_without_verdict": len(tot["noverdict"]),
            "same_seed_repeats_exactly": det,
            "violations": nfails,
            "violation_kinds": reported,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
