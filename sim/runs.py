"""Simulated runs of every kind.  A job is a JSON-able dict:

  {"kind": ..., "seed": n, "style": {...}, "scn": {...} (optional), ...}

and a run returns {"v": [[properties, message, pin]], "lps": [...], "cov": {...},
"faults": {...}, "digest": ...}.  A pin holds the parameters to add to the job so
that only the failing part is run again (minimisation and replay).
"""
import copy
import hashlib
import json
import os
import pickle
import random
import re
import subprocess
import sys
import traceback

import numpy as np

import disk as simdisk
import gen
import monitor
import world

MAXB = 400000


# ------------------------------------------------------------------- lives
def life(fn, *a, **k):
    """fn(*a) in a forked child: one process of the simulated machine."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            try:
                r = fn(*a, **k)
            except BaseException:
                r = {"_died": "harness", "_err": traceback.format_exc()[-1500:]}
            b = pickle.dumps(r, protocol=4)
            with os.fdopen(wfd, "wb", closefd=True) as f:
                f.write(b)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if not b:
        if os.WIFSIGNALED(st):
            import signal

            s = os.WTERMSIG(st)
            return {"_died": "cpu" if s in (signal.SIGXCPU, signal.SIGKILL) else "signal %d" % s, "_err": ""}
        return {"_died": "exit %d" % os.waitstatus_to_exitcode(st), "_err": ""}
    return pickle.loads(b)


def h8(*xs):
    m = hashlib.blake2b(digest_size=8)
    for x in xs:
        m.update(x if isinstance(x, bytes) else repr(x).encode())
    return m.hexdigest()


def history(R):
    """The recorded history as comparable tuples."""
    out = []
    for e in R.ev:
        if not e.get("done"):
            break
        if e["t"] == 1:
            d = h8(e.get("gs"), e.get("ls"))
            s = h8(*[x.tobytes() if x is not None else b"-" for x in (e.get("pct"), e.get("pl"), e.get("rt"), e.get("trn"))], e.get("ln"))
            a, a0 = e.get("acct"), e.get("acct0")
            o = "-" if a is None or a0 is None else h8((a - a0).tobytes())
            lv = h8([(x[0], x[1], x[2].tobytes()) for x in e.get("lev") or ()])
            out.append((1, e["clock"], d, s, o, lv))
        elif e["t"] == 4:
            sm = e.get("sums")
            out.append((4, e["clock"], "" if sm is None else h8(*[sm[k].tobytes() for k in sorted(sm)])))
        else:
            out.append((e["t"], e["clock"]))
    return out


NAMES = {1: ["type", "time", "random streams", "unit/line/planned states", "outcome", "loads"], 4: ["type", "time", "totals"]}


def first_diff(a, b):
    """Where two histories part, or None."""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            names = NAMES.get(x[0], ["type", "time"])
            w = [names[k] if k < len(names) else str(k) for k in range(min(len(x), len(y))) if x[k] != y[k]]
            return "event %d (clock %s): %s" % (i, x[1], ", ".join(w))
    if len(a) != len(b):
        return "%d events instead of %d" % (len(b), len(a))
    return None


def final_report(text):
    if text is None:
        return None
    t = text.decode("utf8", "replace") if isinstance(text, bytes) else text
    k = t.find("FINAL RESULTS AFTER")
    return None if k < 0 else t[k:]


def annual_tables(text, year):
    """The output from the table of a year on."""
    t = (text or b"").decode("utf8", "replace")
    k = re.search(r"(?<!FINAL )RESULTS AFTER\s+%d\s+REPLICATIONS" % year, t)
    return t[k.start() :] if k else None


def study(
    scn,
    wd,
    fresh_every=0,
    faults=None,
    crash_at=None,
    indir=None,
    pre=None,
    budget=MAXB,
    resume=None,
    dump=False,
    monitors=True,
    lp_cap=0,
    want=(),
    disk=False,
    warm=None,
    fault_free=True,
    mangle=None,
    keep_dispatch=True,
):
    """One study in the current process (call through life())."""
    os.makedirs(os.path.join(wd, "w"), exist_ok=True)
    if indir is None:
        indir = os.path.join(wd, "in")
        gen.write_inputs(scn, indir)
        if mangle:
            mangle(indir)
    run = os.path.join(wd, "w")
    for n, b in (pre or {}).items():
        with open(os.path.join(run, n), "wb") as f:
            f.write(b)
    os.chdir(run)
    tag = os.path.basename(wd)
    world.ambient("%d/%s" % (scn["load"]["seed"], "" if tag.isdigit() else tag))
    if warm:
        warm(wd)
        os.chdir(run)
    before = tree(indir)
    D = None
    R = world.Recorder(fresh_every=fresh_every, budget=budget, keep_dispatch=keep_dispatch, resume=resume, dump=dump)
    R.install()
    marks = []
    if disk:
        D = simdisk.Disk(wd, faults or (), crash_at).install()

        def mark(e):
            marks.append((len(D.ops), e["t"]))

        R.on_event = mark
        R.quiet = D.quiet
    crashed = False
    err, out = None, ""
    try:
        err, out = world.call_main(indir, R)
    except simdisk.SimCrash:
        crashed = True
    finally:
        if D:
            D.on = False
            D.dead = False
    R.stdout = None if (crashed or D) else out
    text = world.slurp("output.txt")
    r = {
        "err": err,
        "crashed": crashed,
        "stdout": out,
        "text": text,
        "hist": history(R),
        "contrl": R.contrl_calls,
        "evs": len(R.ev),
        "reports": len(R.reports),
        "inputs_same": tree(indir) == before,
        "seams": dict(R.seams),
        "notes": R.notes,
    }
    r["years"] = sum(1 for e in R.ev if e["t"] == 4 and e.get("done"))
    if D:
        r["fired"], r["marks"] = D.fired, marks
        r["nops"] = len(D.ops)
        r["snapmarks"] = R.snap
        if "disk" in want:
            r["disk"] = (D.ops, D.init, D.init_names, D.nid, D.root)
    if "dumps" in want:
        r["dumps"] = [e.get("dump") for e in R.ev if e["t"] == 4 and e.get("done")]
        r["sums"] = [e.get("sums") for e in R.ev if e["t"] == 4 and e.get("done")]
    if "draws" in want:
        r["draws"] = [
            (e["clock"], e.get("gs"), e.get("ls"), None if e.get("pct") is None else e["pct"].tolist(), e.get("ln"))
            for e in R.ev
            if e["t"] == 1 and e.get("done")
        ]
    if "tm2" in want:
        r["tm2"] = [
            (e["clock"], d.get("hour"), len(d["tm2"]), k, q)
            for e in R.ev
            if e["t"] == 1
            for d in e.get("disp") or ()
            for k, q in enumerate(d["tm2"])
        ]
        r["traout"] = world.slurp("traout.txt ")
    if "files" in want:
        r["files"] = tree(".")
    r["v"], r["lps"], r["cov"] = [], [], {}
    if monitors:
        tx = text.decode("utf8", "replace") if text is not None else None
        v = monitor.V()
        try:
            lps, cov, tot, m = monitor.check_study(v, scn, R, err, lp_cap=lp_cap, out_text=tx or "", fault_free=fault_free)
            cov["states"] = [h8(x) for x in cov["states"]]
            r["lps"], r["cov"] = lps, cov
        except Exception:
            # the record cannot be judged beyond this point
            r["cov"] = {"unjudged": 1}
            r["notes"].append(traceback.format_exc()[-600:])
        r["v"] = [[p, msg, None] for p, msg in v]
    if err is not None and fault_free:
        r["v"].append([["*"], "the study fails: %s: %s (%s)" % err, None])
    return r


def tree(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in sorted(fn):
            p = os.path.join(dp, f)
            out[os.path.relpath(p, d)] = world.slurp(p)
    return out


def scenario(job):
    return copy.deepcopy(job["scn"]) if "scn" in job else gen.gen(job["seed"], job.get("style"))


class Res:
    def __init__(self, job):
        self.job = job
        self.v, self.lps, self.cov, self.faults = [], [], {}, {}
        self.parts = []
        self.lives = 0
        self.notes = []
        self.seams = {}

    def add(self, r, what=""):
        """Fold in one life.  False if it died."""
        self.lives += 1
        if "_died" in r:
            if r["_died"] == "harness":
                raise RuntimeError("harness error in a run: " + r["_err"])
            self.v.append([["*"], "the study does not end (%s)%s" % (r["_died"], what), None])
            return False
        self.v += r.get("v", [])
        self.lps += r.get("lps", [])
        self.notes += r.get("notes", [])
        for k, x in r.get("seams", {}).items():
            self.seams[k] = self.seams.get(k, 0) + x
        for k, x in r.get("cov", {}).items():
            if k == "states":
                self.cov.setdefault("states", set()).update(x)
            else:
                self.cov[k] = self.cov.get(k, 0) + x
        if "hist" in r:
            self.parts.append(h8(r["hist"], (r.get("err") or (0, 0, 0))[::2], r.get("text")))
            if "sim_hours" not in r.get("cov", {}) and r["hist"]:
                self.cov["sim_hours"] = self.cov.get("sim_hours", 0) + (r["hist"][-1][1] or 0)
        return True

    def bad(self, props, msg, pin=None):
        self.v.append([props.split(), msg, pin])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def out(self):
        c = dict(self.cov)
        if "states" in c:
            c["states"] = sorted(c["states"])
        c["lives"] = self.lives
        if self.notes:
            c["notes"] = len(self.notes)
        return {"notes": self.notes[:2], "v": self.v[:12], "lps": self.lps, "cov": c, "faults": self.faults, "digest": h8(self.parts), "seams": self.seams}


def untabled(text):
    """The final report without its running table numbers."""
    t = final_report(text)
    return None if t is None else re.sub(r"TABLE\s+\d+", "TABLE", t)


# ------------------------------------------------------------- kind: study
def k_study(job, wd):
    scn = scenario(job)
    s = Res(job)
    # a network in separate parts may be refused, but not dispatched as if it were one
    r = life(study, scn, wd, fresh_every=job.get("fresh", 0), lp_cap=job.get("lp", 0), dump=job.get("dump", True), fault_free=not scn.get("split"))
    if scn.get("split"):
        s.fault("separate_network")
    if s.add(r) and not r["inputs_same"]:
        s.bad("C03", "the input files were changed by the study")
    return s.out()


# ------------------------------------------------------------ kind: events
def run_events(ops):
    """Random schedule/deliver histories straight on the event list."""
    import inspect

    initfl, filem, remove = world.find("initfl"), world.find("filem"), world.find("remove")
    mfa, ip, ev = initfl()
    at = np.zeros(2)
    n = 0
    pend = []  # sorted by (time, -age)
    age = 0
    link = "MFA" in inspect.signature(remove).parameters
    for k, op in enumerate(ops):
        if op[0] == "+":
            at[0], at[1] = op[1], op[2]
            n, mfa, ip = filem(mfa, at, n, ip, ev)
            age += 1
            pend.append((op[1], -age, op[2]))
            pend.sort()
        else:
            r = remove(n, at, ev, ip, mfa) if link else remove(n, at, ev, ip)
            mfa, n, ip = r
            want = pend.pop(0)
            if (float(at[0]), int(at[1])) != (want[0], want[2]):
                return "step %d delivered %s instead of %s" % (k, (float(at[0]), int(at[1])), (want[0], want[2]))
        if int(n) != len(pend):
            return "step %d: %s events counted, %d pending" % (k, n, len(pend))
    while pend:
        r = remove(n, at, ev, ip, mfa) if link else remove(n, at, ev, ip)
        mfa, n, ip = r
        want = pend.pop(0)
        if (float(at[0]), int(at[1])) != (want[0], want[2]):
            return "at the end delivered %s instead of %s" % ((float(at[0]), int(at[1])), (want[0], want[2]))
    if int(n) != 0 or int(ip) != -1:
        return "the emptied list is not empty (count %s, first %s)" % (n, ip)
    return None


def gen_events(rng):
    ops, pend, now = [], 0, 0.0
    cap = rng.choice([3, 8, 24])
    ties = rng.random() < 0.6
    mode = rng.choice(["future", "any", "sim"])
    hold = rng.choice([0.35, 0.5, 0.65])
    times = []
    for _ in range(rng.choice([6, 20, 60, 200])):
        if pend and (pend >= cap or rng.random() < hold):
            ops.append(["-"])
            pend -= 1
            times.sort()
            now = max(now, times.pop(0))
        else:
            t = float(rng.randint(0, 12)) if ties else rng.uniform(0, 50)
            if mode == "future":
                t += now
            elif mode == "sim":
                t = now + rng.choice([0.0, 1.0, 24.0, 168.0, 2184.0, 8760.0])
            ops.append(["+", t, rng.randint(1, 4)])
            times.append(t)
            pend += 1
    return ops


def k_events(job, wd):
    s = Res(job)

    def go():
        import contextlib
        import io

        v, n, steps, seen = [], 0, 0, set()
        if "ops" in job:
            todo = [job["ops"]]
        else:
            rng = random.Random(job["seed"])
            todo = [gen_events(rng) for _ in range(job.get("n", 400))]
        for ops in todo:
            n += 1
            steps += len(ops)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    bad = run_events(ops)
            except (Exception, SystemExit) as e:
                bad = "%s: %s" % (type(e).__name__, e)
            if len(seen) < 100000:
                seen.add(h8([o[0] if o[0] == "-" else (o[0], o[1]) for o in ops]))
            if bad:
                v.append([["C02"], "event history: " + bad, {"ops": ops}])
                if len(v) > 3:
                    break
        return {"v": v, "cov": {"histories": n, "steps": steps, "states": sorted(seen)}, "hist": [(0, 0.0, n, steps)]}

    s.add(life(go))
    return s.out()


# ------------------------------------------------------------- kind: pairs
OPT_KEYS = ("II", "IJ", "IN")


def tr_expected(q, clock, hour, jflag):
    pass


def check_traout(s, r, pin):
    """Every dispatch through the linear program left one record, in order,
    naming its hour and showing its flows."""
    recs = []
    if r["traout"] is not None:
        cur = None
        for ln in r["traout"].decode("utf8", "replace").splitlines():
            t = ln.split()
            if not t:
                continue
            if len(t) == 3 and re.match(r"^     [ \d]{8}  [ \d]{4}  \d$", ln):
                cur = [t, []]
                recs.append(cur)
            elif cur is not None:
                cur[1].append(t)
    want = [x for x in r["tm2"] if x[4]["indic"]]
    if len(recs) != len(want):
        s.bad("C17", "trace has %d records for %d traced dispatches" % (len(recs), len(want)), pin)
        return
    for (t, rows), (clock, hour, n, k, q) in zip(recs, want):
        if int(t[0]) != int(clock) or (hour is not None and int(t[1]) != int(hour)):
            s.bad("C17", "trace record names clock %s hour %s, dispatch was at clock %s hour %s" % (t[0], t[1], clock, hour), pin)
            return
        if q["nls"] not in (0, 1):
            continue
        nl = len(q["lp"])
        if nl == 0 or len(rows) < nl:
            continue
        shown = rows[-nl:]
        for l in range(nl):
            try:
                x = [float(z) for z in shown[l]]
            except ValueError:
                break
            if len(x) < 7:
                break
            if [int(z) for z in x[1:3]] != list(q["lp"][l]):
                s.bad("C17", "trace shows line %d as %s, it is %s (clock %s)" % (l, x[1:3], q["lp"][l], clock), pin)
                return
            if abs(x[-1] - q["flow"][l]) > 0.51 and abs(abs(x[-1]) - abs(q["flow"][l])) > 0.51:
                s.bad("C17", "trace shows flow %s on line %d, it was %.3f (clock %s)" % (x[-1], l, q["flow"][l], clock), pin)
                return


def k_options(job, wd):
    scn = scenario(job)
    s = Res(job)
    rng = random.Random(job["seed"] * 31 + 5)
    base = copy.deepcopy(scn)
    base["mc"].update({"II": 0, "IJ": 0, "IN": 99})
    b = life(study, base, os.path.join(wd, "b"), dump=True)
    if not s.add(b):
        return s.out()
    vs = job.get("variants")
    if vs is None:
        vs = [{"II": 1, "IJ": 1, "IN": 1}]
        for _ in range(job.get("nvar", 2)):
            vs.append({"II": rng.choice([0, 1]), "IJ": rng.choice([0, 1]), "IN": rng.choice([1, 2, 3, 7])})
    for i, var in enumerate(vs):
        sc = copy.deepcopy(scn)
        sc["mc"].update(var)
        r = life(study, sc, os.path.join(wd, "v%d" % i), dump=True, want=("tm2",))
        pin = {"variants": [var]}
        if "_died" in r or (r["err"] and not b["err"]):
            s.bad("C17", "with options %s the study fails although it completes without: %s" % (var, r.get("err") or r["_died"]), pin)
            continue
        s.add(r)
        d = first_diff(b["hist"], r["hist"])
        if d:
            s.bad("C17", "options %s change the run: %s" % (var, d), pin)
        x, y = (re.findall(r"\d+-th REPLICATION; SUM=[^\n]*", q["stdout"] or "") for q in (b, r))
        if x != y:
            s.bad("C17", "options %s change the figures convergence is judged by: %s" % (var, [z for z in zip(x, y) if z[0] != z[1]][:1] or (len(x), len(y))), pin)
        if untabled(b["text"]) != untabled(r["text"]):
            s.bad("C17", "options %s change the final report" % (var,), pin)
        if var["II"]:
            check_traout(s, r, pin)
        elif r["traout"] is not None:
            s.bad("C17", "trace written although tracing is off", pin)
        s.fault("option_switch")
    return s.out()


def k_streams(job, wd):
    """Metamorphic: streams do not depend on loads, options or other elements."""
    scn = scenario(job)
    s = Res(job)
    rng = random.Random(job["seed"] * 37 + 11)
    b = life(study, scn, os.path.join(wd, "b"), want=("draws",))
    if not s.add(b):
        return s.out()
    vs = job.get("variants")
    if vs is None:
        vs = [["load", rng.randrange(1 << 30)], ["options", 0], ["unit", rng.randrange(len(scn["units"]))]]
        if scn["lines"]:
            vs.append(["line", rng.randrange(len(scn["lines"]))])
        vs = rng.sample(vs, 2)
    for i, (kind, k) in enumerate(vs):
        sc = copy.deepcopy(scn)
        skip_u, skip_l = None, None
        if kind == "load":
            sc["load"]["seed"] = k
            for a in sc["areas"]:
                a["peak"] = round(a["peak"] * 1.3, 2)
        elif kind == "options":
            sc["mc"].update({"II": 1 - sc["mc"]["II"], "IJ": 1 - sc["mc"]["IJ"], "IN": 1, "LS": 1 - sc["mc"]["LS"], "MAXE": 500})
            sc["contracts"], sc["owned"] = [], []
        elif kind == "unit":
            u = sc["units"][k]
            u["for"] = 0.35
            skip_u = k
        else:
            skip_l = k
            st = sc["lines"][k]["states"]
            p = st[0][3]
            st[0][3] = round(p / 2, 4)
            st[1][3] = round(st[1][3] + p - st[0][3], 4)
        r = life(study, sc, os.path.join(wd, "v%d" % i), want=("draws",))
        if not s.add(r):
            continue
        pin = {"variants": [[kind, k]]}
        for x, y in zip(b["draws"], r["draws"]):
            if x[0] != y[0] and kind != "load":
                break  # another hour of the day: compare draws all the same
        for x, y in zip(b["draws"], r["draws"]):
            if x[1] != y[1] or x[2] != y[2]:
                s.bad("C04", "changing the %s shifts the random streams: clock %s" % (kind, x[0]), pin)
                break
            pu = [q for q in range(len(x[3] or [])) if q != skip_u and x[3][q] != y[3][q]]
            pl = [q for q in range(len(x[4] or [])) if q != skip_l and x[4][q] != y[4][q]]
            if pu or pl:
                s.bad("C04", "changing the %s changes the states of others: clock %s units %s lines %s" % (kind, x[0], pu, pl), pin)
                break
        s.fault("metamorphic_" + kind)
    return s.out()


def k_residue(job, wd):
    """Two pasts, one future: hours after a point come out the same."""
    scn = scenario(job)
    s = Res(job)
    rng = random.Random(job["seed"] * 41 + 3)
    raw = gen.raw_load(scn)
    last = min(v.index(max(v)) for v in raw)
    day = job.get("day")
    if day is None:
        day = rng.randint(1, max(1, min(last // 24, 340)))
    hist = []
    lo, hi = job.get("factors") or rng.choice([[0.5, 1.0], [0.7, 1.0], [0.85, 1.0]])
    if last < day * 24:
        return s.out()
    for i, f in enumerate((lo, hi)):
        sc = copy.deepcopy(scn)
        sc["load"]["pre"] = [day * 24, f]
        r = life(study, sc, os.path.join(wd, str(i)))
        if not s.add(r):
            return s.out()
        hist.append([e for e in r["hist"] if e[0] == 1 and day * 24 + 24 < e[1] <= 8760])
    n = 0
    for x, y in zip(*hist):
        n += 1
        if x[:4] == y[:4] and x[5] == y[5] and x[4] != y[4]:
            s.bad("C08", "the same hour comes out differently after another past: clock %s (loads before day %d scaled %s / %s)" % (x[1], day, lo, hi), {"day": day, "factors": [lo, hi]})
            break
        if x[2] != y[2]:
            s.bad("C04", "other loads in the past shift the streams: clock %s" % x[1], {"day": day, "factors": [lo, hi]})
            break
    s.cov["paired_hours"] = n
    s.fault("history_change")
    return s.out()


# ------------------------------------------------------------ kind: purity
def perturb(rng):
    import random as rnd
    import time

    rnd.seed(rng.randrange(1 << 30))
    np.random.seed(rng.randrange(1 << 30))
    off = rng.choice([1e6, 3.15e7, -1e8])
    t0 = time.time
    time.time = lambda: t0() + off
    os.environ["LC_ALL"] = rng.choice(["C", "POSIX", "C.UTF-8"])
    os.environ["TZ"] = rng.choice(["UTC", "Pacific/Auckland"])


def other_study(kind, seed, wd, i):
    """Another study in the same process: completed, interrupted or failed."""
    scn = gen.gen(seed, {"step": 24, "years": 2 if kind == "done" else 3, "na": (seed % 3) + 1})
    d = os.path.join(wd, "other%d" % i)
    gen.write_inputs(scn, os.path.join(d, "in"))
    os.makedirs(os.path.join(d, "w"))
    os.chdir(os.path.join(d, "w"))
    if kind == "badinput":
        n = gen.INPUT_FILES[seed % len(gen.INPUT_FILES)]
        os.remove(os.path.join(d, "in", n))
    if kind == "diskfault":
        orig = open
        import builtins

        def bad_open(f, mode="r", *a, **k):
            if "a" in mode or "w" in mode:
                raise OSError(28, "No space left on device")
            return orig(f, mode, *a, **k)

        builtins.open = bad_open
        try:
            world.call_main(os.path.join(d, "in"))
        finally:
            builtins.open = orig
        return
    if kind == "interrupt":
        # stop it from within the n-th gstate/transm call of the package
        n = [50 + seed % 900]
        fs = []
        for name in ("hour", "transm"):
            f = world.find(name)

            def g(*a, _f=f, **k):
                n[0] -= 1
                if n[0] < 0:
                    raise world.Budget()
                return _f(*a, **k)

            world.replace_everywhere(f, g)
            fs.append((f, g))
        try:
            world.call_main(os.path.join(d, "in"))
        finally:
            for f, g in fs:
                world.replace_everywhere(g, f)
        return
    world.call_main(os.path.join(d, "in"))


def purity_result(r):
    return {k: r.get(k) for k in ("err", "stdout", "text", "hist", "files", "crashed")}


def k_purity(job, wd):
    scn = scenario(job)
    s = Res(job)
    rng = random.Random(job["seed"] * 43 + 29)
    mangle = None
    if job.get("broken") is not None:
        name = gen.INPUT_FILES[job["broken"] % len(gen.INPUT_FILES)]

        def mangle(ind):
            os.remove(os.path.join(ind, name))

    opt = dict(want=("files",), mangle=mangle, fault_free=mangle is None, dump=True)
    b = life(study, scn, os.path.join(wd, "b"), **opt)
    if not s.add(b):
        return s.out()
    b["hist"] = b["hist"]
    vs = job.get("variants")
    if vs is None:
        vs = [["again"], ["others", [[rng.choice(["done", "interrupt", "badinput", "diskfault"]), rng.randrange(10000)] for _ in range(rng.randint(1, 2))]]]
        vs.append(rng.choice([["dirty", rng.randrange(10000)], ["self", 0]]))
        vs += [["near", rng.randrange(1 << 20), rng.randrange(2)] for _ in range(2)]
        if job.get("exec", False):
            vs.append(["exec", rng.randint(1, 4000000)])
    dec = lambda x: x
    for i, var in enumerate(vs):
        d = os.path.join(wd, "v%d" % i)
        pin = {"variants": [var]}
        pre, warm, r = {}, None, None
        if var[0] == "again":
            q = random.Random(job["seed"] + 1)
            warm = lambda wd_: perturb(q)
        elif var[0] == "others":

            def warm(wd_, var=var):
                for j, (kind, seed) in enumerate(var[1]):
                    other_study(kind, seed, wd_, j)

            for kind, _ in var[1]:
                s.fault("earlier_study_" + kind)
        elif var[0] == "self":

            def warm(wd_):
                e = os.path.join(wd_, "first")
                gen.write_inputs(scn, os.path.join(e, "in"))
                if mangle:
                    mangle(os.path.join(e, "in"))
                os.makedirs(os.path.join(e, "w"))
                os.chdir(os.path.join(e, "w"))
                world.call_main(os.path.join(e, "in"))

            s.fault("earlier_study_same")
        elif var[0] == "near":

            def warm(wd_, var=var):
                # the same study but for one aspect, from the same place or another
                e = wd_ if var[2] else os.path.join(wd_, "first")
                gen.write_inputs(gen.near(scn, var[1])[1], os.path.join(e, "in"))
                os.makedirs(os.path.join(e, "w"), exist_ok=True)
                os.chdir(os.path.join(e, "w"))
                world.call_main(os.path.join(e, "in"))
                if var[2]:
                    for n in os.listdir("."):
                        os.remove(n)
                    gen.write_inputs(scn, os.path.join(e, "in"))
                    if mangle:
                        mangle(os.path.join(e, "in"))

            s.fault("earlier_study_near_" + gen.near(scn, var[1])[0])
        elif var[0] == "dirty":
            q = random.Random(var[1])
            pre = {
                "output.txt": b"EARLIER TEXT %d\n" % var[1] + b"FINAL\n" * q.randint(0, 50),
                "DUMP.pkl": q.choice([b"", b"garbage", b"x" * 70000, (b["files"] or {}).get("DUMP.pkl") or b"none"]),
                "DUMP.pkl.new": b"torn",
                "extra.txt": b"junk\n" * 40,
                "traout.txt ": b"9 9 9\n",
                "LEEI": b"AREA:XX\n0101 1 2 3\n",
            }
            s.fault("dirty_directory")
        if var[0] == "exec":
            os.makedirs(d, exist_ok=True)
            env = dict(os.environ, PYTHONHASHSEED=str(var[1]))
            jf = os.path.join(d, "job.pkl")
            with open(jf, "wb") as f:
                pickle.dump((scn, d, job.get("broken")), f)
            p = subprocess.run([sys.executable, os.path.abspath(__file__), jf], env=env, capture_output=True, timeout=600)
            if p.returncode:
                raise RuntimeError("harness: " + p.stderr.decode()[-800:])
            with open(jf + ".out", "rb") as f:
                r = pickle.load(f)
            s.fault("hash_seed")
        else:
            r = life(study, scn, d, pre=pre, warm=warm, **opt)
        if not s.add(r):
            continue
        x, y = purity_result(b), purity_result(r)
        if pre:
            # what was there before stays, nothing of it is used
            for n in ("output.txt", "extra.txt", "traout.txt "):
                t = y["files"].get(n)
                if n == "output.txt":
                    if t is None or not t.startswith(pre[n]):
                        s.bad("C15 C03", "earlier text of output.txt is gone", pin)
                        continue
                if t is not None and t.startswith(pre[n]):
                    y["files"][n] = t[len(pre[n]) :]
                    if not y["files"][n] and n not in x["files"]:
                        del y["files"][n]
            for n in ("LEEI", "DUMP.pkl.new", "extra.txt", "traout.txt ", "DUMP.pkl", "output.txt"):
                if n not in x["files"]:
                    y["files"].pop(n, None)
            if y["text"] is not None:
                y["text"] = y["text"][len(pre["output.txt"]) :]
            if x["text"] is None and not y["text"]:
                y["text"] = None
        if x["err"] and y["err"]:
            # paths in messages differ between directories
            x["err"], y["err"] = x["err"][0:3:2], y["err"][0:3:2]
        for k in ("err", "hist", "text", "stdout", "files"):
            if x[k] != y[k]:
                what = ""
                if k == "hist":
                    what = first_diff(x[k], y[k]) or ""
                elif k == "files":
                    what = str([n for n in sorted(set(x[k]) | set(y[k])) if x[k].get(n) != y[k].get(n)])
                elif k == "err":
                    what = "%s / %s" % (x[k], y[k])
                s.bad("C03", "same study, different %s (%s): %s" % ({"err": "ending", "hist": "history", "text": "report", "stdout": "progress output", "files": "files"}[k], var[0], what), pin)
                break
        if not r["inputs_same"]:
            s.bad("C03", "the input files were changed by the study", pin)
        s.fault("rerun_" + var[0])
    return s.out()


# ------------------------------------------------- kind: snapshots (C13)
def D_from(t):
    D = simdisk.Disk(t[4])
    D.ops, D.init, D.init_names, D.nid = t[0], t[1], t[2], t[3]
    return D


def year_of(raw, base, iv_years, m):
    """Which scheduled snapshot is this?  (year, None) or (None, why)."""
    try:
        d = pickle.loads(raw)
        c = float(d["CLOCK"])
    except Exception as e:
        return None, "unreadable (%s)" % type(e).__name__
    y = int(round(c / 8760))
    if y not in iv_years or y > len(base["sums"]):
        return None, "of clock %s" % c
    bad = monitor.snapshot_bad(raw, {"sums": base["sums"][y - 1]}, y, m)
    return (None, bad) if bad else (y, None)


def k_crash(job, wd):
    scn = scenario(job)
    m = monitor.Model(scn)
    s = Res(job)
    rng = random.Random(job["seed"] * 47 + 1)
    pre = {}
    old = None
    if job.get("old", rng.random() < 0.3):
        # a snapshot of an earlier study lies in the directory
        r0 = life(study, gen.gen(job["seed"] + 999, {"step": 24, "years": 1, "na": 1}), os.path.join(wd, "o"), dump=True, want=("dumps",))
        if "_died" not in r0 and r0["dumps"] and r0["dumps"][-1]:
            old = pre["DUMP.pkl"] = r0["dumps"][-1]
    b = life(study, scn, os.path.join(wd, "b"), dump=True, disk=True, want=("disk", "dumps"), pre=pre)
    if not s.add(b) or b["err"]:
        return s.out()
    D = D_from(b["disk"])
    due = monitor.snapshot_years(scn, len(b["sums"]))
    # when (in operations) each year started closing / was over
    ystart, yend = [], []
    mk = b["marks"]
    for i, (k, t) in enumerate(mk):
        if t == 4:
            ystart.append(k)
            yend.append(mk[i + 1][0] if i + 1 < len(mk) else len(D.ops))
    name = "w/DUMP.pkl"
    cached = {}

    def judge(raw, k, power, what, pin, years=None):
        if raw is None:
            y = 0
        elif raw == old:
            y = 0
        else:
            hk = hash(raw)
            if hk not in cached:
                cached[hk] = year_of(raw, b, due, m)
            y, why = cached[hk]
            if y is None:
                s.bad("C13", "snapshot on disk %s: %s" % (what, why), pin)
                return None
        begun = [d for d in due if d <= len(ystart) and ystart[d - 1] <= k]
        if years is not None:
            begun = [d for d in due if d <= years + 1]
        done = [d for d in due if d <= len(yend) and yend[d - 1] <= k]
        lo = done[-1] if done else 0
        if power:
            # the last name change may still be in flight
            lo = done[-2] if len(done) > 1 else 0
        if raw is None and (old is not None or lo):
            s.bad("C13", "snapshot missing %s (snapshots of years %s were complete)" % (what, done), pin)
            return None
        if y and y not in begun:
            s.bad("C13", "snapshot of year %d on disk %s before that year was closed" % (y, what), pin)
            return None
        if y < lo:
            s.bad("C13", "snapshot on disk %s is that of year %d, year %d's was complete" % (what, y, lo), pin)
            return None
        return y

    # ---- every crash point
    pts = job.get("points")
    if pts is None:
        pts = []
        for k in range(len(D.ops) + 1):
            pts.append([k, 0, None, 0])
            if k < len(D.ops) and D.ops[k][0] == "write":
                n = len(D.ops[k][4])
                pts.append([k, 0, rng.randint(0, n), 0])
            for j in range(job.get("power", 2)):
                pts.append([k, 1, None, rng.randrange(1 << 30)])
        cap = job.get("maxpts", 3000)
        near = [p for p in pts if p[0] < len(D.ops) and "DUMP" in str(D.ops[p[0]][1])]
        rest = [p for p in pts if p not in near] if len(pts) > cap else []
        if rest:
            pts = near[:cap] + rng.sample(rest, max(0, min(len(rest), cap - len(near))))
    for k, power, torn, q in pts:
        st = D.state_after(k, bool(power), random.Random(q), torn)
        what = "after a %s crash before operation %d/%d" % ("power" if power else "process", k, len(D.ops))
        judge(st.get(name), k, power, what, {"points": [[k, power, torn, q]], "faultlist": []})
        s.fault("power_crash" if power else "torn_write_crash" if torn is not None else "process_crash")
        if len(s.v) > 6:
            break
    s.cov["crash_points"] = len(pts)
    # ---- failing operations on the snapshot files
    fl = job.get("faultlist")
    if fl is None:
        cand = [(k, o) for k, o in enumerate(D.ops) if "DUMP" in str(o[1]) and o[0] in simdisk.KINDS]
        fl = []
        for k, o in rng.sample(cand, min(len(cand), job.get("nfault", 6))):
            fl.append([{"op": k, "kind": rng.choice(simdisk.KINDS[o[0]])}])
    for i, f in enumerate(fl):
        r = life(study, scn, os.path.join(wd, "f%d" % i), dump=False, disk=True, faults=f, pre=pre, monitors=False, fault_free=False)
        pin = {"faultlist": [f], "points": []}
        if not s.add(r, " with disk fault %s" % f):
            continue
        for c, kd, p in r["fired"]:
            s.fault("%s_%s" % (c, kd))
        raw = world.slurp(os.path.join(wd, "f%d" % i, "w", "DUMP.pkl"))
        what = "after disk fault %s" % f
        y = judge(raw, f[0]["op"], False, what, pin, r["years"])
        if r["err"] is None and y is not None and due and y != due[-1] and r["fired"]:
            s.bad("C13 C15", "the study ended as if it had succeeded without its last snapshot (%s)" % f, pin)
        if r["err"] is None and r["fired"] and final_report(r["text"]) != final_report(b["text"]):
            s.bad("C15", "another report %s" % what, pin)
    return s.out()


# ---------------------------------------------------- kind: resume (C14)
def load_snapshot(folder):
    """Through the package's own restart routine."""
    return world.find("rstart")(os.path.join(folder, "DUMP.pkl"))


def resumed(scn, wd, raw, **k):
    w = os.path.join(wd, "w")
    os.makedirs(w, exist_ok=True)
    with open(os.path.join(w, "DUMP.pkl"), "wb") as f:
        f.write(raw)
    try:
        snap = load_snapshot(w)
    except Exception as e:
        return {"rstart": "%s: %s" % (type(e).__name__, e)}
    if not isinstance(snap, dict):
        return {"rstart": "returned %s" % type(snap)}
    return study(scn, wd, resume=snap, monitors=False, **k)


def k_resume(job, wd):
    scn = scenario(job)
    m = monitor.Model(scn)
    s = Res(job)
    rng = random.Random(job["seed"] * 53 + 7)
    b = life(study, scn, os.path.join(wd, "b"), dump=True, want=("dumps",))
    if not s.add(b) or b["err"]:
        return s.out()
    n = len(b["dumps"])
    due = monitor.snapshot_years(scn, n)
    plans = job.get("plans")
    if plans is None:
        plans = [[y] for y in due if y < n]
        rng.shuffle(plans)
        plans = plans[: job.get("nresume", 3)]
        cand = [y for y in due if y < n]
        if len(cand) > 1:
            # crash, resume, crash again, resume
            a = rng.choice(cand[:-1])
            plans.append([a] + [rng.choice([c for c in cand if c > a])])
        if due and due[-1] == n:
            plans.append([n])
    yix = [i for i, e in enumerate(b["hist"]) if e[0] == 4]
    for i, plan in enumerate(plans):
        pin = {"plans": [plan]}
        raw = b["dumps"][plan[0] - 1]
        at = plan[0]
        ok = True
        for j, nxt in enumerate(plan[1:]):
            r = life(resumed, scn, os.path.join(wd, "r%d_%d" % (i, j)), raw, dump=True, want=("dumps",))
            if "_died" in r or "rstart" in r or r["err"] or len(r["dumps"]) < nxt - at:
                ok = False
                break
            s.lives += 1
            raw = r["dumps"][nxt - at - 1]
            at = nxt
            s.fault("crash_restart")
        if not ok or raw is None:
            r = r if not ok else {"rstart": "no snapshot"}
        else:
            r = life(resumed, scn, os.path.join(wd, "r%d" % i), raw, dump=True, want=("dumps",))
        s.fault("crash_restart")
        if "rstart" in r:
            s.bad("C14 C13", "the snapshot of year %s cannot be loaded: %s" % (plan, r["rstart"]), pin)
            continue
        if "_died" in r:
            s.bad("C14", "resumed from the snapshot of year %s the study does not end" % plan, pin)
            continue
        if not s.add(r):
            continue
        if r["err"]:
            s.bad("C14", "resumed from the snapshot of year %s the study fails: %s" % (plan, r["err"]), pin)
            continue
        tail = b["hist"][yix[at - 1] + 1 :]
        if at == n:
            # the study was over: nothing but the report may follow
            if any(e[0] == 4 for e in r["hist"]):
                s.bad("C14", "resumed after its last year the study simulates another", pin)
        else:
            d = first_diff(tail, r["hist"])
            if d:
                s.bad("C14", "resumed from the snapshot of year %s: %s" % (plan, d), pin)
        x, y = annual_tables(b["text"], at + 1), annual_tables(r["text"], at + 1)
        if x is not None and x != y:
            s.bad("C20 C14", "resumed from the snapshot of year %s the tables of the years left differ%s" % (plan, "" if y else " (none written)"), pin)
        x, y = final_report(b["text"]), final_report(r["text"])
        if x != y and not (at == n and y is None):
            s.bad("C14", "resumed from the snapshot of year %s the final report differs%s" % (plan, "" if y else " (none written)"), pin)
    return s.out()


# --------------------------------------------- kind: output faults (C15)
def k_outfault(job, wd):
    scn = scenario(job)
    s = Res(job)
    rng = random.Random(job["seed"] * 59 + 2)
    old = b"REPORT OF AN EARLIER STUDY\n" * rng.randint(1, 40)
    pre = {"output.txt": old} if rng.random() < 0.7 else {}
    if not pre:
        old = b""
    b = life(study, scn, os.path.join(wd, "b"), disk=True, want=("disk", "files"), pre=pre, monitors=False)
    if not s.add(b) or b["err"]:
        return s.out()
    D = D_from(b["disk"])
    name = "w/output.txt"
    size, closed = {}, [0] * (len(D.ops) + 1)
    cur, last = len(old), len(old)
    for k, o in enumerate(D.ops):
        closed[k] = last
        if len(o) > 1 and o[1] == name:
            if o[0] == "write":
                cur = max(cur, o[3] + len(o[4]))
            elif o[0] == "close":
                last = cur
    closed[len(D.ops)] = last
    base = b["files"].get("output.txt") or b""
    if not base.startswith(old):
        s.bad("C15", "text of an earlier study in the output file is gone")
        return s.out()
    # ---- crash points: earlier text stays
    pts = job.get("points")
    if pts is None:
        pts = []
        for k in range(len(D.ops) + 1):
            if k < len(D.ops) and not str(D.ops[k][1]).startswith("w/"):
                continue
            pts += [[k, 0, None, 0], [k, 1, None, rng.randrange(1 << 30)]]
        if len(pts) > 600:
            pts = rng.sample(pts, 600)
    for k, power, torn, q in pts:
        st = D.state_after(k, bool(power), random.Random(q), torn)
        t = st.get(name, b"")
        need = old if power else base[: closed[k]]
        if not t.startswith(need):
            s.bad("C15", "earlier text of the output file lost in a crash before operation %d" % k, {"points": [[k, power, torn, q]], "faultlist": []})
            break
        s.fault("power_crash" if power else "process_crash")
    # ---- failing operations
    fl = job.get("faultlist")
    if fl is None:
        cand = [(k, o) for k, o in enumerate(D.ops) if str(o[1]).startswith("w/") and o[0] in simdisk.KINDS and o[0] not in ("openr", "read")]
        groups = {}
        for k, o in cand:
            groups.setdefault((o[1], o[0]), []).append(k)
        fl = []
        keys = sorted(groups)
        for _ in range(job.get("nfault", 10)):
            g = rng.choice(keys)
            k = rng.choice(groups[g])
            fl.append([{"op": k, "kind": rng.choice(simdisk.KINDS[g[1]])}])
    for i, f in enumerate(fl):
        r = life(study, scn, os.path.join(wd, "f%d" % i), disk=True, faults=f, pre=pre, monitors=False, fault_free=False, want=("files",))
        pin = {"faultlist": [f], "points": []}
        if not s.add(r, " with disk fault %s" % f):
            continue
        if not r["fired"]:
            continue
        for c, kd, p in r["fired"]:
            s.fault("%s_%s" % (c, kd))
        t = r["files"].get("output.txt") or b""
        hit = r["fired"][0]
        if not t.startswith(base[: closed[f[0]["op"]]]):
            s.bad("C15", "earlier text of the output file is damaged after %s of %s" % (hit[1], hit[2]), pin)
        elif r["err"] is None:
            diff = [n for n in sorted(b["files"]) if b["files"][n] != r["files"].get(n)]
            if diff:
                s.bad("C15", "the study ends as if it had succeeded, but %s incomplete after %s on %s of %s" % (diff, hit[1], hit[0], hit[2]), pin)
        elif f[0]["kind"] == "short" and len(r["fired"]) == 1:
            s.bad("C15", "the study fails although a short write could be continued: %s" % (r["err"],), pin)
    return s.out()


# ---------------------------------------------- kind: input faults (C16)
def damage(rng, scn):
    """A random damage to the inputs: JSON-able description."""
    na = len(scn["areas"])
    kind = rng.choice(
        ["missing", "empty", "trunc_load", "trunc_load", "drop_record", "drop_area", "blank_value", "nan_value", "short_record", "column", "column", "header_only", "bad_number", "cell", "cell", "cell", "name", "name", "cut_row", "meta", "bytes", "relabel", "extra_record", "io_open", "io_read", "io_read"]
    )
    d = {"kind": kind}
    if kind in ("missing", "empty", "io_open", "io_read"):
        d["file"] = rng.choice(gen.INPUT_FILES)
        d["errno"] = rng.choice(["EACCES", "EIO", "EMFILE"]) if kind == "io_open" else "EIO"
        d["nth"] = rng.randint(0, 8) if d["file"] == "LEEI" else 0
    elif kind == "trunc_load":
        d["rec"] = rng.choice([0, rng.randrange(730 * na), 730 * na - 1, 730 * rng.randint(0, na - 1)])
        d["inside"] = rng.choice([0, 0, 1])
    elif kind in ("drop_record", "blank_value", "nan_value", "short_record", "bad_number"):
        d["rec"] = rng.randrange(730 * na)
        d["pos"] = rng.randrange(12)
        d["text"] = rng.choice(["nan", "NaN", "inf", "abc", "1e", "--"])
        if kind == "nan_value":
            d["text"] = rng.choice(["nan", "NaN"])
        if kind == "bad_number":
            d["text"] = rng.choice(["abc", "--", "1..2", "x"])
    elif kind == "drop_area":
        d["area"] = rng.randrange(na)
    elif kind in ("cell", "name", "cut_row"):
        f = ["ZZLD.csv", "ZZUD.csv"] if kind == "cell" else ["ZZUD.csv"]
        f += ["ZZMC.csv"] if kind != "name" else []
        f += [n for n, k in (("ZZTD.csv", "lines"), ("ZZFC.csv", "contracts"), ("ZZOD.csv", "owned")) if scn[k]]
        d["file"] = rng.choice(f)
        rows = {"ZZMC.csv": 1, "ZZLD.csv": na, "ZZUD.csv": len(scn["units"]), "ZZTD.csv": len(scn["lines"]), "ZZFC.csv": len(scn["contracts"]), "ZZOD.csv": len(scn["owned"])}
        d["row"] = rng.randrange(rows[d["file"]])
        d["text"] = rng.choice(["", "", "nan", "abc", "1..5", "--"])
        cells = {
            "ZZMC.csv": "SEED LS KVL FIN STEP FREQ MAXE II IJ IN CVT WHERE WHEN KVS KVT".split() + ["END WK1", "END WK2", "END WK3"],
            "ZZLD.csv": ["PEAK (MW)", "LFU", "SUM OF FLOWS CONSTRAINT"],
            "ZZUD.csv": "CAP1 CAP2 CAP3 CAP4 DFOR FOR DER P/A B1 D1 B2 D2".split(),
            "ZZTD.csv": ["LINE NUMBER"],
            "ZZFC.csv": ["BEG DAY", "END DAY", "MW"],
            "ZZOD.csv": ["PERCENT OWNED BY AREA"],
        }
        names = {"ZZUD.csv": ["LOC"], "ZZTD.csv": ["FROM AREA", "TO AREA"], "ZZFC.csv": ["FROM AREA", "TO AREA"], "ZZOD.csv": ["UNIT NAME"]}
        if kind == "name":
            d["column"] = rng.choice(names[d["file"]])
            d["text"] = rng.choice(["NONE", "a1", "A99", ""])
        else:
            d["column"] = rng.choice(cells[d["file"]])
            d["keep"] = rng.randint(2, 5)
    elif kind == "meta":
        if not scn["lines"]:
            return dict(d, kind="missing", file="LEEI", errno="EIO", nth=0)
        d["file"], d["row"], d["pos"] = "ZZTD.csv", rng.randrange(len(scn["lines"])), rng.randrange(24)
        d["text"] = rng.choice([None, "", "abc"])
    elif kind == "bytes":
        d["file"] = rng.choice(["ZZMC.csv", "ZZLD.csv", "ZZUD.csv", "LEEI"])
        d["at"] = rng.random()
    elif kind == "relabel":
        d["area"], d["text"] = rng.randrange(na), rng.choice(["A%d" % (na + 1), "A0X", "", "B"])
    elif kind == "extra_record":
        d["rec"] = rng.randrange(730 * na)
    elif kind in ("column", "header_only"):
        need = {
            "ZZMC.csv": "SEED LS KVL FIN STEP FREQ MAXE II IJ IN CVT WHERE WHEN KVS KVT".split() + ["END WK1", "END WK3"],
            "ZZLD.csv": ["AREA NAME", "PEAK (MW)", "LFU", "SUM OF FLOWS CONSTRAINT"],
            "ZZUD.csv": "NAME LOC CAP1 CAP2 CAP3 CAP4 DFOR FOR DER P/A B1 D1 B2 D2".split(),
            "ZZTD.csv": ["LINE NUMBER", "FROM AREA", "TO AREA", "META DATA"],
            "ZZFC.csv": ["FROM AREA", "TO AREA", "BEG DAY", "END DAY", "MW"],
            "ZZOD.csv": ["UNIT NAME", "PERCENT OWNED BY AREA"],
        }
        if kind == "header_only":
            d["file"] = rng.choice(["ZZMC.csv", "ZZLD.csv", "ZZUD.csv"])
        else:
            f = ["ZZMC.csv", "ZZLD.csv", "ZZUD.csv"]
            if scn["lines"]:
                f.append("ZZTD.csv")
            if scn["contracts"]:
                f.append("ZZFC.csv")
            if scn["owned"]:
                f.append("ZZOD.csv")
            d["file"] = rng.choice(f)
            d["column"] = rng.choice(need[d["file"]])
    return d


def apply_damage(d, ind, scn):
    k = d["kind"]
    p = os.path.join(ind, d.get("file", "LEEI"))
    if k == "missing":
        os.remove(p)
    elif k == "empty":
        open(p, "w").close()
    elif k == "header_only":
        with open(p) as f:
            t = f.readline()
        with open(p, "w") as f:
            f.write(t)
    elif k == "column":
        import csv

        with open(p, newline="") as f:
            rows = list(csv.reader(f, quotechar='"'))
        j = rows[0].index(d["column"])
        with open(p, "w", newline="") as f:
            w = csv.writer(f)
            for r in rows:
                w.writerow(r[:j] + r[j + 1 :])
    elif k in ("cell", "name", "meta", "cut_row"):
        import csv

        with open(p, newline="") as f:
            rows = list(csv.reader(f, quotechar='"'))
        r = rows[1 + d["row"]]
        if k == "meta":
            j = rows[0].index("META DATA")
            m = r[j].split(",")
            if d["text"] is None:
                del m[d["pos"]]
            else:
                m[d["pos"]] = d["text"]
            r[j] = ",".join(m)
        elif k == "cut_row":
            del r[min(d["keep"], len(r) - 1) :]
        else:
            j = rows[0].index(d["column"])
            t = d["text"]
            r[j] = "'%s'" % t if k == "name" and t else t
        with open(p, "w", newline="") as f:
            csv.writer(f).writerows(rows)
    elif k == "bytes":
        with open(p, "rb") as f:
            b = bytearray(f.read())
        b[int(d["at"] * (len(b) - 1))] = 0xFF
        with open(p, "wb") as f:
            f.write(b)
    elif k in ("relabel", "extra_record"):
        with open(p) as f:
            lines = f.read().split("\n")
        if k == "relabel":
            for i, ln in enumerate(lines):
                if ln == "AREA:A%d" % (d["area"] + 1):
                    lines[i] = "AREA:" + d["text"]
        else:
            rec = [i for i, ln in enumerate(lines) if ln and not ln.startswith("AREA")]
            lines.insert(rec[d["rec"]], lines[rec[d["rec"]]])
        with open(p, "w") as f:
            f.write("\n".join(lines))
    elif k in ("trunc_load", "drop_record", "drop_area", "blank_value", "nan_value", "short_record", "bad_number"):
        with open(p) as f:
            lines = f.read().split("\n")
        rec = [i for i, ln in enumerate(lines) if ln and not ln.startswith("AREA")]
        if k == "drop_area":
            a = [i for i, ln in enumerate(lines) if ln.startswith("AREA")]
            lo = a[d["area"]]
            hi = a[d["area"] + 1] if d["area"] + 1 < len(a) else len(lines)
            lines = lines[:lo] + lines[hi:]
        else:
            i = rec[d["rec"]]
            if k == "trunc_load":
                if d["inside"]:
                    lines = lines[:i] + [lines[i][: 21 + 9 * 5]]
                else:
                    lines = lines[:i] + [""]
            elif k == "drop_record":
                del lines[i]
            elif k == "short_record":
                lines[i] = lines[i][: 21 + 9 * max(1, d["pos"])].rstrip()
            else:
                ln = lines[i]
                s = 21 + 9 * d["pos"]
                new = "        " if k == "blank_value" else "%8s" % d["text"]
                lines[i] = ln[:s] + new + ln[s + 8 :]
        with open(p, "w") as f:
            f.write("\n".join(lines))


def k_infault(job, wd):
    scn = scenario(job)
    # the damages go by the columns of the load file
    scn["fmt"] = [x for x in scn.get("fmt") or () if x != "places"]
    s = Res(job)
    rng = random.Random(job["seed"] * 61 + 4)
    ds = job.get("damages")
    if ds is None:
        ds = [damage(rng, scn) for _ in range(job.get("n", 12))]
    # census of the reads, for read faults
    D = None
    if any(d["kind"].startswith("io_") or d["kind"] == "short_read" for d in ds):
        b = life(study, scn, os.path.join(wd, "b"), disk=True, want=("disk",), monitors=False)
        if not s.add(b) or b["err"]:
            return s.out()
        D = D_from(b["disk"])
    for i, d in enumerate(ds):
        e = os.path.join(wd, "d%d" % i)
        faults = []
        if d["kind"] in ("io_open", "io_read"):
            cls = "openr" if d["kind"] == "io_open" else "read"
            ops = [k for k, o in enumerate(D.ops) if o[0] == cls and str(o[1]) == "in/" + d["file"]]
            if not ops:
                continue
            faults = [{"op": ops[min(d["nth"], len(ops) - 1)], "kind": d["errno"]}]
        r = life(
            study, scn, e, disk=bool(faults), faults=faults, monitors=False, fault_free=False, mangle=(None if faults else lambda ind: apply_damage(d, ind, scn))
        )
        pin = {"damages": [d]}
        if not s.add(r, " with input damage %s" % d):
            continue
        s.fault("input_" + d["kind"])
        if faults and not r["fired"]:
            continue
        if r["err"] is None:
            s.bad("C16", "the study completes although the input is damaged: %s" % d, pin)
        elif r["evs"] or r["hist"]:
            s.bad("C16", "simulation began although the input is damaged: %s" % d, pin)
        elif r["text"] is not None and b"RESULTS AFTER" in r["text"]:
            s.bad("C16", "a report was written although the input is damaged: %s" % d, pin)
    # short reads are not damage: the study must not notice
    if job.get("short", 1) and "damages" not in job:
        b = life(study, scn, os.path.join(wd, "b2"), disk=True, want=("disk",), monitors=False)
        if s.add(b) and not b["err"]:
            ops = [k for k, o in enumerate(D_from(b["disk"]).ops) if o[0] == "read" and str(o[1]).startswith("in/")]
            f = [{"op": k, "kind": "short"} for k in ops if rng.random() < 0.5]
            r = life(study, scn, os.path.join(wd, "s"), disk=True, faults=f, monitors=False)
            # short reads shift later numbers: only the first ones are certain to hit
            if s.add(r):
                s.fault("read_short", len(r["fired"]))
                if r["text"] != b["text"] or r["hist"] != b["hist"]:
                    s.bad("C16", "short reads of the input change the study", {"damages": []})
    return s.out()


KIND = {
    "study": k_study,
    "events": k_events,
    "options": k_options,
    "streams": k_streams,
    "residue": k_residue,
    "purity": k_purity,
    "crash": k_crash,
    "resume": k_resume,
    "outfault": k_outfault,
    "infault": k_infault,
}


def run_job(job, wd):
    return KIND[job["kind"]](job, wd)


if __name__ == "__main__":
    # a study in an interpreter of its own (hash seed from the environment)
    scn, d, broken = pickle.load(open(sys.argv[1], "rb"))
    world.load_package()
    mangle = None
    if broken is not None:

        def mangle(ind):
            os.remove(os.path.join(ind, gen.INPUT_FILES[broken % len(gen.INPUT_FILES)]))

    r = study(scn, d, want=("files",), mangle=mangle, fault_free=mangle is None, dump=True)
    with open(sys.argv[1] + ".out", "wb") as f:
        pickle.dump(r, f)
