"""Oracles over the recorded history of one study (see DESIGN.md).

check_study() adds violations (properties, message) to a list and returns the LP
problems to be solved by the batch oracle and coverage counts.
"""
import math
import pickle
import re

import numpy as np

from model import ACCT, EPS, Accounts, Model, Totals

MAXV = 6


class V(list):
    def __init__(self):
        super().__init__()
        self.seen = {}

    def add(self, props, msg):
        k = (props, msg.split(":")[0])
        self.seen[k] = self.seen.get(k, 0) + 1
        if self.seen[k] <= 2:
            self.append((props.split(), msg))


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b))


def vclose(a, b, tol=1e-6):
    return len(a) == len(b) and all(close(float(x), float(y), tol) for x, y in zip(a, b))


def acct_vec(acc, nf):
    out = []
    for n in ACCT:
        v = acc.d[n]
        if n[5] == "A":
            for row in v:
                out += row
        else:
            out += v
    return np.array(out)


def vec_to_dict(vec, na):
    d, p = {}, 0
    for n in ACCT:
        k = na if n[5] == "A" else 1
        x = [list(map(float, vec[p + 5 * i : p + 5 * i + 5])) for i in range(k)]
        d[n] = x if n[5] == "A" else x[0]
        p += 5 * k
    return d


def vec_name(i, na):
    p = 0
    for n in ACCT:
        k = 5 * (na if n[5] == "A" else 1)
        if i < p + k:
            return "%s%s" % (n, [(i - p) // 5, (i - p) % 5] if n[5] == "A" else [i - p])
        p += k
    return str(i)


def lp_stage(m, m_or_lod, caps, lim):
    """Problem record for the LP batch oracle."""


def check_tm2(v, d, e, lps, want_lp):
    bn, blp, lp = d["bn"], d["blp"], d["lp"]
    flow, inj, cur = d["flow"], d["after"][:, 0], d["after"][:, 1]
    na = bn.shape[0]
    s = np.zeros(na)
    for l, (i, j) in enumerate(lp):
        s[i] += flow[l]
        s[j] -= flow[l]
    tol = 0.01
    where = "clock %s" % e["clock"]
    if not (np.isfinite(flow).all() and np.isfinite(inj).all() and np.isfinite(cur).all()):
        v.add("C07", "dispatch not finite: %s" % where)
        return
    if np.abs(s - inj).max() > tol:
        v.add("C07", "line flows do not carry the injections: %s net flow out %s injections %s" % (where, s, inj))
    if abs(inj.sum()) > tol:
        v.add("C07", "injections do not balance the pool: %s %s" % (where, inj))
    if len(lp) and ((flow > blp[:, 1] + tol).any() or (-flow > blp[:, 2] + tol).any()):
        v.add("C07 C08", "a line is loaded beyond its limit: %s flows %s limits %s" % (where, flow, blp[:, 1:3].tolist()))
    if (s > bn[:, 3] + tol).any() or (-s > bn[:, 2] + tol).any():
        v.add("C07 C08", "an area's sum-of-flows limit is exceeded: %s net out %s limits in %s out %s" % (where, s, bn[:, 2], bn[:, 3]))
    if len(lp):
        A = np.zeros((len(lp), na))
        for l, (i, j) in enumerate(lp):
            A[l, i] += abs(blp[l, 0])
            A[l, j] -= abs(blp[l, 0])
        th = np.linalg.lstsq(A, flow, rcond=None)[0]
        if np.abs(A @ th - flow).max() > tol:
            v.add("C07", "flows break the flow equations: %s flows %s" % (where, flow))
    m = bn[:, 1]
    if d["nls"]:
        if (cur < -1e-6).any() or (cur > np.maximum(-m, 0) + tol).any():
            v.add("C07", "curtailment outside an area's own shortfall: %s margins %s curtailed %s" % (where, m, cur))
        if (inj > np.maximum(m, 0) + tol).any() or (inj < np.minimum(m, 0) - tol).any():
            v.add("C07", "an area exports beyond its surplus or imports beyond its deficit: %s margins %s injections %s" % (where, m, inj))
    else:
        if (cur < -1e-6).any() or (cur > bn[:, 0] + tol).any() or (inj - cur > m + tol).any():
            v.add("C07", "shared curtailment infeasible: %s margins %s curtailed %s injections %s" % (where, m, cur, inj))
    if want_lp:
        lps.append(
            {
                "k": "tm2",
                "bn": bn.tolist(),
                "blp": blp.tolist(),
                "lp": lp,
                "nls": d["nls"],
                "nr": d["nr"],
                "tot": float(cur.sum()),
                "where": where,
            }
        )


def trunc_margin(x):
    """(whole megawatts towards zero, near an integer?)"""
    r = round(x)
    amb = abs(x - r) < EPS and x != r
    return int(x), amb


def check_study(v, scn, R, err, lp_cap=0, want_report=None, out_text=None, fault_free=True):
    lps = []
    cov = {"hours": 0, "loss_hours": 0, "dispatches": 0, "lp_dispatches": 0, "fresh": 0, "years": 0, "skipped": 0, "skipped_years": 0, "states": set()}
    m = Model(scn)
    tot = Totals(m)
    na, nf = m.na, m.nf
    hours = m.hours()
    i = 0
    first = True
    acct = None
    draw_ok = True
    sums_ok = True
    last_clock = -1.0
    nlp = 0
    ndisp = sum(len(e.get("disp") or ()) for e in R.ev)
    lp_every = max(1, ndisp // lp_cap) if lp_cap else 0
    seen_hour = any(e["t"] == 1 for e in R.ev)
    lim_true = np.array([[a["sof"], a["sof"]] for a in scn["areas"]])
    for e in R.ev:
        c = e["clock"]
        if c is not None:
            if c < last_clock - 1e-9:
                v.add("C01 C02", "events run out of time order: %s after %s" % (c, last_clock))
            last_clock = c
        if not e.get("done"):
            break
        a0 = e.get("acct0")
        if acct is not None and a0 is not None and not np.array_equal(acct, a0):
            v.add("C09 C10", "annual accounts changed outside any event: before clock %s" % c)
        if e["t"] in (2, 3):
            if a0 is not None and e.get("acct") is not None and not np.array_equal(a0, e["acct"]):
                v.add("C09", "annual accounts changed by an event that is not an hour: clock %s" % c)
            acct = e.get("acct")
            continue
        if e["t"] == 4:
            year = tot.years + 1
            if seen_hour and i != len(hours):
                v.add("C01", "year %d closed after %d of its %d evaluations" % (year, i, len(hours)))
            i = 0
            if a0 is None:
                cov["skipped"] += 1
                cov["skipped_years"] += 1
                tot.years += 1
                continue
            yd = vec_to_dict(a0, na)
            tot.close(yd)
            cov["years"] += 1
            s = e.get("sums")
            if s is not None and sums_ok:
                bad = compare_sums(s, tot, m)
                if bad:
                    sums_ok = False
                    v.add("C10", "year %d not posted correctly: %s" % (year, bad))
            a1 = e.get("acct")
            if a1 is not None and a1.any():
                v.add("C10 C08", "annual accounts not clear after the year end: year %d %s" % (year, vec_name(int(np.nonzero(a1)[0][0]), na)))
            acct = a1
            continue
        # ------------------------------------------------ an evaluated hour
        if i >= len(hours):
            v.add("C01", "an extra evaluation before the year end: clock %s" % c)
            acct = e.get("acct")
            continue
        cand = hours[i]
        obs = None
        if e.get("lev"):
            obs = e["lev"][0][1]
        elif e.get("disp"):
            obs = e["disp"][0]["hour"]
        if obs is not None and obs not in cand:
            v.add("C01", "the wrong hour of the year was evaluated: clock %s hour %s instead of %s" % (c, obs, cand))
        h = obs if obs in cand else cand[0]
        i += 1
        day = h // 24
        cov["hours"] += 1
        # time: the event lies in the right day / hour of the right year
        if c is not None:
            t = tot.years * 8760
            lo, hi = (t + day * 24, t + day * 24 + 24) if m.step == 24 else (t + h, t + h + 1)
            if not (lo - 1e-6 <= c <= hi + 1e-6):
                v.add("C01", "an hour is evaluated at another hour's time: clock %s hour %s year %d" % (c, h, tot.years + 1))
        # draws
        due = m.step >= m.freq or h % 24 == 0 or first
        first = False
        if due:
            m.draw()
        if e.get("gs") is not None and e["gs"][: m.nu] != m.gs:
            if draw_ok:
                k = next((k for k in range(m.nu) if k < len(e["gs"]) and e["gs"][k] != m.gs[k]), -1)
                v.add("C04", "unit stream %d out of step: clock %s" % (k, c))
            draw_ok = False
            m.gs = e["gs"][: m.nu]
        if e.get("ls") is not None and e["ls"][: m.nl] != m.ls:
            if draw_ok:
                v.add("C04", "line streams out of step: clock %s" % c)
            draw_ok = False
            m.ls = e["ls"][: m.nl]
        pct = m.pct
        if e.get("pct") is not None:
            if not vclose(e["pct"], m.pct, 1e-9):
                if draw_ok:
                    k = [k for k in range(m.nu) if not close(e["pct"][k], m.pct[k])]
                    v.add("C04", "unit states differ from the drawn ones: clock %s units %s drawn %s used %s" % (c, k[:4], [m.pct[q] for q in k[:4]], [float(e["pct"][q]) for q in k[:4]]))
                draw_ok = False
            pct = [float(x) for x in e["pct"]]
        ln = m.lst
        if e.get("ln") is not None:
            if e["ln"] != m.lst:
                if draw_ok:
                    v.add("C04", "line states differ from the drawn ones: clock %s drawn %s used %s" % (c, m.lst, e["ln"]))
                draw_ok = False
            ln = e["ln"]
        # planned outages and ratings in force
        pl, rt = m.planned(h), m.rating(h)
        if e.get("pl") is not None and not vclose(e["pl"], pl):
            k = [k for k in range(m.nu) if e["pl"][k] != pl[k]]
            v.add("C05 C01", "planned outages in force are wrong: clock %s hour %d week %d units %s" % (c, h, h // 168 + 1, k))
        if e.get("rt") is not None and not vclose(e["rt"], rt):
            v.add("C05 C01", "ratings in force are wrong: clock %s hour %d season %d" % (c, h, m.season(h) + 1))
        av = [p * r * o for p, r, o in zip(pct, rt, pl)]
        if e.get("av") is not None and not vclose(e["av"], av):
            k = [k for k in range(m.nu) if not close(e["av"][k], av[k])]
            v.add("C05 C06", "capability of a unit is wrong: clock %s hour %d unit %d is %s, should be %s" % (c, h, k[0], e["av"][k[0]], av[k[0]]))
            av = [float(x) for x in e["av"]]
        con, own = m.capacity(av)
        trj = [x - y for x, y in zip(con, own)]
        trn = m.trn[day]
        if e.get("cap") is not None:
            o_own, o_con, o_trj = e["cap"]
            if not vclose(o_con, con):
                v.add("C06", "area capacity is not the sum of its units: clock %s is %s should be %s" % (c, o_con, con))
                con = [float(x) for x in o_con]
            if not vclose(o_own, own):
                v.add("C06", "owned capacity is wrong: clock %s is %s should be %s" % (c, o_own, own))
            if not vclose(o_trj, trj) or abs(sum(map(float, o_trj))) > 1e-6:
                v.add("C06", "transfers of jointly owned capacity are wrong: clock %s is %s should be %s" % (c, o_trj, trj))
        if e.get("trn") is not None and not vclose(e["trn"], trn):
            v.add("C06", "firm contract transfers are wrong: clock %s day %d is %s should be %s" % (c, day + 1, e["trn"], trn))
        cov["states"].add((tuple(pct), tuple(ln), tuple(pl), m.season(h)))
        # forecast levels
        acc = Accounts(na, nf)
        amb = False
        unknown = False
        disp = list(e.get("disp") or [])
        lost = False
        for n in range(nf):
            req = [m.load[a][h] * m.fct[a][n] for a in range(na)]
            if e.get("lev"):
                o = [q for q in e["lev"] if q[0] == n]
                if o and not vclose(o[0][2], req):
                    v.add("C01 C16", "load used is not that of the hour: clock %s hour %d level %d is %s should be %s" % (c, h, n + 1, o[0][2], req))
                    req = [float(x) for x in o[0][2]]
            mg = []
            for a in range(na):
                x, am = trunc_margin(con[a] - req[a])
                amb |= am
                mg.append(x)
            neg = sum(1 for x in mg if x < 0)
            if neg == 0:
                break
            if neg < na:
                if not disp:
                    unknown = True
                    break
                d = disp.pop(0)
                if "sadj" not in d:
                    unknown = True
                    break
                cov["dispatches"] += 1
                if not np.isfinite(d["sadj"]).all():
                    v.add("C07 C09", "dispatch not finite: clock %s %s" % (c, d["sadj"]))
                    unknown = True
                    break
                check_dispatch(v, d, e, m, con, req, trn, trj, ln, lim_true, cov)
                want = lp_every and nlp < lp_cap and (cov["dispatches"] % lp_every == 0)
                if want:
                    nlp += 1
                    if m.s["mc"]["LS"] == 0 or not any(abs(x + y) > 1e-9 for x, y in zip(trn, trj)):
                        lps.append(problem(m, d, con, req, ln, c))
                for q in d["tm2"]:
                    if q["indic"]:
                        cov["lp_dispatches"] += 1
                    check_tm2(v, q, e, lps, want)
                if d["jflag"] == 0:
                    if (d["sadj"] < -0.01).any():
                        v.add("C07", "no loss reported although deficits remain: clock %s %s" % (c, d["sadj"]))
                    break
                mg = []
                for x in d["sadj"]:
                    y, am = trunc_margin(-float(x))
                    amb |= am
                    mg.append(y)
                if not any(x < 0 for x in mg):
                    break
            lost = True
            acc.post(mg, n, m.step == 24 or h in m.pkset[day])
        if m.step == 1 and h in m.pkset[day] and len(m.pkset[day]) > 1:
            amb = True
        if lost:
            cov["loss_hours"] += 1
        a1 = e.get("acct")
        if a0 is not None and a1 is not None:
            if unknown or amb:
                cov["skipped"] += 1
            else:
                diff = a1 - a0
                want = acct_vec(acc, nf)
                if not np.array_equal(diff, want):
                    k = int(np.nonzero(diff != want)[0][0])
                    v.add(
                        "C09 C08 C01",
                        "hour not posted as it came out: clock %s hour %d %s changed by %s should change by %s"
                        % (c, h, vec_name(k, na), diff[k], want[k]),
                    )
        acct = a1
    # ------------------------------------------------------- whole study
    n = tot.years
    if err is None and fault_free:
        check_end(v, R, tot, m, i, seen_hour)
        if out_text is not None:
            check_report(v, out_text, tot, m, scn)
            check_weekly(v, out_text, m)
            if not cov["skipped_years"]:
                check_annual(v, out_text, tot, m)
        check_dumps(v, R, tot, m, scn)
    check_filed(v, R)
    cov["fresh"] = R.nfresh
    cov["sim_hours"] = last_clock if last_clock > 0 else 0
    if R.stdout is not None:
        check_stdout(v, R.stdout, tot)
    return lps, cov, tot, m


def curtailed(jflag, sadj):
    """Without loss the figures are margins left over, with loss curtailments."""
    return float(np.maximum(sadj, 0).sum()) if jflag else 0.0


def problem(m, d, con, req, ln, c):
    """The dispatch problem of an hour, from the inputs alone."""
    caps = m.line_caps(ln)
    lim = [[a["sof"], a["sof"]] for a in m.s["areas"]]
    mg = [con[a] - req[a] for a in range(m.na)]
    nls = m.s["mc"]["LS"]
    return {
        "k": "hour",
        "bn": [[req[a], mg[a], lim[a][0], lim[a][1]] for a in range(m.na)],
        "blp": caps,
        "lp": [[l["from"], l["to"]] for l in m.s["lines"]],
        "nls": nls,
        "nr": 0,
        "tot": curtailed(d["jflag"], d["sadj"]),
        "where": "clock %s" % c,
    }


def check_dispatch(v, d, e, m, con, req, trn, trj, ln, lim_true, cov):
    c = e["clock"]
    if not vclose(d["con"], con) or not vclose(d["req"], req):
        v.add("C06 C01", "the dispatch is given other capacities or loads: clock %s" % c)
    if not vclose(d["trn"], trn) or not vclose(d["trj"], trj):
        v.add("C06", "the dispatch is given other transfers: clock %s" % c)
    if d["ln"] != list(ln):
        v.add("C04", "the dispatch is given other line states: clock %s" % c)
    if not np.allclose(d["lim0"], lim_true):
        v.add("C08 C07", "area limits carry residue of an earlier hour: clock %s %s" % (c, d["lim0"].tolist()))
    # the dispatch must be judged on the lines in force
    caps = np.array(m.line_caps(ln)) if m.nl else np.zeros((0, 3))
    if d["tm2"]:
        q = d["tm2"][0]
        if not np.allclose(q["blp"], caps):
            v.add("C07 C08", "the lines in the dispatch are not those in force: clock %s" % c)
    check_stages(v, d, c, m, con, req, trn, trj, caps)
    if "fresh" in d:
        jf, sadj = d["fresh"]
        a, b = curtailed(d["jflag"], d["sadj"]), curtailed(jf, sadj)
        same = jf == d["jflag"] and np.allclose(d["sadj"], sadj, atol=1e-6)
        simple = m.s["mc"]["LS"] == 0 or not any(abs(x + y) > 1e-9 for x, y in zip(trn, trj))
        if not same and abs(a - b) > 0.01 and simple:
            v.add("C08 C07", "outcome depends on earlier hours: clock %s curtailed %.3f, on fresh state %.3f" % (c, a, b))


def check_stages(v, d, c, m, con, req, trn, trj, caps):
    """Firm transfers are carried first; what they leave serves the shortages."""
    t = d["tm2"]
    if not t:
        return
    con, req = np.array(con), np.array(req)
    tr = np.array(trn) + np.array(trj)
    want = np.maximum(tr, np.minimum(con - req, 0))
    if not np.allclose(t[0]["bn"][:, 1], want, atol=1e-6):
        v.add("C07 C06", "firm transfers put to the network are wrong: clock %s %s should be %s" % (c, t[0]["bn"][:, 1], want))
        return
    inj = t[0]["after"][:, 0]
    left = con - req - inj
    short = (left < -1e-9).any()
    if (left < 0).any() != bool(d["jflag"]) and (left < -1e-6).any() != bool(d["jflag"]):
        v.add("C07", "an hour's loss flag is wrong: clock %s margins after firm transfers %s flag %s" % (c, left, d["jflag"]))
        return
    if not d["jflag"]:
        if not np.allclose(d["sadj"], left, atol=1e-6):
            v.add("C07", "margins reported without loss are wrong: clock %s %s should be %s" % (c, d["sadj"], left))
        return
    if len(t) != 2 or not short:
        return
    ls = m.s["mc"]["LS"]
    if t[1]["nls"] != ls:
        v.add("C07", "loss sharing option not followed: clock %s" % c)
        return
    mg = left if ls else con - req
    if not np.allclose(t[1]["bn"][:, 0], req, atol=1e-6) or not np.allclose(t[1]["bn"][:, 1], mg, atol=1e-6):
        v.add("C07", "loads or margins put to the network are wrong: clock %s %s should be %s" % (c, t[1]["bn"][:, :2].tolist(), mg))
        return
    lim = np.array([[a["sof"], a["sof"]] for a in m.s["areas"]])
    blp = np.array(caps, dtype=float).reshape(-1, 3)
    if ls:
        f = t[0]["flow"]
        s = np.zeros(m.na)
        for k, (i, j) in enumerate(t[0]["lp"]):
            s[i] += f[k]
            s[j] -= f[k]
        if len(blp):
            blp = np.column_stack([blp[:, 0], np.maximum(blp[:, 1] - f, 0), np.maximum(blp[:, 2] + f, 0)])
        lim = np.maximum(np.column_stack([lim[:, 0] + s, lim[:, 1] - s]), 0)
    if not np.allclose(t[1]["blp"], blp, atol=1e-3):
        v.add("C07", "line limits left for the shortages are wrong: clock %s %s should be %s" % (c, t[1]["blp"].tolist(), blp.tolist()))
    elif not np.allclose(t[1]["bn"][:, 2:4], lim, atol=1e-3):
        v.add("C07", "area limits left for the shortages are wrong: clock %s %s should be %s" % (c, t[1]["bn"][:, 2:4].tolist(), lim.tolist()))
    loss = t[1]["after"][:, 0] - mg
    if not np.allclose(d["sadj"], loss, atol=1e-3):
        v.add("C07 C09", "loss reported by the dispatch is not that dispatched: clock %s %s should be %s" % (c, d["sadj"], loss))


def compare_sums(s, tot, m):
    nf = m.nf
    for n, want in tot.S.items():
        got = np.asarray(s[n])
        w = np.array(want)
        g = got[..., :nf] if got.ndim else got
        if not np.allclose(g, w[..., :nf], rtol=1e-9, atol=1e-6):
            return "%s is %s should be %s" % (n, g.tolist(), w[..., :nf].tolist())
    for n, want in tot.W.items():
        if not np.allclose(np.asarray(s[n]), np.array(want), rtol=1e-9, atol=1e-6):
            return "%s is %s should be %s" % (n, np.asarray(s[n]).tolist(), want)
    for n, want in tot.bins.items():
        if not np.allclose(s[n], np.array(want)):
            return "distribution %s is %s should be %s" % (n, np.asarray(s[n]).tolist(), want)
    if not np.allclose(s["XNEWA"], np.array(tot.xa), rtol=1e-9, atol=1e-6):
        return "squares XNEWA"
    if not np.allclose(s["XNEWP"], np.array(tot.xp), rtol=1e-9, atol=1e-6):
        return "squares XNEWP"
    return None


def decisions(tot, m):
    """stop/go/either at each year end, from the series of yearly values."""
    out = []
    full = tot.series
    for k in range(1, len(full) + 1):
        t = Totals(m)
        t.series = full[:k]
        out.append(t.converged())
    return out


def check_end(v, R, tot, m, i, seen_hour):
    if R.contrl_calls and R.contrl_done != 1:
        v.add("C11", "the simulation loop was entered %d times and left %d times" % (R.contrl_calls, R.contrl_done))
    dec = decisions(tot, m)
    n = len(dec)
    if n == 0:
        if any(e["t"] == 1 for e in R.ev):
            v.add("C01 C11", "no year was ever closed")
        return
    for k, x in enumerate(dec[:-1]):
        if x == "stop":
            v.add("C11", "the study ran past year %d although it had converged or reached its limit" % (k + 1))
            break
    if dec[-1] == "go":
        v.add("C11", "the study stopped after year %d without convergence and before its limit" % n)
    if seen_hour and i != 0:
        v.add("C01 C11", "evaluations after the last year was closed: %d" % i)
    if "report" in R.seams:
        if len(R.reports) != 1:
            v.add("C11", "%d final reports" % len(R.reports))
        for r in R.reports:
            if r.get("altered"):
                v.add("C12", "producing the report altered the totals: %s" % r["altered"])


NUM = re.compile(r"^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$|^nan$|^[-+]?inf$")


def num_ok(tok, want):
    """Does the printed token show the value, to its own printed precision?"""
    if not NUM.match(tok):
        return False
    x = float(tok)
    if x != x:
        return False
    dec = len(tok.split(".")[1]) if "." in tok else 0
    return abs(x - want) <= 0.5 * 10**-dec * 1.02 + 1e-6 * abs(want) + 1e-9


def check_stdout(v, text, tot):
    k = 0
    for mm in re.finditer(r"(\d+)-th REPLICATION; SUM=(\S+) NEW=(\S+) MEAN=(\S+) CONVERGENCE=(\S+)", text):
        n = int(mm.group(1))
        if not 5 <= n <= len(tot.series):
            v.add("C11", "running mean printed for year %d of %d" % (n, len(tot.series)))
            continue
        s = tot.series[:n]
        want = (sum(s), s[-1], sum(s) / n)
        got = tuple(float(mm.group(j)) for j in (2, 3, 4))
        if not vclose(got, want, 1e-5):
            v.add("C11 C10", "running figures of year %d: printed %s should be %s" % (n, got, want))
        mean = want[2]
        if mean:
            var = max(sum(x * x for x in s) / n - mean * mean, 0)
            cv = tot.m.s["mc"]["CVT"] or 0.025
            w = (var / n) ** 0.5 / (cv * mean)
            if abs(float(mm.group(5)) - w) > 1e-3 * w + 1e-4 / cv:
                v.add("C11", "convergence figure of year %d: printed %s should be %s" % (n, mm.group(5), w))
        k += 1


def ratio(a, b):
    return a / b if b > 0 else 0.0


def report_rows(tot, m):
    """Expected rows: key -> list of values."""
    y, nf, na = tot.years, m.nf, m.na
    daily = m.step == 24
    rows = {}

    def vals(sl, sn, slp, snp):
        h = [sl / y, ratio(sn, sl), sn / y]
        p = [slp / y, ratio(snp, slp)]
        return p if daily else h + p

    for a in range(na):
        for c in "GTS":
            lab = {"G": "GC", "T": "TC", "S": "GT"}[c]
            if nf != 1:
                for n in range(nf):
                    rows["area", a + 1, str(n + 1), lab] = vals(
                        tot.S["SOL" + c + "HA"][a][n], tot.S["SGN" + c + "HA"][a][n],
                        tot.S["SOL" + c + "PA"][a][n], tot.S["SGN" + c + "PA"][a][n],
                    )
            rows["area", a + 1, "AV", lab] = vals(
                tot.W["SWL" + c + "HA"][a], tot.W["SWN" + c + "HA"][a], tot.W["SWL" + c + "PA"][a], tot.W["SWN" + c + "PA"][a]
            )
    for c in "GTS":
        lab = {"G": "GC", "T": "TC", "S": "GT"}[c]
        if nf != 1:
            for n in range(nf):
                rows["pool", 0, str(n + 1), lab] = vals(
                    tot.S["SOL" + c + "HP"][n], tot.S["SGN" + c + "HP"][n], tot.S["SOL" + c + "PP"][n], tot.S["SGN" + c + "PP"][n]
                )
        rows["pool", 0, "AV", lab] = vals(
            tot.W["SWL" + c + "HP"], tot.W["SWN" + c + "HP"], tot.W["SWL" + c + "PP"], tot.W["SWN" + c + "PP"]
        )
    return rows


def split_report(text):
    """The final report(s) in an output text."""
    k = [x.start() for x in re.finditer("FINAL RESULTS AFTER", text)]
    return k


def check_report(v, text, tot, m, scn):
    k = split_report(text)
    if len(k) != 1:
        v.add("C11 C12 C15", "%d final reports in the output" % len(k))
        if not k:
            return
    body = text[k[0] :]
    mm = re.match(r"FINAL RESULTS AFTER\s+(\S+)\s+REPLICATIONS", body)
    if not mm or not num_ok(mm.group(1), tot.years):
        v.add("C11 C12", "report for %s years instead of %d" % (mm and mm.group(1), tot.years))
    parts = re.split(r"SUMMARY OF RESULTS", body)
    if len(parts) != 2:
        v.add("C12 C15", "no summary in the report")
        return
    head, rest = parts
    want = report_rows(tot, m)
    got = {}
    pool = False
    for ln in head.splitlines():
        if "POOL STATISTICS" in ln:
            pool = True
        t = ln.split()
        if not t or t[-1] not in ("GC", "TC", "GT"):
            continue
        if pool:
            key, vals = ("pool", 0, t[0], t[-1]), t[1:-1]
        else:
            key, vals = ("area", int(t[0]) if t[0].isdigit() else t[0], t[1], t[-1]), t[2:-1]
        if key in got:
            v.add("C12", "row %s printed twice" % (key,))
        got[key] = vals
    for key, w in want.items():
        g = got.pop(key, None)
        if g is None:
            v.add("C12", "row missing from the report: %s" % (key,))
        elif len(g) != len(w) or not all(num_ok(x, y) for x, y in zip(g, w)):
            v.add("C12", "report row %s: printed %s should be %s" % (key, g, w))
    if got:
        v.add("C12", "unexpected row in the report: %s" % list(got)[0].__repr__())
    # summary
    cut = rest.find("PROBABILITY DISTRIBUTIONS")
    summ = rest[: cut if cut >= 0 else None]
    y = tot.years
    daily = m.step == 24
    lines = {}
    for ln in summ.splitlines():
        t = ln.split()
        if t and (t[0] == "ERCOT" or any(t[0] == a["name"] for a in scn["areas"])):
            lines[t[0]] = t[1:]
    tp = tc = 0.0
    cap_known = True
    for a, ar in enumerate(scn["areas"]):
        cap = installed(m, a)
        tp += ar["peak"]
        if cap is None:
            cap_known = False
        else:
            tc += cap
        w = summary_values(m, tot, ar["peak"], cap, tot.W["SWLSHA"][a], tot.W["SWNSHA"][a], tot.W["SWLSPA"][a], tot.xa[a])
        cmp_summary(v, ar["name"], lines.get(ar["name"]), w)
    w = summary_values(m, tot, tp, tc if cap_known else None, tot.W["SWLSHP"], tot.W["SWNSHP"], tot.W["SWLSPP"], tot.xp)
    cmp_summary(v, "ERCOT", lines.get("ERCOT"), w)
    # distributions
    blocks = re.split(r"PROBABILITY DISTRIBUTIONS FOR AREA", rest)[1:]
    if len(blocks) != m.na:
        v.add("C12 C15", "%d distribution tables for %d areas" % (len(blocks), m.na))
        return
    lstep = tot.lstep
    for a, b in enumerate(blocks):
        t = b.split()
        if not t or t[0] != str(a + 1):
            v.add("C12", "distribution tables mislabelled: %s" % (t[:1]))
        rows = [ln.split() for ln in b.splitlines()]
        rows = [r for r in rows if len(r) == 8 and all(NUM.match(x) for x in r)]
        if len(rows) != 22:
            v.add("C12 C15", "distribution table of area %d has %d rows" % (a + 1, len(rows)))
            continue
        for j, r in enumerate(rows):
            d, h, u = tot.bins["DPLOLE"][a][j], tot.bins["HLOLE"][a][j], tot.bins["EUES"][a][j]
            w = [j, d, d / y, h, h / y, j * lstep, u, u / y]
            if not all(num_ok(x, z) for x, z in zip(r, w)):
                v.add("C12 C10", "distribution of area %d row %d: printed %s should be %s" % (a + 1, j, r, w))


def annual_rows(yw, m):
    """Expected rows of one year's table: key -> values."""
    rows = {}
    for s, places in (("A", range(m.na)), ("P", [0])):
        for a in places:
            for c in "GTS":
                lab = {"G": "GC", "T": "TC", "S": "GT"}[c]
                q = [yw[k + c + w + s, a] for k, w in (("LOL", "H"), ("MGN", "H"), ("LOL", "P"), ("MGN", "P"))]
                for n in list(range(m.nf)) + ["AV"]:
                    lh, eh, lp, ep = (x[1] if n == "AV" else x[0][n] for x in q)
                    p = [lp, ratio(ep, lp)]
                    rows[s, a if s == "A" else 0, n, lab] = p if m.step == 24 else [lh, ratio(eh, lh), eh] + p
    return rows


def check_annual(v, text, tot, m):
    """The table printed after each year, where these are asked for."""
    marks = list(re.finditer(r"(FINAL\s+)?RESULTS AFTER\s+(\S+)\s+REPLICATIONS", text))
    tabs = [i for i, x in enumerate(marks) if not x.group(1)]
    if not m.s["mc"]["IJ"]:
        if tabs:
            v.add("C20 C17", "%d annual tables printed although none are asked for" % len(tabs))
        return
    n = [marks[i].group(2) for i in tabs]
    if n != [str(k + 1) for k in range(len(tot.annual))]:
        v.add("C20 C15", "annual tables of the years %s printed, %d years were run" % (n, len(tot.annual)))
        return
    base = None
    for k, i in enumerate(tabs):
        end = marks[i + 1].start() if i + 1 < len(marks) else len(text)
        body = text[marks[i].end() : end]
        cut = body.find("POOL STATISTICS")
        if cut < 0:
            v.add("C20 C15", "no pool figures in the annual table of year %d" % (k + 1))
            return
        got = {}
        for s, part in (("A", body[:cut]), ("P", body[cut:])):
            t = part.split()
            row = []
            for w in t:
                if w in ("GC", "TC", "GT"):
                    z = 2 if s == "A" else 1
                    # the figures of a row come right before its remark
                    while row and not (row[0] == "AV" or NUM.match(row[0])):
                        row.pop(0)
                    key = (s,) + tuple(row[:z]) + (w,)
                    if key in got:
                        v.add("C20", "row %s printed twice in the table of year %d" % (key, k + 1))
                    got[key] = row[z:]
                    row = []
                else:
                    row.append(w)
        if base is None:
            base = 0 if ("A", "0", "AV", "GC") in got else 1
        for (s, a, n, lab), w in annual_rows(tot.annual[k], m).items():
            n = "AV" if n == "AV" else str(n + base)
            key = (s, str(a + base), n, lab) if s == "A" else (s, n, lab)
            g = got.pop(key, None)
            if g is None:
                v.add("C20", "row %s missing from the table of year %d" % (key, k + 1))
                return
            if len(g) != len(w) or not all(num_ok(x, y) for x, y in zip(g, w)):
                v.add("C20", "row %s of the table of year %d: printed %s should be %s" % (key, k + 1, g, w))
                return
        if got:
            v.add("C20", "unexpected row in the table of year %d: %s" % (k + 1, list(got)[0].__repr__()))
            return


def check_weekly(v, text, m):
    """The weekly peaks printed for each area before the simulation are those of its load."""
    for p in re.split(r"WEEKLY PEAK LOAD BEFORE MAINTENANCE SCHEDULING", text)[1:]:
        mm = re.search(r"PLANNED MAINTENANCE SCHEDULE FOR AREA\s+(\d+)", p)
        if not mm:
            continue
        a = int(mm.group(1)) - 1
        got = re.findall(r"-?\d+\.\d+", p[: mm.start()])
        if not 0 <= a < m.na or len(got) != 52:
            v.add("C16", "weekly peaks of area %d: %d figures" % (a + 1, len(got)))
            continue
        for w in range(52):
            h = [m.load[a][k] + m.trn[k // 24][a] for k in range(168 * w, 168 * (w + 1) if w < 51 else 8760)]
            if not num_ok(got[w], max(h)):
                v.add("C16", "the load (with contracts) of week %d of area %d peaks at %s, printed %s" % (w + 1, a + 1, max(h), got[w]))
                break


def installed(m, a):
    """Owned capacity of area a at its (contract-adjusted) peak, or None if tied."""
    adj = [m.load[a][h] + m.trn[h // 24][a] for h in range(8760)]
    mx = max(adj)
    days = {h // 24 for h in range(8760) if adj[h] >= mx - 1e-6}
    if len(days) != 1:
        return None
    d = days.pop()
    k = m.season(d * 24)
    return sum(m.own[i][a] * u["cap"][k] for i, u in enumerate(m.s["units"])) - m.trn[d][a]


def summary_values(m, tot, peak, cap, sl, sn, sp, x):
    y = tot.years
    res = None if cap is None else (cap - peak) / peak * 100

    def sd(q, tv):
        mean = tv / y
        var = max(q / y - mean * mean, 0.0)
        if var < 1e-9 * max(mean * mean, 1e-12):
            return (0.0 if mean else 0.0, True)
        return ((var / y) ** 0.5 / mean * 100 if mean > 0 else 0.0, False)

    if m.step == 24:
        return [peak, cap, res, sp / y, sd(x[2], sp)]
    return [peak, cap, res, sl / y, sd(x[0], sl), sn / y, sd(x[1], sn), sp / y, sd(x[2], sp)]


def cmp_summary(v, name, got, want):
    if got is None:
        v.add("C12", "summary row missing: %s" % name)
        return
    if len(got) != len(want):
        v.add("C12", "summary row of %s: printed %s" % (name, got))
        return
    for g, w in zip(got, want):
        if w is None:
            continue
        if isinstance(w, tuple):
            w, zero = w
            if zero:  # equal years: zero, or rounding noise of a square root
                ok = NUM.match(g) and abs(float(g)) < 0.1
            else:
                ok = num_ok(g, w) or (NUM.match(g) and abs(float(g) - w) < 1e-4 * w + 1e-3)
        else:
            ok = num_ok(g, w)
        if not ok:
            v.add("C12 C10", "summary row of %s: printed %s should be %s" % (name, got, want))
            return


def snapshot_years(scn, n):
    """Years at whose end a snapshot is due, among the first n."""
    iv, fin = scn["mc"]["IN"], scn["mc"]["FIN"]
    return [k for k in range(1, n + 1) if k % iv == 0 or k == fin]


def check_dumps(v, R, tot, m, scn):
    ys = [e for e in R.ev if e["t"] == 4 and e.get("done")]
    if not ys or "dump" not in ys[0] or not R.dump:
        return
    due = set(snapshot_years(scn, len(ys)))
    last = None
    for k, e in enumerate(ys, 1):
        raw = e.get("dump")
        if k in due:
            if raw is None:
                v.add("C13", "no snapshot after year %d" % k)
                continue
            last = k
        if raw is None or last is None:
            continue
        bad = snapshot_bad(raw, ys[last - 1], last, m)
        if bad:
            v.add("C13 C14", "snapshot on disk after year %d is not that of year %d: %s" % (k, last, bad))
            return


def snapshot_bad(raw, e, year, m):
    try:
        d = pickle.loads(raw)
    except Exception as ex:
        return "unreadable (%s)" % type(ex).__name__
    if not isinstance(d, dict):
        return "not a dictionary"
    if "CLOCK" in d and abs(float(d["CLOCK"]) - 8760 * year) > 1e-6:
        return "clock %s" % d["CLOCK"]
    s = e.get("sums")
    if s is not None:
        for n, w in s.items():
            if n not in d:
                return "%s missing" % n
            if not np.array_equal(np.asarray(d[n], dtype=float), w):
                return "%s differs from the closed year's" % n
    return None


def check_filed(v, R):
    """The event list of the run against a sorted multiset."""
    pend = []
    start = None
    n = None
    for r in R.filed:
        if r[0] == 1:
            pend.append((r[1], r[2]))
        elif r[0] == 2:
            if n is not None and r[1] != n + 1:
                v.add("C02", "event count is %d after an insertion into %d" % (r[1], n))
            n = r[1]
        else:
            t, ty, k = r[1], r[2], r[3]
            if n is not None and k != n - 1:
                v.add("C02", "event count is %d after a removal from %d" % (k, n))
            n = k
            if (t, ty) in pend:
                pend.remove((t, ty))
            elif start is None or True:
                # initial entries are written by initl, not filed
                pass
            if any(p[0] < t - 1e-9 for p in pend):
                v.add("C02 C01", "a later event was delivered before an earlier one: %s before %s" % ((t, ty), min(pend)))
                return
