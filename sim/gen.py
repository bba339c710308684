"""Seeded generator of studies (scenarios).

A scenario is a plain JSON-able dict from which the input files of a study and
the reference model are both derived.  Everything is drawn from one
random.Random; nothing is read from the environment.
"""
import copy
import math
import os
import random

HOURS = 8760


def gen_load_spec(rng, style):
    return {
        "seed": rng.randrange(1 << 30),
        "phase": [rng.uniform(0, 24) for _ in range(style["na"])],
        "amp": rng.choice([0.05, 0.15, 0.3]),
        "season": rng.choice([0.0, 0.1, 0.2]),
        "sphase": rng.uniform(0, 365),
        "noise": rng.choice([0.02, 0.08, 0.15]),
    }


def raw_load(scn):
    """Raw hourly values of every area, as they are in LEEI."""
    sp = scn["load"]
    out = []
    for a in range(len(scn["areas"])):
        rng = random.Random(sp["seed"] * 1009 + a)
        ph = sp["phase"][a]
        amp, sea, noi = sp["amp"], sp["season"], sp["noise"]
        level, dec = sp.get("level", [1000, 2])
        daily = [math.sin((h - ph) / 24 * 2 * math.pi) for h in range(24)]
        vals = []
        for d in range(365):
            s = 1 + sea * math.cos((d - sp["sphase"]) / 365 * 2 * math.pi)
            wk = 0.96 if d % 7 >= 5 else 1.0
            dn = 1 + noi * rng.uniform(-1, 1)
            for h in range(24):
                v = level * s * wk * dn * (1 + amp * daily[h])
                v *= 1 + 0.01 * rng.uniform(-1, 1)
                vals.append(round(v, dec))
        for ho, f in sp.get("bumps", []):
            vals[ho] = round(vals[ho] * f, dec)
        if "pre" in sp:
            n, f = sp["pre"]
            vals[:n] = [round(x * f, dec) for x in vals[:n]]
        out.append(vals)
    return out


def gen(seed, style=None):
    """One random scenario.  `style` may fix any of the swarm choices."""
    rng = random.Random(seed * 7919 + 17)
    st = {}
    st["na"] = rng.choice([1, 2, 2, 3, 3, 4, 5])
    st["step"] = 24 if rng.random() < 0.85 else 1
    st["freq"] = rng.choice([1, 24])
    st["years"] = rng.choice([1, 2, 3, 5, 6, 7]) if st["step"] == 24 else 1
    st["lfu"] = rng.random() < 0.5
    st["nls"] = rng.choice([0, 1])
    st["contracts"] = rng.random() < 0.5
    st["owned"] = rng.random() < 0.5
    st["planned"] = rng.random() < 0.7
    st["lineout"] = rng.choice([0.0, 0.1, 0.4])
    st["tight"] = rng.choice([0.75, 0.85, 0.95, 1.05])
    st["sof"] = rng.random() < 0.4
    st["intv"] = rng.choice([1, 2, 3, 50])
    st["ioi"] = rng.choice([0, 0, 1])
    st["ioj"] = rng.choice([0, 1])
    st["cvt"] = rng.choice([0.0, 0.001, 0.02, 0.1, 0.3, 1.0])
    st["equal_seasons"] = rng.random() < 0.3
    st["derated"] = rng.random() < 0.6
    st["parallel"] = rng.random() < 0.3
    if style:
        st.update(style)
    na = st["na"]

    # areas and units
    areas, units = [], []
    for a in range(na):
        areas.append(
            {
                "name": "A%d" % (a + 1),
                "peak": 0.0,
                "lfu": rng.choice([0, 1.3, 2.7, 4.1]) if st["lfu"] else 0,
                "sof": float(rng.choice([40, 120, 300])) if st["sof"] and rng.random() < 0.6 else 30000.0,
            }
        )
    if st["lfu"] and not any(a["lfu"] for a in areas):
        areas[0]["lfu"] = 2.7
    sn = 0
    for a in range(na):
        nu = rng.randint(1, 5)
        tot = 0
        for k in range(nu):
            base = 2 * rng.randint(10, 90)
            cap = [base] * 4
            if not st["equal_seasons"]:
                cap = [max(2, base + 2 * rng.randint(-8, 8)) for _ in range(4)]
            f = rng.choice([0.02, 0.05, 0.1, 0.2])
            dfor, der = 0.0, 0
            if st["derated"] and rng.random() < 0.5:
                dfor, der = rng.choice([(0.1, 50), (0.2, 50), (0.05, 25)])
                cap = [4 * ((c + 3) // 4) for c in cap]
            b1 = d1 = b2 = d2 = 0
            pa = 1
            if st["planned"] and rng.random() < 0.6:
                kind = rng.random()
                if kind < 0.25:  # at the very start of the year
                    b1, d1 = 1, rng.randint(1, 4)
                elif kind < 0.5:  # through the very end of the year
                    d1 = rng.randint(1, 5)
                    b1 = 53 - d1
                else:
                    b1, d1 = rng.randint(2, 40), rng.randint(1, 8)
                if rng.random() < 0.4:
                    lo = b1 + d1 + rng.randint(0, 3)
                    if lo <= 52:
                        b2 = rng.randint(lo, 52)
                        d2 = rng.randint(1, 53 - b2)
                        d2 = min(d2, 6)
            elif rng.random() < 0.3:
                pa = 0
            units.append(
                {
                    "name": "A%d%02d%02d" % (a + 1, k + 1, 1),
                    "loc": a,
                    "cap": cap,
                    "dfor": dfor,
                    "for": f,
                    "der": der,
                    "pa": pa,
                    "b1": b1,
                    "d1": d1,
                    "b2": b2,
                    "d2": d2,
                }
            )
            tot += sum(cap) / 4
        areas[a]["peak"] = round(max(20, int(tot * st["tight"] * rng.uniform(0.85, 1.15))) + 0.37, 2)

    # lines: a spanning tree and some more
    pairs = []
    for a in range(1, na):
        p = (a, rng.randrange(a))
        pairs.append(p if rng.random() < 0.5 else p[::-1])
    if na > 1:
        for _ in range(st.get("more_lines") or rng.randint(0, 3)):
            i, j = rng.sample(range(na), 2)
            if not st["parallel"] and ((i, j) in pairs or (j, i) in pairs):
                continue
            pairs.append((i, j))
    lines = []
    for i, j in pairs:
        adm = -float(rng.randint(5, 60))
        cap, capr = float(rng.randint(10, 150)), float(rng.randint(10, 150))
        if rng.random() < 0.5:
            capr = cap
        states = [[adm, cap, capr, 0.0]]
        for s in range(1, 6):
            f = rng.choice([0, 0.25, 0.5, 0.75])
            states.append([adm * f, float(int(cap * f)), float(int(capr * f)), 0.0])
        p = st["lineout"] * rng.choice([0.3, 1.0])
        ns = rng.choice([1, 2, 5])
        q = [round(p / ns, 4) if 1 <= s <= ns else 0.0 for s in range(6)]
        q[0] = round(1 - sum(q), 4)
        for s in range(6):
            states[s][3] = q[s]
        lines.append({"from": i, "to": j, "states": states})

    contracts = []
    if st["contracts"] and na > 1:
        for _ in range(rng.randint(1, 4)):
            i, j = rng.sample(range(na), 2)
            if contracts and rng.random() < 0.4:
                i, j = contracts[-1]["from"], contracts[-1]["to"]
            b = rng.choice([1, rng.randint(1, 365), rng.randint(300, 365)])
            e = rng.choice([365, b, rng.randint(b, 365)])
            contracts.append({"from": i, "to": j, "beg": b, "end": e, "mw": rng.randint(3, 60)})
    owned = []
    if st["owned"] and na > 1:
        for k in rng.sample(range(len(units)), min(len(units), rng.randint(1, 3))):
            pct = [0] * na
            left = 100
            for a in rng.sample(range(na), na):
                pct[a] = rng.choice([0, 25, 50]) if left >= 50 else 0
                left -= pct[a]
            pct[units[k]["loc"] if rng.random() < 0.5 else rng.randrange(na)] += left
            owned.append({"unit": k, "pct": pct})

    w = sorted(rng.sample(range(1, 52), 3))
    if rng.random() < 0.3:
        w = [13, 26, 39]
    mc = {
        "SEED": rng.choice([345237, rng.randrange(1, 2**30) * 2 + 1]),
        "LS": st["nls"],
        "END WK1": w[0],
        "END WK2": w[1],
        "END WK3": w[2],
        "WHERE": rng.choice([1, 2]),
        "WHEN": rng.choice([1, 2]),
        "KVS": rng.choice([1, 2]),
        "KVT": rng.choice([1, 2]),
        "KVL": rng.randint(1, na),
        "CVT": st["cvt"],
        "FIN": st["years"],
        "STEP": st["step"],
        "FREQ": st["freq"],
        "MAXE": rng.choice([20, 100, 1000, 20000]),
        "II": st["ioi"],
        "IJ": st["ioj"],
        "IR": 1,
        "IN": st["intv"],
        "D": 1,
        "M": rng.choice([0, 1]),
    }
    for k in ("SEED", "WHERE", "WHEN", "KVS", "KVT", "KVL", "MAXE", "END WK1", "END WK2", "END WK3"):
        if style and k in style:
            mc[k] = style[k]
    scn = {
        "areas": areas,
        "units": units,
        "lines": lines,
        "contracts": contracts,
        "owned": owned,
        "mc": mc,
        "load": gen_load_spec(rng, st),
    }
    # loads in other units than megawatts
    if rng.random() < (0.75 if st.get("units") else 0.25):
        scn["load"]["level"] = rng.choice([[0.4, 5], [0.9, 4], [20, 3], [40000, 0]])
    # sharp load spikes at the corners of the calendar
    if rng.random() < 0.5:
        bumps = []
        for h in (0, 23, 24, 8736, 8759, w[0] * 168, w[0] * 168 - 1, rng.randrange(HOURS)):
            if rng.random() < 0.5:
                bumps.append([h, 1.25])
        scn["load"]["bumps"] = bumps
    if not st.get("plain"):
        vary(scn, st, seed)
    if st.get("split"):
        split(scn, seed)
    return scn


def split(scn, seed):
    """Take lines away until the network is in two parts; the parts may have loops."""
    rng = random.Random(seed * 65537 + 3)
    na = len(scn["areas"])
    order = list(range(na))
    rng.shuffle(order)
    k = rng.randint(1, na - 1)
    parts = [order[:k], order[k:]]
    lines = [x for x in scn["lines"] if (x["from"] in parts[0]) == (x["to"] in parts[0])]
    if lines:
        for p in parts:
            # lines all over the part, their admittances not round
            for a, b in zip(p, p[1:] + p[: len(p) > 2]):
                x = copy.deepcopy(rng.choice(lines))
                f = rng.uniform(0.5, 2)
                x.update({"from": a, "to": b, "states": [[round(s[0] * f, 2)] + s[1:] for s in x["states"]]})
                lines.append(x)
    scn["lines"] = lines
    scn["split"] = 1


def vary(scn, st, seed):
    """Unusual but valid features, on their own stream so that the base study stays the same."""
    rng = random.Random(seed * 104729 + 71)
    na = len(scn["areas"])
    units = scn["units"]
    if rng.random() < 0.25:  # a large system
        for _ in range(rng.randint(4, 14)):
            u = dict(rng.choice(units))
            u["cap"] = [4 * rng.randint(1, 30) for _ in range(4)] if rng.random() < 0.5 else list(u["cap"])
            u["for"] = rng.choice([0.02, 0.05, 0.1, 0.3])
            units.append(u)
            scn["areas"][u["loc"]]["peak"] = round(scn["areas"][u["loc"]]["peak"] + 0.85 * sum(u["cap"]) / 4, 2)
        k = {}
        for u in units:
            k[u["loc"]] = k.get(u["loc"], 0) + 1
            u["name"] = "A%d%02d%02d" % (u["loc"] + 1, k[u["loc"]], 1)
    for u in units:
        r = rng.random()
        if r < 0.06:  # out of service in a season
            u["cap"] = list(u["cap"])
            u["cap"][rng.randrange(4)] = 0
        elif r < 0.1:  # never fails, or always failed
            u["for"], u["dfor"], u["der"] = rng.choice([(0.0, 0.0, 0), (1.0, 0.0, 0), (0.3, 0.7, 50)])
    if rng.random() < 0.35:  # units not listed area by area
        order = list(range(len(units)))
        rng.shuffle(order)
        units[:] = [units[i] for i in order]
        at = {j: i for i, j in enumerate(order)}
        for o in scn["owned"]:
            o["unit"] = at[o["unit"]]
    if na > 1 and scn["contracts"] and rng.random() < 0.3:  # many contracts
        for _ in range(rng.randint(3, 8)):
            i, j = rng.sample(range(na), 2)
            b = rng.randint(1, 365)
            scn["contracts"].append({"from": i, "to": j, "beg": b, "end": min(365, b + rng.choice([0, 1, 6, 30, 200])), "mw": rng.randint(1, 40)})
    if na > 1 and scn["owned"] and rng.random() < 0.3:  # many shared units, shares in single percents
        have = {o["unit"] for o in scn["owned"]}
        for k in range(len(units)):
            if k not in have and rng.random() < 0.5:
                cut = sorted(rng.randint(0, 100) for _ in range(na - 1))
                scn["owned"].append({"unit": k, "pct": [y - x for x, y in zip([0] + cut, cut + [100])]})
        rng.shuffle(scn["owned"])
    if na > 1 and rng.random() < 0.25:  # names without a common pattern
        pool = ["EAST", "WEST", "X", "N1", "Z9", "KAPA", "B", "A3", "MID", "Q2", "SUD", "V"]
        names = rng.sample(pool + ["R%d" % i for i in range(na - len(pool))], na)
        for a, nm in zip(scn["areas"], names):
            a["name"] = nm
    if na > 1 and rng.random() < 0.2:  # loads not in the order of the areas
        scn["load"]["order"] = rng.sample(range(na), na)
    if rng.random() < 0.15 and na > 1:  # an area with generation only, or load only
        a = rng.randrange(na)
        if rng.random() < 0.5:
            scn["areas"][a]["peak"] = round(scn["areas"][a]["peak"] * 0.02, 2)
        else:
            keep = [i for i, u in enumerate(units) if u["loc"] != a]
            if keep:
                at = {j: i for i, j in enumerate(keep)}
                units[:] = [units[i] for i in keep]
                scn["owned"][:] = [dict(o, unit=at[o["unit"]]) for o in scn["owned"] if o["unit"] in at]
                scn["areas"][a]["peak"] = round(min(scn["areas"][a]["peak"], 60.37), 2)
    if rng.random() < 0.15:  # a system ten times or more as large
        k = rng.choice([10, 40])
        for a in scn["areas"]:
            a["peak"] = round(a["peak"] * k, 2)
            a["sof"] = a["sof"] * k
        for u in units:
            u["cap"] = [c * k for c in u["cap"]]
        for ln in scn["lines"]:
            ln["states"] = [[s[0] * k, s[1] * k, s[2] * k, s[3]] for s in ln["states"]]
        for c in scn["contracts"]:
            c["mw"] *= k
        scn["mc"]["MAXE"] = min(20000, scn["mc"]["MAXE"] * k)
    if rng.random() < 0.12:  # fewer seasons than four
        w = sorted(rng.choice([1, 52, scn["mc"]["END WK1"], scn["mc"]["END WK2"]]) for _ in range(3))
        scn["mc"].update({"END WK%d" % (i + 1): x for i, x in enumerate(w)})
    if rng.random() < 0.15:  # figures that are not whole
        for u in units:
            u["cap"] = [round(c * 1.017, rng.choice([1, 2])) for c in u["cap"]]
            if u["der"]:
                u["der"] = rng.choice([33, 12.5, 66.6])
    if rng.random() < 0.1:
        for ln in scn["lines"]:
            ln["states"] = [[round(s[0] * 1.013, 3), round(s[1] * 1.013, 1), round(s[2] * 1.013, 1), s[3]] for s in ln["states"]]
    if rng.random() < 0.08:
        for c in scn["contracts"]:
            c["mw"] = round(c["mw"] * 1.07, 1)
    if st["lfu"] and rng.random() < 0.1:
        for a in scn["areas"]:
            a["lfu"] = rng.choice([0.5, 8, 15])
    if rng.random() < 0.15:
        scn["mc"]["SEED"] = rng.choice([rng.randint(1, 9999999), 2 * rng.randint(1, 4999999), 1, 2147483647])
    if rng.random() < 0.2:  # the same inputs, written down in another way
        scn["fmt"] = rng.sample(["crlf", "noeol", "unquoted", "dates", "places"], rng.randint(1, 3))
    if rng.random() < 0.1:  # distributions of other widths
        scn["mc"]["MAXE"] = rng.choice([1, 10, 19, 39, 1999, 200000])
    return scn


def near(scn, seed):
    """A valid study that differs from scn in one aspect: (name of the aspect, study)."""
    import copy

    rng = random.Random(seed * 7907 + 5)
    q = copy.deepcopy(scn)
    na, mc = len(q["areas"]), q["mc"]
    can = ["load", "level", "peak", "caps", "rates", "planned", "seed", "options", "seasons", "lfu", "years"]
    if q["lines"]:
        can += ["lines", "lines", "linestates", "turned", "sof"]
    if q["contracts"]:
        can += ["contracts", "contracts", "days"]
    if q["owned"]:
        can += ["owned"]
    if na > 1:
        can += ["names", "places"]
    kind = rng.choice(can)
    if kind == "load":
        q["load"]["seed"] += 1
    elif kind == "level":
        q["load"]["bumps"] = [[h, 1.25] for h in rng.sample(range(HOURS), 6)]
    elif kind == "peak":
        a = rng.choice(q["areas"])
        a["peak"] = round(a["peak"] * rng.choice([0.8, 1.1]), 2)
    elif kind == "caps":
        for u in q["units"]:
            u["cap"] = u["cap"][1:] + u["cap"][:1] if rng.random() < 0.5 else [4 * ((c + 7) // 4) for c in u["cap"]]
    elif kind == "rates":
        for u in q["units"]:
            u["for"], u["dfor"], u["der"] = rng.choice([(0.02, 0.0, 0), (0.1, 0.1, 50), (0.3, 0.0, 0)])
    elif kind == "planned":
        for u in q["units"]:
            u["b1"], u["d1"], u["b2"], u["d2"], u["pa"] = rng.choice([(1, 2, 0, 0, 1), (0, 0, 0, 0, 1), (20, 3, 51, 2, 1)])
    elif kind == "seed":
        mc["SEED"] += 2 * rng.randint(1, 1000)
    elif kind == "options":
        mc["LS"] = 1 - mc["LS"]
        mc["WHERE"], mc["WHEN"], mc["MAXE"] = 3 - mc["WHERE"], 3 - mc["WHEN"], mc["MAXE"] * 2
    elif kind == "seasons":
        mc["END WK1"], mc["END WK2"], mc["END WK3"] = sorted(rng.sample(range(1, 52), 3))
    elif kind == "lfu":
        for a in q["areas"]:
            a["lfu"] = 0 if a["lfu"] else 2.7
    elif kind == "years":
        mc["FIN"] += 1
        mc["IN"] = 1 if mc["IN"] > 1 else 2
    elif kind == "lines":
        for ln in q["lines"]:
            k = rng.choice([0.5, 1.5])
            ln["states"] = [[s[0], float(int(s[1] * k)), float(int(s[2] * k)), s[3]] for s in ln["states"]]
    elif kind == "linestates":
        for ln in q["lines"]:
            for j, s in enumerate(ln["states"]):
                s[3] = [0.7, 0.3, 0, 0, 0, 0][j]
    elif kind == "turned":
        for ln in q["lines"]:
            ln["from"], ln["to"] = ln["to"], ln["from"]
    elif kind == "sof":
        for a in q["areas"]:
            a["sof"] = 30000.0 if a["sof"] < 30000 else 40.0
    elif kind == "contracts":
        for c in q["contracts"]:
            c["mw"] += rng.randint(1, 30)
    elif kind == "days":
        for c in q["contracts"]:
            c["beg"], c["end"] = rng.choice([(1, 365), (1, 100), (200, 365)])
    elif kind == "owned":
        for o in q["owned"]:
            o["pct"] = o["pct"][1:] + o["pct"][:1]
    elif kind == "names":
        n = [a["name"] for a in q["areas"]]
        for a, m in zip(q["areas"], n[1:] + n[:1]):
            a["name"] = m
    elif kind == "places":
        for u in q["units"]:
            u["loc"] = (u["loc"] + 1) % na
    return kind, q


# ---------------------------------------------------------------- input files
MC_COLS = "SEED,LS,END WK1,END WK2,END WK3,WHERE,WHEN,KVS,KVT,KVL,CVT,FIN,STEP,FREQ,MAXE,II,IJ,IR,IN,D,M"


def write_inputs(scn, folder):
    os.makedirs(folder, exist_ok=True)

    fmt = scn.get("fmt") or ()

    def put(name, text):
        if "noeol" in fmt:
            text = text.rstrip("\n")
        if "crlf" in fmt:
            text = text.replace("\n", "\r\n")
        if "unquoted" in fmt:
            text = text.replace("'", "")
        with open(os.path.join(folder, name), "w", newline="") as f:
            f.write(text)

    put("ZZTC.csv", "SIMULATED STUDY\nSECOND TITLE\nTHIRD TITLE\n")
    mc = scn["mc"]
    put("ZZMC.csv", MC_COLS + "\n" + ",".join(str(mc[c]) for c in MC_COLS.split(",")) + "\n")
    t = ["SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,FORBIDDEN END WK,SUM OF FLOWS CONSTRAINT"]
    for i, a in enumerate(scn["areas"]):
        t.append("%d,'%s',%s,%s,1,52,31,32,%s" % (i + 1, a["name"], a["peak"], a["lfu"], a["sof"]))
    put("ZZLD.csv", "\n".join(t) + "\n")
    t = ["SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2"]
    for i, u in enumerate(scn["units"]):
        t.append(
            "%d,'%s','%s',%s,%s,%s,%s,%s,%s,%s,%d,%d,%d,%d,%d"
            % (
                (i + 1, u["name"], scn["areas"][u["loc"]]["name"])
                + tuple(u["cap"])
                + (u["dfor"], u["for"], u["der"], u["pa"], u["b1"], u["d1"], u["b2"], u["d2"])
            )
        )
    put("ZZUD.csv", "\n".join(t) + "\n")
    t = ["SN,LINE NUMBER,FROM AREA,TO AREA,META DATA"]
    for i, ln in enumerate(scn["lines"]):
        meta = ",".join("%s ,%s ,%s ,%s" % tuple(s) for s in ln["states"])
        t.append(
            '%d,%d,\'%s\',\'%s\',"%s"'
            % (i + 1, i + 1, scn["areas"][ln["from"]]["name"], scn["areas"][ln["to"]]["name"], meta)
        )
    put("ZZTD.csv", "\n".join(t) + "\n")
    t = ["SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW"]
    for i, c in enumerate(scn["contracts"]):
        t.append(
            "%d,'%s','%s',%d,%d,%s"
            % (i + 1, scn["areas"][c["from"]]["name"], scn["areas"][c["to"]]["name"], c["beg"], c["end"], c["mw"])
        )
    put("ZZFC.csv", "\n".join(t) + "\n")
    t = ["SN,UNIT NAME,PERCENT OWNED BY AREA"]
    for i, o in enumerate(scn["owned"]):
        pct = ",".join(str(p) for p in o["pct"])
        t.append("%d,'%s',%s" % (i + 1, scn["units"][o["unit"]]["name"], '"%s"' % pct if len(o["pct"]) > 1 else pct))
    put("ZZOD.csv", "\n".join(t) + "\n")
    put("ZZDD.csv", "SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD\n")
    t = []
    loads = raw_load(scn)
    for a in scn["load"].get("order") or range(len(loads)):
        vals = loads[a]
        t.append("AREA:A%d" % (a + 1))  # the file numbers the areas
        for k in range(730):
            n = scn["load"].get("level", [0, 2])[1]
            row = " ".join(("%.*f" if "places" in fmt else "%8.*f") % (n, v) for v in vals[12 * k : 12 * k + 12])
            dated = k == 0 or ("dates" in fmt and k % 2 == 0)
            t.append(("%02d%02d                 " % (1 + k // 62, 1 + k // 2 % 31) if dated else "                     ") + row)
    put("LEEI", "\n".join(t) + "\n")


INPUT_FILES = ["ZZTC.csv", "ZZMC.csv", "ZZLD.csv", "ZZUD.csv", "ZZTD.csv", "ZZFC.csv", "ZZOD.csv", "ZZDD.csv", "LEEI"]
