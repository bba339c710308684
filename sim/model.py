"""Executable reference model of a study, written from the meaning of the inputs.

It shares no code with the package under test.  The only thing it does not
compute itself is how a curtailment is split among areas when several splits are
equally good: that is taken from the recorded dispatch of that hour, which is
separately checked for feasibility and minimality.
"""
import gen

M31 = 1 << 31
WEIGHTS = [0.0668, 0.2417, 0.383, 0.2417, 0.0668]
EPS = 1e-7


class Model:
    def __init__(self, scn):
        self.s = scn
        mc = scn["mc"]
        self.na, self.nu, self.nl = len(scn["areas"]), len(scn["units"]), len(scn["lines"])
        self.step, self.freq, self.years = mc["STEP"], mc["FREQ"], mc["FIN"]
        self.qtr = [mc["END WK%d" % k] * 168 for k in (1, 2, 3)]
        lfu = [a["lfu"] / 100.0 for a in scn["areas"]]
        self.nf = 5 if any(lfu) else 1
        self.norr = 2 if self.nf == 5 else 0
        if self.nf == 5:
            self.fct = [[1 + 2.5 * f, 1 + f, 1.0, 1 - f, 1 - 2.5 * f] for f in lfu]
            self.w = WEIGHTS
        else:
            self.fct = [[1.0] for _ in lfu]
            self.w = [1.0]
        raw = gen.raw_load(scn)
        self.load = []
        for a, v in zip(scn["areas"], raw):
            m = max(v)
            self.load.append([x / m * a["peak"] for x in v])
        # contracts: megawatts sent (+) and received (-) by area on each day
        self.trn = [[0.0] * self.na for _ in range(365)]
        for c in scn["contracts"]:
            for d in range(c["beg"] - 1, c["end"]):
                self.trn[d][c["from"]] += c["mw"]
                self.trn[d][c["to"]] -= c["mw"]
        # hour of the day with the highest pool load; every hour within rounding of it
        pool = [sum(self.load[a][h] for a in range(self.na)) for h in range(8760)]
        self.pkset = []
        for d in range(365):
            v = pool[d * 24 : d * 24 + 24]
            m = max(v)
            self.pkset.append([d * 24 + i for i, x in enumerate(v) if x >= m - 1e-6])
        # ownership and location
        own = {o["unit"]: o["pct"] for o in scn["owned"]}
        self.own = []
        for i, u in enumerate(scn["units"]):
            if i in own:
                self.own.append([p / 100.0 for p in own[i]])
            else:
                self.own.append([1.0 if a == u["loc"] else 0.0 for a in range(self.na)])
        self.out = []  # weeks (0-based) of planned outage of each unit
        for u in scn["units"]:
            wk = set()
            for b, d in ((u["b1"], u["d1"]), (u["b2"], u["d2"])):
                if b > 0:
                    wk |= set(range(b - 1, min(52, b - 1 + d)))
            self.out.append(wk)
        self.der = [1 - u["der"] / 100.0 for u in scn["units"]]
        self.p0 = [1 - (u["dfor"] + u["for"]) for u in scn["units"]]
        self.p1 = [1 - u["for"] for u in scn["units"]]
        self.pl = []
        for ln in scn["lines"]:
            c, acc = 0.0, []
            for st in ln["states"]:
                c += st[3]
                acc.append(c)
            self.pl.append(acc)
        self.seed_streams()

    # ------------------------------------------------------------- draws
    def seed_streams(self):
        x, self.gs = self.s["mc"]["SEED"], []
        for _ in range(self.nu):
            x = x * 9649599 % M31
            self.gs.append(x)
        self.ls = []
        for _ in range(self.nl):
            x = x * 9649599 % M31
            self.ls.append(x)

    def draw(self):
        self.pct, self.lst = [], []
        self.r, self.rl = [], []
        for i in range(self.nu):
            self.gs[i] = self.gs[i] * 65539 % M31
            r = self.gs[i] * 0.4656613e-9
            self.r.append(r)
            self.pct.append(1.0 if r < self.p0[i] else self.der[i] if r < self.p1[i] else 0.0)
        for i in range(self.nl):
            self.ls[i] = self.ls[i] * 65539 % M31
            r = self.ls[i] * 0.4656613e-9
            self.rl.append(r)
            k = 0
            while k < 5 and r > self.pl[i][k]:
                k += 1
            self.lst.append(k + 1)

    # ---------------------------------------------------------- calendar
    def season(self, h):
        return sum(1 for q in self.qtr if h >= q)

    def planned(self, h):
        """0 for units on planned outage in hour h of a year, else 1."""
        w = h // 168
        return [0.0 if (w < 52 and w in o) else 1.0 for o in self.out]

    def rating(self, h):
        k = self.season(h)
        return [float(u["cap"][k]) for u in self.s["units"]]

    def hours(self, hod=None):
        """Candidates of each evaluation of a year, in order (lists of hours)."""
        if self.step == 24:
            return self.pkset
        return [[h] for h in range(8760)]

    def capacity(self, avail):
        con = [0.0] * self.na
        own = [0.0] * self.na
        for i, u in enumerate(self.s["units"]):
            con[u["loc"]] += avail[i]
            for a in range(self.na):
                if self.own[i][a]:
                    own[a] += avail[i] * self.own[i][a]
        return con, own

    def line_caps(self, lst):
        """A state given as zero stands for a (nearly) open line: 1 MW, 0.5 admittance."""
        out = []
        for ln, k in zip(self.s["lines"], lst):
            a, c, r = ln["states"][k - 1][:3]
            out.append([a or -0.5, c or 1.0, r or 1.0])
        return out


ACCT = [a + c + w + s for a in ("LOL", "MGN") for c in "GT" for w in "HP" for s in "AP"]


class Accounts:
    """Annual accounts: by name, area (or pool) and forecast level."""

    def __init__(self, na, nf):
        self.na, self.nf = na, nf
        self.d = {n: ([[0.0] * 5 for _ in range(na)] if n[5] == "A" else [0.0] * 5) for n in ACCT}

    def post(self, margin, nst, peak):
        """margin: whole megawatts per area, negative = short."""
        cause = "T" if sum(margin) >= 0 else "G"
        for w in ("H", "P") if peak else ("H",):
            self.d["LOL" + cause + w + "P"][nst] += 1
            for a, m in enumerate(margin):
                if m < 0:
                    self.d["LOL" + cause + w + "A"][a][nst] += 1
                    self.d["MGN" + cause + w + "A"][a][nst] += -m
                    self.d["MGN" + cause + w + "P"][nst] += -m


class Totals:
    """Run totals, squares and frequency distributions."""

    def __init__(self, m):
        self.m = m
        na = m.na
        self.S, self.W = {}, {}
        for k in "LN":
            for c in "GTS":
                for w in "HP":
                    n = "SO" if k == "L" else "SG"
                    self.S[n + ("L" if k == "L" else "N") + c + w + "A"] = [[0.0] * 5 for _ in range(na)]
                    self.S[n + ("L" if k == "L" else "N") + c + w + "P"] = [0.0] * 5
                    self.W["SW" + k + c + w + "A"] = [0.0] * na
                    self.W["SW" + k + c + w + "P"] = 0.0
        self.xa = [[0.0] * 3 for _ in range(na)]
        self.xp = [0.0] * 3
        self.bins = {n: [[0.0] * 22 for _ in range(na)] for n in ("HLOLE", "DPLOLE", "EUES")}
        self.lstep = max(m.s["mc"]["MAXE"] // 20, 1)
        self.years = 0
        self.series = []
        self.annual = []  # per year: (account, area) -> (values by level, weighted value)

    def close(self, acct):
        """acct: dict name -> per area per level / per level, of the year."""
        m, nf = self.m, self.m.nf
        self.years += 1
        yw = {}
        for k, pre, out in (("LOL", "SOL", "SWL"), ("MGN", "SGN", "SWN")):
            for w in "HP":
                for c in "GTS":
                    for s in "AP":
                        for a in range(m.na if s == "A" else 1):
                            g = acct[k + "G" + w + s]
                            t = acct[k + "T" + w + s]
                            g = g[a] if s == "A" else g
                            t = t[a] if s == "A" else t
                            v = [g[n] if c == "G" else t[n] if c == "T" else g[n] + t[n] for n in range(nf)]
                            ww = sum(x * y for x, y in zip(v, m.w))
                            yw[k + c + w + s, a] = (v, ww)
                            if s == "A":
                                for n in range(nf):
                                    self.S[pre + c + w + s][a][n] += v[n]
                                self.W[out + c + w + s][a] += ww
                            else:
                                for n in range(nf):
                                    self.S[pre + c + w + s][n] += v[n]
                                self.W[out + c + w + s] += ww
        for a in range(m.na):
            for i, k in enumerate(("LOLSHA", "MGNSHA", "LOLSPA")):
                self.xa[a][i] += yw[k, a][1] ** 2
            n = m.norr
            h, p, e = (yw[k, a][0][n] for k in ("LOLSHA", "LOLSPA", "MGNSHA"))
            self.bins["HLOLE"][a][int(min(22, h + 1)) - 1] += 1
            self.bins["DPLOLE"][a][int(min(22, p + 1)) - 1] += 1
            self.bins["EUES"][a][min(22, int(e / self.lstep + 1)) - 1] += 1
        for i, k in enumerate(("LOLSHP", "MGNSHP", "LOLSPP")):
            self.xp[i] += yw[k, 0][1] ** 2
        self.annual.append(yw)
        # convergence variable
        mc = m.s["mc"]
        k = ("LOL" if mc["KVS"] == 1 else "MGN") + "S" + ("H" if mc["WHEN"] == 1 else "P")
        v, ww = yw[k + ("A" if mc["WHERE"] == 1 else "P"), mc["KVL"] - 1 if mc["WHERE"] == 1 else 0]
        self.series.append(ww if mc["KVT"] == 1 else v[m.norr])

    def converged(self):
        """'stop' / 'go' / 'either' (too close to call) at the current year end."""
        n = len(self.series)
        if n >= self.m.years:
            return "stop"
        if n < 5:
            return "go"
        mean = sum(self.series) / n
        if mean == 0:
            return "go"
        cv = self.m.s["mc"]["CVT"] or 0.025
        var = sum(x * x for x in self.series) / n - mean * mean
        se = (max(var, 0.0) / n) ** 0.5
        if abs(se - cv * mean) <= 1e-6 * mean:
            return "either" if se > 1e-9 * mean else "stop"
        return "stop" if se < cv * mean else "go"
