"""What each check runs: jobs per property and tier, all derived from one seed."""
import random

LEVEL = {p: "exploration" for p in ["C%02d" % i for i in range(1, 18)] + ["C20"]}
LEVEL["C13"] = "fault_enumeration"

RULE = (
    "Each case is one whole study (input files generated from a seed, read, simulated and reported by the real code); "
    "it counts as distinct when its recorded history, ending and report hash differently from every other case of this run."
)
META = {p: {"rule": RULE} for p in LEVEL}
META["C02"] = {
    "rule": "Histories of scheduling and delivery generated from a seed (ties, past and future times, near-full lists) run on the real event list against a sorted multiset, and the event histories of whole studies; a job of histories counts once as distinct by its digest.",
    "states": "hash of a history of insertions and removals",
}
META["C13"] = {
    "rule": RULE + " For every study each crash point between and inside file operations is enumerated from its journal.",
    "stubs": "the disk: real files below an interposed layer that numbers, journals and fails operations; crashes rebuild the durable files from the journal",
    "assumptions": [
        "name changes reach the disk in order; a later fsync of any file commits earlier name changes",
        "an fsync that returned made the file's contents durable",
    ],
}
for _p in ("C15", "C16"):
    META[_p]["stubs"] = "the disk: real files below an interposed layer that numbers, journals and fails operations"


def J(kind, seed, style=None, **k):
    d = {"kind": kind, "seed": seed}
    if style:
        d["style"] = style
    d.update(k)
    return d


def long(s, c, **k):
    """A small system over many years."""
    return dict({"step": 24, "na": c([1, 1, 2]), "years": c([20, 30, 45]), "cvt": 1e-9, "plain": True, "tight": 0.75, "lfu": c([False, False, True]), "contracts": c([False, True]), "lineout": 0.1}, **k)


def jobs_for(prop, rng):
    """An endless stream of jobs for a property."""
    n = 0
    while True:
        n += 1
        s = rng.randrange(1 << 30)
        c = rng.choice
        if prop == "C01":
            k = n % 4
            if k == 0:
                yield J("study", s, {"step": 1, "na": c([1, 1, 2]), "years": c([1, 1, 2]), "tight": 0.75, "lfu": rng.random() < 0.3, "lineout": 0.0})
            elif n % 16 == 1:
                yield J("study", s, long(s, c, na=1))
            elif k == 1:
                yield J("study", s, {"step": 24, "na": c([1, 2]), "years": c([5, 6, 8]), "cvt": 0.001})
            else:
                yield J("study", s, {"step": 24, "na": c([1, 2, 3]), "years": c([1, 2, 3])})
        elif prop == "C02":
            if n % 5:
                yield J("events", s, n=400)
            else:
                yield J("study", s, {"step": c([24, 24, 1]), "na": 1, "years": c([1, 2, 3])})
        elif prop == "C03":
            st = {"step": 24, "na": c([1, 2, 3]), "years": c([1, 2, 3]), "intv": c([1, 2])}
            if n % 6 == 0:
                yield J("purity", s, st, broken=rng.randrange(9))
            else:
                yield J("purity", s, st, exec=n % 3 == 0)
        elif prop == "C04":
            k = n % 3
            if k == 0:
                yield J("streams", s, {"step": 24, "na": c([1, 2, 3]), "years": c([1, 2])})
            elif k == 1 and n % 2:
                yield J("study", s, {"step": 1, "na": c([1, 2]), "years": 1, "tight": 0.75, "lfu": False, "freq": c([1, 24]), "lineout": c([0.0, 0.3])})
            else:
                yield J("study", s, {"step": 24, "na": c([1, 2, 3, 4]), "years": c([1, 2, 4]), "lineout": c([0.1, 0.4])})
        elif prop == "C05":
            if n % 5 == 0:
                yield J("study", s, {"step": 1, "na": 1, "years": c([1, 2]), "planned": True, "equal_seasons": False})
            else:
                yield J("study", s, {"step": 24, "na": c([1, 1, 2, 3]), "years": c([1, 2, 3]), "planned": True, "equal_seasons": False, "tight": c([0.75, 0.95])})
        elif prop == "C06":
            yield J(
                "study", s,
                {"step": 24 if n % 6 else 1, "na": c([2, 3, 3, 4, 5, 7]) if n % 6 else 2, "years": c([1, 2]) if n % 6 else 1, "contracts": True, "owned": True, "lfu": rng.random() < 0.25, "tight": c([0.75, 0.95]) if n % 6 else 0.75},
            )
        elif prop == "C07" and n % 6 == 5:
            yield J("study", s, {"step": 24, "na": c([2, 3, 4, 5, 6, 7]), "years": 1, "tight": 1.0, "lineout": c([0.0, 0.1]), "nls": c([0, 1]), "contracts": rng.random() < 0.3, "owned": 0, "split": 1}, lp=20)
        elif prop == "C07" and n % 40 == 4:
            # beyond the sizes the dispatch was first written for
            yield J("study", s, {"step": 24, "na": c([12, 16, 20]), "more_lines": c([24, 40, 60]), "parallel": True, "years": 1, "tight": c([0.5, 0.55, 0.6]), "lineout": c([0.1, 0.4]), "nls": c([0, 1]), "contracts": rng.random() < 0.4, "owned": 0, "sof": rng.random() < 0.5}, lp=20)
        elif prop == "C07":
            yield J(
                "study", s,
                {"step": 24, "na": c([2, 3, 3, 4, 5, 6, 8]), "years": 1, "tight": c([0.85, 0.95, 1.05]), "lineout": c([0.0, 0.1, 0.4]), "lfu": rng.random() < 0.3, "nls": c([0, 1]), "sof": rng.random() < 0.5, "contracts": rng.random() < 0.4, "owned": rng.random() < 0.3},
                lp=90,
            )
        elif prop == "C08":
            st = {"step": 24, "na": c([2, 3, 3, 4, 5, 7]), "years": c([1, 2]), "tight": c([0.85, 0.95]), "lineout": c([0.1, 0.4]), "sof": rng.random() < 0.6, "lfu": rng.random() < 0.5}
            if n % 3 == 0:
                yield J("residue", s, dict(st, years=1))
            else:
                yield J("study", s, st, fresh=c([1, 2, 3]))
        elif prop == "C09":
            if n % 7 == 0:
                yield J("study", s, {"step": 1, "na": c([1, 2]), "years": 1, "tight": 0.75, "lfu": rng.random() < 0.4, "lineout": 0.0})
            else:
                yield J("study", s, {"step": 24, "na": c([1, 2, 3, 4]), "years": c([1, 2]), "tight": c([0.95, 1.05]), "lfu": rng.random() < 0.7})
        elif prop == "C10" and n % 25 == 7:
            yield J("study", s, long(s, c, tight=0.85))
        elif prop == "C10":
            yield J("study", s, {"step": 24 if n % 8 else 1, "na": c([1, 2, 3, 5]) if n % 8 else 1, "years": c([2, 3, 6, 9]) if n % 8 else 2, "lfu": rng.random() < 0.7, "MAXE": c([20, 40, 100, 1000, 20000]), "tight": c([0.75, 0.85, 0.95])})
        elif prop == "C11":
            if n % 20 == 3:
                yield J("study", s, long(s, c, cvt=c([1e-9, 0.02, 0.05])))
                continue
            if n % 4 == 0:
                # hour by hour the indexes differ most: each choice in turn
                q = n // 4
                yield J("study", s, {"step": 1, "na": c([1, 1, 1, 2]), "years": c([5, 5, 5, 6]), "cvt": c([0.02, 0.1, 0.3, 1.0]), "lfu": False, "tight": c([0.6, 0.7]), "lineout": 0.1, "KVS": 1 + q % 2, "WHEN": 1 + q // 2 % 2, "WHERE": 1 + q // 4 % 2, "KVT": 1 + q // 8 % 2})
                continue
            yield J("study", s, {"step": 24, "na": c([1, 1, 2, 3]), "years": c([4, 5, 6, 8, 10, 14]), "cvt": c([0.0, 0.001, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 1.0]), "lfu": rng.random() < 0.4, "tight": c([0.6, 0.75, 0.85, 0.95]), "lineout": c([0.0, 0.1])})
        elif prop == "C12":
            yield J("study", s, {"step": 24 if n % 6 else 1, "na": c([1, 2, 3, 4, 5]) if n % 6 else 2, "years": c([1, 2, 3, 6]) if n % 6 else 1, "lfu": rng.random() < 0.6, "tight": c([0.6, 0.75, 0.95]) if n % 6 else 0.75, "lineout": c([0.0, 0.1, 0.4])})
        elif prop == "C13" and n % 30 == 4:
            yield J("crash", s, long(s, c, na=1, intv=c([1, 4, 7, 50])), nfault=3)
        elif prop == "C13":
            yield J("crash", s, {"step": 24, "na": c([1, 1, 2]), "years": c([1, 2, 3, 5, 7]), "intv": c([1, 1, 2, 3, 50]), "tight": 0.75, "lfu": rng.random() < 0.3, "cvt": c([0.001, 0.3])}, nfault=5)
        elif prop == "C14" and n % 20 == 4:
            yield J("resume", s, long(s, c, na=1, intv=c([1, 4, 7])), nresume=2)
        elif prop == "C14":
            yield J("resume", s, {"step": 24 if n % 9 else 1, "na": c([1, 2, 3]) if n % 9 else 1, "years": c([2, 3, 5, 6, 8]) if n % 9 else 2, "intv": c([1, 1, 2, 3]), "cvt": c([0.001, 0.02, 0.2, 1.0]), "freq": c([1, 24])}, nresume=3)
        elif prop == "C15":
            yield J("outfault", s, {"step": 24, "na": c([1, 2, 3]), "years": c([1, 1, 2, 2, 2, 5]), "ioj": c([0, 1]), "ioi": c([0, 1]), "intv": c([1, 2]), "tight": c([0.75, 0.95])}, nfault=10)
        elif prop == "C16":
            if n % 4 == 0:
                yield J("study", s, {"step": 24, "na": c([1, 2, 3, 5]), "years": 1, "units": True})
            else:
                yield J("infault", s, {"step": 24, "na": c([1, 2, 3]), "years": 1}, n=14)
        elif prop == "C17" and n % 6 == 4:
            # long enough for convergence to be judged
            yield J("options", s, {"step": 24, "na": c([1, 2]), "years": c([6, 7, 9]), "lfu": True, "cvt": c([0.02, 0.1, 0.3]), "tight": c([0.75, 0.85]), "lineout": 0.1, "KVT": c([1, 2])}, nvar=2)
        elif prop == "C17":
            yield J("options", s, {"step": 24 if n % 8 else 1, "na": c([1, 2, 2, 3, 3, 4]) if n % 8 else 1, "years": c([1, 1, 2, 6 if n % 3 == 0 else 1]) if n % 8 else 1, "lfu": rng.random() < 0.25, "tight": c([0.85, 0.95]) if n % 8 else 0.75, "lineout": c([0.1, 0.4])}, nvar=2)
        elif prop == "C20" and n % 6 == 2:
            yield J("resume", s, {"step": 24, "na": c([1, 2]), "years": c([3, 5, 6]), "intv": c([1, 2]), "cvt": c([0.001, 0.2]), "ioj": 1}, nresume=2)
        elif prop == "C20":
            yield J("study", s, {"step": 24 if n % 4 else 1, "na": c([1, 2, 3, 4]) if n % 4 else c([1, 2]), "years": c([1, 2, 3, 6]) if n % 4 else c([1, 1, 2]), "ioj": 0 if n % 24 == 5 else 1, "lfu": rng.random() < 0.6, "tight": c([0.6, 0.75, 0.95]) if n % 4 else 0.75, "lineout": c([0.0, 0.1, 0.4])})


# jobs per quick check, sized to about half a minute on eight processors
QUICK = {
    "C01": 160, "C02": 120, "C03": 48, "C04": 120, "C05": 200, "C06": 140, "C07": 120, "C08": 80, "C09": 110,
    "C10": 100, "C11": 128, "C12": 140, "C13": 90, "C14": 60, "C15": 80, "C16": 90, "C17": 60, "C20": 100,
}


def batches(prop, tier, seed):
    rng = random.Random("%s/%d" % (prop, seed))
    it = jobs_for(prop, rng)
    n = QUICK[prop] * (40 if tier == "thorough" else 1)
    out = []
    while n > 0:
        k = min(n, 64)
        out.append([next(it) for _ in range(k)])
        n -= k
    widen(prop, out, random.Random("wide/%s/%d" % (prop, seed)))
    return out


def widen(prop, groups, rng):
    """Make some of the short studies ones of many areas and lines."""
    if prop not in ("C06", "C08", "C09", "C10", "C12", "C16", "C17", "C20"):
        return
    left = 0
    for g in groups:
        for j in g:
            st = j.get("style") or {}
            left -= 1
            if left > 0 or st.get("step") != 24 or st.get("years", 9) > 2 or j["kind"] not in ("study", "residue", "infault", "options"):
                continue
            st.update({"na": rng.choice([9, 11, 13, 16, 20]), "more_lines": rng.choice([0, 10, 10, 40]), "parallel": True, "tight": rng.choice([0.5, 0.6]), "years": 1})
            left = 30
