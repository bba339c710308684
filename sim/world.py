"""The simulated world one study runs in: recording seams around the package's
functions, and forked, CPU-limited, isolated execution of runs.

Nothing in /repo is edited: every module attribute that refers to a function of
interest is replaced in the child process by a wrapper that records and calls
through.  A seam that cannot be found is left out (and reported in `seams`).
"""
import contextlib
import importlib
import inspect
import io
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "reliabilityassessment"
PARAMS = json.load(open(os.path.join(HERE, "params.json")))

ACCT = [a + c + w + s for a in ("LOL", "MGN") for c in "GT" for w in "HP" for s in "AP"]
SUMS = (
    [p + c + w + s for p in ("SOL", "SGN", "SWL", "SWN") for c in "GTS" for w in "HP" for s in "AP"]
    + ["HLOLE", "DPLOLE", "EUES", "XNEWA", "XNEWP"]
)


HELD = frozenset(ACCT + SUMS)


class Budget(BaseException):
    """The study used up its event budget: it does not terminate."""


def load_package():
    """Import every non-test module of the package from the working tree."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    root = os.path.join(REPO, PKG)
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in ("tests", "integration_test", "__pycache__"))
        for f in sorted(fn):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(dp, f), REPO)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    importlib.import_module(rel)
                except Exception:
                    if rel.endswith("narpMain"):
                        raise
    import reliabilityassessment

    assert os.path.abspath(reliabilityassessment.__file__ or list(reliabilityassessment.__path__)[0]).startswith(
        os.path.abspath(REPO)
    ), "package not imported from " + REPO


def pkg_modules():
    return [m for n, m in list(sys.modules.items()) if m and (n == PKG or n.startswith(PKG + "."))]


def find(name):
    for sub in ("monte_carlo", "data_processing"):
        m = sys.modules.get("%s.%s.%s" % (PKG, sub, name))
        f = getattr(m, name, None) if m else None
        if callable(f):
            return f
    return None


def replace_everywhere(old, new):
    n = 0
    for m in pkg_modules():
        for k, v in list(vars(m).items()):
            if v is old:
                setattr(m, k, new)
                n += 1
            elif isinstance(v, dict):
                for kk, vv in list(v.items()):
                    if vv is old:
                        v[kk] = new
            elif isinstance(v, list):
                for i, vv in enumerate(v):
                    if vv is old:
                        v[i] = new
    return n


class Args:
    """Arguments of one call by parameter name (or original position)."""

    def __init__(self, names, orig, a, k):
        self.d = dict(zip(names, a))
        self.d.update(k)
        self.o = orig
        self.a = a

    def get(self, name, default=None):
        if name in self.d:
            return self.d[name]
        if name in self.o and len(self.a) == len(self.o):
            return self.a[self.o.index(name)]
        return default


class Recorder:
    def __init__(self, fresh_every=0, budget=None, keep_dispatch=True, resume=None, dump=True):
        import numpy as np

        self.np = np
        self.ev = []
        self.cur = None
        self.G = None
        self.mute = False
        self.seams = {}
        self.notes = []
        self.reports = []
        self.contrl_calls = 0
        self.contrl_done = 0
        self.fresh_every = fresh_every
        self.nfresh = 0
        self.nq = 0
        self.budget = budget
        self.keep_dispatch = keep_dispatch
        self.resume = resume
        self.snap = []
        self.dump = dump
        self.on_event = None
        self.quiet = contextlib.nullcontext
        self.filed = []
        self.BN0 = None
        self.closing = None
        self.last_acct = None

    # ------------------------------------------------------------ plumbing
    def install(self):
        for n in (
            "gstate lstate findtn findld sumcap transm tm2 hour week quartr year report intm contrl filem remove".split()
        ):
            f = find(n)
            h = getattr(self, "w_" + n, None)
            if f is None or h is None:
                continue
            self.seams[n] = 0
            try:
                names = list(inspect.signature(f).parameters)
            except Exception:
                names = PARAMS[n]
            replace_everywhere(f, self.wrap(n, f, h, names, PARAMS.get(n, names)))

    def wrap(self, n, f, h, names, orig):
        def wrapper(*a, **k):
            if self.mute:
                return f(*a, **k)
            self.seams[n] += 1
            return h(f, a, k, Args(names, orig, a, k))

        wrapper.__name__ = getattr(f, "__name__", n)
        wrapper.__wrapped__ = f
        return wrapper

    def note(self):
        if len(self.notes) < 5:
            self.notes.append(traceback.format_exc()[-400:])

    def acct(self):
        np, G = self.np, self.G
        if G is None:
            return None
        try:
            return np.concatenate([np.asarray(G[n], dtype=float).ravel() for n in ACCT])
        except Exception:
            self.note()
            return None

    def sums(self):
        np, G = self.np, self.G
        if G is None:
            return None
        try:
            return {n: np.array(G[n], dtype=float) for n in SUMS}
        except Exception:
            self.note()
            return None

    def arr(self, x):
        return None if x is None else self.np.array(x, dtype=float)

    # ------------------------------------------------------------ wrappers
    def w_contrl(self, f, a, k, b):
        self.contrl_calls += 1
        if self.resume is not None:
            snap, names = self.resume, list(inspect.signature(f).parameters)
            d = dict(b.d)
            for n in names:
                if n in snap:
                    d[n] = snap[n]
            self.G = d
            if self.BN0 is None and d.get("BN") is not None:
                self.BN0 = self.np.array(d["BN"])
            try:
                r = f(**d)
            finally:
                self.settle()
        else:
            names = PARAMS["contrl"]
            self.G = {n: b.get(n) for n in set(names) | set(b.d)}
            if self.G.get("BN") is not None:
                self.BN0 = self.np.array(self.G["BN"])
            try:
                r = f(*a, **k)
            finally:
                self.settle()
        self.contrl_done += 1
        return r

    def begin(self, t, b):
        c = b.get("CLOCK")
        self.held(b)
        self.settle()
        e = {"t": t, "clock": None if c is None else float(c), "acct0": self.last_acct}
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Budget()
        self.cur = e
        self.ev.append(e)
        if self.on_event:
            self.on_event(e)
        return e

    def held(self, b):
        """The accounts are the arrays the events are called with."""
        if self.G is None:
            return
        for n in HELD:
            x = b.d.get(n)
            if isinstance(x, self.np.ndarray):
                self.G[n] = x

    def settle(self):
        """An event is over when the next one begins (or contrl ends): the accounts then,
        and after a year end the totals and the snapshot."""
        e, self.closing = self.closing, None
        self.last_acct = self.acct()
        if e is None:
            return
        e["acct"] = self.last_acct
        if e["t"] != 4:
            return
        e["sums"] = self.sums()
        if self.dump:
            with self.quiet():
                e["dump"] = slurp("DUMP.pkl")

    def w_hour(self, f, a, k, b):
        e = self.begin(1, b)
        try:
            e["pl"], e["rt"] = self.arr(b.get("PLNDST")), self.arr(b.get("RATING"))
            e["lev"], e["disp"] = [], []
        except Exception:
            self.note()
        r = f(*a, **k)
        try:
            ig, il = b.get("IGSEED"), b.get("ILSEED")
            e["gs"] = None if ig is None else [int(x) for x in ig]
            e["ls"] = None if il is None else [int(x) for x in il]
            d = b.get("DRAWS")
            if isinstance(d, dict) and "PCTAVL" in d:
                e["pct"], e["av"] = self.arr(d.get("PCTAVL")), self.arr(d.get("AVAIL"))
                if d.get("LNSTAT") is not None:
                    e["ln"] = [int(x) for x in d["LNSTAT"]]
        except Exception:
            self.note()
        e["done"] = True
        self.closing = e
        self.cur = None
        return r

    def simple(self, t, f, a, k, b):
        e = self.begin(t, b)
        r = f(*a, **k)
        e["done"] = True
        self.closing = e
        self.cur = None
        return r

    def w_week(self, f, a, k, b):
        return self.simple(2, f, a, k, b)

    def w_quartr(self, f, a, k, b):
        return self.simple(3, f, a, k, b)

    def w_year(self, f, a, k, b):
        e = self.begin(4, b)
        e["reports0"] = len(self.reports)
        r = f(*a, **k)
        e["reports"] = len(self.reports) - e["reports0"]
        e["done"] = True
        self.closing = e
        self.cur = None
        return r

    def w_report(self, f, a, k, b):
        rec = {"iyear": b.get("IYEAR")}
        self.reports.append(rec)
        self.held(b)
        s0 = self.sums()
        r = f(*a, **k)
        s1 = self.sums()
        rec["done"] = True
        if s0 is not None and s1 is not None:
            rec["altered"] = [n for n in s0 if not self.np.array_equal(s0[n], s1[n])]
        return r

    def w_intm(self, f, a, k, b):
        c = b.get("CLOCK")
        e = {"clock": None if c is None else float(c)}
        self.snap.append(e)
        r = f(*a, **k)
        e["done"] = True
        return r

    def w_gstate(self, f, a, k, b):
        r = f(*a, **k)
        try:
            if self.cur is not None:
                self.cur["ng"] = self.cur.get("ng", 0) + 1
                self.cur["pct"], self.cur["av"] = self.arr(r[0]), self.arr(r[1])
        except Exception:
            self.note()
        return r

    def w_lstate(self, f, a, k, b):
        r = f(*a, **k)
        try:
            if self.cur is not None:
                self.cur["nline"] = self.cur.get("nline", 0) + 1
                self.cur["ln"] = [int(x) for x in r]
        except Exception:
            self.note()
        return r

    def w_findtn(self, f, a, k, b):
        r = f(*a, **k)
        try:
            if self.cur is not None:
                self.cur["trn"] = self.arr(r)
        except Exception:
            self.note()
        return r

    def w_sumcap(self, f, a, k, b):
        r = f(*a, **k)
        try:
            if self.cur is not None:
                self.cur["cap"] = [self.arr(x) for x in r[1:4]]
        except Exception:
            self.note()
        return r

    def w_findld(self, f, a, k, b):
        r = f(*a, **k)
        try:
            if self.cur is not None and "lev" in self.cur:
                h = b.get("JHOUR")
                self.cur["lev"].append((int(b.get("NFACT", a[0] if a else None)), None if h is None else int(h), self.arr(r)))
        except Exception:
            self.note()
        return r

    def w_transm(self, f, a, k, b):
        d = None
        try:
            lim0 = self.arr(b.get("BN"))[:, 3:5]
            d = {
                "req": self.arr(b.get("CAPREQ")),
                "con": self.arr(b.get("SYSCON")),
                "trn": self.arr(b.get("TRNSFR")),
                "trj": self.arr(b.get("TRNSFJ")),
                "ln": [int(x) for x in b.get("LNSTAT")],
                "hour": b.get("JHOUR"),
                "nls": int(b.get("NLS")),
                "lim0": lim0,
                "tm2": [],
            }
            if self.cur is not None and "disp" in self.cur:
                self.cur["disp"].append(d)
            self.tcur = d
        except Exception:
            self.note()
        r = f(*a, **k)
        self.tcur = None
        if d is None:
            return r
        try:
            d["jflag"], d["flow"], d["sadj"] = int(r[0]), self.arr(r[1]), self.arr(r[2])
            d["lim1"] = self.arr(b.get("BN"))[:, 3:5]
            self.nq += 1
            if self.fresh_every and (self.nq % self.fresh_every == 0) and self.BN0 is not None:
                self.fresh(f, b, d)
        except Exception:
            self.note()
        return r

    def fresh(self, f, b, d):
        """Evaluate the same hour again on state that has seen no other hour."""
        np = self.np
        self.mute = True
        try:
            names = PARAMS["transm"]
            kw = {n: b.get(n) for n in names}
            na, nl = d["con"].shape[0], len(d["ln"])
            kw.update(
                IFLAG=0, JFLAG=0, IOI=0, BN=np.array(self.BN0), BLP0=np.zeros(nl), BB=np.zeros((na, na)),
                ZB=np.zeros((na, na)), LT=np.zeros(na, dtype=int),
            )
            r = f(*[kw[n] for n in names])
            d["fresh"] = (int(r[0]), self.arr(r[2]))
            self.nfresh += 1
        finally:
            self.mute = False

    tcur = None

    def w_tm2(self, f, a, k, b):
        d = None
        try:
            if self.tcur is not None and self.keep_dispatch:
                d = {
                    "bn": self.arr(b.get("BN"))[:, 1:5].copy(),
                    "blp": self.arr(b.get("BLP")).copy(),
                    "nls": int(b.get("NLS")),
                    "nr": int(b.get("NR")),
                    "lp": [[int(x) for x in row[1:3]] for row in b.get("LP")],
                }
        except Exception:
            self.note()
            d = None
        r = f(*a, **k)
        if d is not None:
            try:
                d["flow"], d["indic"] = self.arr(r[0]).copy(), int(r[1])
                d["after"] = self.arr(b.get("BN"))[:, 1:3].copy()
                self.tcur["tm2"].append(d)
            except Exception:
                self.note()
        return r

    def w_filem(self, f, a, k, b):
        try:
            at = b.get("ATRIB")
            self.filed.append((1, float(at[0]), int(at[1])))
        except Exception:
            self.note()
        r = f(*a, **k)
        try:
            self.filed.append((2, int(r[0])))
        except Exception:
            self.note()
        return r

    def w_remove(self, f, a, k, b):
        r = f(*a, **k)
        try:
            at = b.get("ATRIB")
            self.filed.append((0, float(at[0]), int(at[1]), int(r[1])))
        except Exception:
            self.note()
        return r


# -------------------------------------------------------------- surroundings
def ambient(tag):
    """What a process happens to find: unseeded generators, uninitialised memory."""
    import random
    import zlib

    import numpy as np

    n = zlib.crc32(tag.encode())
    random.seed(n)
    np.random.seed(n)
    rng = np.random.RandomState(n ^ 0x5A5A5A5A)
    rng0 = np.random.default_rng
    junk = [float(x) for x in rng.uniform(1, 9e5, 16)]

    def default_rng(seed=None):
        return rng0(rng.randint(1 << 31) if seed is None else seed)

    def poison(f):
        def empty(*a, **k):
            x = f(*a, **k)
            if sys._getframe(1).f_globals.get("__name__", "").startswith(PKG) and x.dtype.kind in "fiub":
                x[...] = np.resize(junk, x.shape).astype(x.dtype)
            return x

        return empty

    for name, new in (("default_rng", default_rng),):
        replace_everywhere(getattr(np.random, name), new)
        setattr(np.random, name, new)
    for name in ("empty", "empty_like"):
        old = getattr(np, name)
        new = poison(old)
        replace_everywhere(old, new)
        setattr(np, name, new)


# ------------------------------------------------------------------ execution
def call_main(indir, rec=None):
    """Run the study in the current directory.  Returns (error, stdout)."""
    import reliabilityassessment.monte_carlo.narpMain as nm

    out = io.StringIO()
    err = None
    try:
        with contextlib.redirect_stdout(out):
            nm.narpMain(indir)
    except Budget:
        err = ("Budget", "the study exceeded its event budget", "")
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if PKG in t.filename]
        loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else ""
        err = (type(e).__name__, str(e)[:300], loc)
    return err, out.getvalue()


def slurp(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def make_scratch():
    return tempfile.mkdtemp(prefix="verif-dst-", dir="/tmp")


def drop_scratch(d):
    assert d.startswith("/tmp/verif-dst-")
    shutil.rmtree(d, ignore_errors=True)


def run_batch(jobs, fn, nproc=None, cpu=120, wall=600):
    """fn(job, workdir) for each job, each in its own forked process.

    Results come back in job order; a run that died yields {"_died": reason}.
    """
    nproc = nproc or int(os.environ.get("VERIF_PROCS", "8"))
    scratch = make_scratch()
    res = [None] * len(jobs)
    live = {}
    nxt = 0
    try:
        while nxt < len(jobs) or live:
            while nxt < len(jobs) and len(live) < nproc:
                wd = os.path.join(scratch, str(nxt))
                os.makedirs(wd)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                        os.chdir(wd)
                        r = fn(jobs[nxt], wd)
                        with open(wd + ".res", "wb") as f:
                            pickle.dump(r, f, protocol=4)
                        code = 0
                    except BaseException:
                        try:
                            with open(wd + ".err", "w") as f:
                                f.write(traceback.format_exc())
                        except BaseException:
                            pass
                    finally:
                        os._exit(code)
                live[pid] = (nxt, time.monotonic(), wd)
                nxt += 1
            try:
                pid, st, ru = os.wait3(os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                time.sleep(0.003)
                now = time.monotonic()
                for p, (i, t0, wd) in list(live.items()):
                    if now - t0 > wall:
                        os.kill(p, signal.SIGKILL)
                continue
            if pid not in live:
                continue
            i, t0, wd = live.pop(pid)
            if os.path.exists(wd + ".res") and st == 0:
                with open(wd + ".res", "rb") as f:
                    res[i] = pickle.load(f)
                if isinstance(res[i], dict):
                    res[i]["_cpu"] = ru.ru_utime + ru.ru_stime
            else:
                why = "harness"
                txt = slurp(wd + ".err")
                if os.WIFSIGNALED(st):
                    s = os.WTERMSIG(st)
                    why = "cpu" if s in (signal.SIGXCPU,) or (s == signal.SIGKILL and ru.ru_utime > cpu - 2) else "wall" if (
                        s == signal.SIGKILL and time.monotonic() - t0 > wall - 1
                    ) else "signal %d" % s
                res[i] = {"_died": why, "_err": (txt or b"").decode("utf8", "replace")[-1500:]}
            shutil.rmtree(wd, ignore_errors=True)
            for x in (wd + ".res", wd + ".err"):
                if os.path.exists(x):
                    os.unlink(x)
    finally:
        for p in live:
            with contextlib.suppress(OSError):
                os.kill(p, signal.SIGKILL)
        drop_scratch(scratch)
    return res
