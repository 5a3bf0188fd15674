"""Runner: builds the MIR of /repo's current tree, runs the rule of one property, writes the evidence."""
import importlib, json, multiprocessing, os, re, signal, sys, time, traceback

from . import program
from .program import Program, BuildError

ROOT = program.ROOT
sys.setrecursionlimit(20000)


class Timeout(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.viol = {}       # key -> dict(detail)
        self.undec = []      # what the analysis could not decide
        self.cov = {}        # measured counts
        self.samples = []
        self.assume = []
        self.obligations = 0
        self.discharged = 0
        self._P = None

    @property
    def P(self):
        if self._P is None:
            self._P = Program(program.dump())
        return self._P

    # ---- results
    def violation(self, key, msg, **detail):
        key = norm_key(key)
        if key not in self.viol:
            self.viol[key] = dict(detail, key=key, what=msg)

    def undecided(self, what):
        what = str(what)
        if what not in self.undec:
            self.undec.append(what)

    def ob(self, ok, key=None, msg=None, **detail):
        """one obligation of the rule"""
        self.obligations += 1
        if ok:
            self.discharged += 1
        elif key is not None:
            self.violation(key, msg or key, **detail)
        return ok

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(str(s)[:400])

    def anchor(self, path, rx=False):
        """the instances of a function the rule starts from; a missing one is reported"""
        ids = self.P.find(path) if rx else self.P.by_path.get(path, [])
        if not ids:
            self.violation("missing:" + path, "the construct the rule is anchored to is gone: " + path)
        roots = set(map(str, self.P.roots))
        return sorted(ids, key=lambda i: (i not in roots, i))

    def merge(self, r):
        for k, v in r["viol"].items():
            self.viol.setdefault(k, v)
        for u in r["undec"]:
            self.undecided(u)
        for k, v in r["cov"].items():
            if isinstance(v, (int, float)):
                self.count(k, v)
            else:
                self.cov[k] = v
        for s in r["samples"]:
            self.sample(s)
        self.obligations += r["obl"]
        self.discharged += r["dis"]

    def export(self):
        return dict(viol=self.viol, undec=self.undec, cov=self.cov, samples=self.samples,
                    obl=self.obligations, dis=self.discharged)


def norm_key(k):
    return re.sub(r"\s+", " ", str(k)).strip()[:300]


# ---- parallel work: a function of (ctx, item) run in forked children
_JOB = None


def _child(a):
    func, pid, tier, seed, item, limit = a
    c = Ctx(pid, tier, seed)
    c._P = _JOB
    sys.setrecursionlimit(20000)

    def onalarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    try:
        r = func(c, item)
        return ("ok", c.export(), r)
    except Timeout:
        return ("timeout", c.export(), None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("exc", c.export(), "%s at %s" % (repr(e)[:300], ["%s:%d" % (x.name, x.lineno) for x in tb[-4:]]))
    finally:
        signal.alarm(0)


def pmap(ctx, func, items, limit=400, procs=8, name=str):
    """runs func(ctx', item) for every item; results in order; findings are merged into ctx"""
    global _JOB
    _JOB = ctx.P
    items = list(items)
    jobs = [(func, ctx.pid, ctx.tier, ctx.seed, it, limit) for it in items]
    out = []
    if not jobs:
        return out
    mp = multiprocessing.get_context("fork")
    with mp.Pool(min(procs, len(jobs))) as pool:
        for it, (st, exp, r) in zip(items, pool.map(_child, jobs, chunksize=1)):
            ctx.merge(exp)
            if st == "ok":
                out.append(r)
            else:
                ctx.undecided("%s: %s" % (name(it), "analysis time limit" if st == "timeout" else r))
                out.append(None)
    return out


def known_findings(pid):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((norm_key(m.group(2)), m.group(3)))
    return res


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    from . import setup
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    setup.build_lp()
    mod = importlib.import_module("sa.checks." + pid.lower())

    def onalarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(840 if tier == "quick" else 3000)
    try:
        mod.run(ctx)
    except BuildError as e:
        print(str(e)[-3000:], file=sys.stderr)
        ctx.violation("build", "the analysed tree does not compile: " + str(e)[-300:])
    except Timeout:
        ctx.undecided("analysis time limit")
    except Exception as e:
        print("".join(traceback.format_exc(-3)[-600:]), file=sys.stderr)
        ctx.undecided("analysis stopped: " + repr(e)[:300])
    finally:
        signal.alarm(0)
    known = dict(known_findings(pid))
    new = {k: v for k, v in ctx.viol.items() if k not in known}
    for k in ctx.viol:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(ev, exist_ok=True)
    cov = dict(ctx.cov)
    level = getattr(mod, "LEVEL", "other")
    cov["obligations"] = ctx.obligations
    cov["discharged"] = ctx.discharged
    if ctx.samples:
        cov["samples"] = ctx.samples
    cov["undecided"] = ctx.undec
    cov["rule"] = mod.RULE
    cov["explanation"] = mod.RULE + " Decided by abstract interpretation of the type-checked MIR of /repo's working tree; 'undecided' lists what the analysis could not settle in this run."
    cov["checker_cmd"] = "python3 -m sa " + pid
    cov["trusted_base"] = TRUSTED
    if ctx._P is not None:
        cov["functions_in_dump"] = len(ctx._P.fns)
    json.dump(
        dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=list(getattr(mod, "ASSUME", [])) + ctx.assume,
             wall_s=round(time.time() - t0, 2), violations=len(new)),
        open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    for u in ctx.undec[:20]:
        print("UNDECIDED: " + u[:400])
    if new:
        rp = os.path.join(ev, pid + ".violations.json")
        json.dump(list(new.values()), open(rp, "w"), indent=1, default=str)
        for k, v in list(new.items())[:25]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("   %s: %s" % (k, str(v["what"])[:600]))
        return 1
    print("%s held: %d of %d obligations discharged, %d undecided, %.1fs" % (
        pid, ctx.discharged, ctx.obligations, len(ctx.undec), time.time() - t0))
    return 0


TRUSTED = [
    "rustc's MIR construction and trait resolution (nightly of this sandbox)",
    "driver/ (MIR dump) and sa/ (abstract interpreter, affine prover, models of the std functions used)",
]
