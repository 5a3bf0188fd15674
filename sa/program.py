"""Builds the MIR dump of /repo's current tree and gives typed access to it."""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DRIVER = os.path.join(ROOT, "build", "driver")


class BuildError(Exception):
    pass


def build_driver():
    exe = os.path.join(DRIVER, "debug", "mirdump")
    src = os.path.join(ROOT, "driver", "src")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(exe) and os.path.getmtime(exe) >= newest:
        return exe
    env = dict(os.environ, CARGO_TARGET_DIR=DRIVER)
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(ROOT, "driver", "Cargo.toml")],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode or not os.path.exists(exe):
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    return exe


def dump(repo=REPO):
    """compiles the library crate of `repo` with the MIR dumping driver"""
    exe = build_driver()
    work = tempfile.mkdtemp(prefix="mirdump.")
    try:
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
        out = os.path.join(work, "dump.json")
        # the sources are analysed from a copy, so that nothing is written to the repository
        src = os.path.join(work, "src")
        shutil.copytree(repo, src, ignore=shutil.ignore_patterns("target", ".git", "files", "tests", "examples"))
        _strip_missing_targets(src)
        env = dict(
            os.environ,
            CARGO_TARGET_DIR=os.path.join(work, "target"),
            RUSTC_WORKSPACE_WRAPPER=exe,
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            MIRDUMP_CRATE="mp4ameta",
            MIRDUMP_OUT=out,
            RUSTFLAGS="--cap-lints allow -Zmir-opt-level=0 -Zub-checks=no -Coverflow-checks=on",
        )
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(src, "Cargo.toml")],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode or not os.path.exists(out):
            raise BuildError("analysis build of %s failed:\n%s" % (repo, r.stdout[-4000:]))
        with open(out) as f:
            d = json.load(f)
        return d
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _strip_missing_targets(src):
    # path based targets are auto discovered; explicit ones would be missed
    pass


class Ty:
    __slots__ = ("p", "i", "d")

    def __init__(self, p, i):
        self.p = p
        self.i = i
        self.d = p.types[i]


class Program:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.fns = d["fns"]
        self.roots = d["roots"]
        self.by_path = {}
        for k, f in self.fns.items():
            self.by_path.setdefault(f["path"], []).append(k)
        self._byname = {}
        for i, t in enumerate(self.types):
            self._byname.setdefault(t["name"], i)
        self.cfgs = {}
        self.item_of = {a: b for f in self.fns.values() for a, b in f.get("items") or ()}

    def ty(self, name):
        return self._byname.get(name)

    def find(self, rx):
        r = re.compile(rx)
        return [k for k, f in self.fns.items() if r.search(f["path"])]

    # ---- cfg
    def cfg(self, fid):
        c = self.cfgs.get(fid)
        if c is None:
            c = self.cfgs[fid] = Cfg(self.fns[fid])
        return c


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Cfg:
    """control flow of one function without unwinding: reverse post order, dominators, loops and
    live locals"""

    def __init__(self, f):
        self.f = f
        n = len(f["blocks"])
        self.succ = [succs(b["t"]) for b in f["blocks"]]
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        dom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in dom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.idx[x] > self.idx[y]:
                            x = dom[x]
                        while self.idx[y] > self.idx[x]:
                            y = dom[y]
                    d = x
                if dom.get(b) != d:
                    dom[b] = d
                    changed = True
        self.dom = dom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        self.inner = {}  # block -> innermost loop header
        for h, body in sorted(self.loops.items(), key=lambda p: -len(p[1])):
            for b in body:
                self.inner[b] = h
        self._live()

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.dom[b]

    def _live(self):
        f = self.f
        use = {}
        deff = {}
        addr = set()
        for b in self.rpo:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place(p, write):
                for e in p[1]:
                    if e[0] == "i":
                        rd(e[1])
                if write and not p[1]:
                    d.add(p[0])
                else:
                    rd(p[0])

            def opnd(o):
                if o[0] in ("cp", "mv"):
                    place(o[1], False)

            for s in f["blocks"][b]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use", "un", "rep", "cast", "bin", "agg"):
                        for x in walk_ops(rv):
                            opnd(x)
                    elif k in ("ref", "raw", "addr"):
                        place(rv[2], False)
                        addr.add(rv[2][0])
                    elif k in ("discr", "len"):
                        place(rv[1], False)
                    else:
                        for x in walk_ops(rv):
                            opnd(x)
                        for x in walk_places(rv):
                            place(x, False)
                    place(s[1], True)
                elif s[0] == "setdiscr":
                    place(s[1], False)
            t = f["blocks"][b]["t"]
            k = t[0]
            if k == "switch":
                opnd(t[1])
            elif k == "drop":
                place(t[1], False)
            elif k == "call":
                opnd(t[1]) if t[1] and t[1][0] in ("cp", "mv") else None
                for a in t[2]:
                    opnd(a)
                if t[3][1]:
                    place(t[3], False)
                else:
                    d.add(t[3][0])
            elif k == "assert":
                opnd(t[1])
                for x in t[5]:
                    opnd(x)
            elif k == "return":
                rd(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.live = live
        self.addr = addr


def walk_ops(x):
    if isinstance(x, list):
        if len(x) >= 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
            yield x
            return
        for y in x:
            yield from walk_ops(y)


def walk_places(x):
    return ()
