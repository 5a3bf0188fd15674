"""Abstract interpreter over the MIR dump.

The abstract state maps memory objects to abstract values (values.py) under a conjunction of affine
and boolean facts. Control flow is analysed block by block in reverse post order; states with equal
memory are merged at joins, results of calls are joined, loops are summarised by an inferred
invariant (loops.py), parsing functions by symbolic-in-the-input summaries (summary.py).
"""
import sys
from .terms import *
from .terms import T, L
from .values import *
from .values import UNINIT, MAXLEN
from . import prover

sys.setrecursionlimit(20000)

BOOLS = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}
MAXSTATES = 160


class AnalysisError(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "decs", "phase")

    def __init__(self, mem=None, facts=None, decs=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.decs = decs
        self.phase = False

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.decs)

    def add(self, c):
        k = c[0]
        if k == "T":
            return
        if k == "and":
            for x in c[1]:
                self.add(x)
            return
        self.facts[c] = None

    def map(self, s):
        """applies a substitution to everything"""
        self.mem = {s.any(o): (v.subst(s) if isinstance(v, V) else s.any(v)) for o, v in self.mem.items()}
        f = {}
        for c in self.facts:
            d = s.cond(c)
            if d == TRUE:
                continue
            if d[0] == "and":
                for x in d[1]:
                    f[x] = None
            else:
                f[d] = None
        self.facts = f
        self.decs = tuple(s.cond(c) for c in self.decs)


class Frame:
    __slots__ = ("fid", "f", "cfg", "depth")

    def __init__(self, fid, f, cfg, depth):
        self.fid, self.f, self.cfg, self.depth = fid, f, cfg, depth


class Obl:
    """one proof obligation met while analysing"""
    __slots__ = ("kind", "cond", "facts", "site", "fn", "ok", "chain")

    def __init__(self, kind, cond, facts, site, fn, ok, chain=()):
        self.kind, self.cond, self.facts, self.site, self.fn, self.ok, self.chain = kind, cond, facts, site, fn, ok, chain

    def key(self):
        return (self.kind, self.fn, self.site)


class Interp:
    def __init__(self, prog):
        from . import models, loops

        self.P = prog
        self.types = prog.types
        self._clike = {}
        self.depth = 0
        self.stack = []  # frames being analysed
        self.kty = {}  # key object -> type
        self.consts = {}
        self.orig = {}  # (name, uid) -> origins of a loop-carried value
        self.obls = [[]]  # stack of transactional obligation lists
        self.notes = {}
        self.sticky = 0
        self.stuck = {}
        self.events = [[]]
        self.shapes = {}
        self.locators = {}
        self.cg = None
        self.summaries = {}
        self.loops_seen = {}
        self.fns_seen = set()
        self.calls_seen = set()
        self.altjoin = False
        self.opts = {}
        self.models = models.Models(self)
        self.loopx = loops.Loops(self)

    # ------------------------------------------------------------------ bookkeeping
    def note(self, why, site=None):
        self.notes.setdefault(why, site)
        if self.sticky:
            self.stuck[why] = site

    def event(self, *e):
        self.events[-1].append(e)

    def site(self):
        return self.stack[-1].f["path"] if self.stack else "?"

    def oblige(self, st, kind, cond, span=None):
        """the condition has to hold in every execution reaching this point"""
        if cond == TRUE:
            self.obls[-1].append(Obl(kind, cond, None, span, self.site(), True))
            return True
        ok = self.entails(st, cond)
        fs = None
        if not ok:
            fs = tuple(f for f in st.facts)
        self.obls[-1].append(Obl(kind, cond, fs, span, self.site(), ok, tuple(f.f["path"] for f in self.stack)))
        if cond != FALSE:
            st.add(cond)
        return ok

    # ------------------------------------------------------------------ types and values
    def tk(self, t):
        return self.types[t]

    def is_enum(self, t):
        d = self.types[t]
        return d["k"] == "adt" and d.get("kind") == "enum"

    def variants(self, t):
        return self.types[t]["variants"]

    def discr_of(self, ty, var):
        return self.types[ty]["variants"][var]["discr"]

    def var_of_discr(self, ty, d):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["discr"] == d:
                return i
        return None

    def variant_named(self, ty, name):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["name"] == name:
                return i
        raise KeyError(name)

    def clike(self, ty):
        """an enum without fields"""
        if ty is None:
            return False
        r = self._clike.get(ty)
        if r is None:
            t = self.types[ty]
            r = t["k"] == "adt" and t.get("kind") == "enum" and "variants" in t and len(t["variants"]) > 1 and all(not v["fields"] for v in t["variants"])
            self._clike[ty] = r
        return r

    def enum_lin(self, v):
        """discriminant of a value of a field-less enum"""
        if isinstance(v, Agg):
            return Lin(self.discr_of(v.ty, v.var))
        return L(self.dis(v.ty, v.key))

    def dis(self, ty, key):
        if key.kind == "enumv":
            return key.args[0]
        ds = [v["discr"] for v in self.types[ty]["variants"]]
        return T("dis", (key, ty), min(ds), max(ds))

    def fty(self, ty, var, i):
        d = self.types[ty]
        k = d["k"]
        if k == "adt":
            return d["variants"][var or 0]["fields"][i]["ty"]
        if k == "tuple":
            return d["elems"][i]
        if k == "closure":
            return d["upvars"][i]
        raise AnalysisError("field of %s" % d["name"])

    def adt(self, t):
        d = self.types[t]
        return d["path"] if d["k"] == "adt" else None

    def mkval(self, ty, key, d=0):
        t = self.types[ty]
        k = t["k"]
        if k == "int":
            lo, hi = trange(t["bits"], t["signed"])
            return Int(L(T("int", (key,), lo, hi)), t["bits"], t["signed"])
        if k == "bool":
            return Bool(("atom", T("bool", (key,))))
        if k == "char":
            return Int(L(T("int", (key,), 0, 0x10FFFF)), 32, False)
        if k == "tuple":
            return Agg(None, None, [self.mkval(e, T("fld", (key, 0, i)), d + 1) for i, e in enumerate(t["elems"])])
        if k == "array":
            n = t["len"]
            if isinstance(n, int) and n <= 64:
                return lit(t["elem"], [self.mkval(t["elem"], T("elem", (key, Lin(i))), d + 1) for i in range(n)])
            return self.mkseq(t["elem"], key)
        if k in ("slice", "str"):
            return self.mkseq(t.get("elem", self.u8()), key)
        if k in ("ref", "ptr"):
            o = ("K", T("deref", (key,)))
            self.kty[o[1]] = t["to"]
            return Ref(o)
        if k == "adt":
            p = t["path"]
            if p in SEQ_ADTS:
                return self.mkseq(self.seq_elem_ty(ty), key)
            if t["kind"] == "struct" and (t.get("local") or p in OPEN_STRUCTS):
                fs = t["variants"][0]["fields"]
                v = Agg(ty, None, [self.mkval(f["ty"], T("fld", (key, 0, i)), d + 1) for i, f in enumerate(fs)])
                sh = self.bounds_shape(ty)
                return v if sh is None else self.bounded(v, key, sh)
            return Sym(ty, key)
        if k == "closure":
            return Agg(ty, None, [self.mkval(e, T("fld", (key, 0, i)), d + 1) for i, e in enumerate(t["upvars"])])
        if k in ("fndef",):
            return Fn(t["callee"])
        return Sym(ty, key)

    # Type invariant: a value made of a position, a flag for an extended length, and a length describes an atom that
    # was found in a stream. Assumed for every such value that comes from outside of the analysed function, and an
    # obligation wherever one is put together.
    POSMAX = (1 << 63) - 9
    LENMAX = (1 << 63) - 9

    def bounds_shape(self, ty):
        """paths of (position, extended flag, length) in a struct type that consists of just those"""
        r = self.shapes.get(ty, 0)
        if r != 0:
            return r
        leaves = []

        def walk(t, path):
            x = self.types[t]
            if x["k"] == "adt" and x["kind"] == "struct" and x.get("local"):
                for i, f in enumerate(x["variants"][0]["fields"]):
                    if len(leaves) > 3:
                        return
                    if self.types[f["ty"]]["k"] in ("int", "bool"):
                        leaves.append((f["name"], self.types[f["ty"]], path + (i,)))
                    else:
                        walk(f["ty"], path + (i,))
            else:
                leaves.append(("?", x, path))

        x = self.types[ty]
        if x["k"] == "adt" and x["kind"] == "struct" and x.get("local"):
            walk(ty, ())
        r = None
        if len(leaves) == 3:
            ext = [p for n, x, p in leaves if x["k"] == "bool"]
            pos = [p for n, x, p in leaves if x["k"] == "int" and x["bits"] == 64 and ("pos" in n or "start" in n or "off" in n)]
            ln = [p for n, x, p in leaves if x["k"] == "int" and x["bits"] == 64 and ("len" in n or "size" in n)]
            if len(ext) == len(pos) == len(ln) == 1:
                r = (pos[0], ext[0], ln[0])
                # only the innermost such struct
                if any(self.bounds_shape(f["ty"]) for f in x["variants"][0]["fields"] if self.types[f["ty"]]["k"] == "adt"):
                    r = None
        self.shapes[ty] = r
        return r

    def bounded(self, v, key, sh):
        def at(p):
            k = key
            for i in p:
                k = T("fld", (k, 0, i))
            return k

        def put(v, p, x):
            if not p:
                return x
            fs = list(v.fs)
            fs[p[0]] = put(fs[p[0]], p[1:], x)
            return Agg(v.ty, v.var, fs)

        pos, ext, ln = sh
        v = put(v, pos, Int(L(T("int", (at(pos),), 0, self.POSMAX)), 64))
        e = ite(("atom", T("bool", (at(ext),))), Lin(8), ZERO)
        return put(v, ln, Int(L(T("blen", (at(ln), at(ext)), 8, self.LENMAX)) + e, 64))

    def check_bounds(self, st, v, span):
        sh = self.bounds_shape(v.ty)
        if sh is None:
            return
        vals = []
        for p in sh:
            x = v
            for i in p:
                x = x.fs[i] if isinstance(x, Agg) and i < len(x.fs) else None
            vals.append(x)
        pos, ext, ln = vals
        if not (isinstance(pos, Int) and isinstance(ln, Int) and isinstance(ext, Bool)):
            self.note("bounds of unknown parts", self.site())
            return
        b = ln.l - ite(ext.c, Lin(8), ZERO)
        self.oblige(st, "typeinv", c_and([c_ge(Lin(self.POSMAX) - pos.l), c_ge(b - 8), c_ge(Lin(self.LENMAX) - b)]), span)

    def u8(self):
        return self.P.ty("u8")

    def seq_elem_ty(self, ty):
        t = self.types[ty]
        p = t["path"]
        if p.endswith("String") or p.endswith("str"):
            return self.u8()
        for a in t["args"]:
            if isinstance(a, int):
                return a
        return self.u8()

    def mkseq(self, ety, key):
        n = L(T("len", (key,), 0, MAXLEN))
        return Seq(ety, (("sym", key, ZERO, n),))

    def fresh(self, ty, name):
        return self.mkval(ty, T("root", (name, fresh_uid())))

    def elem_val(self, st, ety, key, idx):
        """element idx of the sequence named key; quantified facts about it become available"""
        v = self.mkval(ety, T("elem", (key, idx)))
        for f in list(st.facts):
            if f[0] == "forall":
                self.inst_forall(st, f, key, idx)
        return v

    def inst_forall(self, st, f, key, idx):
        _, bv, n, pats, cond = f
        for k2, off in pats:
            if k2 is key:
                j = idx - off
                if self.entails(st, c_and([c_ge(j), c_ge(n - j - 1)])):
                    st.add(Subst({bv: j}).cond(cond))

    # ------------------------------------------------------------------ decisions
    def entails(self, st, c):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return prover.unsat(st.facts) if False else False
        if c in st.facts:
            return True
        return prover.entails(st.facts, c)

    def decide(self, st, c):
        """True / False / None"""
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if c in st.facts:
            return True
        n = c_not(c)
        if n in st.facts:
            return False
        if c[0] == "and":
            rs = [self.decide(st, x) for x in c[1]]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif c[0] == "or":
            rs = [self.decide(st, x) for x in c[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if prover.entails(st.facts, c):
            return True
        if prover.entails(st.facts, n):
            return False
        return None

    def split(self, st, c):
        """(state where c holds or None, state where it does not or None)"""
        r = self.decide(st, c)
        if r is True:
            return st, None
        if r is False:
            return None, st
        a = st.copy()
        b = st.copy()
        n = c_not(c)
        a.add(c)
        b.add(n)
        a.decs = a.decs + (c,)
        b.decs = b.decs + (n,)
        return a, b

    def fork(self, st, name):
        """two copies of st told apart by an unknown condition"""
        c = ("atom", T("sym", (name, fresh_uid())))
        a, b = st.copy(), st.copy()
        a.add(c)
        b.add(c_not(c))
        a.decs = a.decs + (c,)
        b.decs = b.decs + (c_not(c),)
        return a, b

    # ------------------------------------------------------------------ memory
    def loadobj(self, st, obj):
        v = st.mem.get(obj)
        if v is not None:
            return v
        if obj[0] == "K":
            ty = self.kty.get(obj[1])
            if ty is None:
                ty = self.kty_derived(obj[1])
            if ty is None:
                return Opq(None, "unknown object")
            return self.mkval(ty, obj[1])
        if obj[0] == "C":
            return self.consts[obj[1]]
        return UNINIT

    def kty_derived(self, key):
        # keys renamed by substitution keep the type of their origin
        for k, t in self.kty.items():
            if k.kind == key.kind and self.key_shape(k) == self.key_shape(key):
                self.kty[key] = t
                return t
        return None

    def key_shape(self, k):
        if isinstance(k, Term):
            if k.kind in ("root", "sym"):
                return k.args[:2]
            if k.kind == "elem":
                return ("elem", self.key_shape(k.args[0]))
            return (k.kind,) + tuple(self.key_shape(x) for x in k.args)
        return k if not isinstance(k, Lin) else "lin"

    def load(self, st, obj, path):
        v = self.loadobj(st, obj)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def store(self, st, obj, path, val):
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self.upd(st, self.loadobj(st, obj), path, val)

    def proj(self, st, v, p):
        k = p[0]
        if k == "f":
            var = p[3] if len(p) > 3 else None
            if isinstance(v, Agg):
                if v.var is not None and var is not None and v.var != var:
                    return Opq(None, "other variant")
                if p[1] < len(v.fs):
                    return v.fs[p[1]]
                return Opq(None, "field")
            if isinstance(v, Sym):
                if self.is_seq_ty(v.ty):
                    return Opq(None, "raw vec")
                try:
                    fty = self.fty(v.ty, var, p[1])
                except AnalysisError:
                    fty = p[2]
                return self.mkval(fty, T("fld", (v.key, var or 0, p[1])))
            if isinstance(v, Ref) or isinstance(v, Seq) or isinstance(v, Hdl):
                return v  # the pointer inside a smart pointer
            return Opq(p[2], "field of unknown")
        if k == "e":
            if isinstance(v, Seq):
                return self.seq_get(st, v, p[1])
            return Opq(None, "element of unknown")
        if k == "sub":
            return v
        raise AnalysisError("projection %r" % (p,))

    def is_seq_ty(self, ty):
        return self.adt(ty) in SEQ_ADTS

    def open(self, st, v, var=None):
        """Sym of a struct or of a known variant -> Agg"""
        if isinstance(v, Sym):
            t = self.types[v.ty]
            if t["k"] == "adt":
                fs = t["variants"][var or 0]["fields"]
                return Agg(
                    v.ty,
                    var if t["kind"] == "enum" else None,
                    [self.mkval(f["ty"], T("fld", (v.key, var or 0, i))) for i, f in enumerate(fs)],
                )
        return v

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if k == "f":
            var = p[3] if len(p) > 3 else None
            if isinstance(v, Sym):
                v = self.open(st, v, var)
            if isinstance(v, Opq) and p[1] < 32:
                # building up an uninitialised aggregate
                fs = [UNINIT] * (p[1] + 1)
                v = Agg(None, None, fs)
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= p[1]:
                    fs.append(UNINIT)
                fs[p[1]] = self.upd(st, fs[p[1]], path[1:], val)
                return Agg(v.ty, v.var, fs)
            self.note("store into a field of %r" % type(v).__name__)
            return v
        if k == "e":
            if isinstance(v, Seq):
                if path[1:]:
                    nv = self.upd(st, self.seq_get(st, v, p[1]), path[1:], val)
                else:
                    nv = val
                return self.seq_set(st, v, p[1], nv)
            return v
        if k == "sub":
            return self.upd(st, v, path[1:], val)
        raise AnalysisError("store projection %r" % (p,))

    # ------------------------------------------------------------------ sequences
    def seg_at(self, st, q, idx):
        """(segment index, offset in the segment) of element idx, or None when not decided"""
        off = ZERO
        for i, g in enumerate(q.segs):
            n = seg_len(g)
            d = idx - off
            if not d.t and not n.t:
                if 0 <= d.c < n.c:
                    return i, d
            elif g[0] == "lit" and d.t:
                if self.entails(st, c_and([c_ge(d), c_ge(n - d - 1)])):
                    return i, d
            elif self.entails(st, c_and([c_ge(d), c_ge(n - d - 1)])):
                return i, d
            off = off + n
        return None

    def seg_val(self, st, ety, g, d):
        """element d of segment g, or None when not expressible"""
        k = g[0]
        if k == "lit":
            if not d.t:
                return g[1][d.c]
            if all(isinstance(x, Int) for x in g[1]) and len(g[1]) <= 32:
                x = g[1][0]
                r = g[1][-1].l
                for i in range(len(g[1]) - 2, -1, -1):
                    r = ite(c_eq(d - i), g[1][i].l, r)
                return Int(r, x.bits, x.signed)
            return None
        if k == "sym":
            return self.elem_val(st, ety, g[1], g[2] + d)
        if k == "rep":
            return g[1]
        if k == "stm":
            return Int(L(be(g[1], g[2] + d, 1)), 8, False)
        if k == "gen":
            return Subst({g[2]: d}).any(g[3])
        if k == "opq":
            return self.mkval(ety, T("elem", (g[1], d)))
        if k == "acc":
            # some value pushed in an earlier iteration: a loop-carried value with several origins
            key = T("elem", (g[1], d))
            o = self.loopx.acc_elem(st, g, d)
            return o if o is not None else self.mkval(ety, key)
        if k == "u16":
            return Int(L(T("u16at", (g[1], g[2] + d), 0, 0xFFFF)), 16, False)
        if k == "loop":
            # one element per iteration
            if all(len(segs) == 1 and segs[0][0] == "lit" and len(segs[0][1]) == 1 for _, segs in g[3]):
                s = Subst({g[2]: d})
                vs = [(s.cond(c), s.any(segs[0][1][0])) for c, segs in g[3]]
                if all(isinstance(v, Int) for _, v in vs):
                    r = vs[-1][1].l
                    for c, v in reversed(vs[:-1]):
                        r = ite(c, v.l, r)
                    return Int(r, vs[0][1].bits, vs[0][1].signed)
                if len(vs) == 1:
                    return vs[0][1]
                for c, v in vs:
                    if self.decide(st, c) is True:
                        return v
        return None

    def seq_get(self, st, q, idx):
        r = self.seg_at(st, q, idx)
        if r is not None:
            v = self.seg_val(st, q.ety, q.segs[r[0]], r[1])
            if v is not None:
                return v
        elif all(g[0] == "lit" for g in q.segs) and len(q.segs) == 1:
            v = self.seg_val(st, q.ety, q.segs[0], idx)
            if v is not None:
                return v
        if q.ety is None:
            return Opq(None, "element")
        return self.mkval(q.ety, T("at", (q, idx)))

    def expand(self, st, q):
        """a short sequence of numbers as a literal, element by element"""
        n = seq_len(q)
        if n.t or n.c > 32 or not q.segs or (len(q.segs) == 1 and q.segs[0][0] == "lit"):
            return None
        out = []
        for k in range(n.c):
            off = ZERO
            cs = []
            for g in q.segs:
                m = seg_len(g)
                d = L(k) - off
                c = self.entails(st, c_and([c_ge(d), c_ge(m - d - 1)]))
                if not c and (self.entails(st, c_ge(-d - 1)) or self.entails(st, c_ge(d - m))):
                    off = off + m
                    continue
                if g[0] == "lit" and d.t:
                    return None
                v = self.seg_val(st, q.ety, g, d)
                off = off + m
                if not isinstance(v, Int):
                    return None
                cs.append((off, v))
                if c:
                    break
            if not cs:
                return None
            r = cs[-1][1].l
            for o, v in reversed(cs[:-1]):
                r = ite(c_ge(o - k - 1), v.l, r)
            out.append(Int(r, cs[-1][1].bits, cs[-1][1].signed))
        return Seq(q.ety, (("lit", tuple(out)),))

    def seq_set(self, st, q, idx, val):
        r = self.seg_at(st, q, idx)
        if r is None:
            nq = self.expand(st, q)
            if nq is not None and nq is not q:
                return self.seq_set(st, nq, idx, val)
            # a store at an undetermined index of a literal: weak update
            self.note("store at an undetermined index", self.site())
            n = seq_len(q)
            return Seq(q.ety, (("opq", T("root", ("weak", fresh_uid())), n),))
        i, d = r
        a, b = self.split_seg(q.segs[i], d)
        b1, b2 = self.split_seg(b, ONE)
        return Seq(q.ety, norm_segs(q.segs[:i] + ((a,) if a else ()) + (("lit", (val,)),) + ((b2,) if b2 else ()) + q.segs[i + 1 :]))

    def split_seg(self, g, d):
        """the first d elements and the rest (None when empty)"""
        n = seg_len(g)
        if not d.t and d.c == 0:
            return None, g
        if d == n:
            return g, None
        k = g[0]
        if k == "lit" and not d.t:
            return ("lit", g[1][: d.c]), ("lit", g[1][d.c :])
        if k in ("sym", "stm"):
            return (k, g[1], g[2], d), (k, g[1], g[2] + d, g[3] - d)
        if k == "u16":
            return (k, g[1], g[2], d), (k, g[1], g[2] + d, g[3] - d)
        if k == "rep":
            return (k, g[1], d), (k, g[1], g[2] - d)
        if k == "gen":
            return (k, d, g[2], g[3]), (k, g[1] - d, g[2], Subst({g[2]: L(g[2]) + d}).any(g[3]))
        if k == "opq":
            a = ("opq", T("part", (g[1], ZERO, d)), d)
            return a, ("opq", T("part", (g[1], d, n - d)), n - d)
        if k == "acc":
            return ("acc", g[1], d) + g[3:], ("acc", g[1], g[2] - d, ) + g[3:]
        if k == "loop":
            return (k, d, g[2], g[3]), (k, g[1] - d, g[2], Subst({g[2]: L(g[2]) + d}).any(g[3]))
        return (
            ("opq", T("part", (Seq(None, (g,)), ZERO, d)), d),
            ("opq", T("part", (Seq(None, (g,)), d, n - d)), n - d),
        )

    def seq_slice(self, st, q, off, n):
        """elements off .. off+n"""
        if off == ZERO and n == seq_len(q):
            return q
        segs = []
        i, d = 0, off
        segs_in = list(q.segs)
        # skip
        while segs_in and not (not d.t and d.c == 0):
            g = segs_in[0]
            gn = seg_len(g)
            if self.entails(st, c_ge(d - gn)):
                d = d - gn
                segs_in.pop(0)
                continue
            if self.entails(st, c_ge(gn - d)):
                a, b = self.split_seg(g, d)
                segs_in[0] = b
                d = ZERO
                if b is None:
                    segs_in.pop(0)
                break
            return Seq(q.ety, (("opq", T("slice", (q, off, n)), n),))
        m = n
        while segs_in and not (not m.t and m.c == 0):
            g = segs_in[0]
            gn = seg_len(g)
            if self.entails(st, c_ge(m - gn)):
                segs.append(g)
                m = m - gn
                segs_in.pop(0)
                continue
            if self.entails(st, c_ge(gn - m)):
                a, b = self.split_seg(g, m)
                if a:
                    segs.append(a)
                m = ZERO
                break
            return Seq(q.ety, (("opq", T("slice", (q, off, n)), n),))
        return Seq(q.ety, norm_segs(segs))

    def seq_eq(self, st, a, b):
        """condition: the two sequences are equal"""
        if a == b:
            return TRUE
        la, lb = seq_len(a), seq_len(b)
        d = la - lb
        if not d.t and d.c != 0:
            return FALSE
        if len(a.segs) <= 1 and len(b.segs) <= 1:
            ca = a.segs[0][1] if a.segs and a.segs[0][0] == "lit" else (() if not a.segs else None)
            cb = b.segs[0][1] if b.segs and b.segs[0][0] == "lit" else (() if not b.segs else None)
            if ca is not None or cb is not None:
                n = len(ca) if ca is not None else len(cb)
                cs = [c_eq(d)]
                if n <= 64:
                    st2 = st.copy()
                    st2.add(c_eq(d))
                    for i in range(n):
                        x = ca[i] if ca is not None else self.seq_get(st2, a, Lin(i))
                        y = cb[i] if cb is not None else self.seq_get(st2, b, Lin(i))
                        e = self.val_eq(st2, x, y)
                        cs.append(e)
                    return c_and(cs)
        x, y = sorted((a, b), key=seq_order)
        return ("atom", T("seqeq", (x, y)))

    def val_eq(self, st, x, y):
        if x == y and not isinstance(x, Opq):
            return TRUE
        if isinstance(x, Int) and isinstance(y, Int):
            return c_eq(x.l - y.l)
        if isinstance(x, Bool) and isinstance(y, Bool):
            return c_or([c_and([x.c, y.c]), c_and([c_not(x.c), c_not(y.c)])])
        if isinstance(x, Seq) and isinstance(y, Seq):
            return self.seq_eq(st, x, y)
        if isinstance(x, (Agg, Sym)) and isinstance(y, (Agg, Sym)) and x.ty == y.ty and self.clike(x.ty):
            return c_eq(self.enum_lin(x) - self.enum_lin(y))
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.var != y.var:
                return FALSE
            return c_and([self.val_eq(st, a, b) for a, b in zip(x.fs, y.fs)])
        if isinstance(x, Ref) and isinstance(y, Ref):
            return self.val_eq(st, self.deref(st, x), self.deref(st, y))
        a, b = sorted((repr(x), repr(y)))
        return ("atom", T("valeq", (x, y) if a == repr(x) else (y, x)))

    # ------------------------------------------------------------------ places and operands
    def deref(self, st, r):
        """the value a Ref points at"""
        v = self.load(st, r.obj, r.path)
        if r.view is not None and isinstance(v, Seq):
            return self.seq_slice(st, v, r.view[0], r.view[1])
        return v

    def assign_ref(self, st, r, val):
        if r.view is not None:
            q = self.load(st, r.obj, r.path)
            if isinstance(q, Seq) and isinstance(val, Seq):
                off, n = r.view
                pre = self.seq_slice(st, q, ZERO, off)
                post = self.seq_slice(st, q, off + n, seq_len(q) - off - n)
                val = cat(cat(pre, val), post)
        self.store(st, r.obj, r.path, val)

    def addr(self, st, d, place):
        """(obj, path, view) of a place"""
        obj, path, view = ("L", d, place[0]), (), None
        var = None
        for e in place[1]:
            k = e[0]
            if k == "d":
                v = self.load(st, obj, path)
                if isinstance(v, Sym) and self.types[v.ty]["k"] in ("ref", "ptr"):
                    v = self.mkval(v.ty, v.key)
                if isinstance(v, Ref):
                    obj, path, view = v.obj, v.path, v.view
                elif isinstance(v, (Hdl, Fn)):
                    pass
                else:
                    o = ("X", fresh_uid())
                    st.mem[o] = Opq(None, "deref of %r" % (type(v).__name__,))
                    self.note("dereference of an unknown pointer (%r)" % (v,), self.site())
                    obj, path, view = o, (), None
                var = None
            elif k == "v":
                var = e[1]
            elif k == "f":
                path = path + (("f", e[1], e[2], var),)
                var = None
            elif k == "i":
                i = self.load(st, ("L", d, e[1]), ())
                off = i.l if isinstance(i, Int) else L(T("sym", ("idx", fresh_uid()), 0, MAXLEN))
                if view:
                    off = off + view[0]
                path = path + (("e", off),)
                view = None
            elif k == "ci":
                if e[3]:
                    q = self.load(st, obj, path)
                    n = view[1] if view else seq_len(q)
                    off = n - e[1]
                else:
                    off = Lin(e[1])
                if view:
                    off = off + view[0]
                path = path + (("e", off),)
                view = None
            elif k == "ss":
                q = self.load(st, obj, path)
                n = view[1] if view else seq_len(q)
                base = view[0] if view else ZERO
                end = n - e[2] if e[3] else Lin(e[2])
                view = (base + e[1], end - e[1])
            else:
                raise AnalysisError("place %r" % (e,))
        return obj, path, view

    def read(self, st, d, place):
        obj, path, view = self.addr(st, d, place)
        v = self.load(st, obj, path)
        if view is not None and isinstance(v, Seq):
            return self.seq_slice(st, v, view[0], view[1])
        return v

    def write(self, st, d, place, val):
        if not place[1]:
            st.mem[("L", d, place[0])] = val
            return
        obj, path, view = self.addr(st, d, place)
        self.assign_ref(st, Ref(obj, path, view), val)

    def operand(self, st, d, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read(st, d, o[1])
        if k == "c":
            return self.const(o[1], o[2])
        return Opq(None, "operand")

    def const(self, c, ty):
        t = self.types[ty]
        if "int" in c:
            if t["k"] == "bool":
                return Bool(TRUE if c["int"] else FALSE)
            if t["k"] == "int":
                return Int(Lin(c["int"]), t["bits"], t["signed"])
            return Int(Lin(c["int"]), 32, False)
        if "array" in c:
            et = t.get("elem")
            if et is None:
                et = self.u8()
            return lit(et, [self.const(x, et) for x in c["array"]])
        if "adt" in c:
            t2 = self.types[c["adt"]]
            if t2["path"] in SEQ_ADTS:
                return Seq(self.seq_elem_ty(c["adt"]), ())
            if not t2.get("variants"):
                return Sym(c["adt"], T("root", ("const:" + repr(c), 0)))
            fs = t2["variants"][c["variant"]]["fields"]
            var = c["variant"] if t2["kind"] == "enum" else None
            return Agg(c["adt"], var, [self.const(x, f["ty"]) for x, f in zip(c["fields"], fs)])
        if "fields" in c:
            if t["k"] == "tuple":
                return Agg(None, None, [self.const(x, e) for x, e in zip(c["fields"], t["elems"])])
            if t["k"] == "adt":
                fs = t["variants"][0]["fields"]
                return Agg(ty, None, [self.const(x, f["ty"]) for x, f in zip(c["fields"], fs)])
        if "ref" in c:
            to = t.get("to")
            r = c["ref"]
            if "str" in r:
                bs = bytes.fromhex(r["str"])
                v = lit(self.u8(), [Int(Lin(b), 8) for b in bs])
            else:
                v = self.const(r, to)
            key = ("C", repr(v))
            self.consts[key[1]] = v
            return Ref(key)
        if "str" in c:
            return lit(self.u8(), [Int(Lin(b), 8) for b in bytes.fromhex(c["str"])])
        if "fn" in c:
            return Fn(c["fn"])
        if "closure" in c:
            return Agg(c["closure"], None, ())
        if "unk" in c:
            return self.mkval(ty, T("root", ("const " + str(c["unk"]), 0)))
        raise AnalysisError("const %r" % (c,))

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, d, rv, span):
        k = rv[0]
        if k == "use":
            return self.operand(st, d, rv[1])
        if k == "ref":
            obj, path, view = self.addr(st, d, rv[2])
            # a reborrow of a handle or function keeps the value
            return Ref(obj, path, view)
        if k == "rep":
            v = self.operand(st, d, rv[1])
            n = rv[2]
            if isinstance(n, int):
                return Seq(None, norm_segs((("rep", v, Lin(n)),)))
            return Opq(None, "repeat")
        if k == "cast":
            return self.cast(st, d, rv, span)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, d, rv[2]), self.operand(st, d, rv[3]), rv[4])
        if k == "un":
            return self.unop(st, rv[1], self.operand(st, d, rv[2]), rv[3])
        if k == "discr":
            v = self.read(st, d, rv[1])
            return self.discr(st, v, rv[2])
        if k == "agg":
            ops = [self.operand(st, d, o) for o in rv[2]]
            a = rv[1]
            if a[0] == "adt":
                t = self.types[a[1]]
                if t["path"] in SEQ_ADTS:
                    return Opq(a[1], "raw vec")
                v = Agg(a[1], a[2] if t["kind"] == "enum" else None, ops)
                if t["kind"] == "struct" and len(ops) in (2, 3):
                    self.check_bounds(st, v, span)
                return v
            if a[0] == "tuple":
                return Agg(None, None, ops)
            if a[0] == "array":
                return lit(a[1], ops)
            if a[0] == "closure":
                return Agg(a[1], None, ops)
            if a[0] == "rawptr":
                return ops[0]
        if k == "len":
            v = self.read(st, d, rv[1])
            if isinstance(v, Seq):
                return Int(seq_len(v), 64)
        self.note("rvalue %s" % k, self.site())
        return Opq(None, "rvalue " + k)

    def discr(self, st, v, ty):
        if isinstance(v, Agg) and v.var is not None:
            return Int(Lin(self.discr_of(v.ty, v.var)), 64, True)
        if isinstance(v, Sym) and self.is_enum(v.ty):
            return Int(L(self.dis(v.ty, v.key)), 64, True)
        if self.is_enum(ty):
            return Int(L(self.dis(ty, T("root", ("unk", fresh_uid())))), 64, True)
        return Int(ZERO, 64, True)

    def cast(self, st, d, rv, span):
        v = self.operand(st, d, rv[2])
        kind = rv[1]
        to = self.types[rv[4]]
        if kind in ("IntToInt", "int") or to["k"] in ("int", "char") and isinstance(v, (Int, Bool)):
            if isinstance(v, Bool):
                l = ite(v.c, ONE, ZERO)
            elif isinstance(v, Int):
                l = v.l
            else:
                return self.fresh(rv[4], "cast")
            if to["k"] == "char":
                return Int(l, 32)
            return Int(self.fit(st, l, to["bits"], to["signed"], "cast", span), to["bits"], to["signed"])
        return v

    def fit(self, st, l, nbits, signed, what=None, span=None):
        """l as an integer of the given type"""
        lo, hi = trange(nbits, signed)
        a, b = l.interval()
        ok = (a is not None and a >= lo) and (b is not None and b <= hi)
        if not ok:
            ok = self.entails(st, c_and([c_ge(l - lo), c_ge(Lin(hi) - l)]))
            if what:
                self.event("cast", self.site(), span, l, nbits, signed, ok)
            if not ok:
                return wrap(l, nbits, signed)
        return l

    def binop(self, st, op, a, b, lty):
        if isinstance(a, Bool) and isinstance(b, Bool):
            if op == "Eq":
                return Bool(self.iff(a.c, b.c))
            if op == "Ne" or op == "BitXor":
                return Bool(c_not(self.iff(a.c, b.c)))
            if op == "BitAnd":
                return Bool(c_and([a.c, b.c]))
            if op == "BitOr":
                return Bool(c_or([a.c, b.c]))
        if isinstance(a, Int) and isinstance(b, Int):
            x, y = a.l, b.l
            if op == "Eq":
                return Bool(c_eq(x - y))
            if op == "Ne":
                return Bool(c_ne(x - y))
            if op == "Lt":
                return Bool(c_ge(y - x - 1))
            if op == "Le":
                return Bool(c_ge(y - x))
            if op == "Gt":
                return Bool(c_ge(x - y - 1))
            if op == "Ge":
                return Bool(c_ge(x - y))
            nb, sg = a.bits, a.signed
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                r = x + y if op[0] == "A" else x - y if op[0] == "S" else mul(x, y)
                lo, hi = trange(nb, sg)
                inr = c_and([c_ge(r - lo), c_ge(Lin(hi) - r)])
                return Agg(None, None, (Int(r, nb, sg), Bool(c_not(inr))))
            if op in ("Add", "AddUnchecked"):
                return Int(self.fit(st, x + y, nb, sg), nb, sg)
            if op in ("Sub", "SubUnchecked"):
                return Int(self.fit(st, x - y, nb, sg), nb, sg)
            if op in ("Mul", "MulUnchecked"):
                return Int(self.fit(st, mul(x, y), nb, sg), nb, sg)
            if op == "Div":
                return Int(div(x, y), nb, sg)
            if op == "Rem":
                return Int(rem(x, y), nb, sg)
            if op in ("Shl", "ShlUnchecked") and not y.t:
                s = y.c % nb
                if not sg:
                    h = x.interval()[1]
                    if h is not None and (h << s) < (1 << nb):
                        return Int(x.scale(1 << s), nb, sg)
                    return Int(bits_of_lin(x, 0, nb - s).scale(1 << s), nb, sg)
            if op in ("Shr", "ShrUnchecked") and not y.t and not sg:
                s = y.c % nb
                return Int(bits_of_lin(x, s, nb - s), nb, sg)
            if op == "BitAnd":
                for p, m in ((x, y), (y, x)):
                    if not m.t and m.c >= 0:
                        return Int(mask_lin(p, m.c, nb), nb, sg)
            if op == "BitOr" or op == "BitXor" or op == "Add":
                if disjoint(x, y) or self.bit_disjoint(x, y):
                    return Int(x + y, nb, sg)
                if not x.t and not y.t and x.c >= 0 and y.c >= 0:
                    return Int(Lin(x.c | y.c if op == "BitOr" else x.c ^ y.c), nb, sg)
            lo, hi = trange(nb, sg)
            ps = (x, y)
            if op in ("BitAnd", "BitOr", "BitXor") and repr(y) < repr(x):
                ps = (y, x)
            return Int(L(T("op" + op, ps + (nb,), lo, hi)), nb, sg)
        if op in BOOLS:
            if op in ("Eq", "Ne") and not isinstance(a, Opq) and not isinstance(b, Opq):
                c = self.val_eq(st, a, b)
                return Bool(c if op == "Eq" else c_not(c))
            return Bool(("atom", T("sym", ("cmp", fresh_uid()))))
        if op == "Offset":
            return Opq(None, "pointer arithmetic")
        self.note("binary %s on %s" % (op, type(a).__name__), self.site())
        return Opq(None, "bin " + op)

    def bit_disjoint(self, x, y):
        """low part of one below the granularity of the other"""
        for a, b in ((x, y), (y, x)):
            lo, hi = b.interval()
            if lo is None or lo < 0 or hi is None:
                continue
            s = 1 << hi.bit_length()
            if a.c % s == 0 and all(k % s == 0 for _, k in a.t):
                l2, _ = a.interval()
                if l2 is not None and l2 >= 0:
                    return True
        return False

    def iff(self, a, b):
        if a == TRUE:
            return b
        if b == TRUE:
            return a
        if a == FALSE:
            return c_not(b)
        if b == FALSE:
            return c_not(a)
        if a == b:
            return TRUE
        return c_or([c_and([a, b]), c_and([c_not(a), c_not(b)])])

    def unop(self, st, op, v, ty):
        if op == "Not":
            if isinstance(v, Bool):
                return Bool(c_not(v.c))
            if isinstance(v, Int):
                lo, hi = trange(v.bits, v.signed)
                return Int((Lin(-1) if v.signed else Lin(hi)) - v.l, v.bits, v.signed)
        if op == "Neg" and isinstance(v, Int):
            return Int(self.fit(st, -v.l, v.bits, v.signed), v.bits, v.signed)
        if op == "PtrMetadata":
            if isinstance(v, Ref):
                if v.view:
                    return Int(v.view[1], 64)
                q = self.load(st, v.obj, v.path)
                if isinstance(q, Seq):
                    return Int(seq_len(q), 64)
            return Int(L(T("sym", ("meta", fresh_uid()), 0, MAXLEN)), 64)
        self.note("unary %s" % op, self.site())
        return Opq(None, "un " + op)

    # ------------------------------------------------------------------ execution
    def statement(self, st, d, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, d, s[2], s[3] if len(s) > 3 else None)
            self.write(st, d, s[1], v)
        elif k == "dead":
            st.mem.pop(("L", d, s[1]), None)
        elif k == "setdiscr":
            obj, path, view = self.addr(st, d, s[1])
            v = self.load(st, obj, path)
            if isinstance(v, Agg):
                self.store(st, obj, path, Agg(v.ty, s[2], v.fs))
            elif isinstance(v, Sym):
                self.store(st, obj, path, self.open(st, v, s[2]))

    def stub_call(self, st, f):
        """a function left out of this analysis: any result"""
        self.event("stub", f["path"])
        return [(st, self.fresh(f["locals"][0], "stub"))]

    def locates(self, fid, f):
        """a function that looks for atoms in a stream without modifying anything, and returns where they are"""
        r = self.locators.get(fid)
        if r is None:
            r = self.locators[fid] = self.locates1(fid, f)
        return r

    def locates1(self, fid, f):
        if not f["local"] or f["closure"]:
            return False
        rt = self.types[f["locals"][0]]
        if rt["k"] != "adt" or rt.get("path") not in RESULT:
            return False
        seen = set()

        def has(t):
            if t in seen:
                return False
            seen.add(t)
            x = self.types[t]
            if x["k"] == "adt":
                if self.bounds_shape(t):
                    return True
                if x.get("local"):
                    return any(has(g["ty"]) for v in x["variants"] for g in v["fields"])
                return any(has(a) for a in x["args"] if isinstance(a, int))
            return x["k"] == "tuple" and any(has(e) for e in x["elems"])

        if not has(rt["args"][0]):
            return False
        from .callgraph import CallGraph

        if self.cg is None:
            self.cg = CallGraph(self.P)
        for g in self.cg.reach(str(fid)):
            for c, _ in self.cg.ext.get(g, ()):
                p = c.get("rpath") or c["path"]
                if "Write::" in p or "set_len" in p or "OpenOptions" in p or "BufWriter" in p:
                    return False
        return True

    def locate_call(self, st, f, args):
        """stands for any result of such a function; it is analysed on its own"""
        rt = f["locals"][0]
        t = self.types[rt]
        b, a = self.fork(st, "locate")
        h = None
        for x in args:
            n = 0
            while isinstance(x, Ref) and n < 8:
                x = self.deref(st, x)
                n += 1
            if isinstance(x, Hdl):
                h = x
        for s in (a, b):
            if h is not None and ("cur", h.hid) in s.mem:
                s.mem[("cur", h.hid)] = Int(L(T("sym", ("cur", fresh_uid()), 0, (1 << 64) - 1)), 64)
                fl = self.models.handles[h.hid][1]
                if fl is not None and ("own", fl) in s.mem:
                    s.mem[("own", fl)] = Agg(None, h.hid, ())
        b.mem[("flag", "err")] = Agg(None, "err", ())
        ok = self.mkval(t["args"][0], T("root", ("found", fresh_uid())))
        shape = self.opts.get("locate_shape")
        if shape is not None:
            ok = self.shaped(ok, shape, ())
        self.event("locate", f["path"], ok)
        return [(a, Agg(rt, 0, (ok,))), (b, Agg(rt, 1, (self.fresh(t["args"][1], "locate"),)))]

    def optionals(self, ty, path=()):
        """paths (of field indices) of the optional parts of a found atom that are found atoms themselves"""
        t = self.types[ty]
        if t["k"] == "adt" and t["kind"] == "struct" and t.get("local"):
            for i, f in enumerate(t["variants"][0]["fields"]):
                yield from self.optionals(f["ty"], path + (i,))
        elif t["k"] == "adt" and t["path"].endswith("option::Option") and t["args"]:
            u = self.types[t["args"][0]]
            if u["k"] == "adt" and u["kind"] == "struct" and u.get("local") and self.has_bounds(t["args"][0]):
                yield path, t["args"][0]
                yield from self.optionals(t["args"][0], path)

    def has_bounds(self, ty):
        if self.bounds_shape(ty) is not None:
            return True
        t = self.types[ty]
        return t["k"] == "adt" and t["kind"] == "struct" and bool(t.get("local")) and any(self.has_bounds(f["ty"]) for f in t["variants"][0]["fields"])

    def shaped(self, v, shape, path):
        """decides which optional parts of a found atom are there"""
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [self.shaped(x, shape, path + (i,)) for i, x in enumerate(v.fs)])
        if isinstance(v, Sym) and path in shape:
            if not shape[path]:
                return Agg(v.ty, 0, ())
            u = self.types[v.ty]["args"][0]
            return Agg(v.ty, 1, (self.shaped(self.mkval(u, T("fld", (v.key, 1, 0))), shape, path),))
        return v

    def run_fn(self, st, fid, args):
        """analyses a body; returns the joined outcomes [(state, value)]"""
        f = self.P.fns[fid]
        stub = self.opts.get("stub")
        if stub is not None and self.stack and stub(f):
            return self.stub_call(st, f)
        if self.opts.get("locate") and self.stack and self.locates(fid, f):
            return self.locate_call(st, f, args)
        if len(self.stack) > 60 or sum(1 for x in self.stack if x.fid == fid) > 3:
            raise AnalysisError("recursion in %s" % f["path"])
        cfg = self.P.cfg(fid)
        self.depth += 1
        d = self.depth
        fr = Frame(fid, f, cfg, d)
        self.fns_seen.add(f["path"])
        self.stack.append(fr)
        outer = st.decs
        try:
            s0 = st.copy()
            s0.decs = ()
            if f.get("spread") is not None and f.get("spread"):
                # the last argument is passed as a tuple and spread over locals
                pass
            for i, a in enumerate(args):
                s0.mem[("L", d, i + 1)] = a
            backs, exits, rets = self.region(fr, None, {0: [s0]}, None)
            outs = []
            for s in rets:
                if s.phase:
                    s.decs = outer + s.decs
                    outs.append((s, None))
                    continue
                v = s.mem.get(("L", d, 0), UNINIT)
                s.mem = {o: x for o, x in s.mem.items() if not (o[0] == "L" and o[1] == d)}
                outs.append((s, v))
            if f["local"] and not f["closure"]:
                self.mark_err(f, outs)
            if not (self.opts.get("split") and any(self.modified(s) for s, _ in outs)):
                outs = self.join_outs(outs)
            else:
                oks = [x for x in outs if not x[0].phase and not self.is_err(x[1])]
                errs = [x for x in outs if not x[0].phase and self.is_err(x[1])]
                outs = oks + self.join_errs(errs) + [x for x in outs if x[0].phase]
            for s, v in outs:
                s.decs = outer + s.decs
            return outs
        finally:
            self.stack.pop()
            self.depth -= 1

    TOLERATED = ("UnknownChannelConfig", "UnknownSampleRate")

    def mark_err(self, f, outs):
        """notes in the state that a function of the crate failed with an error of its own"""
        rt = f["locals"][0]
        t = self.types[rt]
        if t["k"] != "adt" or t.get("path") not in RESULT or len(t["args"]) < 2:
            return
        et = self.types[t["args"][1]]
        if et["k"] != "adt" or et.get("path") != "error::Error":
            return
        for s, v in outs:
            if s.mem.get(("flag", "failed")) or s.mem.get(("flag", "err")):
                continue
            if isinstance(v, Agg) and v.var == 1:
                k = v.fs[0]
                if isinstance(k, Agg) and k.fs:
                    k = k.fs[0]
                if isinstance(k, Agg) and k.var is not None and k.ty is not None:
                    nm = self.types[k.ty]["variants"][k.var]["name"]
                    if nm in self.TOLERATED:
                        continue
                s.mem[("flag", "err")] = Agg(None, "err", ())

    def prune(self, fr, st, bb):
        """forgets locals that are not used any more"""
        live = fr.cfg.live[bb]
        addr = fr.cfg.addr
        d = fr.depth
        dead = [o for o in st.mem if o[0] == "L" and o[1] == d and o[2] not in live and o[2] not in addr]
        if dead:
            for o in dead:
                del st.mem[o]

    def region(self, fr, blocks, entries, header):
        """runs the blocks from the entry states. Returns (back states at header, exits, returns)"""
        cfg = fr.cfg
        pend = {}
        backs, exits, rets = [], [], []

        def push(bb, s):
            if s.phase:
                rets.append(s)
                return
            if bb == "ret":
                rets.append(s)
                return
            self.prune(fr, s, bb)
            if bb == header:
                backs.append(s)
            elif blocks is not None and bb not in blocks:
                exits.append((bb, s))
            else:
                pend.setdefault(bb, []).append(s)

        for bb, ss in entries.items():
            pend[bb] = list(ss)
        first = True
        while pend:
            bb = min(pend, key=lambda b: cfg.idx[b])
            ss = pend.pop(bb)
            if len(ss) > 1:
                ss = self.merge(ss)
            if len(ss) > 12:
                ss = self.squeeze(ss, fr.depth)
            if len(ss) > MAXSTATES:
                self.note("more than %d states in %s" % (MAXSTATES, fr.f["path"]))
                raise AnalysisError("too many states in %s" % fr.f["path"])
            is_entry = first
            first = False
            for s in ss:
                if bb in cfg.loops and not (bb == header):
                    for b2, s2 in self.loopx.mir_loop(fr, bb, s):
                        push(b2, s2)
                    continue
                for b2, s2 in self.block(fr, bb, s):
                    push(b2, s2)
        return backs, exits, rets

    def block(self, fr, bb, st):
        """list of (successor, state)"""
        d = fr.depth
        blk = fr.f["blocks"][bb]
        for s in blk["s"]:
            self.statement(st, d, s)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            c = self.operand(st, d, t[1])
            c = c.c if isinstance(c, Bool) else ("atom", T("sym", ("assert", fresh_uid())))
            if not t[2]:
                c = c_not(c)
            self.oblige(st, t[3], c, t[-1])
            if c == FALSE:
                return []
            return [(t[4], st)]
        if k == "call":
            return self.call_term(fr, t, st)
        if k in ("resume", "abort"):
            return []
        raise AnalysisError("terminator %s" % k)

    def switch(self, fr, t, st):
        d = fr.depth
        v = self.operand(st, d, t[1])
        out = []
        if isinstance(v, Bool):
            # values are 0 (false) and otherwise / 1
            cs = []
            for val, b in t[2]:
                cs.append((v.c if val else c_not(v.c), b))
            cur = st
            for c, b in cs:
                a, cur = self.split(cur, c)
                if a is not None:
                    out.append((b, a))
                if cur is None:
                    return out
            if t[3] is not None:
                out.append((t[3], cur))
            return out
        if isinstance(v, Int):
            x = v.l.single()
            if x is not None and x.kind == "dis":
                r = self.loopx.expand(st, x)
                if r is not None:
                    out = []
                    for s in r:
                        # the operand is a copy made before: evaluate it again in the new state
                        out += self.switch(fr, t, s)
                    return out
            cur = st
            for val, b in t[2]:
                a, cur = self.split(cur, c_eq(v.l - val))
                if a is not None:
                    out.append((b, a))
                if cur is None:
                    return out
            if t[3] is not None:
                # nothing left when all values are listed
                lo, hi = v.l.interval()
                if lo is not None and hi is not None and hi - lo < 64:
                    left = [i for i in range(lo, hi + 1) if c_ne(v.l - i) not in cur.facts and i not in [q for q, _ in t[2]]]
                    if x is not None and x.kind == "dis":
                        ds = {q["discr"] for q in self.types[x.args[1]]["variants"]}
                        left = [i for i in left if i in ds]
                    if not left:
                        return out
                    if len(left) == 1:
                        cur = cur.copy()
                        cur.add(c_eq(v.l - left[0]))
                tb = fr.f["blocks"][t[3]]
                if tb["t"][0] != "unreachable" or tb["s"]:
                    out.append((t[3], cur))
            return out
        # unknown scrutinee
        self.note("switch on unknown value %r" % (v,), self.site())
        tg = [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        cur = st
        for b in tg[:-1]:
            a, cur = self.fork(cur, "switch")
            out.append((b, a))
        out.append((tg[-1], cur))
        return out

    def call_term(self, fr, t, st):
        d = fr.depth
        _, func, args, dest, target, span, argtys, destty = t
        av = [self.operand(st, d, a) for a in args]
        fv = self.operand(st, d, func)
        outs = self.call(st, fv, av, destty, span, argtys)
        res = []
        for s, v in outs:
            if s.phase:
                res.append(("ret", s))
                continue
            if target is None:
                continue
            self.write(s, d, dest, v)
            res.append((target, s))
        return res

    def call(self, st, fv, args, destty, span=None, argtys=None):
        """calls a function value; [(state, result)]"""
        while isinstance(fv, Ref):
            fv = self.deref(st, fv)
        if isinstance(fv, Fn):
            return self.call_fn(st, fv.c, args, destty, span, argtys)
        if isinstance(fv, Agg) and fv.ty is not None and self.types[fv.ty]["k"] == "closure":
            return self.call_closure(st, fv, args, destty, span)
        return self.models.unknown_call(st, "indirect call", [fv] + list(args), destty, span)

    def call_fn(self, st, c, args, destty, span, argtys=None):
        if c.get("ctor"):
            t = self.types[c["ctor_ty"]]
            return [(st, Agg(c["ctor_ty"], c["variant"] if t["kind"] == "enum" else None, args))]
        self.calls_seen.add((self.site(), c.get("rpath") or c["path"], span))
        r = self.models.call(st, c, args, destty, span, argtys)
        if r is not None:
            return r
        fid = c.get("fn")
        if fid is None:
            fid = self.dispatch(st, c, args)
        if fid is None:
            return self.models.unknown_call(st, c.get("rpath") or c["path"], args, destty, span)
        fid = str(fid)
        r = self.loopx.summary_call(st, fid, args, span)
        if r is not None:
            return r
        return self.run_fn(st, fid, args)

    def dispatch(self, st, c, args):
        """the implementation of a trait method for the value it is called on"""
        tr = c.get("trait")
        if not tr or not args:
            return None
        v = args[0]
        while isinstance(v, Ref):
            v = self.deref(st, v)
        ty = getattr(v, "ty", None)
        if ty is None:
            return None
        if not hasattr(self.P, "impls"):
            self.P.impls = {}
            for i, f in self.P.fns.items():
                if f.get("impl_trait") and not f["closure"]:
                    self.P.impls.setdefault((f["impl_trait"], f["impl_self"].split("<")[0], f["path"].rsplit("::", 1)[-1]), str(i))
        return self.P.impls.get((tr, self.types[ty]["name"].split("<")[0], c["path"].rsplit("::", 1)[-1]))

    def call_closure(self, st, clo, args, destty, span=None, selfref=None):
        """args: the logical arguments"""
        t = self.types[clo.ty]
        fid = str(t["fn"])
        f = self.P.fns[fid]
        s0 = st
        # the closure body takes the environment by value or by reference
        envty = self.types[f["locals"][1]]
        if envty["k"] in ("ref", "ptr"):
            if selfref is None:
                o = ("V", fresh_uid())
                s0 = st.copy()
                s0.mem[o] = clo
                selfref = Ref(o)
                outs = self.run_fn(s0, fid, [selfref] + list(args))
                for s, v in outs:
                    s.mem.pop(o, None)
                return outs
            return self.run_fn(s0, fid, [selfref] + list(args))
        return self.run_fn(s0, fid, [clo] + list(args))

    # ------------------------------------------------------------------ merging and joining
    def merge(self, states):
        """states with equal memory become one"""
        groups = {}
        order = []
        for s in states:
            k = frozenset((o, v) for o, v in s.mem.items())
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        return [groups[k][0] if len(groups[k]) == 1 else self.merge_eq(groups[k]) for k in order]

    def squeeze(self, ss, d):
        """states that are about to return the same error become one: only the values left to be
        dropped differ"""
        if self.opts.get("errs"):
            return ss
        groups = {}
        out = []
        for s in ss:
            v = s.mem.get(("L", d, 0))
            if s.phase or v is None or not self.is_err(v):
                out.append(s)
                continue
            keep = []
            for o, x in s.mem.items():
                if o[0] == "L" and o[1] == d and not isinstance(x, Bool):
                    if o[2] == 0:
                        x = self.errval(x)
                    else:
                        x = None
                else:
                    x = self.errcell(o, x)
                keep.append((o, x))
            groups.setdefault(frozenset(keep), []).append(s)
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            mem = {}
            for o, x in k:
                if x is None:
                    x = g[0].mem[o]
                    if any(s.mem[o] != x for s in g):
                        x = Opq(None, "value to be dropped")
                mem[o] = x
            common = {f: None for f in g[0].facts if all(f in s.facts for s in g[1:])}
            decs = tuple(x for x in g[0].decs if all(x in s.decs for s in g[1:]))
            out.append(St(mem, common, decs))
        return out

    def merge_eq(self, ss):
        common = {f: None for f in ss[0].facts if all(f in s.facts for s in ss[1:])}
        i = 0
        while all(len(s.decs) > i for s in ss) and all(s.decs[i] == ss[0].decs[i] for s in ss):
            i += 1
        pre = ss[0].decs[:i]
        c = tree_cond([s.decs[i:] for s in ss])
        m = St(dict(ss[0].mem), common, pre)
        if c != TRUE:
            m.decs = pre + (c,)
            if cond_size(c) <= 60:
                m.add(c)
        # facts that are not decisions
        rest = []
        for s in ss:
            ds = set(s.decs)
            rest.append([f for f in s.facts if f not in common and f not in ds and not any(f in d[1] for d in ds if d[0] == "and")])
        if len(ss) == 2:
            dd = discriminator([s.decs[i:] for s in ss])
            if dd is not None and (rest[0] or rest[1]):
                a, b = (0, 1) if dd[1][0] else (1, 0)
                m.facts[("guard", dd[0], tuple(rest[a]), tuple(rest[b]))] = None
        return m

    def skel(self, v):
        """shape of a value: joinable values have equal shapes"""
        if isinstance(v, Int):
            return ("I", v.bits, v.signed)
        if isinstance(v, Bool):
            return "B"
        if isinstance(v, (Agg, Sym)) and self.clike(v.ty):
            return ("CE", v.ty)
        if isinstance(v, Agg):
            return ("A", v.ty, v.var, tuple(self.skel(x) for x in v.fs))
        if self.altjoin and isinstance(v, Seq) and v.ety == self.u8():
            return "bytes"
        return v

    def is_err(self, v):
        return isinstance(v, Agg) and v.var == 1 and v.ty is not None and self.types[v.ty]["k"] == "adt" and self.types[v.ty]["path"] in RESULT

    def join_outs(self, outs):
        if len(outs) <= 1:
            return outs
        ph = [o for o in outs if o[0].phase]
        errs = [o for o in outs if not o[0].phase and self.is_err(o[1])]
        oks = [o for o in outs if not o[0].phase and not self.is_err(o[1])]
        return self.join_group(oks) + self.join_errs(errs) + ph

    def join_errs(self, outs):
        if len(outs) <= 1 or self.opts.get("errs"):
            return outs
        # the text and payload of errors, and the stream position after one, do not matter
        canon = []
        for s, v in outs:
            s.mem = {o: (self.errcell(o, x)) for o, x in s.mem.items()}
            canon.append((s, self.errval(v)))
        # buffers that differ hold partial results
        first = {}
        for s, _ in canon:
            for o, x in s.mem.items():
                if isinstance(x, Seq) and o[0] in "LVX":
                    first.setdefault(o, []).append(x)
        differ = {o for o, xs in first.items() if any(x != xs[0] for x in xs)}
        if differ:
            for s, _ in canon:
                for o in differ:
                    if isinstance(s.mem.get(o), Seq):
                        s.mem[o] = self.partial(s.mem[o])
        groups = {}
        for s, v in canon:
            k = (v, frozenset(s.mem.items()))
            groups.setdefault(k, []).append(s)
        out = []
        for (v, _), ss in groups.items():
            if len(ss) == 1:
                out.append((ss[0], v))
                continue
            common = {f: None for f in ss[0].facts if all(f in s.facts for s in ss[1:])}
            decs = tuple(x for x in ss[0].decs if all(x in s.decs for s in ss[1:]))
            m = St(ss[0].mem, common, decs)
            out.append((m, v))
        return out

    def errcell(self, o, v):
        if o[0] == "cur":
            return Int(L(T("sym", ("errcur", 0), 0, (1 << 64) - 1)), 64)
        if o[0] in ("out", "log") and isinstance(v, Seq):
            return self.partial(v)
        return v

    def partial(self, v):
        return Seq(v.ety, (("opq", T("root", ("partial", 0)), L(T("len", (T("root", ("partial", 0)),), 0, MAXLEN))),))

    def errval(self, v, top=True):
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [self.errval(x, False) for x in v.fs])
        if isinstance(v, Seq):
            return Seq(v.ety, (("opq", T("root", ("text", 0)), L(T("len", (T("root", ("text", 0)),), 0, MAXLEN))),))
        if isinstance(v, Int):
            if v.l.t:
                lo, hi = trange(v.bits, v.signed)
                return Int(L(T("sym", ("errint%d" % v.bits, 0), lo, hi)), v.bits, v.signed)
            return v
        return v

    def join_group(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        order = []
        for s, v in outs:
            cells = tuple(sorted(((o, "log" if o[0] == "log" else self.skel(x)) for o, x in s.mem.items()), key=lambda p: repr(p[0])))
            k = (self.skel(v), cells)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, v))
        out = []
        for k in order:
            g = groups[k]
            out.append(g[0] if len(g) == 1 else self.join_tree(g))
        return out

    def modified(self, s):
        return any(o[0] == "mut" and v != Bool(FALSE) for o, v in s.mem.items())

    def join_modified(self, ss):
        """once a file is being modified, states of equal shape are not told apart any more"""
        m = [s for s in ss if not s.phase and self.modified(s)]
        if len(m) < 2:
            return ss
        ids = {id(s) for s in m}
        return [s for s in ss if id(s) not in ids] + [s for s, _ in self.join_group([(s, Agg(None, None, ())) for s in m])]

    def join_tree(self, g):
        """joins outcomes of equal shape into one"""
        if len(g) == 1:
            return g[0]
        dd = discriminator([s.decs for s, _ in g])
        if dd is None:
            c = ("atom", T("sym", ("sel", fresh_uid())))
            side = [True] + [False] * (len(g) - 1)
        else:
            c, side = dd
        a = self.join_tree([x for x, sd in zip(g, side) if sd])
        b = self.join_tree([x for x, sd in zip(g, side) if not sd])
        (s1, v1), (s2, v2) = a, b
        mem = {}
        for o in s1.mem:
            x, y = s1.mem[o], s2.mem[o]
            mem[o] = x if x == y else Seq(x.ety, alt(c, explode(x.segs), explode(y.segs))) if o[0] == "log" else self.join_val(c, x, y)
        v = v1 if v1 == v2 else self.join_val(c, v1, v2)
        common = {f: None for f in s1.facts if f in s2.facts}
        r1 = tuple(f for f in s1.facts if f not in common and f != c)
        r2 = tuple(f for f in s2.facts if f not in common and f != c_not(c))
        if r1 or r2:
            common[("guard", c, r1, r2)] = None
        ds2 = set(s2.decs)
        st = St(mem, common, tuple(x for x in s1.decs if x in ds2))
        return st, v

    def join_val(self, c, a, b):
        if a == b:
            return a
        if isinstance(a, Int):
            return Int(ite(c, a.l, b.l), a.bits, a.signed)
        if isinstance(a, Bool):
            return Bool(c_ite(c, a.c, b.c))
        if isinstance(a, (Agg, Sym)) and self.clike(a.ty):
            return Sym(a.ty, T("enumv", (ite(c, self.enum_lin(a), self.enum_lin(b)), a.ty)))
        if isinstance(a, Agg):
            return Agg(a.ty, a.var, [self.join_val(c, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, Seq):
            return Seq(a.ety, alt(c, a.segs, b.segs))
        raise AnalysisError("join of %r and %r" % (a, b))


def explode(segs):
    """literal segments of one element each"""
    out = []
    for g in segs:
        if g[0] == "lit":
            out += [("lit", (x,)) for x in g[1]]
        else:
            out.append(g)
    return tuple(out)


def c_ite(c, a, b):
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return c_not(c)
    if a == TRUE:
        return c_or([c, b])
    if a == FALSE:
        return c_and([c_not(c), b])
    if b == TRUE:
        return c_or([c_not(c), a])
    if b == FALSE:
        return c_and([c, a])
    return c_or([c_and([c, a]), c_and([c_not(c), b])])


def mask_lin(p, m, nb):
    """p & m"""
    out = ZERO
    i = 0
    while m >> i:
        if not (m >> i) & 1:
            i += 1
            continue
        j = i
        while (m >> j) & 1:
            j += 1
        out = out + bits_of_lin(p, i, j - i).scale(1 << i)
        i = j
    return out


def cond_size(c):
    if c[0] in ("and", "or"):
        return 1 + sum(cond_size(x) for x in c[1])
    return 1


def tree_cond(ds):
    """the disjunction of the decision sequences, simplified along the decision tree"""
    if any(not d for d in ds):
        return TRUE
    c = ds[0][0]
    n = c_not(c)
    yes = [d[1:] for d in ds if d[0] == c]
    no = [d[1:] for d in ds if d[0] == n]
    other = [d for d in ds if d[0] != c and d[0] != n]
    if other:
        # not a binary decision at this point
        return c_or([tree_cond(yes and [(c,) + y for y in yes][:1] or [()]) if False else c_and(list(d)) for d in ds])
    a = tree_cond(yes) if yes else FALSE
    b = tree_cond(no) if no else FALSE
    if a == TRUE and b == TRUE:
        return TRUE
    if a == TRUE:
        return c if b == FALSE else c_or([c, b])
    if b == TRUE:
        return n if a == FALSE else c_or([n, a])
    return c_or([c_and([c, a]), c_and([n, b])])


def discriminator(decs):
    """a condition that every decision sequence decides, splitting them into two nonempty groups"""
    sets = []
    for d in decs:
        s = set(d)
        for c in d:
            if c[0] == "and":
                s.update(c[1])
        sets.append(s)
    for c in decs[0]:
        n = c_not(c)
        side = []
        for s in sets:
            if c in s:
                side.append(True)
            elif n in s or n[0] == "and" and all(x in s for x in n[1]):
                side.append(False)
            else:
                side = None
                break
        if side and not all(side) and any(side):
            return c, side
    # seen from the other sequences
    for k in range(1, len(decs)):
        for c in decs[k]:
            n = c_not(c)
            side = []
            for s in sets:
                if c in s or c[0] == "and" and all(x in s for x in c[1]):
                    side.append(True)
                elif n in s or n[0] == "and" and all(x in s for x in n[1]):
                    side.append(False)
                else:
                    side = None
                    break
            if side and not all(side) and any(side):
                return c, side
    return None


def seq_order(q):
    return (len(q.segs), repr(q))


SEQ_ADTS = {"std::vec::Vec", "std::string::String", "alloc::vec::Vec", "alloc::string::String"}
RESULT = {"std::result::Result", "core::result::Result"}
OPTION = {"std::option::Option", "core::option::Option"}
OPEN_STRUCTS = {"std::time::Duration", "std::ops::Range", "core::time::Duration", "core::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeInclusive"}
