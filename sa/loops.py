"""Loop invariants, loop-carried values, and summaries of parsing functions."""
from .terms import *
from .terms import T, L
from .values import *
from .values import MAXLEN, UNINIT
from . import prover
from .terms import rebuilder

UNROLL_OPEN = 6
UNROLL_DECIDED = 48


# ------------------------------------------------------------------ values in terms
@rebuilder("dis")
def _rb_dis(t, a):
    v, ty = a
    if isinstance(v, Agg) and v.var is not None:
        from .interp import Interp

        return Lin(CUR[0].discr_of(v.ty, v.var))
    if isinstance(v, Sym):
        if v.key.kind == "enumv":
            return v.key.args[0]
        return T("dis", (v.key, ty), t.lo, t.hi)
    return T("dis", (v, ty), t.lo, t.hi)


CUR = [None]  # the interpreter


@rebuilder("fld")
def _rb_fld(t, a):
    v, var, i = a
    if isinstance(v, Agg):
        if (v.var or 0) == var and i < len(v.fs):
            return v.fs[i]
        return T("fld", (T("other", (v,)), var, i))
    if isinstance(v, Sym):
        return T("fld", (v.key, var, i))
    return T("fld", a, t.lo, t.hi)


@rebuilder("elem")
def _rb_elem(t, a):
    v, i = a
    if isinstance(v, Sym):
        return T("elem", (v.key, i))
    if isinstance(v, Seq):
        return elem_of(v, i)
    return T("elem", a)


def elem_of(q, i):
    """the element of a sequence that takes the place of an unknown one"""
    if len(q.segs) == 1:
        g = q.segs[0]
        if g[0] == "sym":
            return T("elem", (g[1], g[2] + i))
        if g[0] == "lit" and isinstance(i, Lin) and not i.t and 0 <= i.c < len(g[1]):
            return g[1][i.c]
    return T("at", (q, i))


@rebuilder("int")
def _rb_int(t, a):
    v = a[0]
    if isinstance(v, Int):
        return v.l
    if isinstance(v, Sym):
        return T("int", (v.key,), t.lo, t.hi)
    return T("int", a, t.lo, t.hi)


@rebuilder("blen")
def _rb_blen(t, a):
    v, e = a
    if isinstance(v, Int) and isinstance(e, Bool):
        return v.l - ite(e.c, Lin(8), ZERO)
    v, e = [x.key if isinstance(x, Sym) else x for x in a]
    return T("blen", (v, e), t.lo, t.hi)


@rebuilder("bool")
def _rb_bool(t, a):
    v = a[0]
    if isinstance(v, Bool):
        return v.c
    if isinstance(v, Sym):
        return T("bool", (v.key,))
    return T("bool", a)


@rebuilder("len")
def _rb_len(t, a):
    v = a[0]
    if isinstance(v, Seq):
        return seq_len(v)
    if isinstance(v, Sym):
        return T("len", (v.key,), t.lo, t.hi)
    return T("len", a, t.lo, t.hi)


@rebuilder("seqeq")
def _rb_seqeq(t, a):
    x, y = a
    if x == y:
        return TRUE
    if hash(y) < hash(x):
        x, y = y, x
    if isinstance(x, Seq) and isinstance(y, Seq):
        d = seq_len(x) - seq_len(y)
        if not d.t and d.c:
            return FALSE
    return T("seqeq", (x, y))


# ------------------------------------------------------------------ leaves of values
def children(v):
    if isinstance(v, Agg):
        return v.fs
    if isinstance(v, It):
        return v.a
    if isinstance(v, Seq) and any(g[0] == "lit" for g in v.segs):
        return tuple(x for g in v.segs if g[0] == "lit" for x in g[1])
    return None


def same_shape(a, b):
    """sequences that differ at most in literal elements"""
    return (isinstance(a, Seq) and isinstance(b, Seq) and len(a.segs) == len(b.segs) and len(a.segs) > 0
            and all(x == y or (x[0] == y[0] == "lit" and len(x[1]) == len(y[1])) for x, y in zip(a.segs, b.segs)))


def leaf_diff(a, b, path, out):
    if a is b or a == b:
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.fs) == len(b.fs):
        for i, (x, y) in enumerate(zip(a.fs, b.fs)):
            leaf_diff(x, y, path + (i,), out)
        return
    if isinstance(a, It) and isinstance(b, It) and a.k == b.k and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            leaf_diff(x, y, path + (i,), out)
        return
    if same_shape(a, b):
        for i, (x, y) in enumerate(zip(children(a), children(b))):
            leaf_diff(x, y, path + (i,), out)
        return
    out.append(path)


def leaf_get(v, path):
    for i in path:
        c = children(v)
        if c is None or i >= len(c):
            return None
        v = c[i]
    return v


def leaf_set(v, path, x):
    if not path:
        return x
    i = path[0]
    if isinstance(v, Agg):
        fs = list(v.fs)
        fs[i] = leaf_set(fs[i], path[1:], x)
        return Agg(v.ty, v.var, fs)
    if isinstance(v, Seq):
        segs = []
        for g in v.segs:
            if g[0] == "lit" and 0 <= i < len(g[1]):
                xs = list(g[1])
                xs[i] = leaf_set(xs[i], path[1:], x)
                g = ("lit", tuple(xs))
            if g[0] == "lit":
                i -= len(g[1])
            segs.append(g)
        return Seq(v.ety, tuple(segs))
    a = list(v.a)
    a[i] = leaf_set(a[i], path[1:], x)
    return It(v.k, *a)


def walk_v(v, f):
    """rebuilds a value bottom-up with f applied to iterators"""
    if isinstance(v, Agg):
        fs = [walk_v(x, f) for x in v.fs]
        if any(x is not y for x, y in zip(fs, v.fs)):
            v = Agg(v.ty, v.var, fs)
        return v
    if isinstance(v, It):
        a = [walk_v(x, f) for x in v.a]
        if any(x is not y for x, y in zip(a, v.a)):
            v = It(v.k, *a)
        return f(v)
    return v


class Leaf:
    __slots__ = ("kind", "uid", "init", "c", "rel", "d", "key", "m", "parts", "ty", "frozen", "k0", "tmpl")

    def __init__(self, kind, init):
        self.kind = kind
        self.init = init
        self.uid = fresh_uid()
        self.c = self.rel = self.d = self.key = self.m = self.parts = self.ty = self.k0 = None
        self.frozen = False
        self.tmpl = None


class LoopRec:
    """what was found out about a loop (for the checks)"""

    def __init__(self, fn, header, span):
        self.fn = fn
        self.header = header
        self.span = span
        self.hs = None
        self.backs = []
        self.exits = []
        self.kinds = {}
        self.n = None


class Loops:
    def __init__(self, I):
        self.I = I
        CUR[0] = I
        self.records = {}
        self.history = []
        self.level = 0  # loops being analysed around the current point
        self.lid = 0

    @property
    def nest(self):
        """assume that children end within their parents"""
        return bool(self.I.opts.get("nest"))

    # -------------------------------------------------------------- MIR loops
    def mir_loop(self, fr, h, st):
        I = self.I
        body = fr.cfg.loops[h]

        def step(s):
            self.level += 1
            try:
                return step1(s)
            finally:
                self.level -= 1

        def step1(s):
            I.prune(fr, s, h)
            pre = s.decs
            backs, exits, rets = I.region(fr, body, {h: [s]}, h)
            return backs, exits + [("ret", r) for r in rets]

        def restrict(s):
            I.prune(fr, s, h)
            s.mem = {o: v for o, v in s.mem.items() if not (o[0] == "L" and o[1] > fr.depth)}

        f = fr.f
        sp = f["blocks"][h]["t"][-1] if f["blocks"][h]["t"] else None
        sps = [x for x in f["blocks"][h]["t"] if isinstance(x, str) and ":" in x]
        return self.loop(st, step, restrict, (f["path"], h), sps[0] if sps else None)

    # -------------------------------------------------------------- driver
    def loop(self, st, step, restrict, ident, span=None):
        """runs a loop from state st at its header. Returns exits [(label, state)]"""
        I = self.I
        self.lid += 1
        lid = self.lid
        work = [st]
        out = []
        rounds = 0
        while work:
            rounds += 1
            if rounds > 60:
                I.note("too many loop phases", ident)
                break
            s = work.pop(0)
            s = self.truncate(s, lid)
            ex = self.once(s, step, ident, span)
            for lab, e in ex:
                if e.phase == lid:
                    e.phase = False
                    restrict(e)
                    self.untruncate(e, lid)
                    work.append(e)
                else:
                    self.untruncate(e, lid)
                    out.append((lab, e))
            if len(work) > 1:
                work = I.merge(work)
        return out

    def truncate(self, st, lid):
        """limits iterators over sequences of several segments to the current segment"""
        I = self.I
        s = st.copy()

        def f(it):
            if it.k not in ("seq", "own") or it.a[-1] is not None:
                return it
            if it.k == "seq":
                q = I.load(s, it.a[0].obj, it.a[0].path)
            else:
                q = it.a[0]
            pos, end = it.a[1].l, it.a[2].l
            if not isinstance(q, Seq) or len(q.segs) <= 1:
                return it
            off = ZERO
            for g in q.segs:
                n = seg_len(g)
                nx = off + n
                if I.entails(s, c_ge(pos - nx)):
                    off = nx
                    continue
                if I.entails(s, c_ge(nx - pos)) and I.entails(s, c_ge(end - nx)):
                    if nx == end or I.entails(s, c_ge(nx - end)):
                        return it
                    return It(it.k, it.a[0], it.a[1], Int(nx, 64), Agg(None, None, (Int(Lin(lid), 64), Int(end, 64))))
                return it
            return it

        for o in list(s.mem):
            v = s.mem[o]
            w = walk_v(v, f)
            if w is not v:
                s.mem[o] = w
        return s

    def untruncate(self, st, lid):
        def f(it):
            if it.k in ("seq", "own") and it.a[-1] is not None and it.a[-1].fs[0].l.const() == lid:
                return It(it.k, it.a[0], it.a[1], it.a[-1].fs[1], None)
            return it

        for o in list(st.mem):
            v = st.mem[o]
            w = walk_v(v, f)
            if w is not v:
                st.mem[o] = w

    def once(self, st, step, ident, span):
        r = self.unroll(st, step)
        if r is not None:
            return r
        return self.summarise(st, step, ident, span)

    def unroll(self, st, step):
        I = self.I
        cur = [st]
        exits = []
        opened = 0
        I.obls.append([])
        I.events.append([])
        notes = dict(I.notes)
        ok = False
        try:
            for i in range(UNROLL_DECIDED):
                nb = []
                ne = 0
                for s in cur:
                    b, e = step(s.copy())
                    nb += b
                    exits += e
                    ne += sum(1 for _, x in e if not self.err_exit(x))
                if not nb:
                    ok = True
                    return self.merge_exits(exits)
                nb = I.merge(nb) if len(nb) > 1 else nb
                nb = I.join_modified(nb) if len(nb) > 1 else nb
                if len(nb) > 2:
                    return None
                if ne or len(nb) > 1 or len(exits) > 24:
                    opened += 1
                    if opened > UNROLL_OPEN:
                        return None
                if len(exits) > 0 and i > UNROLL_OPEN and opened == 0 and len(exits) > 60:
                    return None
                cur = nb
            return None
        finally:
            o = I.obls.pop()
            ev = I.events.pop()
            if ok:
                I.obls[-1].extend(o)
                I.events[-1].extend(ev)
            else:
                I.notes.clear()
                I.notes.update(notes)
                I.notes.update(I.stuck)

    def err_exit(self, st):
        return bool(st.mem.get(("flag", "failed")))

    def merge_exits(self, exits):
        by = {}
        for lab, s in exits:
            by.setdefault((lab, s.phase), []).append(s)
        out = []
        for (lab, ph), ss in by.items():
            if len(ss) > 1 and not ph:
                ss = self.I.merge(ss)
            if len(ss) > 1 and not ph:
                ss = self.I.join_modified(ss)
            out += [(lab, s) for s in ss]
        return out

    # -------------------------------------------------------------- summarisation
    def summarise(self, st0, step, ident, span):
        I = self.I
        u0 = fresh_uid()
        n = T("sym", ("n", fresh_uid()), 0, MAXLEN)
        leaves = {}
        self.cands = []
        inv = []
        forall = []
        stable = False
        entry_facts = set(st0.facts)
        rounds = 0
        while rounds < 14:
            rounds += 1
            hs = self.header(st0, leaves, n, inv, forall)
            backs, exits = self.quiet(step, hs)
            if not backs and rounds == 1:
                break
            lazy = {o for b in backs for o in b.mem if o[0] == "K" and o not in hs.mem}
            if lazy:
                # symbolic objects first modified in the loop
                st0 = st0.copy()
                for o in lazy:
                    st0.mem[o] = I.loadobj(st0, o)
                continue
            ns = self.reshape(st0, hs, backs, leaves, u0)
            if ns is not None:
                # one fixed element of a sequence is modified: the rest is carried unchanged
                st0 = ns
                continue
            ch = self.classify(st0, hs, backs, leaves, n, u0, entry_facts)
            if ch:
                inv, forall = [], []
                continue
            # invariants
            if not stable:
                inv = self.invariants(st0, hs, backs, leaves, n, u0, entry_facts)
                forall = self.foralls(hs, backs, n, u0, entry_facts)
                stable = True
                continue
            bad = [c for c in inv if not self.preserved(c, hs, backs, leaves, n)]
            if bad:
                inv = [c for c in inv if c not in bad]
                continue
            break
        else:
            I.note("loop invariant not found", ident)
        # final pass, with obligations
        hs = self.header(st0, leaves, n, inv, forall)
        hs0 = hs.copy()
        backs, exits = step(hs)
        rec = LoopRec(ident[0], ident[1], span)
        rec.hs, rec.backs, rec.kinds, rec.n, rec.st0 = hs0, backs, leaves, n, st0
        rec.exits = [(lab, e.copy()) for lab, e in exits]
        rec.nested = self.nest
        self.records[(ident, tuple(f.fid for f in I.stack), self.nest)] = rec
        self.history.append(rec)
        self.register_origins(hs0, backs, leaves, n, u0, entry_facts)
        cut = I.opts.get("cut")
        if cut is not None and not self.level and cut(I, rec):
            # the rule is not interested in what follows
            return []
        out = []
        for lab, e in exits:
            e = self.at_exit(e, n, u0, hs0, backs, leaves)
            if e is not None:
                out.append((lab, e))
        # a failure in an earlier round from which the loop went on
        carried = {(o, v) for b in backs for o, v in b.mem.items() if o[0] == "flag" and v and not hs0.mem.get(o)}
        for o, v in sorted(carried, key=repr):
            for lab, e in list(out):
                if not e.mem.get(o) and not e.phase:
                    e2 = e.copy()
                    e2.mem[o] = v
                    out.append((lab, e2))
        return self.merge_exits(out)

    def quiet(self, step, hs):
        I = self.I
        I.obls.append([])
        I.events.append([])
        notes = dict(I.notes)
        try:
            return step(hs.copy())
        finally:
            I.obls.pop()
            I.events.pop()
            # only the final pass counts, except for what entered a summary
            I.notes.clear()
            I.notes.update(notes)
            I.notes.update(I.stuck)

    def header(self, st0, leaves, n, inv, forall):
        s = st0.copy()
        s.decs = ()
        for (o, path), lf in leaves.items():
            s.mem[o] = leaf_set(s.mem.get(o, UNINIT), path, self.leaf_value(st0, leaves, lf, n))
        for c in inv:
            s.add(c)
        for c in forall:
            s.facts[c] = None
        for lf in leaves.values():
            if lf.kind == "seq" and lf.m is not None:
                pass
        return s

    def leaf_value(self, st0, leaves, lf, n):
        k = lf.kind
        i = lf.init
        if k == "phi":
            lo, hi = trange(i.bits, i.signed)
            return Int(L(T("sym", ("phi", lf.uid), lo, hi)), i.bits, i.signed)
        if k == "lin":
            return Int(i.l + mul(L(n), lf.c), i.bits, i.signed)
        if k == "sum":
            bv = bvar()
            return Int(i.l + lsum(L(n), bv, Subst({n: L(bv)}).lin(lf.d)), i.bits, i.signed)
        if k == "rel":
            o = leaves[lf.rel]
            return Int(i.l + self.leaf_value(st0, leaves, o, n).l - o.init.l, i.bits, i.signed)
        if k == "bool":
            return Bool(("atom", T("sym", ("phib", lf.uid))))
        if k == "val":
            if lf.ty is None:
                return Opq(None, "loop value")
            return self.I.mkval(lf.ty, T("root", ("phi", lf.uid)))
        if k == "app":
            return Seq(i.ety, norm_segs(i.segs + (("acc", T("root", ("acc", lf.uid)), lf.m if lf.m is not None else L(T("sym", ("m", lf.uid), 0, MAXLEN))),)))
        if k == "apploop":
            bv = bvar()
            sb = Subst({n: L(bv)})
            parts = tuple((sb.cond(c), tuple(subst_seg(g, sb) for g in segs)) for c, segs in lf.parts)
            return Seq(i.ety, norm_segs(i.segs + (self.norm_loop(("loop", L(n), bv, parts), i.ety),)))
        if k == "map":
            bv = bvar()
            v = Subst({n: L(bv)}).any(lf.d)
            I = self.I
            k0 = lf.k0
            pre = I.seq_slice(st0, i, ZERO, k0)
            # the rest starts at k0 + n: valid because the index is in range
            post = self.drop(st0, i, k0, L(n))
            return Seq(i.ety, norm_segs(pre.segs + (("gen", L(n), bv, v),) + post))
        if k == "stm":
            # the file has been modified in an earlier round
            return Sym(None, T("stm", ("after", 0)))
        if k == "own":
            return Agg(None, "mixed", ())
        if k == "havoc":
            if isinstance(i, Seq):
                r = T("root", ("hav", lf.uid))
                return Seq(i.ety, ((("opq", r) if i.ety is None else ("sym", r, ZERO)) + (L(T("len", (r,), 0, MAXLEN)),),))
            return Opq(None, "loop value")
        raise AssertionError(k)

    def drop(self, st0, q, k0, n):
        """segments of q from index k0 + n on, where [k0, k0+n] lies in one segment"""
        off = ZERO
        for i, g in enumerate(q.segs):
            gn = seg_len(g)
            if off == k0 or self.I.entails(st0, c_and([c_ge(k0 - off), c_ge(off + gn - k0 - 1)])):
                a, b = self.I.split_seg(g, k0 + n - off)
                return ((b,) if b else ()) + q.segs[i + 1 :]
            off = off + gn
        return (("opq", T("root", ("drop", fresh_uid())), seq_len(q) - k0 - n),)

    def norm_loop(self, g, ety):
        _, n, bv, parts = g
        if len(parts) == 1 and len(parts[0][1]) == 1 and parts[0][1][0][0] == "lit" and len(parts[0][1][0][1]) == 1:
            v = parts[0][1][0][1][0]
            return norm_gen(self.I, ("gen", n, bv, v), ety)
        if len(parts) > 1 and all(len(s) == 1 and s[0][0] == "lit" and len(s[0][1]) == 1 and isinstance(s[0][1][0], Int) for _, s in parts):
            r = parts[-1][1][0][1][0]
            l = r.l
            for c, s in reversed(parts[:-1]):
                l = ite(c, s[0][1][0].l, l)
            return norm_gen(self.I, ("gen", n, bv, Int(l, r.bits, r.signed)), ety)
        return g

    def loop_varying(self, x, n, u0):
        """does x mention symbols created in the loop other than the iteration number?"""
        for t in collect_terms(x):
            if t.kind in ("sym", "root", "stm") and t is not n:
                u = t.args[1]
                if isinstance(u, int) and u >= u0:
                    return True
        return False

    def classify(self, st0, hs, backs, leaves, n, u0, entry_facts):
        I = self.I
        changed = False
        for b in backs:
            for o in hs.mem:
                if o not in b.mem:
                    continue
                d = []
                leaf_diff(hs.mem[o], b.mem[o], (), d)
                for path in d:
                    if any((o, path[:k]) in leaves for k in range(len(path) + 1)):
                        continue
                    # a new leaf
                    for key in [x for x in leaves if x[0] == o and x[1][: len(path)] == path]:
                        del leaves[key]
                    init = leaf_get(st0.mem[o], path)
                    leaves[(o, path)] = self.new_leaf(init, leaf_get(b.mem[o], path), (o, path))
                    changed = True
        if changed:
            return True
        # refine
        ints = [(k, lf) for k, lf in leaves.items() if lf.kind in ("phi", "lin", "sum", "rel")]
        delta = {}
        for k, lf in ints:
            ds = []
            for b in backs:
                v = leaf_get(b.mem.get(k[0], UNINIT), k[1])
                h = leaf_get(hs.mem[k[0]], k[1])
                if not isinstance(v, Int) or not isinstance(h, Int):
                    ds = None
                    break
                ds.append(v.l - h.l)
            delta[k] = ds
            if ds is None:
                leaves[k] = Leaf("havoc", lf.init)
                changed = True
        if changed:
            return True
        for k, lf in ints:
            ds = delta[k]
            if not ds:
                continue
            if lf.kind == "lin":
                if any(d != lf.c and not prover.equal(b.facts, d, lf.c) for d, b in zip(ds, backs)):
                    lf.kind, lf.frozen, changed = "phi", True, True
            elif lf.kind == "sum":
                if any(not prover.equal(b.facts, d, lf.d) for d, b in zip(ds, backs)):
                    lf.kind, lf.frozen, changed = "phi", True, True
            elif lf.kind == "rel":
                o = delta.get(lf.rel)
                if o is None or any(d != e and not prover.equal(b.facts, d, e) for d, e, b in zip(ds, o, backs)):
                    lf.kind, lf.frozen, changed = "phi", True, True
        if changed:
            return True
        for k, lf in ints:
            if lf.kind != "phi" or lf.frozen:
                continue
            ds = delta[k]
            if not ds:
                continue
            d0 = ds[0]
            if all(d == d0 or prover.equal(b.facts, d, d0) for d, b in zip(ds, backs)) and not self.loop_varying(d0, n, u0) and not mentions(d0, n):
                lf.kind, lf.c, changed = "lin", d0, True
        if changed:
            return True
        for k, lf in ints:
            if lf.kind == "phi" and not lf.frozen and delta[k]:
                t = self.tree([(b.decs, d) for b, d in zip(backs, delta[k])], n, u0)
                if t is not None:
                    lf.kind, lf.d, changed = "sum", t, True
        if changed:
            return True
        phis = [(k, lf) for k, lf in ints if lf.kind == "phi"]
        # the stream position is the representative
        phis.sort(key=lambda p: (p[0][0][0] != "cur", p[1].uid))
        for i, (k, lf) in enumerate(phis):
            if lf.frozen:
                continue
            for k2, lf2 in phis[:i]:
                if lf2.kind != "phi":
                    continue
                if all(d == e or prover.equal(b.facts, d, e) for d, e, b in zip(delta[k], delta[k2], backs)):
                    lf.kind, lf.rel, changed = "rel", k2, True
                    break
        if changed:
            return True
        # sequences
        for k, lf in list(leaves.items()):
            if lf.kind in ("app", "apploop"):
                xs = []
                for b in backs:
                    v = leaf_get(b.mem.get(k[0], UNINIT), k[1])
                    h = leaf_get(hs.mem[k[0]], k[1])
                    xs.append(suffix(h, v))
                if any(x is None for x in xs):
                    nl = self.map_leaf(st0, hs, backs, k, lf, n, u0) if lf.kind == "app" and not lf.frozen else None
                    leaves[k] = nl or Leaf("havoc", lf.init)
                    changed = True
                    continue
                if lf.kind == "app" and not lf.frozen:
                    parts = self.part_tree([(b.decs, x) for b, x in zip(backs, xs)], n, u0)
                    if parts is not None:
                        lf.kind, lf.parts, changed = "apploop", parts, True
                        continue
                    if lf.m is None and all(len(x) == 1 and x[0][0] == "lit" and len(x[0][1]) == 1 for x in xs):
                        lf.m, changed = L(n), True
                elif lf.kind == "apploop":
                    parts = self.part_tree([(b.decs, x) for b, x in zip(backs, xs)], n, u0)
                    if parts is None:
                        lf.kind, lf.frozen, changed = "app", True, True
                    elif parts != lf.parts:
                        lf.parts = parts
                        lf.c = (lf.c or 0) + 1
                        if lf.c > 3:
                            lf.kind, lf.frozen = "app", True
                        changed = True
            elif lf.kind == "map":
                nl = self.map_leaf(st0, hs, backs, k, lf, n, u0)
                if nl is None:
                    leaves[k] = Leaf("havoc", lf.init)
                    changed = True
                elif nl.d != lf.d or nl.k0 != lf.k0:
                    lf.c = (lf.c or 0) + 1
                    if lf.c > 2:
                        leaves[k] = Leaf("havoc", lf.init)
                    else:
                        lf.d, lf.k0 = nl.d, nl.k0
                    changed = True
        return changed

    def reshape(self, st0, hs, backs, leaves, u0):
        I = self.I
        for b in backs:
            for o in hs.mem:
                if o not in b.mem:
                    continue
                d = []
                leaf_diff(hs.mem[o], b.mem[o], (), d)
                for path in d:
                    if any((o, path[:k]) in leaves for k in range(len(path) + 1)):
                        continue
                    h, v = leaf_get(hs.mem[o], path), leaf_get(b.mem[o], path)
                    pu = point_update(h, v)
                    if pu is None or self.loop_varying(pu[0], T("none", ()), u0):
                        continue
                    q = leaf_get(st0.mem[o], path)
                    if not isinstance(q, Seq):
                        continue
                    r = I.seg_at(st0, q, pu[0])
                    if r is None or q.segs[r[0]][0] == "lit":
                        continue
                    x = I.seq_get(st0, q, pu[0])
                    if x is None or isinstance(x, Opq):
                        continue
                    nq = I.seq_set(st0, q, pu[0], x)
                    ns = st0.copy()
                    ns.mem[o] = leaf_set(ns.mem[o], path, nq)
                    return ns
        return None

    def static_type(self, o, path):
        """declared type of a part of a local variable"""
        I = self.I
        if o[0] != "L":
            return None
        fr = next((f for f in I.stack if f.depth == o[1]), None)
        if fr is None:
            return None
        ty = fr.f["locals"][o[2]]
        for p in path:
            t = I.types[ty]
            if p[0] != "f":
                return None
            if t["k"] == "tuple":
                ty = t["elems"][p[1]]
            elif t["k"] == "closure":
                ty = t["upvars"][p[1]]
            elif t["k"] == "adt":
                try:
                    ty = I.fty(ty, p[3] if len(p) > 3 else None, p[1])
                except Exception:
                    return None
            else:
                return None
        return ty

    def plain(self, ty, d=0):
        """owned data without references"""
        t = self.I.types[ty]
        k = t["k"]
        if k in ("int", "bool", "char"):
            return True
        if d > 12:
            return False
        if k == "tuple":
            return all(self.plain(e, d + 1) for e in t["elems"])
        if k == "array":
            return self.plain(t["elem"], d + 1)
        if k == "adt":
            if t["path"].startswith("std::io") or t["path"].startswith("std::fs"):
                return False
            if t.get("local") or t["path"] in ("std::option::Option", "core::option::Option"):
                return all(self.plain(f["ty"], d + 1) for v in t["variants"] for f in v["fields"])
            if self.I.is_seq_ty(ty):
                return all(self.plain(a, d + 1) for a in t["args"][:1] if isinstance(a, int))
        return False

    def new_leaf(self, init, back, key=None):
        if isinstance(init, Int) and isinstance(back, Int):
            return Leaf("phi", init)
        if isinstance(init, Bool) and isinstance(back, Bool):
            return Leaf("bool", init)
        if isinstance(init, Seq) and isinstance(back, Seq):
            return Leaf("app", init)
        if key is not None and key[0][0] in ("stm", "own"):
            return Leaf(key[0][0], init)
        ty = None
        for v in (init, back):
            if isinstance(v, (Agg, Sym)) and v.ty is not None:
                ty = v.ty
        if ty is None and key is not None:
            ty = self.static_type(*key)
            if ty is not None and not self.plain(ty):
                ty = None
        lf = Leaf("val" if ty is not None else "havoc", init)
        lf.ty = ty
        if ty is None:
            self.I.note("loop-carried value of unknown type: %r / %r" % (type(init).__name__, type(back).__name__), self.I.site())
        return lf

    def tree(self, xs, n, u0):
        """if-then-else over the partitions, in terms of the iteration number only"""
        from .interp import discriminator

        if all(x[1] == xs[0][1] for x in xs):
            return None if self.loop_varying(xs[0][1], n, u0) else xs[0][1]
        dd = discriminator([x[0] for x in xs])
        if dd is None or self.loop_varying(dd[0], n, u0):
            return None
        a = self.tree([x for x, s in zip(xs, dd[1]) if s], n, u0)
        b = self.tree([x for x, s in zip(xs, dd[1]) if not s], n, u0)
        if a is None or b is None:
            return None
        return ite(dd[0], a, b)

    def part_tree(self, xs, n, u0, cond=TRUE):
        from .interp import discriminator

        if all(x[1] == xs[0][1] for x in xs):
            if self.loop_varying(xs[0][1], n, u0):
                return None
            return ((cond, xs[0][1]),)
        dd = discriminator([x[0] for x in xs])
        if dd is None or self.loop_varying(dd[0], n, u0):
            return None
        a = self.part_tree([x for x, s in zip(xs, dd[1]) if s], n, u0, c_and([cond, dd[0]]))
        b = self.part_tree([x for x, s in zip(xs, dd[1]) if not s], n, u0, c_and([cond, c_not(dd[0])]))
        if a is None or b is None:
            return None
        return a + b

    def map_leaf(self, st0, hs, backs, k, lf, n, u0):
        """recognises the in-place update of element k0 + n"""
        I = self.I
        init = lf.init
        h = leaf_get(hs.mem[k[0]], k[1])
        got = []
        k0 = None
        for b in backs:
            v = leaf_get(b.mem.get(k[0], UNINIT), k[1])
            if v == h:
                got.append((b.decs, None))
                continue
            r = point_update(h, v)
            if r is None:
                return None
            idx, val = r
            j = idx - L(n)
            if mentions(j, n) or self.loop_varying(j, n, u0):
                return None
            if k0 is None:
                k0 = j
            elif k0 != j:
                return None
            got.append((b.decs, val))
        if k0 is None:
            return None
        orig = None
        vals = []
        for (decs, v), b in zip(got, backs):
            if v is None:
                v = I.seq_get(b, h, k0 + L(n))
            vals.append((decs, v))
        if all(isinstance(v, Int) for _, v in vals):
            t = self.tree([(d, v.l) for d, v in vals], n, u0)
            if t is None:
                return None
            val = Int(t, vals[0][1].bits, vals[0][1].signed)
        elif all(v == vals[0][1] for _, v in vals) and not self.loop_varying(vals[0][1], n, u0):
            val = vals[0][1]
        else:
            return None
        nl = Leaf("map", init)
        nl.d, nl.k0 = val, k0
        return nl

    # -------------------------------------------------------------- invariants
    def phi_terms(self, leaves, n):
        out = {n}
        for lf in leaves.values():
            if lf.kind == "phi":
                i = lf.init
                out.add(T("sym", ("phi", lf.uid)))
            if lf.kind == "app" and lf.m is None:
                out.add(T("sym", ("m", lf.uid)))
        return out

    def next_subst(self, b, leaves, n):
        """header quantities -> their values at the end of the iteration"""
        m = {n: L(n) + 1}
        for (o, path), lf in leaves.items():
            v = leaf_get(b.mem.get(o, UNINIT), path)
            if lf.kind == "phi" and isinstance(v, Int):
                m[T("sym", ("phi", lf.uid))] = v.l
            if lf.kind == "app" and lf.m is None and isinstance(v, Seq):
                m[T("sym", ("m", lf.uid))] = seq_len(v) - seq_len(lf.init)
        return Subst(m)

    def init_subst(self, leaves, n):
        m = {n: ZERO}
        for (o, path), lf in leaves.items():
            if lf.kind == "phi":
                m[T("sym", ("phi", lf.uid))] = lf.init.l
            if lf.kind == "app" and lf.m is None:
                m[T("sym", ("m", lf.uid))] = ZERO
        return Subst(m)

    def invariants(self, st0, hs, backs, leaves, n, u0, entry_facts):
        I = self.I
        pts = self.phi_terms(leaves, n)
        cands = []
        for (o, path), lf in leaves.items():
            if lf.kind == "phi":
                p = L(T("sym", ("phi", lf.uid)))
                cands.append(c_ge(p - lf.init.l))
                cands.append(c_ge(lf.init.l - p))
                cands.append(c_ge(p - lf.init.l - L(n)))
            if lf.kind == "app" and lf.m is None:
                cands.append(c_ge(L(n) - L(T("sym", ("m", lf.uid)))))
        if self.nest:
            # a counter that keeps pace with a position
            ph = [(o, lf) for (o, path), lf in leaves.items() if lf.kind == "phi"]
            for o, a in ph:
                if o[0] != "cur":
                    continue
                for o2, b in ph:
                    if o2[0] == "cur":
                        continue
                    for sg in (1, -1):
                        x = L(T("sym", ("phi", a.uid))) - a.init.l - (L(T("sym", ("phi", b.uid))) - b.init.l).scale(sg)
                        cands.append(c_ge(x))
                        cands.append(c_ge(-x))
        # bounds checked by every iteration
        common = None
        for b in backs:
            fs = [f for f in b.facts if f[0] == "ge" and f not in entry_facts and any(mentions(f[1], p) for p in pts)]
            common = fs if common is None else [f for f in common if f in set(fs)]
        for f in common or []:
            if self.loop_varying_except(f[1], pts, u0):
                continue
            for k in (0, 1):
                cands.append(c_ge(f[1] + k))
        ini = self.init_subst(leaves, n)
        out = []
        for c in cands:
            if c == TRUE or c == FALSE or c in out:
                continue
            if I.entails(st0, ini.cond(c)):
                out.append(c)
        # discard what is not preserved under the others
        while True:
            bad = []
            for c in out:
                if not self.preserved_by(c, out, backs, leaves, n):
                    bad.append(c)
            if not bad:
                return out
            out = [c for c in out if c not in bad]

    def loop_varying_except(self, x, pts, u0):
        for t in collect_terms(x):
            if t.kind in ("sym", "root", "stm") and t not in pts:
                u = t.args[1]
                if isinstance(u, int) and u >= u0:
                    return True
        return False

    def preserved_by(self, c, inv, backs, leaves, n):
        for b in backs:
            s = self.next_subst(b, leaves, n)
            g = s.cond(c)
            if g == TRUE:
                continue
            facts = dict(b.facts)
            for i in inv:
                facts[i] = None
            if not prover.entails(facts, g):
                return False
        return True

    def preserved(self, c, hs, backs, leaves, n):
        return self.preserved_by(c, (), backs, leaves, n)

    def foralls(self, hs, backs, n, u0, entry_facts):
        from .interp import tree_cond

        ds = []
        for b in backs:
            ds.append(tuple(c for c in b.decs if not self.loop_varying(c, n, u0)))
        if not ds or any(not d for d in ds):
            return []
        c = tree_cond(ds)
        if c == TRUE:
            return []
        pats = set()
        for t in collect_terms(c):
            if t.kind == "elem" and isinstance(t.args[0], Term) and isinstance(t.args[1], Lin) and t.args[1].coef(n) == 1 and not mentions(t.args[0], n):
                pats.add((t.args[0], t.args[1] - L(n)))
            elif t.kind == "at" and t.args[1].coef(n) == 1 and not mentions(t.args[0], n):
                pats.add((t.args[0], t.args[1] - L(n)))
        if not pats and not any(t.kind == "be" and mentions(t, n) for t in collect_terms(c)):
            return []
        # literals about something other than the elements are not kept
        bv = bvar()
        return [("forall", bv, L(n), tuple(sorted(pats, key=lambda p: (isinstance(p[0], Term), p[0].id if isinstance(p[0], Term) else hash(p[0])))), Subst({n: L(bv)}).cond(c))]

    # -------------------------------------------------------------- leaving the loop
    def at_exit(self, e, n, u0, hs, backs, leaves):
        I = self.I
        if e.phase is False or e.phase:
            pass
        # the iteration number, when the exit determines it
        best = None
        for f in list(e.facts):
            if f[0] == "ge" and f[1].coef(n) == -1:
                x = f[1] + L(n)  # n <= x
                if not self.loop_varying(x, n, u0) and not mentions(x, n) and I.entails(e, c_ge(L(n) - x)):
                    best = x
                    break
            if f[0] == "eq" and abs(f[1].coef(n)) == 1:
                k = f[1].coef(n)
                x = L(n) - f[1].scale(k)
                if not self.loop_varying(x, n, u0) and not mentions(x, n):
                    best = x
                    break
        if self.nest and any(o[0] == "cur" for (o, p) in leaves):
            # children are assumed to end exactly where their parent ends
            pts = self.phi_terms(leaves, n) - {n}
            for f in list(e.facts):
                if f[0] == "ge" and f not in hs.facts and any(f[1].coef(p) > 0 for p in pts):
                    g = c_not(f)
                    if backs and all(g in b.facts for b in backs):
                        e.add(c_ge(-f[1]))
                        e.add(c_eq(f[1]))
        if best is not None:
            e.map(Subst({n: best}))
            e.add(c_ge(best))
        return e

    # -------------------------------------------------------------- loop-carried values
    def register_origins(self, hs, backs, leaves, n, u0, entry_facts):
        I = self.I
        u1 = fresh_uid()
        for (o, path), lf in leaves.items():
            if lf.kind == "val":
                hv = leaf_get(hs.mem[o], path)
                if not isinstance(hv, Sym):
                    # structs: the fields are symbols of their own; leave them unrelated
                    continue
                alts = []
                for b in backs:
                    v = leaf_get(b.mem.get(o, UNINIT), path)
                    if v == hv:
                        continue
                    alts.append((v, tuple(f for f in b.facts if f not in entry_facts and f[0] != "forall")))
                I.orig[("phi", lf.uid)] = (lf.init, alts, u0, u1, n, hv.key)
            elif lf.kind == "app":
                alts = []
                every = True
                for b in backs:
                    v = leaf_get(b.mem.get(o, UNINIT), path)
                    h = leaf_get(hs.mem[o], path)
                    x = suffix(h, v) or ()
                    if len(x) == 1 and x[0][0] == "lit" and len(x[0][1]) == 1:
                        alts.append((x[0][1][0], tuple(f for f in b.facts if f not in entry_facts and f[0] != "forall")))
                    elif x:
                        every = None
                    else:
                        if every:
                            every = False
                I.orig[("acc", lf.uid)] = (None, alts if every is not None else None, u0, u1, n, lf.m is not None)

    def retag(self, x, tags):
        for t in tags:
            u0, u1, mp = t.args[0], t.args[1], t.args[2]
            x = Subst(dict(mp), u0, u1, t).any(x)
        return x

    def expand(self, st, x):
        """states for the possible origins of the loop-carried enum value behind the discriminant x"""
        I = self.I
        key, ty = x.args
        if not isinstance(key, Term) or key.kind != "root":
            return None
        o = I.orig.get((key.args[0], key.args[1]))
        if o is None or key.args[0] not in ("phi", "accel"):
            return None
        init, alts, u0, u1, n, _ = o
        tags = key.args[2] if len(key.args) > 2 else ()
        res = []
        j = T("sym", ("it", fresh_uid()), 0, MAXLEN)
        cands = []
        if init is not None:
            cands.append((self.retag(init, tags), ()))
        for v, facts in alts:
            if key.args[0] == "phi":
                t = T("tag", (u0, u1, ((n, L(j)),)))
                s = Subst({n: L(j)}, u0, u1, t)
                fs = tuple(s.cond(f) for f in facts)
                cands.append((self.retag(s.any(v), tags), tuple(self.retag(f, tags) for f in fs)))
            else:
                cands.append((self.retag(v, tags), tuple(self.retag(f, tags) for f in facts)))
        oterm = T("origin", (key,), 0, max(len(cands) - 1, 0))
        for i, (v, fs) in enumerate(cands):
            s = st.copy()
            if FALSE in fs:
                continue
            ok = True
            s.map(Subst({key: v}))
            if any(f == FALSE for f in s.facts):
                continue
            for f in fs:
                s.add(f)
            if len(cands) > 1:
                d = c_eq(L(oterm) - i)
                s.decs = s.decs + tuple(c_ne(L(oterm) - q) for q in range(i)) + (d,)
            res.append(s)
        return res

    def acc_elem(self, st, g, d):
        I = self.I
        key = g[1]
        if key.kind != "root":
            return None
        o = I.orig.get((key.args[0], key.args[1]))
        if o is None or not o[1]:
            return None
        _, alts, u0, u1, n, everyn = o
        tags = key.args[2] if len(key.args) > 2 else ()
        j = d if everyn else L(T("itn", (key, d), 0, MAXLEN))
        t = T("tag", (u0, u1, ((n, j),)))
        s = Subst({n: j}, u0, u1, t)
        vals = [(s.any(v), tuple(s.cond(f) for f in fs)) for v, fs in alts]
        vals = [(self.retag(v, tags), tuple(self.retag(f, tags) for f in fs)) for v, fs in vals]
        if len(vals) == 1:
            for f in vals[0][1]:
                st.add(f)
            return vals[0][0]
        v0 = vals[0][0]
        if isinstance(v0, Agg) and v0.ty is not None and I.is_enum(v0.ty):
            uid = key.args[1]
            I.orig[("accel", uid)] = (None, alts, u0, u1, n, None)
            return Sym(v0.ty, T("root", ("accel", uid, (t,) + tags)))
        return None

    # -------------------------------------------------------------- summaries of emitting functions
    def reachable(self, st, vals):
        """the memory cells reachable from the values, or None"""
        I = self.I
        seen = {}
        todo = list(vals)
        while todo:
            v = todo.pop()
            if isinstance(v, Ref):
                o = v.obj
                if o in seen:
                    continue
                if o in st.mem:
                    seen[o] = st.mem[o]
                    todo.append(st.mem[o])
                elif o[0] not in ("K", "C"):
                    return None
            elif isinstance(v, Hdl):
                return None
            elif isinstance(v, (Opq, It)):
                return None
            elif isinstance(v, V):
                todo.extend(v.parts())
            elif isinstance(v, tuple):
                todo.extend(v)
        return seen

    def key_of(self, v):
        """the key K with v = mkval(type, K), if v looks like that"""
        while isinstance(v, Agg) and v.var is None and v.fs:
            k = self.key_of(v.fs[0])
            return k.args[0] if k is not None and k.kind == "fld" and k.args[1:] == (0, 0) else None
        if isinstance(v, Sym):
            return v.key
        if isinstance(v, Int):
            t = v.l.single()
            return t.args[0] if t is not None and t.kind == "int" else None
        if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "sym":
            return v.segs[0][1]
        if isinstance(v, Ref) and v.obj[0] == "K" and not v.path and v.obj[1].kind == "deref":
            return v.obj[1].args[0]
        return None

    def formal(self, st, ty, a):
        """generalises a shared reference to an unmodified element of a symbolic value:
        (cell, type, formal key, actual key)"""
        I = self.I
        t = I.types[ty]
        if not isinstance(a, Ref) or t["k"] != "ref" or t["mut"] or not a.path or a.view is not None:
            return None
        if I.types[t["to"]]["k"] != "adt" or not I.types[t["to"]].get("local"):
            return None
        v = I.deref(st, a)
        k = self.key_of(v)
        if k is None or k.kind not in ("elem", "fld", "deref", "root") or I.mkval(t["to"], k) != v:
            return None
        if k.kind == "root":
            return None
        return k

    def append_call(self, st, fid, args):
        """a function that appends to one byte vector or writer, summarised independently of what was
        written already, of the facts of the caller and of which element it is called for"""
        I = self.I
        f = I.P.fns[fid]
        tys = f["locals"]
        pos = None
        for i, a in enumerate(args):
            t = I.types[tys[i + 1]]
            if t["k"] == "ref" and t["mut"]:
                if pos is not None or not isinstance(a, Ref):
                    return None
                pos = i
        if pos is None:
            return None
        tgt = args[pos]
        n = 0
        while n < 4:
            v = I.deref(st, tgt)
            if not isinstance(v, Ref):
                break
            tgt = v
            n += 1
        if st.mem.get(("flag", "failed")) or st.mem.get(("flag", "err")):
            return None
        hid = None
        if isinstance(v, Hdl):
            if I.models.handles.get(v.hid, (0,))[0] != "out":
                return None
            hid = v.hid
            o = ("out", hid)
            ety = I.u8()
        elif isinstance(v, Seq) and tgt.view is None:
            ety = v.ety
            if ety != I.u8():
                return None
        else:
            return None
        rest = []
        gen = []
        for i, a in enumerate(args):
            if i == pos:
                continue
            k = self.formal(st, tys[i + 1], a)
            if k is None:
                rest.append(a)
            else:
                gen.append((i, I.types[tys[i + 1]]["to"], k))
                rest.append(("formal", I.types[tys[i + 1]]["to"]))
        mem = self.reachable(st, [x for x in rest if isinstance(x, V)])
        if mem is None or (hid is None and tgt.obj in mem):
            return None
        key = ("append", fid, hid, tuple(rest), frozenset(mem.items()), self.nest)
        sm = I.summaries.get(key)
        if sm is None:
            I.sticky += 1
            try:
                sm = I.summaries[key] = self.make_append(fid, args, pos, mem, ety, hid, gen)
            finally:
                I.sticky -= 1
        if sm is False:
            return None
        u0, u1, outs, reqs, formals = sm
        m = {fk: k for fk, (_, _, k) in zip(formals, gen)}
        tag = T("tag", (u0, u1, ((T("root", ("call", 0)), L(T("sym", ("callno", fresh_uid())))),) + tuple(m.items())))
        s = Subst(m, u0, u1, tag)
        for ob in reqs:
            c = s.cond(ob.cond)
            tmp = st.copy()
            for x in ob.facts or ():
                tmp.add(s.cond(x))
            ok = FALSE in tmp.facts or I.entails(tmp, c)
            I.obls[-1].append(type(ob)(ob.kind, c, None if ok else tuple(tmp.facts), ob.site, ob.fn, ok, tuple(x.f["path"] for x in I.stack) + ob.chain))
        res = []
        for segs, v2, facts, decs, flags in outs:
            t = st.copy()
            bad = False
            for x in facts:
                y = s.cond(x)
                if y == FALSE:
                    bad = True
                    break
                t.add(y)
                if FALSE in t.facts:
                    bad = True
                    break
            if bad:
                continue
            q = s.any(Seq(ety, segs))
            if hid is not None:
                t.mem[o] = cat(t.mem[o], q)
            else:
                I.assign_ref(t, tgt, cat(v, q))
            for fo, fv in flags:
                t.mem[fo] = fv
            t.decs = t.decs + tuple(s.cond(x) for x in decs)
            res.append((t, s.any(v2)))
        return res

    def make_append(self, fid, args, pos, mem, ety, hid, gen):
        I = self.I
        u0 = fresh_uid()
        st = St_new()
        for o, x in mem.items():
            st.mem[o] = x
        key = T("root", ("base", fresh_uid()))
        base = ("opq", key, L(T("len", (key,), 0, MAXLEN)))
        ro = ("V", fresh_uid())
        av = list(args)
        av[pos] = Ref(ro)
        cell = ro
        if hid is not None:
            st.mem[ro] = Hdl(hid)
            cell = ("out", hid)
        st.mem[cell] = Seq(ety, (base,))
        formals = []
        own = [ro]
        for i, to, _ in gen:
            fk = T("root", ("formal", fresh_uid()))
            formals.append(fk)
            fo = ("V", fresh_uid())
            own.append(fo)
            st.mem[fo] = I.mkval(to, fk)
            av[i] = Ref(fo)
        I.obls.append([])
        I.events.append([])
        try:
            outs = I.run_fn(st, fid, av)
        finally:
            obls = I.obls.pop()
            ev = I.events.pop()
        I.events[0].extend(ev)
        I.altjoin = True
        try:
            outs = I.join_outs(outs)
        finally:
            I.altjoin = False
        reqs = []
        seen = set()
        for ob in obls:
            if ob.ok:
                I.obls[0].append(ob)
                continue
            k = (ob.kind, ob.fn, ob.site, ob.cond)
            if k not in seen:
                seen.add(k)
                reqs.append(ob)
        u1 = fresh_uid()
        res = []
        for s, v in outs:
            q = s.mem.get(cell)
            if s.phase or not isinstance(q, Seq):
                return False
            flags = []
            for o, x in s.mem.items():
                if o == cell:
                    continue
                if o[0] == "flag":
                    flags.append((o, x))
                elif st.mem.get(o) != x:
                    return False
            if self.refers(v, own):
                return False
            if q.segs and q.segs[0] == base:
                segs = q.segs[1:]
            elif q == I.partial(q):
                segs = q.segs
            else:
                return False
            res.append((segs, v, tuple(s.facts), tuple(s.decs), flags))
        return (u0, u1, res, reqs, formals)

    def refers(self, v, objs):
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Ref) and x.obj in objs:
                return True
            if isinstance(x, V):
                todo.extend(x.parts())
            elif isinstance(x, tuple):
                todo.extend(x)
        return False

    # -------------------------------------------------------------- summaries of parsing functions
    def summary_call(self, st, fid, args, span):
        I = self.I
        f = I.P.fns[fid]
        if not f["local"] or f["closure"] or len(f["blocks"]) < 6 or I.opts.get("nosum"):
            return None
        if self.I.opts.get("inline"):
            return None
        r = self.append_call(st, fid, args)
        if r is not None:
            return r
        hid = None
        pos = None
        for i, a in enumerate(args):
            v = a
            n = 0
            while isinstance(v, Ref) and n < 4:
                v = I.deref(st, v)
                n += 1
            if isinstance(a, Ref):
                if isinstance(v, Hdl) and v.hid in I.models.readers and hid is None:
                    hid, pos = v.hid, i
                else:
                    return None
            elif not self.scalar(a):
                return None
        if hid is None:
            return None
        if st.mem.get(("flag", "failed")):
            return None
        ctx = tuple((o, v) for o, v in sorted(st.mem.items(), key=lambda p: repr(p[0])) if o[0] in ("own", "mut"))
        key = (fid, hid, ctx, self.nest)
        sm = I.summaries.get(key)
        if sm is None:
            I.sticky += 1
            try:
                sm = self.make_summary(fid, hid, pos, args, ctx, f)
            finally:
                I.sticky -= 1
            I.summaries[key] = sm
        u0, u1, formals, cur0, stm0, outs, reqs = sm
        m = {cur0: st.mem[("cur", hid)].l, stm0: st.mem[("stm", hid)].key}
        for fv, a in zip(formals, args):
            if fv is not None and not self.unify(fv, a, m):
                return None
        tag = T("tag", (u0, u1, tuple(sorted(((k, v) for k, v in m.items()), key=lambda p: p[0].id))))
        s = Subst(m, u0, u1, tag)
        for ob in reqs:
            c = s.cond(ob.cond)
            if c == TRUE:
                I.obls[-1].append(type(ob)(ob.kind, c, None, ob.site, ob.fn, True))
                continue
            tmp = st.copy()
            for x in ob.facts:
                tmp.add(s.cond(x))
            ok = FALSE in tmp.facts or I.entails(tmp, c)
            I.obls[-1].append(type(ob)(ob.kind, c, None if ok else tuple(tmp.facts), ob.site, ob.fn, ok, tuple(x.f["path"] for x in I.stack) + ob.chain))
        res = []
        for mem, v, facts, decs in outs:
            t = st.copy()
            bad = False
            for x in facts:
                y = s.cond(x)
                if y == FALSE:
                    bad = True
                    break
                t.add(y)
            if bad:
                continue
            for o, x in mem.items():
                t.mem[o] = s.any(x)
            t.decs = t.decs + tuple(s.cond(x) for x in decs)
            res.append((t, s.any(v)))
        return res

    def scalar(self, v):
        if isinstance(v, (Int, Bool)):
            return True
        if isinstance(v, Agg):
            return all(self.scalar(x) for x in v.fs)
        if isinstance(v, Seq):
            return all(g[0] == "lit" and all(self.scalar(x) for x in g[1]) for g in v.segs)
        return False

    def unify(self, fv, a, m):
        if isinstance(fv, Int) and isinstance(a, Int):
            t = fv.l.single()
            if t is not None:
                m[t] = a.l
                return True
            return fv == a
        if isinstance(fv, Bool) and isinstance(a, Bool):
            m[fv.c[1]] = a.c
            return True
        if isinstance(fv, Agg) and isinstance(a, Agg) and fv.var == a.var and len(fv.fs) == len(a.fs):
            return all(self.unify(x, y, m) for x, y in zip(fv.fs, a.fs))
        if isinstance(fv, Seq) and isinstance(a, Seq):
            if len(fv.segs) == len(a.segs) and all(g[0] == "lit" and h[0] == "lit" and len(g[1]) == len(h[1]) for g, h in zip(fv.segs, a.segs)):
                return all(self.unify(x, y, m) for g, h in zip(fv.segs, a.segs) for x, y in zip(g[1], h[1]))
        return False

    def generalise(self, v):
        """a symbolic value of the same shape"""
        u = fresh_uid()
        if isinstance(v, Int):
            lo, hi = trange(v.bits, v.signed)
            return Int(L(T("sym", ("arg", u), lo, hi)), v.bits, v.signed)
        if isinstance(v, Bool):
            return Bool(("atom", T("sym", ("argb", u))))
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [self.generalise(x) for x in v.fs])
        if isinstance(v, Seq):
            return Seq(v.ety, tuple(("lit", tuple(self.generalise(x) for x in g[1])) for g in v.segs))
        return v

    def make_summary(self, fid, hid, pos, args, ctx, f):
        I = self.I
        u0 = fresh_uid()
        st = St_new()
        cur0 = T("sym", ("pos", fresh_uid()), 0, (1 << 64) - 1)
        stm0 = T("stm", ("in", fresh_uid()))
        st.mem[("cur", hid)] = Int(L(cur0), 64)
        st.mem[("stm", hid)] = Sym(None, stm0)
        for o, v in ctx:
            st.mem[o] = v
        ro = ("V", fresh_uid())
        st.mem[ro] = Hdl(hid)
        formals = []
        av = []
        for i, a in enumerate(args):
            if i == pos:
                formals.append(None)
                av.append(Ref(ro))
            else:
                # enum arguments keep their variant
                g = self.generalise(a)
                formals.append(g)
                av.append(g)
        I.obls.append([])
        I.events.append([])
        try:
            outs = I.run_fn(st, fid, av)
        finally:
            obls = I.obls.pop()
            ev = I.events.pop()
        I.events[0].extend(ev)
        reqs = []
        seen = set()
        for ob in obls:
            if ob.ok:
                I.obls[0].append(ob)
                continue
            k = (ob.kind, ob.fn, ob.site, ob.cond)
            if k in seen:
                continue
            seen.add(k)
            reqs.append(ob)
        u1 = fresh_uid()
        res = []
        for s, v in outs:
            mem = {}
            for o, x in s.mem.items():
                if o == ro:
                    continue
                if st.mem.get(o) != x:
                    mem[o] = x
            res.append((mem, v, tuple(s.facts), tuple(s.decs)))
        return (u0, u1, formals, cur0, stm0, res, reqs)


def St_new():
    from .interp import St

    return St()


def suffix(h, v):
    """segments x with v = h ++ x, or None"""
    if not isinstance(v, Seq) or not isinstance(h, Seq):
        return None
    a, b = h.segs, v.segs
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    if i == len(a):
        return b[i:]
    if i == len(a) - 1 and i < len(b) and a[i][0] == "lit" and b[i][0] == "lit" and b[i][1][: len(a[i][1])] == a[i][1]:
        return norm_segs((("lit", b[i][1][len(a[i][1]) :]),) + b[i + 1 :])
    if i == len(a) - 1 and i < len(b) and a[i][0] == b[i][0] and a[i][0] in ("sym", "stm") and a[i][1] is b[i][1] and a[i][2] == b[i][2]:
        # an extension of the same source
        g = a[i]
        return norm_segs(((g[0], g[1], g[2] + g[3], b[i][3] - g[3]),) + b[i + 1 :])
    return None


def point_update(h, v):
    """(index, value) when v is h with one element replaced"""
    if not isinstance(v, Seq) or not isinstance(h, Seq):
        return None
    a, b = h.segs, v.segs
    i = 0
    off = ZERO
    while i < len(a) and i < len(b) and a[i] == b[i]:
        off = off + seg_len(a[i])
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    ma, mb = a[i : len(a) - j], b[i : len(b) - j]
    # a single source segment split around a literal
    la = ZERO
    for g in ma:
        la = la + seg_len(g)
    idx = off
    for q, g in enumerate(mb):
        if g[0] == "lit" and len(g[1]) == 1:
            post = ZERO
            for x in mb[q + 1 :]:
                post = post + seg_len(x)
            if idx - off + 1 + post == la:
                return idx, g[1][0]
        idx = idx + seg_len(g)
    return None


def norm_gen(I, g, ety):
    """a generated sequence that copies a named one is (part of) that one"""
    _, n, bv, v = g
    key = None
    if ety is None:
        return g
    if isinstance(v, Sym):
        key = v.key
    elif isinstance(v, Int):
        t = v.l.single()
        if t is not None and t.kind == "int":
            key = t.args[0]
        elif t is not None and t.kind == "sb" and isinstance(t.args[1], Lin) and t.args[1].coef(bv) == 1 and not mentions(t.args[0], bv):
            return ("stm", t.args[0], t.args[1] - L(bv), n)
    elif isinstance(v, Agg):
        for t in collect_terms(v):
            if t.kind == "elem" and isinstance(t.args[1], Lin) and t.args[1].coef(bv) == 1 and I.mkval(ety, t) == v:
                key = t
    elif isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "sym":
        k = v.segs[0]
        if k[2] == ZERO and k[1].kind == "elem" and k[3] == L(T("len", (k[1],))):
            key = k[1]
    if key is not None and isinstance(key, Term) and key.kind == "elem" and isinstance(key.args[0], Term) and isinstance(key.args[1], Lin):
        if key.args[1].coef(bv) == 1 and not mentions(key.args[0], bv):
            if I.mkval(ety, key) == v:
                return ("sym", key.args[0], key.args[1] - L(bv), n)
    return g
