from .wr import *
from . import find

RULE = ("For every combination of existing and missing atoms around the item list, and every successful outcome of Tag::write_to: "
        "either no media data atom lies behind the movie atom, or for each track found and each of its chunk offset tables "
        "every entry x, in order and in full, is overwritten in place (or at its moved place, after the data has been moved) "
        "with x plus the difference in size of the metadata if x is at or behind the end of the replaced region, and with x "
        "otherwise; the last media data atom of the file is the one that decides.")
ASSUME = ["an atom found in a file lies within the file and within the atom around it",
          "chunk offsets refer to media data atoms of the same file"]
TABLES = {"stco": 4, "co64": 8}


def terms_in(a, pred, out=None, seen=None):
    if out is None:
        out, seen = set(), set()
    if isinstance(a, (Term, Lin, tuple, V)):
        if id(a) in seen:
            return out
        seen.add(id(a))
    if isinstance(a, Term):
        if pred(a):
            out.add(a)
        for x in a.args:
            terms_in(x, pred, out, seen)
    elif isinstance(a, Lin):
        for x, _ in a.t:
            terms_in(x, pred, out, seen)
    elif isinstance(a, tuple):
        for x in a:
            terms_in(x, pred, out, seen)
    elif isinstance(a, V):
        for x in a.parts():
            terms_in(x, pred, out, seen)
    return out


def rec_of(I, uid):
    r = [r for r in I.loopx.history if r.hs is not None and any(lf.uid == uid for lf in r.kinds.values())]
    if not r:
        return None, None
    r = r[-1]
    return r, [k for k, lf in r.kinds.items() if lf.uid == uid][0]


def added(rec, key, b):
    """what a round adds to an accumulated sequence"""
    h = leaf_get(rec.hs.mem[key[0]], key[1])
    v = leaf_get(b.mem[key[0]], key[1])
    n = len(h.segs)
    if v.segs[:n] != h.segs:
        # the last segment may have been merged with what follows
        return None
    return v.segs[n:]


def base_seq(v):
    """the sequence iterator below adapters"""
    while isinstance(v, It) and v.k != "seq":
        v = next((x for x in v.a if isinstance(x, It)), None)
    return v


def its_in(v):
    if isinstance(v, It):
        yield v
    elif isinstance(v, Agg):
        for x in v.fs:
            yield from its_in(x)


class Walk:
    """how a loop goes through a vector: .p position at the start of a round; index(b) the element of a round"""

    def __init__(self, I, rec, R, total):
        self.I, self.rec, self.R, self.total = I, rec, R, total
        self.p, self.obj, self.ok = L(rec.n), None, True
        for o, v in rec.hs.mem.items():
            for it in its_in(v):
                q = base_seq(it)
                if q is None or not isinstance(q.a[0], (Ref, Seq)) or not self.over(rec.hs, q.a[0]):
                    continue
                q0 = [base_seq(x) for x in its_in(rec.st0.mem.get(o, UNINIT))]
                self.obj, self.p = o, q.a[1].l
                self.ok = len(q0) == 1 and q0[0] is not None and q0[0].a[1].l == L(0) and q0[0].a[2].l == total

    def over(self, st, ptr):
        try:
            v = self.I.deref(st.copy(), ptr) if isinstance(ptr, Ref) else ptr
        except Exception:
            return False
        return isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] in ("sym", "acc") and v.segs[0][1] is self.R

    def skipped(self, s):
        """[(count, variable, condition)] elements passed over since the start of the round"""
        out = []
        for f in s.facts:
            if f[0] == "forall" and any(r is self.R and (b if isinstance(b, Lin) else L(b)) == self.p for r, b in f[3]):
                out.append((L(f[2]) if not isinstance(f[2], Lin) else f[2], f[1], f[4]))
        return out

    def index(self, b):
        if self.obj is None:
            return self.p
        qs = [base_seq(x) for x in its_in(b.mem.get(self.obj, UNINIT))]
        return qs[0].a[1].l - 1 if len(qs) == 1 and qs[0] is not None else None

    def steps(self, b):
        """does the round advance to behind its element, over elements known to be skipped only"""
        i = self.index(b)
        return i is not None and any(i == self.p + n for n in [L(0)] + [n for n, _, _ in self.skipped(b)])

    def complete(self):
        if not self.ok or not all(self.steps(b) for b in self.rec.backs):
            return False
        for lab, s in self.rec.exits:
            if flag(s) or flag(s, "err") or lab == "ret" or s.phase:
                continue
            if not any(self.I.entails(s, c_ge(self.p + n - self.total)) for n in [L(0)] + [n for n, _, _ in self.skipped(s)]):
                return False
        return True


class Elem:
    """evaluates what is said about element `key` of an accumulated vector for the value `v` that was pushed"""

    def __init__(self, I, st, key, v):
        self.I, self.st, self.key, self.v = I, st, key, v

    def at(self, k):
        if k == self.key:
            return self.v
        if k.kind == "fld":
            x = self.at(k.args[0])
            return x.fs[k.args[2]] if isinstance(x, Agg) and k.args[2] < len(x.fs) else None
        if k.kind == "elem":
            x = self.at(k.args[0])
            return self.I.seq_get(self.st, x, k.args[1] if isinstance(k.args[1], Lin) else L(k.args[1])) if isinstance(x, Seq) else None
        return None

    def subst(self, a):
        m = {}
        ts = terms_in(a, lambda t: t.kind in ("int", "len") and len(t.args) >= 1 and isinstance(t.args[0], Term))
        for t in ts:
            x = self.at(t.args[0])
            if isinstance(x, Int):
                m[t] = x.l
            elif isinstance(x, Seq) and t.kind == "len":
                m[t] = seq_len(x)
        return Subst(m).any(a)


def tables_of(I, st, ty, key):
    """the chunk offset tables of a track: [(name, condition that it is there, bounds)]"""
    out = []

    def walk(ty, v, conds, names):
        if isinstance(v, Agg):
            fs = I.types[ty]["variants"][0]["fields"]
            for f, x in zip(fs, v.fs):
                if isinstance(x, Sym) and I.is_enum(x.ty):
                    t = I.types[x.ty]
                    if t.get("path", "").endswith("option::Option") and I.types[t["args"][0]]["k"] == "adt" and I.has_bounds(t["args"][0]):
                        c = c_eq(L(I.dis(x.ty, x.key)) - I.discr_of(x.ty, 1))
                        u = t["args"][0]
                        w = I.mkval(u, T("fld", (x.key, 1, 0)))
                        nm = f["name"]
                        if nm in TABLES:
                            out.append((nm, conds + [c], bounds_of(I, w)))
                        walk(u, w, conds + [c], names + [nm])
                elif isinstance(x, Agg):
                    walk(f["ty"], x, conds, names)

    walk(ty, I.mkval(ty, key), [], [])
    return out


class Written:
    """one table as written in a round: position, entry width, number, value of entry i"""

    def __init__(self, pos, w, n, bs, i):
        self.pos, self.w, self.n, self.bs, self.i = pos, w, n, bs, i


def as_table(g):
    """position, bytes of entry bv, bv, count of a run of single writes"""
    if g[0] == "gen":
        _, n, bv, op = g
        if isinstance(op, Agg) and op.var == "w":
            return op.fs[0].l, lits(op.fs[1]), bv, n
    if g[0] == "loop" and len(g[3]) == 1 and g[3][0][0] == TRUE and len(g[3][0][1]) == 1:
        x = g[3][0][1][0]
        if x[0] == "lit" and len(x[1]) == 1 and x[1][0].var == "w":
            return x[1][0].fs[0].l, lits(x[1][0].fs[1]), g[2], g[1]
    if g[0] == "lit" and len(g[1]) == 1 and g[1][0].var == "w":
        # the whole table in one write
        q = g[1][0].fs[1]
        if len(q.segs) == 1 and q.segs[0][0] in ("loop",):
            _, n, bv, parts = q.segs[0]
            if len(parts) == 1 and parts[0][0] == TRUE:
                bs = lits(Seq(None, parts[0][1]))
                if bs:
                    return g[1][0].fs[0].l + L(bv).scale(len(bs)), bs, bv, n
    return None


def check_entry(ctx, c, e, late, b, w, t, pushed):
    """one entry i of table t of a track, as written"""
    I = c.I
    name, conds, tb = t
    what = "case %s: %s" % (c.name, name)
    i = T("sym", ("entry", fresh_uid()), 0, (1 << 47) - 1)
    s = b.copy()
    E = Elem(I, s, *pushed)
    num = E.subst(w.n)
    for x in conds:
        s.add(x)
    s.add(c_ge(num - L(i) - 1))
    for f in list(s.facts):
        if f[0] == "forall" and not f[3] and I.entails(s, c_ge(f[2] - L(i) - 1)):
            s.add(Subst({f[1]: L(i)}).cond(f[4]))
    sub = Subst({w.i: L(i)})
    pos = E.subst(sub.any(w.pos))
    bs = [E.subst(sub.any(x)) for x in w.bs]
    n = len(bs)
    width = TABLES[name]
    if not ctx.ob(n == width, what + ": entry width", "entries of %s are written with %d bytes" % (name, n)):
        return
    val = number(I, s, bs)
    src = tb.content + 8 + L(i).scale(width)
    x = L(be(c.stm, src, width))
    for neg in (False, True):
        d = c_ge(x - e.b)
        s2 = I.split(s, d)[1 if neg else 0]
        if s2 is None:
            continue
        want = x if neg else x + e.diff
        ctx.ob(eqv(I, s2, val - want), what + (": entry before the moved data" if neg else ": entry at or behind the moved data"),
               "with %s present, an entry x of %s that points %s the moved data becomes %s" % (c.name, name, "before" if neg else "at or behind", show(val, 300)),
               expected=show(want, 300))
    ctx.ob(eqv(I, s, num - L(be(c.stm, tb.content + 4, 4))), what + ": number of entries",
           "with %s present, %s entries of %s are written instead of the number declared in the table" % (c.name, show(num), name))
    # where it is written
    for behind in (True, False):
        s2 = I.split(s, c_ge(tb.content + 8 - e.b))[0 if behind else 1]
        if s2 is None:
            continue
        if behind:
            ctx.ob(late, what + ": overwritten by the moved data",
                   "with %s present, a table %s behind the metadata is updated before the data behind the metadata, read earlier, is written over it" % (c.name, name))
            if not late:
                continue
        want = src + e.diff if behind else src
        ctx.ob(eqv(I, s2, pos - want), what + ": place of the entries" + (" in moved tables" if behind else ""),
               "with %s present, entry i of %s%s is written at %s" % (c.name, name, " in the moved data" if behind else "", show(pos, 300)), expected=show(want, 300))


def check_tables(ctx, c, e):
    """the loops that write tables in one successful outcome"""
    I = c.I
    done_pushes = []   # (push record, key, back, element, table written, late)
    direct = False
    for i, g in e.tables:
        late = e.moved is not None and i > e.moved[0]
        if g[0] != "acc":
            ctx.undecided("case %s: shape of the table updates: %s" % (c.name, show(g, 100)))
            return
        rec, key = rec_of(I, g[1].args[1])
        if rec is None:
            ctx.undecided("case %s: loop of the table updates" % c.name)
            return
        for b in rec.backs:
            d = added(rec, key, b)
            if d is None:
                ctx.undecided("case %s: operations of a round of the table updates" % c.name)
                return
            for s, segs in flat(I, b, d):
                for h in segs:
                    t = as_table(h)
                    if t is None or t[1] is None:
                        ctx.undecided("case %s: operations of a round of the table updates: %s" % (c.name, show(h, 150)))
                        return
                    roots = terms_in(tuple(t), lambda x: x.kind == "elem" and isinstance(x.args[0], Term) and x.args[0].kind == "root" and x.args[0].args[0] == "acc")
                    ks = sorted(roots, key=lambda k: k.id)
                    if len(ks) != 1:
                        ctx.undecided("case %s: a round of the table updates uses %d elements" % (c.name, len(ks)))
                        return
                    done_pushes.append((rec, s, ks[0], t, late))
    if not done_pushes:
        return None
    res = {}
    for rec, s, k, t, late in done_pushes:
        R = k.args[0]
        idx = k.args[1] if isinstance(k.args[1], Lin) else L(k.args[1])
        total = None
        for o, v in rec.hs.mem.items():
            for q in seqs_in(v):
                for x in q.segs:
                    if x[0] == "acc" and x[1] is R:
                        total = x[2]
        if total is None:
            ctx.undecided("case %s: vector of tables" % c.name)
            return
        wk = Walk(I, rec, R, total)
        ctx.ob(all(idx == wk.index(b) for b in rec.backs) and wk.complete(), "case %s: not every collected table is written" % c.name,
               "with %s present, the loop at %s does not write every collected table" % (c.name, rec.span))
        prec, pkey = rec_of(I, R.args[1])
        if prec is None:
            ctx.undecided("case %s: loop that collects the tables" % c.name)
            return
        res.setdefault(id(prec), (prec, []))[1].append((pkey, k, t, late))
    return list(res.values())


def seqs_in(v):
    if isinstance(v, Seq):
        yield v
    elif isinstance(v, Agg):
        for x in v.fs:
            yield from seqs_in(x)


def tracks(c, v):
    """(key of the vector, element type, length) of the tracks of the found movie atom"""
    P = c.P
    fs = P.types[v.ty]["variants"][0]["fields"]
    for f, x in zip(fs, v.fs):
        if isinstance(x, Seq):
            ety = c.I.seq_elem_ty(f["ty"])
            if ety is not None and P.types[ety]["k"] == "adt" and any(n in TABLES for _, n in ((0, y[-1]) for y in (names_of(P, ety, p) for p, _ in c.I.optionals(ety)))):
                return x, ety
    return None


def check_collect(ctx, c, e, prec, users):
    """the loop over the tracks that collects what is written"""
    I = c.I
    v = c.moov(e.s)
    tr = tracks(c, v)
    if tr is None:
        ctx.undecided("case %s: tracks of the movie atom" % c.name)
        return
    q, ety = tr
    total = seq_len(q)
    R = q.segs[0][1]
    wk = Walk(I, prec, R, total)
    ctx.ob(wk.complete(), "case %s: not every track is visited" % c.name,
           "with %s present, the loop at %s can end before every track has been visited" % (c.name, prec.span))
    for s in prec.backs + [s for lab, s in prec.exits if not flag(s) and not flag(s, "err")]:
        for n, bv, cond in wk.skipped(s):
            j = T("sym", ("skipped", fresh_uid()), 0, MAXLEN)
            t = prec.hs.copy()
            t.add(c_ge(n - L(j) - 1))
            t.add(Subst({bv: L(j)}).cond(cond))
            for name, conds, tb in tables_of(I, t, ety, T("elem", (R, wk.p + L(j)))):
                u = t
                for x in conds:
                    u = I.split(u, x)[0] if u is not None else None
                ctx.count("skipped")
                ctx.ob(u is None, "case %s: a track with %s is passed over" % (c.name, name),
                       "with %s present, the loop at %s passes over tracks with a table %s" % (c.name, prec.span, name), condition=show(cond, 400))
    for b in prec.backs:
        idx = wk.index(b)
        if idx is None:
            continue
        key = T("elem", (R, idx))
        tabs = tables_of(I, b, ety, key)
        pushes = []
        for pkey, k, t, late in users:
            d = added(prec, pkey, b)
            if d is None:
                ctx.undecided("case %s: what is collected for a track" % c.name)
                return
            for g in d:
                if g[0] != "lit":
                    ctx.undecided("case %s: what is collected for a track" % c.name)
                    return
                for x in g[1]:
                    pushes.append((k, t, late, x))
        for tab in tabs:
            name, conds, tb = tab
            s = b
            for x in conds:
                s = I.split(s, x)[0] if s is not None else None
            if s is None:
                continue
            hits = []
            for k, t, late, x in pushes:
                E = Elem(I, s, k, x)
                try:
                    pos, n = E.subst(t[0]), E.subst(t[3])
                except Exception as ex:
                    ctx.undecided("case %s: composition of a table: %s" % (c.name, repr(ex)[:100]))
                    return
                if mentions_key(pos, tb):
                    hits.append((Written(t[0], len(t[1]), n, t[1], t[2]), late, k, x))
            ctx.count("tables_per_round")
            if not ctx.ob(len(hits) == 1, "case %s: %s of a track not updated" % (c.name, name),
                          "with %s present, a round of the loop at %s over a track with a table %s collects %d updates for it" % (c.name, prec.span, name, len(hits)),
                          path=[str(f)[:160] for f in list(b.facts)[-10:]]):
                continue
            check_entry(ctx, c, e, hits[0][1], s, hits[0][0], tab, hits[0][2:])


def mentions_key(l, tb):
    ts = {t for t, _ in tb.pos.t}
    return any(t in ts for t, _ in l.t) or bool(terms_in(l, lambda x: x in ts))


def check_none(ctx, c, e):
    """a successful outcome that updates no table: no media data lies behind the movie atom"""
    I, s = c.I, e.s
    if I.entails(s, c_eq(e.diff)):
        return
    s = s.copy()
    for d in e.s.decs:
        if d[0] in ("eq", "ne"):
            s.add(d)
    moov = c.moov(e.s)
    mb = bounds_of(I, moov)
    os = terms_in(tuple(s.facts) + tuple(s.decs), lambda t: t.kind == "origin")
    seen = False
    for o in sorted(os, key=lambda t: t.id):
        k = o.args[0]
        if k.args[0] != "phi":
            continue
        orig = I.orig.get(("phi", k.args[1]))
        if orig is None:
            continue
        init, alts = orig[0], orig[1]
        cands = ([init] if init is not None else []) + [v for v, _ in alts]
        if not any(isinstance(v, Agg) and v.fs and isinstance(v.fs[0], Agg) and v.fs[0].ty != moov.ty and bounds_of(I, v.fs[0]) is not None for v in cands):
            continue
        seen = True
        for i, v in enumerate(cands):
            t = I.split(s, c_eq(L(o) - i))[0] if len(cands) > 1 else s
            if t is None or not (isinstance(v, Agg) and v.fs):
                continue
            r0 = root_of(v)
            rs = [r for r in roots_in(tuple(t.facts)) if r.args[1] == r0.args[1]]
            good = False
            for r in rs:
                md = bounds_of(I, v.fs[0] if r is r0 else Subst({r0: r}).any(v).fs[0])
                if I.entails(t, c_ge(mb.pos - md.pos)):
                    good = True
            ctx.ob(good, "case %s: tables not updated" % c.name,
                   "with %s present, a successful write of metadata of another size updates no chunk offset table although media data may lie behind the movie atom" % c.name,
                   path=[str(f)[:160] for f in list(e.s.facts)[-14:]])
        check_last(ctx, c, k.args[1])
    if not seen:
        ctx.undecided("case %s: where the media data lies when no table is updated" % c.name)


def check_last(ctx, c, uid):
    """every media data atom met replaces the one met before"""
    I = c.I
    rec, key = rec_of(I, uid)
    if rec is None:
        ctx.undecided("loop over the top level atoms")
        return
    h = leaf_get(rec.hs.mem[key[0]], key[1])
    for b in rec.backs:
        if leaf_get(b.mem[key[0]], key[1]) != h:
            continue
        cs = [o for o in rec.hs.mem if o[0] == "cur" and b.mem.get(o) != rec.hs.mem[o]]
        s = b
        for o in cs[:1]:
            p = rec.hs.mem[o].l
            for j, ch in enumerate(b"mdat"):
                if s is not None:
                    s = I.split(s, c_eq(L(be(c.stm, p + 4 + j, 1)) - ch))[0]
        ctx.ob(s is None or not cs, "a later media data atom is ignored",
               "a round of the loop at %s over a media data atom keeps the position of an earlier one" % rec.span)


def case(ctx, item):
    c = Case(ctx, item)
    some = 0
    n = 0
    for e in effects(c):
        if e.data is None:
            ctx.undecided("case %s: the size of the new metadata is not known" % c.name)
            continue
        n += 1
        if e.tables:
            some += 1
            res = check_tables(ctx, c, e)
            if res is None:
                continue
            for prec, users in res:
                check_collect(ctx, c, e, prec, users)
        else:
            check_none(ctx, c, e)
    if n:
        ctx.ob(some > 0, "case %s: chunk offset tables are never updated" % c.name,
               "with %s present, no successful outcome of %s updates chunk offset tables" % (c.name, WRITE_ENTRY))
    else:
        ctx.undecided("case %s: no successful outcome" % c.name)
    ctx.count("effects", n)
    c.count()


def check_found(ctx):
    """all tables, and the media data, are looked for"""
    w = find.located(ctx, {b"stco", b"co64", b"mdat"})
    if w is None:
        return
    for path, n in find.TABLES:
        p = w[1].get((path, n), (None, None))[1]
        what = find.show_path(path, n)
        if p is None and None in w[1]:
            ctx.undecided("%s: not recognised" % what)
            continue
        good = ("all",) if n == b"trak" else ("first", "last", "single", "all") + (("some",) if n == b"mdat" else ())
        ctx.ob(p in good, "%s: not always found" % what,
               "%s keeps %s of the %s atoms" % (WRITE_ENTRY, {None: "none", "some": "only some", "first": "only the first", "last": "only the last"}.get(p, p), what))


def run(ctx):
    check_found(ctx)
    run_cases(ctx, case)
