"""Emitted metadata has the layout that reading takes apart."""
from .emit import *
from .c01 import tree_of_dump, tree_of_writes
from .c12 import CODES, is_utf16
from .c10 import loops_of, byte, head_len, size_at, is_name
from .find import named
from .common import _terms

RULE = ("Emission (Tag::dump_to, Tag::write_to for every combination of existing and missing atoms): new atoms are nested moov, udta, meta (4 zero bytes), hdlr before ilst, "
        "beginning at the deepest existing one; the handler is mdir/appl; the rounds of the item list emit item n of the tag's list, "
        "named by its four bytes or ---- with mean and name (each behind 4 zero bytes) of its identifier; the rounds inside emit value m of the item behind "
        "version 0, the type code of its kind and 4 zero bytes.  Reading (Tag::read_from): the rounds of the loop that collects values take a value from the contents of "
        "a data atom 8 bytes in, under version 0 and the type code of its kind, mean and name 4 bytes in under version 0; the identifier made of them has them in that order, "
        "or the four bytes of the item's name.")
HANDLER = [0] * 8 + list(b"mdirappl")
CHAIN = (b"moov", b"udta", b"meta")


def find_type(P, path):
    for i, t in enumerate(P.types):
        if t.get("k") == "adt" and t.get("path") == path:
            return i
    return None


class Types:
    def __init__(self, ctx):
        P = ctx.P
        self.item = find_type(P, "atom::AtomData")
        self.ident = find_type(P, "atom::ident::DataIdent")
        self.data = find_type(P, "atom::data::Data")
        self.ok = None not in (self.item, self.ident, self.data)
        if not self.ok:
            ctx.undecided("types of items, identifiers and values")
            return
        fs = P.types[self.item]["variants"][0]["fields"]
        by = {f["ty"]: i for i, f in enumerate(fs)}
        self.i_ident = by.get(self.ident)
        self.i_data = next((i for i, f in enumerate(fs) if f["ty"] != self.ident), None)
        self.t_list = fs[self.i_data]["ty"]
        self.kinds = {v["name"]: i for i, v in enumerate(P.types[self.data]["variants"])}
        vs = P.types[self.ident]["variants"]
        self.free = next((i for i, v in enumerate(vs) if v["name"] == "Freeform"), None)
        self.four = next((i for i, v in enumerate(vs) if v["name"] == "Fourcc"), None)
        if self.i_ident is None or self.free is None or self.four is None:
            self.ok = False
            ctx.undecided("fields of items and identifiers")
            return
        self.fields = [f["name"] for f in vs[self.free]["fields"]]
        self.field_ty = [f["ty"] for f in vs[self.free]["fields"]]
        self.four_ty = vs[self.four]["fields"][0]["ty"]


def plain(xs):
    """the kids if they are a plain sequence of atoms"""
    return xs is not None and all(isinstance(a, Atom) for a in xs)


class Layout:
    def __init__(self, ctx, I, what, T_):
        self.ctx, self.I, self.what, self.T = ctx, I, what, T_

    def ob(self, ok, key, msg, **kw):
        self.ctx.ob(ok, key, "%s: %s" % (self.what, msg), **kw)
        return ok

    def fixed(self, a, name, want):
        """contents of an atom of known bytes"""
        bs = consts(a.content or ())
        self.ob(bs[:len(want)] == want and all(b == 0 for b in bs[len(want):]), "contents of %s" % name,
                "%s is emitted with the contents %s" % (name, bs))

    def chain(self, xs, want):
        """want: names of the atoms, nested from the outermost on, before the handler and the item list"""
        for i, n in enumerate(want):
            if not plain(xs) or [a.name for a in xs] != [n]:
                return self.wrong(xs, want[i:] or [b"hdlr", b"ilst"])
            a = xs[0]
            if n == b"meta":
                self.ob(a.lead == [0] * 4, "version of meta", "meta is emitted with version and flags %s" % a.lead)
            xs = a.kids
        return xs

    def wrong(self, xs, want):
        if xs is None:
            self.ctx.undecided("%s: contents of an emitted atom" % self.what)
            return None
        got = [a.name.decode("latin1") if isinstance(a, Atom) and a.name else "?" for a in xs]
        self.ob(False, "hierarchy: " + want[0].decode(), "%s is emitted where %s is expected" % (got, [w.decode() for w in want]))
        return None

    def tail(self, xs, want):
        if xs is None:
            return
        if not plain(xs) or [a.name for a in xs] != want:
            self.wrong(xs, want)
            return
        for a in xs:
            if a.name == b"hdlr":
                self.fixed(a, "hdlr", HANDLER)
            elif a.name == b"ilst":
                self.items(a.s, a.kids)

    def items(self, s, xs):
        I, ctx, T_ = self.I, self.ctx, self.T
        if xs is None or len(xs) != 1 or isinstance(xs[0], Atom):
            if xs == [] or xs is None:
                ctx.undecided("%s: the items" % self.what)
            else:
                self.ob(False, "items", "the item list holds something else than the items")
            return
        _, r, alts = xs[0]
        X, n = r[0], r[1]
        if len(X.t) != 1 or X.c or X.t[0][1] != 1 or X.t[0][0].kind != "len":
            ctx.undecided("%s: rounds over the items: %s" % (self.what, show(X)))
            return
        lst = X.t[0][0].args[0]
        item = T("elem", (lst, n))
        ident = T("fld", (item, 0, T_.i_ident))
        vals = T("fld", (item, 0, T_.i_data))
        seen = set()
        for t, kids in alts:
            st = t.copy()
            if not plain(kids) or len(kids) != 1:
                none = kids == [] and I.entails(st, c_eq(L(T("len", (vals,), 0, MAXLEN))))
                self.ob(none, "one atom per item", "an item is emitted as %d atoms" % len(kids or ()))
                continue
            a = kids[0]
            disc = L(T("dis", (ident, T_.ident), 0, 1))
            which = [v for v in (T_.free, T_.four) if feasible(I, st, c_eq(disc - I.discr_of(T_.ident, v)))]
            if len(which) != 1:
                ctx.undecided("%s: kind of the identifier of an emitted item" % self.what)
                continue
            seen.add(which[0])
            ks = a.kids
            if which[0] == T_.free:
                self.ob(a.name == b"----", "name of freeform items", "an item with a freeform identifier is emitted as %s" % (a.name or show(a.head)))
                lead = [k.name for k in (ks or ())[:2] if isinstance(k, Atom)]
                if not self.ob(lead == [b"mean", b"name"], "mean and name", "an item with a freeform identifier starts with %s" % lead):
                    continue
                for k in ks[:2]:
                    i = T_.fields.index(k.name.decode()) if k.name.decode() in T_.fields else None
                    if i is None:
                        ctx.undecided("field %s of identifiers" % k.name.decode())
                        continue
                    want = I.mkval(T_.field_ty[i], T("fld", (ident, T_.free, i)))
                    self.ob(consts(k.content or ())[:4] == [0] * 4, "version of %s" % k.name.decode(), "%s is not emitted with version and flags 0" % k.name.decode())
                    body = drop_bytes(k.content, 4) if k.content is not None else None
                    self.ob(body is not None and norm_segs(tuple(body)) == norm_segs(want.segs), "text of %s" % k.name.decode(),
                            "%s holds %s instead of the %s of the identifier" % (k.name.decode(), show(Seq(None, tuple(body or ())), 120), k.name.decode()))
                ks = ks[2:]
            else:
                want = self.bytes_of(I.mkval(T_.four_ty, T("fld", (ident, T_.four, 0))))
                if want is None:
                    ctx.undecided("bytes of identifiers")
                else:
                    self.ob(list(a.head) == want, "name of items", "the name of an item is %s instead of the bytes of its identifier" % [str(x) for x in a.head])
            self.values(vals, ks)
        for v, n_ in ((T_.free, "freeform"), (T_.four, "four byte")):
            self.ob(v in seen, "items with %s identifiers" % n_, "no item with a %s identifier is emitted" % n_)

    def bytes_of(self, v):
        while isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "lit":
            return [x.l for x in v.segs[0][1]]
        return None

    def values(self, vals, ks):
        I, ctx, T_ = self.I, self.ctx, self.T
        if not ks or len(ks) != 1 or isinstance(ks[0], Atom):
            if not ks:
                ctx.undecided("%s: the values of an item" % self.what)
            else:
                self.ob(False, "values of an item", "an item holds something else than its values")
            return
        _, r, alts = ks[0]
        X, m = r[0], r[1]
        want = L(T("len", (vals,), 0, MAXLEN))
        if X != want:
            if len(X.t) == 1 and X.t[0][0].kind == "len" and not X.c:
                self.ob(False, "values of an item", "an item is emitted with the values of another list: %s instead of %s" % (show(X), show(want)))
            else:
                ctx.undecided("%s: rounds over the values of an item: %s" % (self.what, show(X)))
            return
        val = T("elem", (vals, m))
        seen = set()
        for t, kids in alts:
            if not plain(kids) or [k.name for k in kids] != [b"data"]:
                self.ob(False, "one data atom per value", "a value is emitted as %s" % [getattr(k, "name", "?") for k in kids or ()])
                continue
            k = kids[0]
            disc = L(T("dis", (val, T_.data), 0, len(T_.kinds) - 1))
            which = [n for n, i in T_.kinds.items() if feasible(I, t, c_eq(disc - I.discr_of(T_.data, i)))]
            if not which:
                continue
            head = consts(k.content or ())[:8]
            body = drop_bytes(k.content, 8) if k.content is not None else None
            for name in which:
                seen.add(name)
                if name not in CODES:
                    continue
                self.ob(head == [0, 0, 0, CODES[name], 0, 0, 0, 0], "head of %s values" % name,
                        "a value of kind %s is emitted behind %s" % (name, head))
                x = I.mkval(self.ctx.P.types[T_.data]["variants"][T_.kinds[name]]["fields"][0]["ty"], T("fld", (val, T_.kinds[name], 0)))
                good = body is not None and (is_utf16(body, x) if name == "Utf16" else norm_segs(tuple(body)) == norm_segs(x.segs))
                self.ob(good, "content of %s values" % name, "a value of kind %s is emitted as %s" % (name, show(Seq(None, tuple(body or ())), 200)))
        for n in CODES:
            if n in T_.kinds:
                self.ob(n in seen, "emitted kinds: " + n, "no value of kind %s is emitted" % n)


def dump(ctx, I, outs, path):
    T_ = Types(ctx)
    if not T_.ok:
        return
    lay = Layout(ctx, I, path, T_)
    for s, xs in tree_of_dump(ctx, I, outs, path):
        if not plain(xs) or len(xs) != 2 or xs[0].name != b"ftyp":
            lay.wrong(xs, [b"ftyp", b"moov"])
            continue
        lay.tail(lay.chain(xs[1:], CHAIN), [b"hdlr", b"ilst"])
        ctx.count("layouts")


def case(ctx, item):
    T_ = Types(ctx)
    if not T_.ok:
        return
    c = Case(ctx, item)
    have = {n[-1].encode() if isinstance(n[-1], str) else n[-1] for p, n in c.ps.items() if c.shape.get(p)}
    new = [n for n in CHAIN[1:] if n not in have]
    rest = [b"ilst"] if b"hdlr" in have and not new else [b"hdlr", b"ilst"]
    for s, xs in tree_of_writes(ctx, c):
        lay = Layout(ctx, c.I, "writing", T_)
        lay.tail(lay.chain(xs, new), rest)
        ctx.count("layouts")
    c.count()


# ------------------------------------------------------------------ reading
def text_set(I, T_, h, v):
    """the text that a round puts into an optional text"""
    if h == v or not isinstance(v, Agg) or v.var != 1 or len(v.fs) != 1 or not isinstance(v.fs[0], Seq):
        return None
    return v.fs[0]


def stm_seg(I, s, q, stm, pos, ln):
    g = q.segs
    if not g:
        return eqv_or(I, s, ln)
    return len(g) == 1 and g[0][0] == "stm" and g[0][1] == stm and eqv(I, s, g[0][2] - pos) and eqv_or(I, s, g[0][3] - ln)


def read(ctx, I, outs, path):
    T_ = Types(ctx)
    if not T_.ok:
        return
    atoms, _ = loops_of(ctx, I)
    found = False
    for lp in atoms:
        rec = lp.rec
        lists = [(o, p) for (o, p), lf in rec.kinds.items() if lf.kind in ("app", "apploop")]
        mine = []
        for o, p in lists:
            for b in rec.backs:
                sg = suffix(leaf_get(rec.hs.mem[o], p), leaf_get(b.mem[o], p)) or ()
                if any(g[0] == "lit" and any(isinstance(x, Agg) and x.ty == T_.data for x in g[1]) for g in sg):
                    mine.append((o, p))
                    break
        if not mine:
            continue
        found = True
        o, p = mine[0]
        values(ctx, I, T_, lp, o, p)
        complete(ctx, T_, lp.name)
    if not found:
        ctx.undecided("%s: the loop that collects the values of an item" % path)
        return
    idents(ctx, I, T_, atoms, path)


def values(ctx, I, T_, lp, o, p):
    rec, stm, p0 = lp.rec, lp.stm, lp.p
    hl = head_len(stm, p0)
    size = size_at(stm, p0)
    seen, texts = set(), set()
    for b in rec.backs:
        sg = suffix(leaf_get(rec.hs.mem[o], p), leaf_get(b.mem[o], p)) or ()
        xs = [x for g in sg if g[0] == "lit" for x in g[1]]
        others = [g for g in sg if g[0] != "lit"]
        for x in xs:
            name = next((n for n, i in T_.kinds.items() if isinstance(x, Agg) and x.var == i), None)
            if name is None:
                ctx.undecided("kind of a value read")
                continue
            seen.add(name)
            ctx.ob(is_name(I, b, stm, p0, b"data"), "%s: values come from data" % lp.name, "%s takes a value from an atom that need not be named data" % lp.name)
            ctx.ob(I.entails(b, c_eq(L(byte(stm, p0 + hl)))), "%s: version of data" % lp.name, "%s takes a value of a data atom of another version than 0" % lp.name)
            if name in CODES:
                c = CODES[name]
                got = [L(byte(stm, p0 + hl + i)) for i in (1, 2, 3)]
                ok = I.entails(b, c_eq(L(be(stm, p0 + hl, 4)) - c)) or I.entails(b, c_eq(L(be(stm, p0 + hl + 1, 3)) - c)) or all(I.entails(b, c_eq(x_ - v)) for x_, v in zip(got, (0, 0, c))) or \
                    I.entails(b, c_eq(got[0].scale(65536) + got[1].scale(256) + got[2] - c))
                ctx.ob(ok, "%s: code of %s" % (lp.name, name), "%s reads a value as %s where the three bytes behind the version need not be %d" % (lp.name, name, c))
            pos, ln = p0 + hl + 8, size - hl - 8
            q = x.fs[0]
            if name == "Utf16":
                t = str(q)
                ok = "u16dec(" in t and ("be2[%s@" % stm_name(stm)) in t and gen_at(I, b, q, stm, pos)
            else:
                ok = isinstance(q, Seq) and stm_seg(I, b, q, stm, pos, ln)
            ctx.ob(ok, "%s: where %s is read" % (lp.name, name), "%s takes a value of kind %s from %s instead of the %s bytes behind the first 8 of the contents" % (lp.name, name, show(q), show(ln)))
        if len(xs) + len(others) != 1:
            ctx.ob(not xs and named(I, b, stm, p0, b"data") is None, "%s: one value per data atom" % lp.name, "%s may pass over a data atom without taking its value, or take several" % lp.name)
        put = []
        for ob_, h in rec.hs.mem.items():
            if ob_[0] in ("L", "V") and b.mem.get(ob_) != h:
                t = text_set(I, T_, h, b.mem.get(ob_))
                if t is not None:
                    put.append((ob_, t))
        for ob_, t in put:
            name = next((n for n in (b"mean", b"name") if is_name(I, b, stm, p0, n)), None)
            if not ctx.ob(name is not None, "%s: texts" % lp.name, "%s takes a text of an identifier from an atom that need not be named mean or name" % lp.name):
                continue
            texts.add(name)
            n = name.decode()
            ctx.ob(I.entails(b, c_eq(L(byte(stm, p0 + hl)))), "%s: version of %s" % (lp.name, n), "%s takes the text of a %s atom of another version than 0" % (lp.name, n))
            ctx.ob(stm_seg(I, b, t, stm, p0 + hl + 4, size - hl - 4), "%s: where %s is read" % (lp.name, n),
                   "%s takes the text of %s from %s instead of what is behind the first 4 bytes of the contents" % (lp.name, n, show(t)))
        if not put:
            for n in (b"mean", b"name"):
                ctx.ob(named(I, b, stm, p0, n) is None, "%s: %s is taken" % (lp.name, n.decode()), "%s may pass over a %s atom" % (lp.name, n.decode()))
    for n in CODES:
        if n in T_.kinds:
            ctx.ob(n in seen, "%s: kinds: %s" % (lp.name, n), "%s never reads a value of kind %s" % (lp.name, n))
    for n in (b"mean", b"name"):
        ctx.ob(n in texts, "%s: %s" % (lp.name, n.decode()), "%s never reads %s" % (lp.name, n.decode()))
    ctx.count("rounds_of_values", len(rec.backs))


def stm_name(stm):
    return str(stm)


def gen_at(I, s, q, stm, pos):
    """the units that are decoded start at pos"""
    for t in collect_terms(q):
        if t.kind == "be" and t.args[0] == stm:
            d = L(t.args[1]) - pos if not isinstance(t.args[1], Lin) else t.args[1] - pos
            d = Lin(d.c, tuple((x, k) for x, k in d.t if x.kind != "bv")) if hasattr(d, "t") else d
            if eqv(I, s, d):
                return True
    return False


def idents(ctx, I, T_, atoms, path):
    """identifiers of the items that a loop collects"""
    seen = set()
    for lp in atoms:
        rec = lp.rec
        lists = {o for b in rec.backs for o, h in rec.hs.mem.items() if o[0] in ("L", "V") and isinstance(b.mem.get(o), Seq) and b.mem.get(o) != h
                 and any(g[0] == "lit" and any(isinstance(x, Agg) and x.ty == T_.item for x in g[1]) for g in b.mem[o].segs)}
        for b in rec.backs if lists else ():
            if all(b.mem.get(o) == rec.hs.mem[o] for o in lists):
                ctx.ob(is_name(I, b, lp.stm, lp.p, b"free"), "%s: items passed over" % lp.name, "%s may pass over an atom that is not named free" % lp.name)
        for b in rec.backs:
            for o, h in rec.hs.mem.items():
                v = b.mem.get(o)
                if o[0] not in ("L", "V") or v == h or not isinstance(v, Seq):
                    continue
                for g in v.segs:
                    if g[0] != "lit":
                        continue
                    for x in g[1]:
                        if not (isinstance(x, Agg) and x.ty == T_.item):
                            continue
                        i = x.fs[T_.i_ident]
                        if not isinstance(i, Agg):
                            continue  # the values are added to those of an item that is there
                        if i.var == T_.four:
                            seen.add("four")
                            bs = i.fs[0]
                            while isinstance(bs, Agg) and len(bs.fs) == 1:
                                bs = bs.fs[0]
                            got = [y.l for y in bs.segs[0][1]] if isinstance(bs, Seq) and len(bs.segs) == 1 and bs.segs[0][0] == "lit" else None
                            want = [L(byte(lp.stm, lp.p + 4 + k)) for k in range(4)]
                            ctx.ob(got is not None and all(eqv(I, b, x_ - y_) for x_, y_ in zip(got, want)), "%s: identifier" % lp.name,
                                   "%s names an item %s instead of by the four bytes of the atom's name" % (lp.name, show(i)))
                        else:
                            seen.add("free")
                            ctx.ob(is_name(I, b, lp.stm, lp.p, b"----"), "%s: freeform items" % lp.name, "%s gives an item that need not be named ---- a freeform identifier" % lp.name)
                            for k, q in enumerate(i.fs):
                                n = T_.fields[k].encode()
                                if n not in (b"mean", b"name"):
                                    continue
                                src = source(I, b, q, lp.stm, n)
                                if src is None:
                                    ctx.undecided("%s: where the %s of an identifier comes from" % (lp.name, n.decode()))
                                else:
                                    ctx.ob(src, "%s: %s of identifiers" % (lp.name, n.decode()), "%s takes the %s of an identifier from another atom: %s" % (lp.name, n.decode(), show(q)))
    if not seen:
        ctx.undecided("%s: the loop that collects the items" % path)
        return
    for k, n in (("four", "four byte"), ("free", "freeform")):
        ctx.ob(k in seen, "items read with %s identifiers" % n, "%s never yields an item with a %s identifier" % (path, n))


def refuted(I, s, c):
    """c cannot hold in s"""
    if c[0] == "or":
        return all(refuted(I, s, x) for x in c[1])
    if c[0] == "and":
        for x in c[1]:
            if x[0] == "or":
                if refuted(I, s, x):
                    return True
                continue
            s = I.split(s, x)[0]
            if s is None:
                return True
        return any(refuted(I, s, x) for x in c[1] if x[0] == "or")
    return I.split(s, c)[0] is None


def complete(ctx, T_, name):
    """an item named ---- with mean and name has an identifier made of them"""
    P = ctx.P
    n = 0
    for fid in P.by_path.get(name, ()):
        I, st, args, info = fresh_call(ctx, fid, errs=True)
        for s, v in I.run_fn(st, fid, args):
            if not is_ok(v) or flag(s):
                continue
            x = v.fs[0]
            if not (isinstance(x, Agg) and x.ty == T_.item and isinstance(x.fs[T_.i_ident], Agg)):
                continue
            i = x.fs[T_.i_ident]
            n += 1
            if i.var != T_.four:
                continue
            bs = i.fs[0]
            while isinstance(bs, Agg) and len(bs.fs) == 1:
                bs = bs.fs[0]
            if not isinstance(bs, Seq) or len(bs.segs) != 1 or bs.segs[0][0] != "lit":
                ctx.undecided("identifier made by " + name)
                continue
            t = s
            for y, c in zip(bs.segs[0][1], b"----"):
                t = t and I.split(t, c_eq(y.l - c))[0]
            # both texts are there
            for x_ in {x_ for f in tuple(s.facts) + s.decs for x_ in _terms(f)}:
                k = x_.args[0] if x_.kind in ("origin", "dis") else None
                if not (isinstance(k, Term) and k.kind == "root"):
                    continue
                o = I.orig.get((k.args[0], k.args[1]))
                if o is not None and isinstance(o[0], Agg) and o[0].var == 0 and not o[0].fs:
                    t = t and I.split(t, c_ne(L(x_)))[0]
            if t is not None and any(refuted(I, t, d) for d in t.decs):
                t = None
            ctx.ob(t is None, "%s: items with mean and name" % name,
                   "%s may read an item named ---- that has mean and name as one without" % name, path=[str(f)[:200] for f in s.facts][-12:])
    if not n:
        ctx.undecided("%s: no item made" % name)


def source(I, s, q, stm, name):
    """the text comes from an atom of that name"""
    if not isinstance(q, Seq) or len(q.segs) != 1 or q.segs[0][0] != "stm" or q.segs[0][1] != stm:
        return None
    ph = [t for t, k in q.segs[0][2].t if t.kind == "root" and k == 1] or [t for t, k in q.segs[0][2].t if k == 1 and t.kind not in ("ite", "be")]
    if len(ph) != 1:
        return None
    return is_name(I, s, stm, L(ph[0]), name)


def run(ctx):
    run_entries(ctx, (DUMP_ENTRY,), dump)
    run_cases(ctx, case)
    r = run_entry(ctx, READ_ENTRY, opts={"nest": True})
    if r is not None:
        read(ctx, r[0], r[1], READ_ENTRY)
