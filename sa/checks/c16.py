"""Named accessors as typed variables."""
from .tagm import *

RULE = ("The tag is an abstract machine: arbitrary other items, and either no item of the field or one with arbitrary values. "
        "Setters, getters, takers and removers of a named field are analysed one after the other on it, with arbitrary "
        "arguments; the getters' results must be the arguments of the setters, in order, and nothing after removal.")
ASSUME = ["a tag starts with at most one item of a field (the first item is the one used otherwise)",
          "iterators given by the caller yield what they yield, independently of the tag"]


def arg_key(v):
    return v.key if isinstance(v, (Sym,)) else None


def is_arg(v, name):
    """the value is the argument, or its conversion into the type stored"""
    if isinstance(v, Seq):
        return len(v.segs) == 1 and v.segs[0][0] == "sym" and v.segs[0][2] == ZERO and arg_term(v.segs[0][1], name) and v.segs[0][3] == L(T("len", (v.segs[0][1],), 0, MAXLEN))
    if isinstance(v, Int):
        return v.l == L(T("int", (T("root", (name, 0)),), *v_range(v))) or len(v.l.t) == 1 and v.l.c == 0 and v.l.t[0][1] == 1 and arg_term(v.l.t[0][0], name)
    if isinstance(v, Sym):
        return arg_term(v.key, name)
    return False


def v_range(v):
    return (0, (1 << v.bits) - 1)


def arg_term(t, name):
    if t.kind in ("root", "int", "sym") and t.args and t.args[0] == name:
        return True
    if t.kind == "root":
        return t.args[0] == name
    if t.kind == "int" and isinstance(t.args[0], Term):
        return arg_term(t.args[0], name)
    if t.kind == "fld" and isinstance(t.args[0], Term):
        return arg_term(t.args[0], name)
    if t.kind == "call" and t.args and t.args[0][0] == "into" if t.kind == "call" and isinstance(t.args[0], tuple) else False:
        return any(isinstance(x, Sym) and arg_term(x.key, name) for x in t.args[0][1:])
    if t.kind == "call":
        return "into" in t.args and any(isinstance(x, Sym) and arg_term(x.key, name) for x in t.args)
    return False


def same_as_arg(m, s, v, name, kind):
    """the value got is the value given"""
    I = m.I
    if kind == "image":
        # format and contents
        if not isinstance(v, Agg) or len(v.fs) != 2:
            return False
        ty = I.P.types[v.ty]["variants"][0]["fields"] if v.ty is not None else None
        fmt, data = v.fs
        if isinstance(fmt, Seq):
            fmt, data = data, fmt
        given = I.mkval(m.t_fmt, T("fld", (T("root", (name, 0)), 0, m.i_fmt)))
        s = s.copy()
        m.narrow(s)
        return is_arg(data, name) and I.entails(s, c_eq(m.dis(fmt) - m.dis(given)))
    return is_arg(v, name)


class Field:
    def __init__(self, ctx, name, present):
        self.ctx, self.name, self.present = ctx, name, present
        self.m = Machine(ctx, present, FIELDS[name])
        self.what = "%s, %s" % (name, "set before" if present else "not set before")

    def ob(self, ok, key, msg):
        self.ctx.ob(ok, "%s: %s" % (self.name, key), "%s (%s)" % (msg, self.what))

    def get(self, s, name):
        """[(state, value)] a getter's result, references followed"""
        out = []
        for s2, v in self.m.call(s, name):
            x = some(v)
            if x is not None:
                out.append((s2, ("some", self.m.deep(s2, x))))
            elif none(v):
                out.append((s2, ("none",)))
            else:
                out.append((s2, ("value", v)))
        return out

    def list(self, s, name):
        out = []
        for s2, it in self.m.call(s, name):
            out += [(s3, q) for s3, q in self.m.collected(s2, it)]
        if not out:
            raise AnalysisError("no result of " + name)
        return out

    # single forms
    def first(self, s, op, getter, want, kind, empty=None):
        """the getter returns the argument"""
        rs = self.get(s, getter)
        if not rs:
            raise AnalysisError("no result of " + getter)
        for s2, r in rs:
            ok = r[0] == "some" and want(s2, r[1]) or r[0] == "none" and empty is not None and empty(s2)
            self.ob(ok, "%s, then %s" % (op, getter), "%s after %s returns %s" % (getter, op, show(r[1], 160) if len(r) > 1 else "nothing"))

    def nothing(self, s, op, getters):
        for g in getters:
            single = g in self.singles
            for s2, r in (self.get(s, g) if single else [(a, q) for a, q in self.list(s, g)]):
                if single:
                    ok = r[0] == "none" or r[0] == "value" and isinstance(r[1], Bool) and self.m.I.entails(s2, c_not(r[1].c))
                else:
                    ok = eqv(self.m.I, s2, seq_len(r))
                self.ob(ok, "%s, then %s" % (op, g), "%s returns a value after %s" % (g, op))

    def plural_is(self, s, op, getter, parts, kind):
        """the values got are those expected"""
        m = self.m
        for s2, q in self.list(s, getter):
            ok = self.matches(s2, q, parts, kind)
            self.ob(ok, "%s, then %s" % (op, getter), "%s after %s returns %s" % (getter, op, show(q, 200)))

    def matches(self, s, q, parts, kind):
        m = self.m
        got = []
        for g in m.I.models and q.segs:
            if g[0] == "lit":
                got += [("one", x) for x in g[1]]
            else:
                got.append(("many", g))
        for p in parts:
            if p[0] == "old":
                for g in p[1].segs:
                    if not got or got[0][0] != "many" or canon(got[0][1]) != canon(g):
                        return False
                    got.pop(0)
            elif p[0] == "one":
                if not got or got[0][0] != "one" or not same_as_arg(m, s, got[0][1], p[1], kind):
                    return False
                got.pop(0)
            else:
                n = L(T("len", (T("root", (p[1], 0)),), 0, MAXLEN))
                if eqv(m.I, s, n):
                    continue
                if not got or got[0][0] != "many":
                    return False
                g = got.pop(0)[1]
                if not self.each_arg(s, g, p[1], n, kind):
                    return False
        return not got

    def each_arg(self, s, g, name, n, kind):
        """the values are the items of the iterator given, one after the other"""
        m = self.m
        root = T("root", (name, 0))
        if not eqv(m.I, s, seg_len(g) - n):
            return False
        if g[0] == "sym":
            return g[1] is root and g[2] == ZERO
        if g[0] == "gen":
            v, bv = g[3], g[2]
        elif g[0] == "loop":
            alts = [(c, x) for c, x in g[3] if c != FALSE]
            if kind == "image":
                return all(self.image_alt(s, c, x, root, g[2]) for c, x in alts)
            if len(alts) != 1 or len(alts[0][1]) != 1 or alts[0][1][0][0] != "lit" or len(alts[0][1][0][1]) != 1:
                return False
            v, bv = alts[0][1][0][1][0], g[2]
        else:
            return False
        e = T("elem", (root, L(bv)))
        return self.is_elem(s, v, e, kind)

    def image_alt(self, s, c, x, root, bv):
        if len(x) != 1 or x[0][0] != "lit" or len(x[0][1]) != 1:
            return False
        s2 = self.m.I.split(s, c)[0]
        return s2 is None or self.is_elem(s2, x[0][1][0], T("elem", (root, L(bv))), "image")

    def is_elem(self, s, v, e, kind):
        m = self.m
        if kind == "image":
            if not isinstance(v, Agg) or len(v.fs) != 2:
                return False
            fmt, data = v.fs
            if isinstance(fmt, Seq):
                fmt, data = data, fmt
            d = T("fld", (e, 0, m.i_img))
            want = m.I.mkval(m.t_fmt, T("fld", (e, 0, m.i_fmt)))
            s = s.copy()
            m.narrow(s)
            return self.whole(data, d) and m.I.entails(s, c_eq(m.dis(fmt) - m.dis(want)))
        if kind == "number":
            w = m.I.mkval(m.I.P.ty("u16"), e)
            return isinstance(v, Int) and eqv(m.I, s, v.l - w.l)
        return self.whole(v, e)

    @staticmethod
    def whole(v, key):
        return isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "sym" and v.segs[0][1] is key and v.segs[0][2] == ZERO and v.segs[0][3] == L(T("len", (key,), 0, MAXLEN))

    def elem_is(self, name, i, kind):
        root = T("root", (name, 0))
        return lambda s, v: self.is_elem(s, v, T("elem", (root, L(i))), kind)


def names(f):
    """operations of a field: (getters of one, of all, takers of one, of all, set one, set all, add one, add all, removers)"""
    if f in MULTI:
        p = plural(f)
        return [f], [p], ["take_" + f], ["take_" + p], "set_" + f, "set_" + p, "add_" + f, "add_" + p, ["remove_" + p]
    if f == "artwork":
        return [f], [f + "s"], ["take_" + f], ["take_" + f + "s"], "set_" + f, "set_" + f + "s", "add_" + f, "add_" + f + "s", ["remove_" + f + "s"]
    if f == "standard_genre":
        return [f], [f + "s"], [], [], "set_" + f, "set_" + f + "s", "add_" + f, "add_" + f + "s", ["remove_" + f + "s"]
    return [f], [], ["take_" + f] if f in SINGLE else [], [], "set_" + f, None, None, None, ["remove_" + f]


def kind_of(f):
    return "image" if f == "artwork" else "number" if f in NUMBERS + ("standard_genre",) else "flag" if f in FLAGS else "text" if f in SINGLE + MULTI else "code"


def one(ctx, item):
    f, present = item
    F = Field(ctx, f, present)
    m, kind = F.m, kind_of(f)
    g1, gs, t1, ts, set1, sets, add1, adds, rem = names(f)
    F.singles = g1 + t1
    for n in g1 + gs + t1 + ts + [x for x in (set1, sets, add1, adds) if x] + rem:
        if m.fid(n) is None:
            ctx.violation("%s: %s" % (f, n), "the accessor %s does not exist" % n)
            return
    if kind == "image":
        img(m, m.fid(set1))
    I = m.I

    def stored(s, op, parts, first, empty=None):
        """what the getters and takers return in a state"""
        for g in g1 + t1:
            F.first(s, op, g, first, kind, empty)
        for g in gs + ts:
            F.plural_is(s, op, g, parts, kind)
        for t in t1 + ts:
            for s2, _ in m.call(s, t):
                F.nothing(s2, "%s, %s" % (op, t), g1 + gs)
        for r in rem:
            for s2, _ in m.call(s, r):
                F.nothing(s2, "%s, %s" % (op, r), g1 + gs)

    if kind == "flag":
        for s, _ in m.call(m.st, set1):
            for s2, r in F.get(s, f):
                F.ob(r[0] == "value" and isinstance(r[1], Bool) and I.entails(s2, r[1].c), "%s, then %s" % (set1, f), "%s is not true after %s" % (f, set1))
            for s2, _ in m.call(s, rem[0]):
                F.nothing(s2, "%s, %s" % (set1, rem[0]), g1)
        for s2, _ in m.call(m.st, rem[0]):
            F.nothing(s2, rem[0], g1)
        return
    if kind == "code":
        codes(F, f, set1, rem[0])
        return

    # setting one value
    done = 0
    for s, _ in m.call(m.st, set1, prefix="a"):
        stored(s, set1, [("one", "a1")], lambda s2, v: same_as_arg(m, s2, v, "a1", kind))
        done += 1
        if add1 and not present:
            # adding to what was set
            for s2, _ in m.call(s, add1, prefix="b"):
                for g in gs + ts:
                    F.plural_is(s2, "%s, %s" % (set1, add1), g, [("one", "a1"), ("one", "b1")], kind)
                for g in g1 + t1:
                    F.first(s2, "%s, %s" % (set1, add1), g, lambda s3, v: same_as_arg(m, s3, v, "a1", kind), kind)
            for s2, _ in m.call(s, set1, prefix="b"):
                for g in gs:
                    F.plural_is(s2, "%s twice" % set1, g, [("one", "b1")], kind)
    if sets:
        n = L(T("len", (T("root", ("a1", 0)),), 0, MAXLEN))
        for s, _ in m.call(m.st, sets, prefix="a"):
            stored(s, sets, [("all", "a1")], F.elem_is("a1", 0, kind), lambda s2: eqv(I, s2, n))
            if not present:
                for s2, _ in m.call(s, add1, prefix="b"):
                    for g in gs:
                        F.plural_is(s2, "%s, %s" % (sets, add1), g, [("all", "a1"), ("one", "b1")], kind)
                for s2, _ in m.call(s, adds, prefix="b"):
                    for g in gs:
                        F.plural_is(s2, "%s, %s" % (sets, adds), g, [("all", "a1"), ("all", "b1")], kind)
        # adding keeps what was there
        old = [Seq(None, ())]
        if present:
            old = [q for _, q in F.list(m.st, gs[0])]
            if len(old) != 1:
                raise AnalysisError("values of the field told apart")
        for s, _ in m.call(m.st, add1, prefix="a"):
            for g in gs + ([] if present else ts):
                F.plural_is(s, add1, g, [("old", old[0]), ("one", "a1")], kind)
            if not present:
                stored(s, add1, [("one", "a1")], lambda s2, v: same_as_arg(m, s2, v, "a1", kind))
        for s, _ in m.call(m.st, adds, prefix="a"):
            for g in gs + ([] if present else ts):
                F.plural_is(s, adds, g, [("old", old[0]), ("all", "a1")], kind)
            if not present:
                stored(s, adds, [("all", "a1")], F.elem_is("a1", 0, kind), lambda s2: eqv(I, s2, n))
    # removing what was there before
    for r in rem + t1 + ts:
        for s, _ in m.call(m.st, r):
            F.nothing(s, r, g1 + gs)
    if not done:
        raise AnalysisError("no outcome of " + set1)
    ctx.count("fields_checked")


def img(m, fid):
    """the fields of an image"""
    P, f = m.P, m.P.fns[fid]
    t = P.types[f["locals"][2]]
    fs = t["variants"][0]["fields"]
    m.i_fmt = next(i for i, x in enumerate(fs) if P.types[x["ty"]]["k"] == "adt" and len(P.types[x["ty"]].get("variants", ())) > 1)
    m.i_img = 1 - m.i_fmt
    m.t_fmt = fs[m.i_fmt]["ty"]


def codes(F, f, setter, remover):
    """fields with one of several known values: each is read back as itself"""
    m, ctx = F.m, F.ctx
    fid = m.fid(setter)
    ty = m.P.fns[fid]["locals"][2]
    vs = m.P.types[ty]["variants"]
    for i, v in enumerate(vs):
        arg = m.I.mkval(ty, T("root", ("a1", 0)))
        st = m.st.copy()
        st.add(c_eq(m.dis(arg) - m.I.discr_of(ty, i)))
        fs = tuple(m.I.mkval(x["ty"], T("root", ("a1_%d" % k, 0))) for k, x in enumerate(v["fields"]))
        given = Agg(ty, i, fs)
        rs = m.call(m.st, setter, [given])
        for s, _ in rs:
            for s2, r in F.get(s, f):
                ok = r[0] == "some" and same_variant(m, s2, r[1], given)
                F.ob(ok, "%s(%s), then %s" % (setter, v["name"], f), "%s after setting %s is %s" % (f, v["name"], show(r[1], 120) if len(r) > 1 else "nothing"))
            for s2, _ in m.call(s, remover):
                F.nothing(s2, remover, [f])
        ctx.count("known_values")
    for s2, _ in m.call(m.st, remover):
        F.nothing(s2, remover, [f])


def same_variant(m, s, v, w):
    if not isinstance(v, Agg) or v.var != w.var or len(v.fs) != len(w.fs):
        return False
    return all(isinstance(x, Int) and eqv(m.I, s, x.l - y.l) for x, y in zip(v.fs, w.fs))


def run(ctx):
    items = [(f, p) for f in FIELDS if f not in ("track", "disc") for p in (False, True)]
    # the slow ones first
    items.sort(key=lambda x: (x[0] not in ("artwork", "standard_genre"), x[0] not in MULTI, not x[1]))
    pmap(ctx, one, items, limit=600 if ctx.thorough else 300, name=lambda x: "%s %s" % x)
    ctx.count("fields", len(items) // 2)
