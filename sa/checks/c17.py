"""Track and disc numbers with their totals."""
from .tagm import *

RULE = ("The operations of the track (disc) pair are analysed one after the other on a tag with arbitrary other items and, for "
        "the pair's item: none, one without byte values, or one whose first byte value holds arbitrary bytes, in each of the "
        "byte types. What the getters return after an operation must follow from what they returned before it.")
ASSUME = ["a tag starts with at most one item of a field (the first item is the one used otherwise)"]
PAIRS = {"track": ("track_number", "total_tracks"), "disc": ("disc_number", "total_discs")}


def byte_variants(ctx, m):
    """the variants of a value that hold bytes"""
    P, I = m.P, m.I
    fid = pick(P, [i for p, ids in P.by_path.items() if p.endswith("data::Data::bytes") or p.endswith("data::Data>::bytes") for i in ids])
    out = []
    for i, v in enumerate(P.types[m.t_data]["variants"]):
        st = m.st.copy()
        fs = tuple(I.mkval(x["ty"], T("root", ("v%d" % k, 0))) for k, x in enumerate(v["fields"]))
        r = m.cell(st, Agg(m.t_data, i, fs))
        rs = [w for s, w in I.run_fn(st, fid, [r]) if not s.phase]
        if all(some(w) is not None for w in rs) and rs:
            out.append(i)
        elif not all(none(w) for w in rs):
            raise AnalysisError("the byte types")
    return out


def machine(ctx, f, case):
    if case == "absent":
        return Machine(ctx, False, FIELDS[f])
    m = Machine(ctx, False, FIELDS[f])
    bs = byte_variants(ctx, m)
    I = m.I
    pre = I.mkseq(m.t_data, T("root", ("before", 0)))
    rest = I.mkseq(m.t_data, T("root", ("after", 0)))
    segs = pre.segs
    if case != "other":
        i = bs[case] if case < len(bs) else None
        if i is None:
            return None
        v = m.P.types[m.t_data]["variants"][i]
        fs = tuple(I.mkval(x["ty"], T("root", ("held%d" % k, 0))) for k, x in enumerate(v["fields"]))
        segs = segs + lit(m.t_data, [Agg(m.t_data, i, fs)]).segs + rest.segs
    m = Machine(ctx, True, FIELDS[f], Seq(m.t_data, segs))
    bv = bvar()
    e = T("elem", (T("root", ("before", 0)), L(bv)))
    d = L(I.dis(m.t_data, e))
    c = c_and([c_ne(d - I.discr_of(m.t_data, i)) for i in bs])
    m.st.facts[("forall", bv, seq_len(pre), ((T("root", ("before", 0)), L(0)),), c)] = None
    if case == "other":
        m.st.add(c_ge(seq_len(pre) - 1))
    return m


def opt(v):
    x = some(v)
    return x if isinstance(x, Int) else None


def one(ctx, item):
    f, case = item
    m = machine(ctx, f, case)
    if m is None:
        return
    num, tot = PAIRS[f]
    I = m.I
    setters = ["set_" + num, "set_" + tot, "set_" + f]
    removers = ["remove_" + num, "remove_" + tot, "remove_" + f]
    for n in [num, tot, f] + setters + removers:
        if m.fid(n) is None:
            ctx.violation("%s: %s" % (f, n), "the accessor %s does not exist" % n)
            return
    where = "%s, %s" % (f, {"absent": "no item before", "other": "an item without bytes before"}.get(case, "any bytes before"))
    a1, a2 = (I.mkval(I.P.ty("u16"), T("root", ("a%d" % k, 0))).l for k in (1, 2))

    def read(s):
        """[(state, number, total)] by the separate getters; the pair must be the same"""
        out = []
        for s1, n in m.call(s, num):
            for s2, t in m.call(s1, tot):
                for s3, p in m.call(s2, f):
                    ok = isinstance(p, Agg) and len(p.fs) == 2 and eq(s3, p.fs[0], n) and eq(s3, p.fs[1], t)
                    ob(ok, f, "%s is not (%s, %s)" % (f, num, tot))
                out.append((s2, n, t))
        if not out:
            raise AnalysisError("no result of the getters")
        return out

    def ob(ok, key, msg):
        ctx.ob(ok, "%s: %s" % (f, key), "%s (%s)" % (msg, where))

    def eq(s, v, w):
        if none(v) or none(w):
            return none(v) and none(w) or m.absurd(s)
        x, y = opt(v), opt(w)
        return x is not None and y is not None and (eqv(I, s, x.l - y.l) or m.absurd(s))

    def given(s, v, a):
        """the number set, or nothing for 0"""
        if none(v):
            return I.entails(s, c_eq(a)) or m.absurd(s)
        x = opt(v)
        return x is not None and (eqv(I, s, x.l - a) and I.entails(s, c_ne(a)) or m.absurd(s))

    def gone(s):
        ok, items = m.view(s)
        return ok and not items

    start = []
    for s, n, t in read(m.st):
        for what, v in ((num, n), (tot, t)):
            x = opt(v)
            ob(none(v) or x is not None and (I.entails(s, c_ne(x.l)) or m.absurd(s)), "%s: zero" % what, "%s can return 0" % what)
        if case in ("absent", "other"):
            ob(none(n) and none(t), "nothing", "a number is read although none is stored")
        start.append((s, n, t))
    for s, n, t in start:
        for op in setters + removers:
            for s1, _ in m.call(s, op):
                ok, items = m.view(s1)
                ob(ok and len(items) <= 1, op + ": others", "%s changes another item" % op)
                for s2, n2, t2 in read(s1):
                    if op == "set_" + num:
                        ob(given(s2, n2, a1), op + ": " + num, "%s returns %s after %s" % (num, show(n2, 80), op))
                        ob(eq(s2, t2, t), op + ": " + tot, "%s changes %s" % (op, tot))
                    elif op == "set_" + tot:
                        ob(given(s2, t2, a1), op + ": " + tot, "%s returns %s after %s" % (tot, show(t2, 80), op))
                        ob(eq(s2, n2, n), op + ": " + num, "%s changes %s" % (op, num))
                    elif op == "set_" + f:
                        ob(given(s2, n2, a1), op + ": " + num, "%s returns %s after %s" % (num, show(n2, 80), op))
                        ob(given(s2, t2, a2), op + ": " + tot, "%s returns %s after %s" % (tot, show(t2, 80), op))
                    elif op == "remove_" + num:
                        ob(none(n2), op + ": " + num, "%s returns a number after %s" % (num, op))
                        ob(eq(s2, t2, t), op + ": " + tot, "%s changes %s" % (op, tot))
                        if none(t):
                            ob(gone(s2), op + ": item", "the item is still there after %s although there is no total" % op)
                    elif op == "remove_" + tot:
                        ob(none(t2), op + ": " + tot, "%s returns a number after %s" % (tot, op))
                        ob(eq(s2, n2, n), op + ": " + num, "%s changes %s" % (op, num))
                        if none(n):
                            ob(gone(s2), op + ": item", "the item is still there after %s although there is no number" % op)
                    else:
                        ob(none(n2) and none(t2) and gone(s2), op, "something is left after %s" % op)
    ctx.count("cases")


def run(ctx):
    items = [(f, c) for f in PAIRS for c in ("absent", "other", 0, 1, 2, 3)]
    pmap(ctx, one, items, limit=600 if ctx.thorough else 300, name=lambda x: "%s %s" % x)
