"""Shared pieces of the rules."""
from ..entry import *
from ..core import pmap, norm_key
from ..loops import leaf_get

READ_ENTRY = "tag::Tag::read_from"
WRITE_ENTRY = "tag::Tag::write_to"
DUMP_ENTRY = "tag::Tag::dump_to"
READ_PATH = "tag::Tag::read_from_path"
WRITE_PATH = "tag::Tag::write_to_path"
DUMP_PATH = "tag::Tag::dump_to_path"


def flag(s, n="failed"):
    v = s.mem.get(("flag", n))
    return v.var if v is not None else None


def run_entry(ctx, path, **kw):
    """analyses the public function for all inputs; None if it is gone or cannot be analysed"""
    ids = ctx.anchor(path)
    if not ids:
        return None
    I, outs, info = analyse(ctx.P, ids[0], **kw)
    ctx.count("functions_analysed", len(I.fns_seen))
    ctx.count("call_sites", len(I.calls_seen))
    ctx.count("outcomes", len(outs))
    ctx.count("loops_summarised", len(I.loopx.records))
    for n, w in I.notes.items():
        ctx.undecided("%s: %s" % (path, str(n)[:200]))
    return I, outs, info


def _entry_item(ctx, item):
    path, func = item
    path, kw = path if isinstance(path, tuple) else (path, {})
    r = run_entry(ctx, path, **kw)
    if r is not None:
        func(ctx, r[0], r[1], path)


def run_entries(ctx, paths, func):
    """func(ctx, interpreter, outcomes, path) for the analysis of each public function, in parallel"""
    pmap(ctx, _entry_item, [(p, func) for p in paths], limit=780, name=lambda it: str(it[0]))


def is_ok(v):
    return isinstance(v, Agg) and v.var == 0


def is_err(v):
    return isinstance(v, Agg) and v.var == 1


def err_kind(P, v):
    """(variant name, payload) of the kind of Err(error), or None"""
    e = v.fs[0]
    if isinstance(e, Agg) and e.fs:
        k = e.fs[0]
        if isinstance(k, Agg) and k.var is not None and k.ty is not None:
            return P.types[k.ty]["variants"][k.var]["name"], k.fs
    return None


def show(v, n=200):
    return str(v)[:n]


def site_key(fn, kind, cond):
    """identifies an obligation without line numbers"""
    import re
    return "%s: %s" % (fn, kind)


def check_panics(ctx, I, what, assume=None):
    """one obligation per arithmetic check, index and panic reached"""
    ks = {}
    for o in I.obls[0]:
        ok = o.ok or (assume is not None and assume(o))
        ks[o.kind] = ks.get(o.kind, 0) + 1
        if not ok and o.kind == "typeinv":
            ctx.undecided("%s: positions and lengths put together in %s" % (what, o.fn))
            continue
        ctx.ob(ok, "%s in %s" % (o.kind, o.fn),
               "%s at %s can fail while %s: needs %s" % (o.kind, o.site, what, str(o.cond)[:300]),
               site=o.site, function=o.fn, condition=str(o.cond)[:600], path=list(o.chain))
    for k, n in ks.items():
        ctx.count("panic_sites:" + k, n)


def internal(ctx, path, sig=None):
    """the instance of a non-public function the rule starts from, found by its path or else by its signature
    (a renamed or moved helper is still the same construct); None, and undecided, when it is gone"""
    P = ctx.P
    ids = P.by_path.get(path, [])
    if not ids and sig is not None:
        roots = set(map(str, P.roots))
        for i, f in P.fns.items():
            if f["local"] and not f["closure"] and str(i) in roots:
                ts = [P.types[t]["name"] for t in f["locals"][: f["argc"] + 1]]
                if sig(ts):
                    ids.append(i)
    if not ids:
        ctx.undecided("no construct to analyse for " + path)
        return None
    return pick(P, ids)


def feasible(I, st, c):
    return I.split(st, c)[0] is not None


def consts(segs):
    """the values of a literal prefix of bytes"""
    out = []
    for g in segs:
        if g[0] != "lit":
            break
        for x in g[1]:
            if not isinstance(x, Int) or x.l.t:
                return out
            out.append(x.l.c)
    return out


def drop_bytes(segs, n):
    """the segments behind the first n elements, which are literal"""
    segs = list(segs)
    while n and segs and segs[0][0] == "lit":
        k = min(n, len(segs[0][1]))
        rest = segs[0][1][k:]
        n -= k
        segs[0:1] = [("lit", rest)] if rest else []
    return tuple(segs) if not n else None


def fresh_call(ctx, fid, **opts):
    I, st, args, info = setup_call(ctx.P, fid)
    I.opts.update(opts)
    return I, st, args, info


def done(ctx, I, what):
    ctx.count("functions_analysed", len(I.fns_seen))
    ctx.count("call_sites", len(I.calls_seen))
    for n in I.notes:
        ctx.undecided("%s: %s" % (what, str(n)[:200]))


def eqv(I, s, d):
    """d is 0"""
    d = d if isinstance(d, Lin) else L(d)
    if not d.t:
        return d.c == 0
    if I.entails(s, c_eq(d)) or (I.entails(s, c_ge(d)) and I.entails(s, c_ge(-d))):
        return True
    m = {}
    for t, _ in d.t:
        if t.kind in ("trunc", "wrap"):
            lo, hi = (0, (1 << t.args[1]) - 1) if t.kind == "trunc" else trange(t.args[1], t.args[2])
            if all(entails_or(I, s, c) for c in (c_ge(t.args[0] - lo), c_ge(Lin(hi) - t.args[0]))):
                m[t] = t.args[0]
    return bool(m) and eqv(I, s, d + sum(((x - L(t)).scale(d.coef(t)) for t, x in m.items()), L(0)))


def entails_or(I, s, c):
    """c holds; tries the alternatives of facts that speak of its terms one by one"""
    if I.entails(s, c):
        return True
    ts = {t for t in _terms(c) if t.kind in ("sym", "be")}
    for f in list(s.facts):
        if f[0] == "or" and ts & set(_terms(f)):
            alts = [I.split(s, x)[0] for x in f[1]]
            if all(a is None or I.entails(a, c) for a in alts):
                return True
    return False


def eqv_or(I, s, d):
    """d is 0; tries the alternatives of facts that speak of its terms one by one"""
    if eqv(I, s, d):
        return True
    ts = {t for t, _ in d.t if t.kind == "sym"}
    for f in list(s.facts):
        if f[0] == "or" and ts & set(_terms(f)):
            alts = [I.split(s, x)[0] for x in f[1]]
            if all(a is None or eqv(I, a, d) for a in alts):
                return True
    return False


def _terms(c):
    if c[0] in ("and", "or"):
        return [t for x in c[1] for t in _terms(x)]
    if c[0] in ("ge", "eq", "ne"):
        return [t for t, _ in c[1].t]
    return []


def oneof(I, s, lin, cs):
    """lin is one of the numbers"""
    st = s
    for c in cs:
        t = I.split(st, c_ne(lin - c))[0]
        if t is None:
            return True
        st = t
    return False


def content(I, st, a, name):
    """field 0 of variant `name` of an enum argument (a reference or a value)"""
    if not isinstance(a, Ref):
        if isinstance(a, Agg):
            return a.fs[0]
        o = ("V", fresh_uid())
        st.mem[o] = a
        a = Ref(o)
    x = the(I, st, a)
    if isinstance(x, Agg):
        return x.fs[0]
    while isinstance(I.load(st, a.obj, a.path), Ref):
        a = I.load(st, a.obj, a.path)
    return I.load(st, a.obj, a.path + (("f", 0, 1, I.variant_named(x.ty, name)),))


def same(I, st, a, b):
    """two values are the same in this state"""
    a, b = the(I, st, a), the(I, st, b)
    if a == b:
        return True
    if isinstance(a, Int) and isinstance(b, Int):
        return eqv(I, st, a.l - b.l)
    if isinstance(a, Seq) and isinstance(b, Seq):
        x, y = norm_segs(a.segs), norm_segs(b.segs)
        if x == y:
            return True
        try:
            r = I.seq_eq(st, a, b)
        except Exception:
            return False
        return r == TRUE or (r is not None and I.entails(st, r))
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.var == b.var and len(a.fs) == len(b.fs) and all(same(I, st, x, y) for x, y in zip(a.fs, b.fs))
    return False


def entry_of(ctx, path):
    """the instance of a public function"""
    ids = ctx.anchor(path)
    return pick(ctx.P, ids) if ids else None
