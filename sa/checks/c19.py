from .common import *

RULE = ("For every pair of identifier types and every combination of their kinds, the condition computed by each comparison "
        "(equality operators and the matching function) is equivalent, for all contents, to: same kind, and equal four bytes, or "
        "equal mean and equal name. The conversions to the owned form and the four-character and freeform views keep all parts.")
F, R, D = "atom::ident::Fourcc", "atom::ident::FreeformIdent", "atom::ident::DataIdent"


def ref_type(P, base):
    for i, t in enumerate(P.types):
        if t["k"] == "ref" and not t["mut"]:
            n = P.types[t["to"]]["name"]
            if n == base or n.startswith(base + "<"):
                return i
    return None


def ident_parts(I, st, a, kind):
    while isinstance(I.load(st, a.obj, a.path), Ref):
        a = I.load(st, a.obj, a.path)
    x = I.load(st, a.obj, a.path)
    return value_parts(I, st, x, kind)


def value_parts(I, st, x, kind):
    """the four bytes or [mean, name] of an identifier value of the given kind"""
    x = the(I, st, x)
    d = I.types[x.ty]
    base = d["name"].split("<")[0]
    if base == D:
        i = I.variant_named(x.ty, "Fourcc" if kind == 4 else "Freeform")
        if isinstance(x, Agg):
            if x.var != i:
                return None
            fs = x.fs
        else:
            o = ("V", fresh_uid())
            st.mem[o] = x
            fs = [I.load(st, o, (("f", k, 1, i),)) for k in range(len(d["variants"][i]["fields"]))]
        if kind == 4:
            return value_parts(I, st, fs[0], 4)
        return [the(I, st, y) for y in fs]
    fs = children_of(I, st, x)
    if base == F:
        q = the(I, st, fs[0])
        return [I.seq_get(st, q, L(k)) for k in range(4)]
    return [the(I, st, y) for y in fs]


def children_of(I, st, x):
    if isinstance(x, Agg):
        return x.fs
    o = ("V", fresh_uid())
    st.mem[o] = x
    return [I.load(st, o, (("f", k),)) for k in range(len(I.types[x.ty]["variants"][0]["fields"]))]


def expected(I, st, a, ka, b, kb):
    if ka != kb:
        return FALSE
    x, y = ident_parts(I, st, a, ka), ident_parts(I, st, b, kb)
    if ka == 4:
        return c_and([c_eq(p.l - q.l) for p, q in zip(x, y)])
    return c_and([I.seq_eq(st, p, q) for p, q in zip(x, y)])


def kinds_of(base):
    return {F: (4,), R: (2,), D: (4, 2)}[base]


def compare(ctx, fid, ba, bb, what):
    P = ctx.P
    ta, tb = ref_type(P, ba), ref_type(P, bb)
    if ta is None or tb is None:
        ctx.undecided("no reference type for %s / %s" % (ba, bb))
        return
    for ka in kinds_of(ba):
        for kb in kinds_of(bb):
            I = Interp(P)
            st = St()
            a, b = I.mkval(ta, T("root", ("a0", 0))), I.mkval(tb, T("root", ("a1", 0)))
            for r, base, k in ((a, ba, ka), (b, bb, kb)):
                if base == D:
                    assume_variant(I, st, r, "Fourcc" if k == 4 else "Freeform")
            want = expected(I, st, a, ka, b, kb)
            nm = "%s: %s(%s) with %s(%s)" % (what, ba.split("::")[-1], {4: "four-character", 2: "freeform"}[ka], bb.split("::")[-1], {4: "four-character", 2: "freeform"}[kb])
            outs = I.run_fn(st, fid, [a, b])
            for s, v in outs:
                if not isinstance(v, Bool):
                    ctx.undecided(nm + ": " + show(v, 100))
                    continue
                t, f = I.split(s, v.c)
                ok1 = t is None or want == TRUE or (want != FALSE and all_hold(I, t, want))
                ctx.ob(ok1, nm + " too wide", nm + ": found equal although they differ; equal exactly if " + show(v, 400), wanted=str(want)[:400])
                w = I.split(s, want)[0] if want not in (TRUE, FALSE) else (s if want == TRUE else None)
                ok2 = f is None or w is None or v.c == TRUE or (v.c != FALSE and all_hold(I, w, v.c))
                ctx.ob(ok2, nm + " too narrow", nm + ": not found equal although they are; equal exactly if " + show(v, 400), wanted=str(want)[:400])
            ctx.count("kind_pairs")
            for n in I.notes:
                ctx.undecided(nm + ": " + str(n)[:150])


def all_hold(I, s, c):
    if c[0] == "and":
        return all(all_hold(I, s, x) for x in c[1])
    if c[0] == "or":
        return any(all_hold(I, s, x) for x in c[1]) or I.entails(s, c)
    if c[0] == "eq":
        return eqv(I, s, c[1])
    return I.entails(s, c)


def run(ctx):
    P = ctx.P
    eq = {
        (F, F): "<atom::ident::Fourcc as std::cmp::PartialEq>::eq",
        (F, D): "<atom::ident::Fourcc as std::cmp::PartialEq<atom::ident::DataIdent>>::eq",
        (R, R): "<atom::ident::FreeformIdent<'a> as std::cmp::PartialEq>::eq",
        (R, D): "<atom::ident::FreeformIdent<'_> as std::cmp::PartialEq<atom::ident::DataIdent>>::eq",
        (D, D): "<atom::ident::DataIdent as std::cmp::PartialEq>::eq",
    }
    for (a, b), path in eq.items():
        ids = [i for i, f in P.fns.items() if f["path"].replace("'a", "'_") == path.replace("'a", "'_")]
        if not ids:
            ctx.undecided("no construct to analyse for " + path)
            continue
        compare(ctx, pick(P, ids), a, b, "equality")
    ids = ctx.anchor("atom::ident::idents_match")
    if ids:
        for a in (F, R, D):
            for b in (F, R, D):
                compare(ctx, pick(P, ids), a, b, "idents_match")
    # conversions and views
    for src, path in (
        (F, "<atom::ident::DataIdent as std::convert::From<atom::ident::Fourcc>>::from"),
        (R, "<atom::ident::DataIdent as std::convert::From<atom::ident::FreeformIdent<'_>>>::from"),
        (R, "<atom::ident::DataIdent as std::convert::From<&atom::ident::FreeformIdent<'_>>>::from"),
    ):
        fid = entry_of(ctx, path)
        if fid is None:
            continue
        I, st, args, info = fresh_call(ctx, fid)
        k = kinds_of(src)[0]
        for s, v in I.run_fn(st, fid, args):
            x, y = value_parts(I, s, args[0], k), value_parts(I, s, v, k)
            ctx.ob(y is not None and len(x) == len(y) and all(same(I, s, p, q) for p, q in zip(x, y)), "conversion of " + src,
                   "converting a %s to its owned form yields %s" % (src.split("::")[-1], show(v)))
        done(ctx, I, path)
    for base in (F, R, D):
        for k in kinds_of(base):
            for view, kv in (("fourcc", 4), ("freeform", 2)):
                path = "<%s as atom::ident::Ident>::%s" % (base + ("<'_>" if base == R else ""), view)
                fid = entry_of(ctx, path)
                if fid is None:
                    continue
                I, st, args, info = fresh_call(ctx, fid)
                if base == D:
                    assume_variant(I, st, args[0], "Fourcc" if k == 4 else "Freeform")
                for s, v in I.run_fn(st, fid, args):
                    nm = "%s::%s of a %s identifier" % (base.split("::")[-1], view, {4: "four-character", 2: "freeform"}[k])
                    if not isinstance(v, Agg) or v.var is None:
                        ctx.undecided(nm + ": " + show(v, 100))
                        continue
                    if k != kv:
                        ctx.ob(v.var == 0, nm, nm + " is " + show(v))
                    else:
                        y = value_parts(I, s, v.fs[0], k) if v.var == 1 else None
                        x = ident_parts(I, s, args[0], k)
                        ctx.ob(y is not None and all(same(I, s, p, q) for p, q in zip(x, y)), nm, nm + " is " + show(v))
                done(ctx, I, path)
    # owned constructors
    fid = entry_of(ctx, "atom::ident::DataIdent::fourcc")
    if fid is not None:
        I, st, args, info = fresh_call(ctx, fid)
        for s, v in I.run_fn(st, fid, args):
            y = value_parts(I, s, v, 4)
            q = the(I, s, args[0])
            x = [I.seq_get(s, q, L(i)) for i in range(4)] if isinstance(q, Seq) else None
            ctx.ob(x is not None and y is not None and all(same(I, s, p, w) for p, w in zip(x, y)), "DataIdent::fourcc", "DataIdent::fourcc yields " + show(v))
    fid = entry_of(ctx, "atom::ident::FreeformIdent::<'a>::new")
    if fid is not None:
        I, st, args, info = fresh_call(ctx, fid)
        for s, v in I.run_fn(st, fid, args):
            y = value_parts(I, s, v, 2)
            ctx.ob(all(same(I, s, p, q) for p, q in zip(args, y)), "FreeformIdent::new", "FreeformIdent::new yields " + show(v))
    fid = entry_of(ctx, "atom::ident::DataIdent::freeform")
    if fid is not None:
        I, st, args, info = fresh_call(ctx, fid)
        for s, v in I.run_fn(st, fid, args):
            y = value_parts(I, s, v, 2)
            ok = y is not None and "a0" in str(y[0]) and "a1" not in str(y[0]) and "a1" in str(y[1]) and "a0" not in str(y[1])
            ctx.ob(ok, "DataIdent::freeform", "DataIdent::freeform yields " + show(v))
