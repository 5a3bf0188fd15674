from .common import *

RULE = ("For each kind of value, every view (shared, mutable, consuming), kind test and format-specific view of Data yields the "
        "stored content in place for exactly the kinds of its group and nothing otherwise; len and is_empty agree with the "
        "content; converting an image to a value keeps the format.")
BYTES, STR, IMG = ("Reserved", "BeSigned"), ("Utf8", "Utf16"), ("Jpeg", "Png", "Bmp")
ALL = ("Reserved", "Utf8", "Utf16", "Jpeg", "Png", "BeSigned", "Bmp")
VIEWS = {
    "bytes": BYTES, "bytes_mut": BYTES, "into_bytes": BYTES,
    "string": STR, "string_mut": STR, "into_string": STR,
    "image_data": IMG, "image_data_mut": IMG, "into_image_data": IMG,
    "reserved": ("Reserved",), "utf8": ("Utf8",), "utf16": ("Utf16",), "jpeg": ("Jpeg",), "png": ("Png",),
    "be_signed": ("BeSigned",), "bmp": ("Bmp",),
}
IMAGES = ("image", "image_mut", "into_image")
TESTS = {
    "is_bytes": BYTES, "is_string": STR, "is_image": IMG, "is_reserved": ("Reserved",), "is_utf8": ("Utf8",),
    "is_utf16": ("Utf16",), "is_jpeg": ("Jpeg",), "is_png": ("Png",), "is_be_signed": ("BeSigned",), "is_bmp": ("Bmp",),
}


def per_kind(ctx, m, judge):
    path = "atom::data::Data::" + m
    fid = entry_of(ctx, path)
    if fid is None:
        return
    for name in ALL:
        I, st, args, info = fresh_call(ctx, fid, nosum=True, inline=True)
        try:
            assume_variant(I, st, args[0], name)
        except KeyError:
            ctx.violation("kind gone: " + name, "Data has no kind " + name)
            return
        c = content(I, st, args[0], name)
        n = 0
        for s, v in I.run_fn(st, fid, args):
            n += 1
            judge(I, s, v, name, c, args[0])
        if n == 0:
            ctx.undecided("%s: no outcome for %s" % (path, name))
        ctx.count("kind_x_function")
        done(ctx, I, path)


def in_place(v, a):
    """a mutable view refers to the value itself"""
    return isinstance(v, Ref) and isinstance(a, Ref) and v.obj == a.obj


def run(ctx):
    P = ctx.P
    for m, kinds in VIEWS.items():
        def judge(I, s, v, name, c, a, m=m, kinds=kinds):
            if not isinstance(v, Agg) or v.var is None:
                ctx.undecided("%s: outcome %s" % (m, show(v, 100)))
                return
            if name not in kinds:
                ctx.ob(v.var == 0, "%s yields %s" % (m, name), "Data::%s yields something for a value of kind %s" % (m, name), outcome=show(v))
                return
            ctx.ob(v.var == 1 and same(I, s, v.fs[0], c), "%s misses %s" % (m, name),
                   "Data::%s does not yield the content of a value of kind %s but %s" % (m, name, show(v)), outcome=show(v))
            if m.endswith("_mut") and v.var == 1:
                ctx.ob(in_place(v.fs[0], a), "%s copies %s" % (m, name), "Data::%s does not refer to the stored content of kind %s" % (m, name))
        per_kind(ctx, m, judge)
    for m in IMAGES:
        def judge(I, s, v, name, c, a, m=m):
            if not isinstance(v, Agg) or v.var is None:
                ctx.undecided("%s: outcome %s" % (m, show(v, 100)))
                return
            if name not in IMG:
                ctx.ob(v.var == 0, "%s yields %s" % (m, name), "Data::%s yields an image for a value of kind %s" % (m, name))
                return
            if v.var != 1:
                ctx.ob(False, "%s misses %s" % (m, name), "Data::%s yields nothing for kind %s" % (m, name))
                return
            img = v.fs[0]
            if not isinstance(img, Agg) or len(img.fs) != 2:
                ctx.undecided("%s: image %s" % (m, show(img, 100)))
                return
            fields = [f["name"] for f in P.types[img.ty]["variants"][0]["fields"]]
            f, d = img.fs[fields.index("fmt")], img.fs[fields.index("data")]
            fm = fmt_name(I, s, f)
            ctx.ob(fm == name, "%s format of %s" % (m, name), "Data::%s reports format %s for a value of kind %s" % (m, fm, name))
            ctx.ob(same(I, s, d, c), "%s content of %s" % (m, name), "Data::%s does not yield the content of kind %s" % (m, name), outcome=show(v))
            if m.endswith("_mut"):
                ctx.ob(in_place(d, a), "%s copies %s" % (m, name), "Data::%s does not refer to the stored content of kind %s" % (m, name))
        per_kind(ctx, m, judge)
    for m, kinds in TESTS.items():
        def judge(I, s, v, name, c, a, m=m, kinds=kinds):
            want = TRUE if name in kinds else FALSE
            ok = isinstance(v, Bool) and (v.c == want or I.decide(s, v.c) is (want == TRUE))
            ctx.ob(ok, "%s for %s" % (m, name), "Data::%s is %s for a value of kind %s" % (m, show(v), name))
        per_kind(ctx, m, judge)

    def jlen(I, s, v, name, c, a):
        n = seq_len(c)
        if name == "Utf16":
            n = mul(L(T("u16len", (T("u16of", (c,)),), 0, MAXLEN)), L(2))
            ctx.ob(isinstance(v, Int) and str(v.l) == str(n), "len of Utf16", "Data::len of a UTF-16 value is %s, not the number of its bytes when encoded" % show(v))
        else:
            ctx.ob(isinstance(v, Int) and eqv(I, s, v.l - n), "len of " + name, "Data::len of a value of kind %s is %s" % (name, show(v)))
    per_kind(ctx, "len", jlen)

    def jempty(I, s, v, name, c, a):
        n = seq_len(c) if name != "Utf16" else L(T("u16len", (T("u16of", (c,)),), 0, MAXLEN))
        if not isinstance(v, Bool):
            ctx.undecided("is_empty: " + show(v))
            return
        t, f = I.split(s, v.c)
        ok = (t is None or eqv(I, t, n) or n_zero(I, t, n)) and (f is None or I.entails(f, c_ne(n)) or I.entails(f, c_ge(n - 1)))
        ctx.ob(ok, "is_empty of " + name, "Data::is_empty of a value of kind %s is %s" % (name, show(v)))
    per_kind(ctx, "is_empty", jempty)
    # image -> value
    fid = entry_of(ctx, "<atom::data::Data as std::convert::From<types::Img<T>>>::from")
    if fid is not None:
        for name in IMG:
            I, st, args, info = fresh_call(ctx, fid, nosum=True, inline=True)
            a = args[0]
            if isinstance(a, Agg):
                fields = [f["name"] for f in P.types[a.ty]["variants"][0]["fields"]]
                assume_variant(I, st, a.fs[fields.index("fmt")], name)
                data = a.fs[fields.index("data")]
            for s, v in I.run_fn(st, fid, args):
                k = P.types[v.ty]["variants"][v.var]["name"] if isinstance(v, Agg) else None
                ctx.ob(k == name, "image of format %s converted" % name, "an image of format %s becomes a value of kind %s" % (name, k))
                if isinstance(v, Agg) and isinstance(v.fs[0], Seq):
                    ctx.ob("call(into,std::vec::Vec<u8>" in str(v.fs[0]) and str(getattr(data, "key", data)) in str(v.fs[0]) and len(v.fs[0].segs) == 1, "content of image of format %s converted" % name,
                           "converting an image of format %s does not keep its data: %s" % (name, show(v)))
            done(ctx, I, "image to value")
    # format constructors and tests
    for f, name in (("bmp", "Bmp"), ("jpeg", "Jpeg"), ("png", "Png")):
        fid = entry_of(ctx, "types::Img::<T>::" + f)
        if fid is not None:
            I, st, args, info = fresh_call(ctx, fid)
            for s, v in I.run_fn(st, fid, args):
                fields = [x["name"] for x in P.types[v.ty]["variants"][0]["fields"]]
                fm = fmt_name(I, s, v.fs[fields.index("fmt")])
                ctx.ob(fm == name, "Img::" + f, "Img::%s yields format %s" % (f, fm))
                ctx.ob(same(I, s, v.fs[fields.index("data")], args[0]), "Img::%s data" % f, "Img::%s does not keep the data" % f)
        fid = entry_of(ctx, "types::ImgFmt::is_" + f)
        if fid is not None:
            for other in ("Bmp", "Jpeg", "Png"):
                I, st, args, info = fresh_call(ctx, fid)
                assume_variant(I, st, args[0], other)
                for s, v in I.run_fn(st, fid, args):
                    ok = isinstance(v, Bool) and I.decide(s, v.c) is (other == name)
                    ctx.ob(ok, "ImgFmt::is_%s for %s" % (f, other), "ImgFmt::is_%s is %s for %s" % (f, show(v), other))


def n_zero(I, s, n):
    return not feasible(I, s, c_ge(n - 1))


def fmt_name(I, s, f):
    f = the(I, s, f)
    if isinstance(f, Agg):
        return I.types[f.ty]["variants"][f.var]["name"]
    if isinstance(f, Sym):
        for i, v in enumerate(I.types[f.ty]["variants"]):
            if eqv(I, s, L(I.dis(f.ty, f.key)) - v["discr"]):
                return v["name"]
    return None
