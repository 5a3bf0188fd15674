from .common import *

RULE = ("For each kind of value, the function that emits a value with its type code emits exactly the 4-byte code of that kind, "
        "4 zero bytes and the stored content in the encoding of the kind; the function that decodes a value yields, under "
        "exactly that code, that kind from exactly the declared number of bytes with the inverse encoding, and for every "
        "other code an UnknownDataType error carrying the code.")
CODES = {"Reserved": 0, "Utf8": 1, "Utf16": 2, "Jpeg": 13, "Png": 14, "BeSigned": 21, "Bmp": 27}


def is_utf16(segs, src):
    """a loop over the UTF-16 units of src that emits each, high byte first"""
    if len(segs) != 1 or segs[0][0] != "loop":
        return False
    _, n, bv, parts = segs[0]
    if len(parts) != 1 or parts[0][0] != TRUE:
        return False
    u = T("u16of", (src,))
    body = parts[0][1]
    if n != L(T("u16len", (u,), 0, MAXLEN)) and "u16len(" + str(u) not in str(n):
        return False
    if len(body) != 1 or body[0][0] != "lit" or len(body[0][1]) != 2:
        return False
    hi, lo = body[0][1]
    s = "u16at(%s,%s)" % (u, L(bv))
    return str(hi.l) == "byte(%s,1)" % s and str(lo.l) == "byte(%s,0)" % s


def check_write(ctx):
    fid = internal(ctx, "atom::data::Data::write_typed", lambda ts: len(ts) == 3 and ts[1] == "&atom::data::Data" and "Write" in ts[2] and "Result" in ts[0])
    if fid is None:
        return
    ty = ctx.P.fns[fid]["locals"][1]
    for name in variant_names(ctx.P, ty):
        if name not in CODES:
            ctx.undecided("kind %s is not in the table of the format" % name)
            continue
        I, st, args, info = fresh_call(ctx, fid, nosum=True, inline=True)
        assume_variant(I, st, args[0], name)
        outs = I.run_fn(st, fid, args)
        ok = 0
        for s, v in outs:
            if not is_ok(v) or flag(s):
                continue
            ok += 1
            q = s.mem[("out", "w")]
            x = the(I, s, args[0])
            i = I.variant_named(x.ty, name)
            x = x.fs[0] if isinstance(x, Agg) else I.load(s, args[0].obj, args[0].path + (("f", 0, 1, i),))
            head = consts(q.segs)[:8]
            want = [0, 0, 0, CODES[name], 0, 0, 0, 0]
            ctx.ob(head == want, "type code written for %s" % name,
                   "a value of kind %s is emitted under header bytes %s instead of %s" % (name, head, want), emitted=show(q, 400))
            body = drop_bytes(q.segs, 8)
            if body is None:
                continue
            good = is_utf16(body, x) if name == "Utf16" else Seq(None, norm_segs(body)).segs == norm_segs(x.segs)
            ctx.ob(good, "content written for %s" % name,
                   "the content of a value of kind %s is not emitted in its encoding: %s" % (name, show(Seq(None, body), 300)))
        if not ok:
            ctx.undecided("no successful outcome of emitting a value of kind " + name)
        ctx.sample("emit %s: %d successful outcomes" % (name, ok))
        done(ctx, I, "emitting a value")


def check_read(ctx):
    fid = internal(ctx, "atom::data::Data::parse", lambda ts: len(ts) == 4 and "Read" in ts[1] and ts[2:] == ["u32", "u64"] and "atom::data::Data" in ts[0])
    if fid is None:
        return
    I, st, args, info = fresh_call(ctx, fid, nosum=True, inline=True, errs=True)
    code, ln = args[1].l, args[2].l
    cur0 = st.mem[("cur", "r")].l
    outs = I.run_fn(st, fid, args)
    P = ctx.P
    seen = set()
    for s, v in outs:
        if is_ok(v):
            d = v.fs[0]
            if not isinstance(d, Agg):
                ctx.undecided("kind read is not determined: " + show(v))
                continue
            name = P.types[d.ty]["variants"][d.var]["name"]
            seen.add(name)
            c = CODES.get(name)
            ctx.ob(c is not None and I.entails(s, c_eq(code - c)), "type code read as %s" % name,
                   "content is read as kind %s under a type code other than %s" % (name, c), path=[str(f) for f in s.facts][:12])
            q = d.fs[0]
            cur = s.mem[("cur", "r")].l
            ctx.ob(eqv(I, s, cur - cur0 - ln), "bytes consumed for %s" % name,
                   "reading content of kind %s consumes %s bytes instead of the declared length" % (name, cur - cur0))
            if name == "Utf16":
                t = str(q)
                good = "u16dec(Q[(gen,div(" in t and "be2[r@%s+2*bv(" % cur0 in t and len(q.segs) == 1
                # declared length in units: half the bytes
                ctx.ob(good, "decoding of %s" % name, "content of kind Utf16 is not decoded from big-endian units: " + t[:300])
            else:
                g = q.segs[0] if len(q.segs) == 1 else None
                good = (g is not None and g[0] == "stm" and g[2] == cur0 and (g[3] == ln or eqv(I, s, g[3] - ln))) or (not q.segs and I.entails(s, c_eq(ln)))
                ctx.ob(good, "decoding of %s" % name, "content of kind %s is not the declared bytes: %s" % (name, show(q)))
        elif is_err(v):
            k = err_kind(P, v)
            if k is not None and k[0] == "UnknownDataType":
                none = all(not feasible(I, s, c_eq(code - c)) for c in CODES.values())
                ctx.ob(none, "known type code rejected", "a type code of a known kind is rejected as unknown", path=[str(f) for f in s.facts][:12])
                p = k[1][0] if k[1] else None
                ctx.ob(isinstance(p, Int) and (p.l == code or I.entails(s, c_eq(p.l - code))), "code in the error",
                       "the error for an unknown type code carries %s instead of the code" % show(p))
                seen.add("?")
            else:
                known = oneof(I, s, code, CODES.values())
                ctx.ob(known, "unknown type code: other error", "content under an unknown type code is not rejected with an error naming the code but: " + show(v),
                       path=[str(f) for f in s.facts][:12])
        else:
            ctx.undecided("outcome " + show(v))
    for n in list(CODES) + ["?"]:
        ctx.ob(n in seen, "never read: %s" % n, "no type code yields %s" % (n if n != "?" else "the error for unknown codes"))
    ctx.count("outcomes", len(outs))
    done(ctx, I, "decoding a value")


def run(ctx):
    check_write(ctx)
    check_read(ctx)
