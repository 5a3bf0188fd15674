from .common import *
from .c09 import delta, leaf_of
from ..program import succs

RULE = ("In every loop over atoms reachable from Tag::read_from and Tag::write_to each round that ends without an error leaves the stream exactly "
        "the size declared by the header behind that header (32 or 64 bit), a counter grows by the same size, the loop starts right behind the header of its "
        "container (4 bytes later in meta, 8 in stsd) and is left only at the end of the container or with an error; the loop over the top level "
        "atoms starts behind the first atom; every loop over descriptors advances by the tag, the 1 to 4 length bytes and the length they spell.")

BEHIND = {b"meta": 4, b"stsd": 8}


def byte(stm, pos):
    return be(stm, pos, 1)


def head_len(stm, p):
    return ite(c_eq(L(be(stm, p, 4)) - 1), L(16), L(8))


def size_at(stm, p):
    return ite(c_eq(L(be(stm, p, 4)) - 1), L(be(stm, p + 8, 8)), L(be(stm, p, 4)))


def mentions_any(c, ts):
    return bool(set(collect_terms(c)) & ts)


def is_err_local(I, v):
    if not isinstance(v, Agg) or v.ty is None:
        return False
    n = I.types[v.ty]["name"]
    return ("Result<" in n or "ControlFlow<" in n) and v.var is not None and \
        I.types[v.ty]["variants"][v.var]["name"] in ("Err", "Break")


def erroneous(I, lp, lab, e):
    """the loop is left in this state because of an error"""
    if flag(e) or flag(e, "err"):
        return True
    for o, v in e.mem.items():
        if o[0] == "L" and lp.rec.hs.mem.get(o) != v and is_err_local(I, v):
            return True
    return isinstance(lab, int) and returns_error(I, lp, lab)


def result_stmt(I, s):
    """True: stores an error in the result of the function, False: stores something else there"""
    if s[0] != "=" or s[1][0] != 0 or s[1][1]:
        return None
    rv = s[2]
    if rv[0] == "agg" and rv[1][0] == "adt":
        t = I.types[rv[1][1]]
        return "Result<" in t["name"] and t["variants"][rv[1][2]]["name"] == "Err"
    return False


def result_call(I, t):
    if t[0] != "call" or t[3][0] != 0 or t[3][1]:
        return None
    return "from_residual" in str(t[1])


def returns_error(I, lp, lab):
    """every way from this block to the end of the function leaves an error in the result"""
    f = I.P.fns.get(lp.ident[1][-1])
    if f is None:
        f = I.P.fns.get(str(lp.ident[1][-1]))
    if f is None:
        return True
    seen, todo, made = set(), [lab], False
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        blk = f["blocks"][x]
        for s in blk["s"]:
            r = result_stmt(I, s)
            if r is False:
                return False
            made = made or r
        t = blk["t"]
        todo += succs(t)
        r = result_call(I, t)
        if r is False:
            return False
        made = made or r
    return made


class Loop:
    def __init__(self, ident, rec, o):
        self.ident, self.rec, self.o = ident, rec, o
        self.p = rec.hs.mem[o].l
        self.stm = rec.hs.mem[("stm", o[1])].key
        n = ident[0][0]
        self.name = n if isinstance(n, str) else str(n)
        self.kids = []

    def deltas(self, I):
        return [delta(I, self.rec, b, (self.o, ())) for b in self.rec.backs]


def loops_of(ctx, I):
    """(loops over atoms, loops over descriptors)"""
    atoms, descs = [], []
    for ident, rec in I.loopx.records.items():
        if rec.hs is None or not rec.backs:
            continue
        for o in rec.hs.mem:
            if o[0] != "cur" or ("stm", o[1]) not in rec.hs.mem:
                continue
            lp = Loop(ident, rec, o)
            if len(lp.p.t) != 1 or lp.p.c or lp.p.t[0][0].args[0] != "phi":
                continue  # not carried from round to round
            ds = lp.deltas(I)
            if all(d is not None and d.const() is not None for d in ds):
                continue
            be4 = {be(lp.stm, lp.p, 4)}
            desc = {byte(lp.stm, lp.p + 1)}

            def speaks(ts):
                return any(d is not None and mentions_any(c_ge(d), ts) for d in ds) or \
                    any(mentions_any(f, ts) for b in rec.backs for f in b.facts if f not in rec.hs.facts)
            if speaks(be4):
                atoms.append(lp)
            elif speaks(desc):
                descs.append(lp)
            else:
                ctx.count("other_stream_loops")
    return atoms, descs


def is_name(I, s, stm, p, name):
    return all(I.entails(s, c_eq(L(byte(stm, p + 4 + i)) - c)) for i, c in enumerate(name))


def check_atoms(ctx, I, atoms, what):
    for lp in atoms:
        rec, p, stm = lp.rec, lp.p, lp.stm
        l = size_at(stm, p)
        ds = lp.deltas(I)
        good = True
        for b, d in zip(rec.backs, ds):
            ok = d is not None and eqv(I, b, d - l)
            good = good and ok
            ctx.ob(ok, "%s: next atom not at the end of the previous one" % lp.name,
                   "a round of the loop in %s (%s) leaves the stream %s bytes behind the start of the atom instead of the declared size"
                   % (lp.name, rec.span, str(d)[:200]), path=[str(f)[:160] for f in b.facts if f not in rec.hs.facts][:20])
        if good:
            ctx.sample("%s %s: %d kinds of round, each advances by the declared size" % (lp.name, rec.span, len(ds)))
        # counted
        others = [k for k in rec.kinds if k[0][0] != "cur" and isinstance(leaf_of(rec.hs, k), Int)]
        cnt = not others
        for k in others:
            for sg in (1, -1):
                dk = [delta(I, rec, b, k) for b in rec.backs]
                if all(d is not None and eqv(I, b, d.scale(sg) - l) for b, d in zip(rec.backs, dk)):
                    cnt = True
        if good:
            ctx.ob(cnt, "%s: size not counted" % lp.name,
                   "no counter of the loop in %s (%s) grows by the declared size of each atom" % (lp.name, rec.span))
    top = min(atoms, key=lambda lp: len(lp.ident[1]))
    # starts
    for lp in atoms:
        for b, d in zip(lp.rec.backs, lp.deltas(I)):
            if d is None:
                continue
            for c in atoms:
                phi = c.p.t[0][0]
                inst = [t for t, _ in d.t if t.kind == "sym" and t.args[:2] == phi.args[:2]]
                if c is lp or not inst:
                    continue
                ctx.count("containers")
                lp.kids.append(c)
                k = next((v for n, v in BEHIND.items() if is_name(I, b, lp.stm, lp.p, n)), 0)
                p0 = c.rec.st0.mem[c.o].l
                for t in inst[0].args[2] if len(inst[0].args) > 2 else ():
                    # the summary of the callee is used here: what it was entered with
                    p0 = L(Subst(dict(t.args[2]), t.args[0], t.args[1], t).lin(p0))
                ok = eqv(I, b, p0 - lp.p - head_len(lp.stm, lp.p) - k)
                ctx.ob(ok, "%s: first atom not at the start of the contents" % c.name,
                       "the loop in %s (%s) starts at %s, which is not %d bytes behind the header of its container"
                       % (c.name, c.rec.span, str(p0)[:200], k))
    for lp in atoms:
        if lp is top:
            continue
        for lab, e in lp.rec.exits:
            if not isinstance(e, St) or erroneous(I, lp, lab, e):
                continue
            ok = any(f[0] in ("ge", "eq") and f not in lp.rec.hs.facts and all(c_not(f) in b.facts or I.entails(b, c_not(f)) for b in lp.rec.backs)
                     for f in e.facts)
            ctx.ob(ok, "%s: contents left early" % lp.name,
                   "the loop in %s (%s) can end without an error before the end of the container" % (lp.name, lp.rec.span),
                   path=[str(f)[:160] for f in e.facts if f not in lp.rec.hs.facts][:20])
    # top level
    p0 = top.rec.st0.mem[top.o].l
    starts = [L(t) for t, k in p0.t if k == 1] + [L(0)]
    ok = any(eqv(I, top.rec.st0, p0 - a - size_at(top.stm, a)) for a in starts)
    ctx.ob(ok, "%s: second atom not at the end of the first" % top.name,
           "the loop over the top level atoms in %s (%s) starts at %s, not at the end of the first atom" % (top.name, top.rec.span, str(p0)[:200]))


def check_descs(ctx, I, descs, what):
    for lp in descs:
        p, stm = lp.p, lp.stm
        bs = [byte(stm, p + 1 + i) for i in range(4)]
        more = [L(bits(x, 7, 1)) for x in bs]
        low = [L(bits(x, 0, 7)) for x in bs]
        for b, d in zip(lp.rec.backs, lp.deltas(I)):
            good = d is not None
            for n in range(1, 5):
                if not good:
                    break
                s = b
                for i in range(min(n, 3)):
                    s = I.split(s, c_eq(more[i]) if i == n - 1 else c_eq(more[i] - 1))[0]
                    if s is None:
                        break
                if s is None:
                    continue
                v = sum((low[i].scale(128 ** (n - 1 - i)) for i in range(n)), L(0))
                good = eqv(I, s, d - v - 1 - n)
            ctx.ob(good, "%s: next descriptor not at the end of the previous one" % lp.name,
                   "a round of the loop in %s (%s) leaves the stream %s bytes behind the start of the descriptor" % (lp.name, lp.rec.span, str(d)[:300]))
        others = [k for k in lp.rec.kinds if k[0][0] != "cur" and isinstance(leaf_of(lp.rec.hs, k), Int)]
        cnt = not others
        for k in others:
            for sg in (1, -1):
                if all(x is not None and d is not None and eqv(I, b, x.scale(sg) - d) for b, d, x in
                       zip(lp.rec.backs, lp.deltas(I), [delta(I, lp.rec, b, k) for b in lp.rec.backs])):
                    cnt = True
        ctx.ob(cnt, "%s: size not counted" % lp.name,
               "no counter of the loop in %s (%s) grows by the size of each descriptor" % (lp.name, lp.rec.span))


def entry(ctx, I, outs, path):
    atoms, descs = loops_of(ctx, I)
    ctx.count("atom_loops", len(atoms))
    ctx.count("descriptor_loops", len(descs))
    if not atoms:
        ctx.undecided("%s: no loop over atoms recognised" % path)
        return
    check_atoms(ctx, I, atoms, path)
    check_descs(ctx, I, descs, path)


def run(ctx):
    run_entries(ctx, ((WRITE_ENTRY, {"opts": {"nest": True}}), (READ_ENTRY, {"opts": {"nest": True}})), entry)
