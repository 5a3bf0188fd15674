"""What the loops over atoms look for, keep and record."""
from .c10 import *

CHAIN = ((), b"moov"), ((b"moov",), b"udta"), ((b"moov", b"udta"), b"meta"), ((b"moov", b"udta", b"meta"), b"ilst")
TABLES = ((b"moov",), b"trak"), ((b"moov", b"trak"), b"mdia"), ((b"moov", b"trak", b"mdia"), b"minf"), \
    ((b"moov", b"trak", b"mdia", b"minf"), b"stbl"), ((b"moov", b"trak", b"mdia", b"minf", b"stbl"), b"stco"), \
    ((b"moov", b"trak", b"mdia", b"minf", b"stbl"), b"co64"), ((), b"mdat")


def upto_top(I, rec):
    """stops behind the loop over the top level atoms of a file"""
    return any(
        o[0] == "cur" and ("stm", o[1]) in rec.hs.mem and
        any(mentions_any(f, {be(rec.hs.mem[("stm", o[1])].key, v.l, 4)}) for b in rec.backs for f in b.facts if f not in rec.hs.facts)
        for o, v in rec.hs.mem.items() if isinstance(v, Int))


def fourcc(I, s, stm, p):
    """the name of the atom at p, when it is fixed"""
    out = []
    for i in range(4):
        t = byte(stm, p + 4 + i)
        c = next((-f[1].c * f[1].coef(t) for f in s.facts if f[0] == "eq" and len(f[1].t) == 1 and f[1].t[0][0] is t), None)
        if c is None or not 0 <= c <= 255:
            return None
        out.append(c)
    return bytes(out)


def named(I, s, stm, p, name):
    """s, with an atom of that name at p"""
    for i, c in enumerate(name):
        s = I.split(s, c_eq(L(byte(stm, p + 4 + i)) - c))[0]
        if s is None:
            return None
    return s


class Round:
    def __init__(self, s, changed):
        self.s, self.changed = s, changed


def refers(I, lp, c):
    """c runs in a round of lp"""
    phi = c.p.t[0][0]
    return any(d is not None and any(t.kind == "sym" and t.args[:2] == phi.args[:2] for t, _ in d.t) for d in lp.deltas(I))


def link(ctx, I, atoms):
    """path of names for each loop over atoms"""
    paths = {}
    if not atoms:
        return paths
    top = min(atoms, key=lambda lp: len(lp.ident[1]))
    paths[id(top)] = ()
    todo = [top]
    # contents looked at behind the loop that found the container
    exits = {fourcc(I, e, top.stm, top.p) for lab, e in top.rec.exits if isinstance(e, St) and not erroneous(I, top, lab, e)} - {None}
    roots = [c for c in atoms if c is not top and not any(refers(I, lp, c) for lp in atoms if lp is not c)]
    if len(exits) == 1 and len(roots) == 1:
        paths[id(roots[0])] = tuple(exits)
        todo.append(roots[0])
    while todo:
        lp = todo.pop()
        rounds = list(zip(lp.rec.backs, lp.deltas(I)))
        rounds += [(e, delta(I, lp.rec, e, (lp.o, ()))) for lab, e in lp.rec.exits if isinstance(e, St) and not erroneous(I, lp, lab, e)]
        for b, d in rounds:
            if d is None:
                continue
            for c in atoms:
                phi = c.p.t[0][0]
                if c is lp or id(c) in paths or not any(t.kind == "sym" and t.args[:2] == phi.args[:2] for t, _ in d.t):
                    continue
                n = fourcc(I, b, lp.stm, lp.p)
                if n is not None:
                    paths[id(c)] = paths[id(lp)] + (n,)
                    todo.append(c)
    return paths


def changes(lp, b):
    """what the round stores, except counters: [(object, new value)]"""
    out = []
    for o, v in lp.rec.hs.mem.items():
        if o[0] not in ("L", "V", "K", "C", "X"):
            continue
        w = b.mem.get(o)
        if w is not None and w != v and isinstance(w, (Agg, Seq, Sym)):
            out.append((o, v, w))
    return out


def rounds(I, lp, name):
    """(rounds that keep something for such an atom, rounds that do not, exits)"""
    kept, passed, exits = [], [], []
    for b in lp.rec.backs:
        s = named(I, b, lp.stm, lp.p, name)
        if s is None:
            continue
        ch = changes(lp, b)
        (kept if ch else passed).append((s, ch))
    for lab, e in lp.rec.exits:
        if not isinstance(e, St) or erroneous(I, lp, lab, e):
            continue
        if fourcc(I, e, lp.stm, lp.p) == name:
            exits.append(e)
    return kept, passed, exits


def options(v, path=()):
    """the places in a value that hold an optional value"""
    if isinstance(v, Agg):
        for i, x in enumerate(v.fs):
            yield from options(x, path + (i,))
    yield path, v


def presence(I, s, v):
    """is the optional value there in this state: True, False or None"""
    if isinstance(v, Agg):
        return None if v.var is None else v.var == 1
    if isinstance(v, Sym) and v.ty is not None and I.types[v.ty]["name"].startswith("std::option::Option<"):
        t = L(I.dis(v.ty, v.key))
        if I.entails(s, c_eq(t)):
            return False
        if I.entails(s, c_eq(t - 1)):
            return True
    return None


def get(v, path):
    for i in path:
        if not isinstance(v, Agg) or i >= len(v.fs):
            return None
        v = v.fs[i]
    return v


def slots(lp, kept):
    """the places written by the rounds: [(object, path)]"""
    out = []
    for s, ch in kept:
        for o, v, w in ch:
            for path, x in options(v):
                y = get(w, path)
                if y is not None and x != y and not (isinstance(x, Agg) and isinstance(y, Agg) and x.var == y.var) and (o, path) not in out:
                    out.append((o, path))
    return out


def policy(I, lp, name):
    """how repeated atoms of that name are treated in the loop: first, last, all, single (more than one is an error),
    some (depends on something else), or None (not looked for)"""
    kept, passed, exits = rounds(I, lp, name)
    if exits and not kept and not passed:
        return "first"
    if not kept:
        return "some" if exits else None
    sl = slots(lp, kept)
    if not sl:
        return None
    if all(isinstance(get(lp.rec.hs.mem[o], p), Seq) for o, p in sl):
        return "all" if not passed and not exits else "some"
    sl = [(o, p) for o, p in sl if not isinstance(get(lp.rec.hs.mem[o], p), Seq)]
    # what the slot held before the round
    before = [[presence(I, s, get(lp.rec.hs.mem[o], p)) for o, p in sl] for s, ch in kept]
    if not passed and not exits:
        return "single" if all(any(x is False for x in b) for b in before) else "last"
    after = [[presence(I, s, get(lp.rec.hs.mem[o], p)) for o, p in sl] for s, ch in passed]
    if all(any(x is False for x in b) for b in before) and all(any(x is True for x in a) for a in after) and not exits:
        return "first"
    return "some"


def bounds_in(v, outer=True):
    """positions and sizes recorded for the atom itself (not those of optional atoms within it)"""
    if isinstance(v, Agg):
        if len(v.fs) == 2 and isinstance(v.fs[0], Int) and isinstance(v.fs[1], Agg) and len(v.fs[1].fs) == 2 \
                and sorted(type(x).__name__ for x in v.fs[1].fs) == ["Bool", "Int"]:
            yield v
            return
        if v.var is not None and not outer:
            return
        for x in v.fs:
            yield from bounds_in(x, False)


def recorded(lp, s, ch):
    """the bounds recorded in a round"""
    for o, v, w in ch:
        for path, x in options(v):
            y = get(w, path)
            if y is None or x == y:
                continue
            if isinstance(x, Seq) and isinstance(y, Seq):
                for g in y.segs:
                    if g[0] == "lit" and g not in x.segs:
                        for z in g[1]:
                            yield from bounds_in(z)
            elif not (isinstance(x, Agg) and isinstance(y, Agg) and x.var == y.var):
                yield from bounds_in(y)


def exact(I, lp, s, v):
    """the bounds are those of the atom at the start of the round"""
    size = v.fs[1]
    ext = next(x for x in size.fs if not isinstance(x, Int))
    n = next(x for x in size.fs if isinstance(x, Int))
    bad = []
    if not eqv(I, s, v.fs[0].l - lp.p):
        bad.append("position %s" % str(v.fs[0])[:100])
    if not eqv(I, s, n.l - size_at(lp.stm, lp.p)):
        bad.append("length %s" % str(n)[:100])
    e = c_eq(L(be(lp.stm, lp.p, 4)) - 1)
    yes, no = I.split(s, e)
    c = ext.c
    if not ((yes is None or I.entails(yes, c)) and (no is None or I.entails(no, c_not(c)))):
        bad.append("form %s" % str(ext)[:100])
    return bad


def found(ctx, I, atoms):
    """{(path, name): (loop, policy)} of all loops; None: some loops, whose container is not known"""
    ps = link(ctx, I, atoms)
    out = {}
    names = {n for _, n in CHAIN + TABLES} | {b"hdlr"}
    for lp in atoms:
        if id(lp) not in ps:
            continue
        for n in names:
            p = policy(I, lp, n)
            if p is not None:
                out[(ps[id(lp)], n)] = (lp, p)
    if any(id(lp) not in ps for lp in atoms):
        out[None] = None
    return out


def side(ctx, path, **opts):
    """(interpreter, what is looked for) of a public function"""
    ids = ctx.anchor(path)
    if not ids:
        return None
    I, outs, info = analyse(ctx.P, ids[0], opts=dict(opts, nest=True))
    ctx.count("functions_analysed", len(I.fns_seen))
    ctx.count("call_sites", len(I.calls_seen))
    for n in I.notes:
        ctx.undecided("%s: %s" % (path, str(n)[:200]))
    atoms, _ = loops_of(ctx, I)
    if not atoms:
        ctx.undecided("%s: no loop over atoms recognised" % path)
        return None
    ctx.count("atom_loops", len(atoms))
    return I, found(ctx, I, atoms)


def located(ctx, names):
    """the bounds that writing records for atoms of these names are those in their headers"""
    w = side(ctx, WRITE_ENTRY, cut=upto_top)
    if w is None:
        return None
    check_bounds(ctx, w[0], w[1], names)
    return w


def check_bounds(ctx, I, fnd, names):
    for key, val in fnd.items():
        if key is None:
            continue
        (path, n), (lp, p) = key, val
        if n not in names:
            continue
        k = 0
        for s, ch in rounds(I, lp, n)[0]:
            for v in recorded(lp, s, ch):
                k += 1
                bad = exact(I, lp, s, v)
                ctx.ob(not bad, "%s: bounds of %s" % (lp.name, n.decode()),
                       "the %s recorded for the %s atom in %s (%s) is not the one in its header" % (", ".join(bad), n.decode(), lp.name, lp.rec.span))
        ctx.count("bounds_recorded", k)


def show_path(path, n):
    return ".".join(x.decode("latin1") for x in path + (n,))
