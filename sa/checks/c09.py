from .common import *
from .. import prover

RULE = ("Every loop over a stream reachable from Tag::read_from and from Tag::write_to_path (write_to included) moves the stream forward and counts at least the bytes "
        "of a header (8 for atoms, 2 for descriptors) in each round, on every path back to its header; every "
        "allocation sized at run time is bounded by what the stream was found to hold.")


def delta(I, rec, b, key):
    obj, path = key
    a = rec.hs.mem.get(obj)
    c = b.mem.get(obj)
    try:
        a = leaf_get(a, path)
        c = leaf_get(c, path)
    except Exception:
        return None
    if isinstance(a, Int) and isinstance(c, Int):
        return c.l - a.l
    return None


def check_loops(ctx, I, what):
    n = 0
    for ident, rec in I.loopx.records.items():
        if rec.hs is None or not rec.backs:
            continue
        curs = [o for o in rec.hs.mem if o[0] == "cur"]
        moved = [o for o in curs if any(b.mem.get(o) != rec.hs.mem.get(o) for b in rec.backs)]
        if not moved:
            continue
        n += 1
        name = str(ident[0][0])
        if not isinstance(ident[0][1], int):
            name = str(ident[1][-1])
            name = ctx.P.fns[name]["path"] if name in ctx.P.fns else str(ident[0])
        if any(iterates(rec, k) for k in rec.kinds):
            # one round for each element of something already in memory
            ctx.count("loops_over_memory")
            continue
        for o in moved:
            step = None
            for k in (8, 2, 1):
                if all(I.entails(b, c_ge(delta(I, rec, b, (o, ())) - k)) for b in rec.backs if delta(I, rec, b, (o, ())) is not None):
                    step = k
                    break
            ctx.ob(step is not None, "%s: stream position may not advance" % name,
                   "a round of the loop in %s (%s) can leave the stream position where it was or move it back" % (name, rec.span))
            if step is None:
                continue
            # a counter that covers the header
            others = [k for k in rec.kinds if k[0][0] != "cur" and isinstance(leaf_of(rec.hs, k), Int)]
            ok = False
            why = []
            for k in others:
                ds = [delta(I, rec, b, k) for b in rec.backs]
                if any(d is None for d in ds):
                    continue
                if all(d.const() == 1 for d in ds) and (iterating(rec, k) or counted(I, rec, k)):
                    ok = True
                elif all(I.entails(b, c_ge(d - step)) for b, d in zip(rec.backs, ds)):
                    ok = True
                elif all(I.entails(b, c_ge(-d - step)) for b, d in zip(rec.backs, ds)):
                    ok = True
                else:
                    why.append(str(k))
            its = [k for k in rec.kinds if isinstance(leaf_of(rec.hs, k), It)]
            if not others and not its:
                ok = True  # driven by the stream position alone
            ctx.ob(ok, "%s: progress not counted" % name,
                   "a round of the loop in %s (%s) reads a header of at least %d bytes without counting at least that toward the enclosing size" % (name, rec.span, step))
            ctx.sample("%s %s: advances by at least %d" % (name, rec.span, step))
    ctx.count("stream_loops", n)
    return n


def leaf_of(st, key):
    try:
        return leaf_get(st.mem.get(key[0]), key[1])
    except Exception:
        return None


def iterates(rec, k):
    """k is the position of an iterator over a sequence in memory, and advances in every round"""
    o, path = k
    v = rec.hs.mem.get(o)
    for i in range(len(path) + 1):
        try:
            x = leaf_get(v, path[:i])
        except Exception:
            return False
        if isinstance(x, It) and x.k == "seq":
            for b in rec.backs:
                try:
                    y = leaf_get(b.mem.get(o), path[:i])
                except Exception:
                    return False
                if not isinstance(y, It) or y.k != "seq" or not rec_entails(rec, b, y.a[1].l - x.a[1].l - 1):
                    return False
            return True
    return False


def counted(I, rec, k):
    """k is the start of a range of numbers"""
    o, path = k
    try:
        v = leaf_get(rec.hs.mem.get(o), path[:-1])
    except Exception:
        return False
    return bool(path) and isinstance(v, Agg) and v.ty is not None and "ops::Range" in I.types[v.ty]["name"]


def rec_entails(rec, b, l):
    return prover.entails(b.facts, c_ge(l))


def iterating(rec, k):
    o, path = k
    v = rec.hs.mem.get(o)
    for i in range(len(path)):
        try:
            x = leaf_get(v, path[:i])
        except Exception:
            return False
        if isinstance(x, It):
            return True
    return isinstance(v, It)


def check_allocs(ctx, I, what):
    n = 0
    for e in I.events[0]:
        if e[0] == "alloc":
            n += 1
            ctx.ob(e[4], "unbounded allocation in %s" % e[1], "%s at %s reserves memory for %s elements, which is not bounded by the data present" % (e[1], e[2], str(e[3])[:200]))
    ctx.count("allocations", n)


def entry(ctx, I, outs, path):
    if check_loops(ctx, I, path) == 0:
        ctx.violation("no parsing loop", "no loop over the stream found in " + path)
    check_allocs(ctx, I, path)


def run(ctx):
    run_entries(ctx, (WRITE_PATH, READ_ENTRY), entry)
