from .emit import *

RULE = ("The bytes emitted by Tag::dump_to, and by Tag::write_to for every combination of existing and missing atoms, are a sequence of atoms; for each of them, on every path "
        "and for every kind of identifier and value, the number in the length field equals the number of bytes emitted for the atom, summed over "
        "all items and values; the same holds for the atoms inside moov, udta, meta, ilst and the items.")


def tree_of_dump(ctx, I, outs, path):
    """[(state, atoms emitted)] for the successful outcomes of dumping"""
    res = []
    for s, v in outs:
        if not is_ok(v) or flag(s) or flag(s, "err"):
            continue
        q = s.mem.get(("out", "w"))
        if q is None:
            continue
        e = Emission(ctx, I, path)
        for t, segs in flat(I, s, q.segs):
            res.append((t, e.atoms(t, segs)))
    ctx.count("emissions", len(res))
    if not res:
        ctx.undecided("%s: no successful outcome" % path)
    return res


def tree_of_writes(ctx, c):
    """[(state, atoms emitted)] for the successful outcomes of writing in one case"""
    res = []
    em = Emission(ctx, c.I, WRITE_ENTRY)
    for e in effects(c):
        if e.data is None:
            ctx.undecided("case %s: new metadata not told from the other writes" % c.name)
            continue
        for t, segs in flat(c.I, e.s, e.data[2].segs):
            res.append((t, em.atoms(t, segs)))
    ctx.count("emissions", len(res))
    return res


def case(ctx, item):
    c = Case(ctx, item)
    tree_of_writes(ctx, c)
    c.count()


def run(ctx):
    run_entries(ctx, (DUMP_ENTRY,), tree_of_dump)
    run_cases(ctx, case)
