from .wr import *
from . import find

RULE = ("For every combination of existing and missing atoms around the item list, and every successful outcome of Tag::write_to: "
        "the log of positioned writes puts the new metadata at the start of the old item list, or at the end of the innermost "
        "existing atom around it; writes the bytes of the original file from the end of the replaced region to the end of "
        "the file to that position plus the difference in size; sets the length to the old length plus that difference; and "
        "writes nothing else but length fields of enclosing atoms and chunk offset tables; and the position and length recorded for each "
        "atom around the item list are those in its header.")
ASSUME = ["an atom found in a file lies within the file and within the atom around it"]


def case(ctx, item):
    c = Case(ctx, item)
    I = c.I
    n = 0
    for e in effects(c):
        n += 1
        s = e.s
        if not ctx.ob(e.data is not None, "case %s: new metadata not at its place" % c.name,
                      "%s: with %s present, no write starts at %s" % (WRITE_ENTRY, c.name, e.a),
                      writes=[show(p, 200) for _, p, _ in e.other]):
            continue
        if e.moved is None:
            ctx.ob(I.entails(s, c_ge(e.b - c.size)) or eqv(I, s, e.diff), "case %s: following data not moved" % c.name,
                   "with %s present, the data behind the replaced region is not written back" % c.name)
        else:
            i, pos, q = e.moved
            g = q.segs[0]
            ctx.ob(eqv(I, s, pos - e.b - e.diff), "case %s: following data moved to the wrong place" % c.name,
                   "with %s present, the data behind the replaced region is written to %s, which is not its old position plus the difference in size" % (c.name, show(pos)))
            ctx.ob(g[1] is c.stm, "case %s: following data is not the original" % c.name,
                   "with %s present, the data written behind the metadata is read after the file has been changed" % c.name)
            ctx.ob(eqv(I, s, g[2] - e.b), "case %s: wrong data moved" % c.name,
                   "with %s present, the data written behind the metadata starts at %s, not at the end of the replaced region %s" % (c.name, show(g[2]), show(e.b)))
            ctx.ob(eqv_or(I, s, g[2] + g[3] - c.size), "case %s: not all following data moved" % c.name,
                   "with %s present, the data written behind the metadata ends at %s, not at the end of the file" % (c.name, show(g[2] + g[3])))
        if not e.lens:
            ctx.ob(I.entails(s, c_ge(e.diff)), "case %s: length of the file not set" % c.name,
                   "with %s present, the file is not cut when the metadata gets smaller" % c.name)
        else:
            ctx.ob(eqv(I, s, e.lens[-1][1] - c.size - e.diff), "case %s: wrong length of the file" % c.name,
                   "with %s present, the length of the file is set to %s, not to the old length plus the difference in size" % (c.name, show(e.lens[-1][1])))
        for i, pos, q in e.other:
            ctx.ob(False, "case %s: other bytes overwritten" % c.name,
                   "with %s present, %s is written at %s, which is neither metadata, moved data nor a field to be updated" % (c.name, show(q, 120), show(pos)))
        ctx.ob(True)
    if not n:
        ctx.undecided("case %s: no successful outcome" % c.name)
    ctx.count("effects", n)
    c.count()


def run(ctx):
    find.located(ctx, {b"moov", b"udta", b"meta", b"ilst", b"hdlr"})
    run_cases(ctx, case)
