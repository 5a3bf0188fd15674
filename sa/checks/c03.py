from .wr import *
from . import find

RULE = ("For every combination of existing and missing atoms around the item list, and every successful outcome of Tag::write_to: "
        "for each existing atom that encloses the metadata the length field it has (4 bytes at its start, or 8 bytes at offset 8 "
        "behind a 4-byte 1) is overwritten with its old length plus the difference in size of the metadata, in full; no "
        "other byte of its header and no other short field is written.")
ASSUME = ["an atom found in a file lies within the file and within the atom around it"]


def check_field(ctx, c, e, s, name, b, ext):
    I = c.I
    label = ".".join(name) or "movie atom"
    what = "%s (%d bit length)" % (label, 64 if ext else 32)
    mem = {}
    for k, bs, i in sorted(e.fields.get(name, []), key=lambda x: x[2]):
        for j, x in enumerate(bs):
            mem[k + j] = x
    lo, n = (8, 8) if ext else (0, 4)
    bs = [mem.get(lo + j) for j in range(n)]
    if any(x is None for x in bs) and eqv(I, s, e.diff):
        ctx.ob(True)
        return
    if not ctx.ob(all(x is not None for x in bs), "case %s: length of %s not updated" % (c.name, what),
                  "with %s present, the length field of %s is not overwritten (bytes written: %s)" % (c.name, what, sorted(mem))):
        return
    v = number(I, s, bs)
    want = b.len + e.diff
    ctx.ob(eqv(I, s, v - want), "case %s: length of %s" % (c.name, what),
           "with %s present, the length field of %s becomes %s, which is not its old length plus the difference in size" % (c.name, what, show(v)),
           expected=show(want, 400))
    for j, x in mem.items():
        if lo <= j < lo + n:
            continue
        if ext and j < 4:
            ctx.ob(eqv(I, s, x - (1 if j == 3 else 0)), "case %s: 32 bit length of extended %s" % (c.name, label),
                   "with %s present, byte %d of the header of %s becomes %s" % (c.name, j, what, show(x)))
        else:
            ctx.ob(eqv(I, s, x - L(be(c.stm, b.pos + j, 1))), "case %s: header of %s" % (c.name, label),
                   "with %s present, byte %d of the header of %s is overwritten" % (c.name, j, what))


def case(ctx, item):
    c = Case(ctx, item)
    I = c.I
    n = 0
    for e in effects(c):
        if e.data is None:
            ctx.undecided("case %s: the size of the new metadata is not known" % c.name)
            continue
        n += 1
        for name, b in c.enclosing(e.parts):
            for ext in (True, False):
                s = I.split(e.s, b.ext)[0 if ext else 1]
                if s is not None:
                    check_field(ctx, c, e, s, name, b, ext)
                    ctx.count("length_fields")
        for i, pos, q in e.other:
            if lits(q) is not None and len(lits(q)) <= 16:
                ctx.ob(False, "case %s: other field written" % c.name,
                       "with %s present, %d bytes are written at %s, which is not a length field of an enclosing atom" % (c.name, len(lits(q)), show(pos)))
    if not n:
        ctx.undecided("case %s: no successful outcome" % c.name)
    ctx.count("effects", n)
    c.count()


def run(ctx):
    find.located(ctx, {b"moov", b"udta", b"meta"})
    run_cases(ctx, case)
