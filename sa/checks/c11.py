from .find import *

RULE = ("The loops over atoms of Tag::read_from and of Tag::write_to form the same chain moov, udta, meta, ilst; at each level both keep the "
        "same one (first or last) of several atoms of that name, unconditionally; both reject the same versions of meta; and the position, length and "
        "length form that writing records for each of them are those in its header.")


def versions(I, fnd, key):
    """versions other than 0 of a meta atom are rejected; None if it is not known"""
    if key not in fnd:
        return None
    lp, _ = fnd[key]
    kept, passed, exits = rounds(I, lp, key[1])
    if not kept:
        return None
    v = L(byte(lp.stm, lp.p + head_len(lp.stm, lp.p)))
    return all(I.split(s, c_ne(v))[0] is None for s, ch in kept)


WORD = {"first": "the first one", "last": "the last one", "some": "one that depends on more than its name", "all": "all of them", "single": "the only one", None: "none"}


def run(ctx):
    r, w = side(ctx, READ_ENTRY), side(ctx, WRITE_ENTRY, cut=upto_top)
    if r is None or w is None:
        return
    (RI, rf), (WI, wf) = r, w
    for path, n in CHAIN:
        a, b = rf.get((path, n), (None, None))[1], wf.get((path, n), (None, None))[1]
        if a is None and (b is None or None in rf) or b is None and None in wf:
            ctx.undecided("%s: not recognised" % show_path(path, n))
            continue
        if a is not None and b is not None and "some" in (a, b):
            ok = False
        else:
            ok = a == b
        ctx.ob(ok, "%s: different atoms" % show_path(path, n),
               "of the %s atoms in %s, %s keeps %s and %s keeps %s" % (n.decode(), ".".join(x.decode() for x in path) or "the file", READ_ENTRY, WORD[a], WRITE_ENTRY, WORD[b]))
        ctx.sample("%s: read %s, write %s" % (show_path(path, n), WORD[a], WORD[b]))
    key = CHAIN[2]
    a, b = versions(RI, rf, key), versions(WI, wf, key)
    if a is None or b is None:
        ctx.undecided("versions of the metadata atom")
    else:
        ctx.ob(a == b, "meta: different versions", "metadata atoms of unknown versions are %s by %s and %s by %s"
               % ("rejected" if a else "accepted", READ_ENTRY, "rejected" if b else "accepted", WRITE_ENTRY))
    check_bounds(ctx, WI, wf, {n for _, n in CHAIN})
