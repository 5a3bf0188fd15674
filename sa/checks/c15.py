"""Named accessors and the items they use."""
from .tagm import *
from .c16 import names, kind_of

RULE = ("Every named accessor is analysed on a tag with arbitrary other items, and with or without an item with the field's "
        "documented identifier: the other items must be the same afterwards, items added or changed must have that "
        "identifier, and what is returned must not depend on another item.")
ASSUME = ["a tag starts with at most one item of a field (the first item is the one used otherwise)"]
GENRE = ["genre", "genres", "take_genre", "take_genres", "set_genre", "set_genres", "add_genre", "remove_genres"]
PAIR = {"track": ["track", "track_number", "total_tracks", "set_track", "set_track_number", "set_total_tracks", "remove_track",
                  "remove_track_number", "remove_total_tracks"],
        "disc": ["disc", "disc_number", "total_discs", "set_disc", "set_disc_number", "set_total_discs", "remove_disc",
                 "remove_disc_number", "remove_total_discs"]}


def operations(f):
    if f in PAIR:
        return PAIR[f]
    out = []
    for x in names(f):
        out += [] if x is None else [x] if isinstance(x, str) else x
    return out


def result_of(m, s, v):
    """[(state, value)] the values that a result stands for"""
    x = some(v)
    if x is not None:
        return [(s, m.deep(s, x))]
    if isinstance(v, It) or isinstance(v, Ref) and isinstance(m.I.load(s, v.obj, v.path), It):
        return m.collected(s, v)
    if isinstance(v, Agg):
        return [(s, m.deep(s, v))]
    return [(s, v)]


def foreign(m, v):
    """elements of the other items in a value"""
    return [t for t in collect_terms(v) if t.kind in ("elem", "at") and (t.args[0] in (LEFT, RIGHT) if isinstance(t.args[0], Term) else True)]


def one(ctx, item):
    f, present = item[:2]
    if f == "genre":
        gnre, gen = FIELDS["standard_genre"], FIELDS["custom_genre"]
        m = Machine(ctx, present[0], gnre, also=[(gen, present[1])])
        ops, ids = item[2:] or GENRE, [gnre, gen]
        where = "genre, items before: %s" % ([n for n, p in zip(("gnre", "\xa9gen"), present) if p] or "none")
    else:
        m = Machine(ctx, present, FIELDS[f])
        ops, ids = operations(f), [FIELDS[f]]
        where = "%s, %s" % (f, "set before" if present else "not set before")
    for op in ops:
        if m.fid(op) is None:
            ctx.violation("%s: missing" % op, "the accessor %s does not exist" % op)
            continue
        rs = m.call(m.st, op)
        if not rs:
            raise AnalysisError("no outcome of " + op)
        for s, v in rs:
            for s2, r in result_of(m, s, v):
                ctx.ob(not foreign(m, r), "%s: result" % op, "%s returns something of another item: %s (%s)" % (op, show(r, 200), where))
                kept, items = m.view(s2)
                if kept is None:
                    ctx.ob(False, "%s: items" % op, "%s changes other items: %s (%s)" % (op, show(Seq(None, m.plain(s2, m.items(s2))), 300), where))
                    continue
                ctx.ob(kept, "%s: others" % op, "%s does not keep the other items (%s)" % (op, where))
                for it in items:
                    k = it.fs[m.i_ident] if isinstance(it, Agg) else None
                    ok = k is not None and any(m.I.entails(s2, m.is_ident(s2, k, i)) for i in ids)
                    ctx.ob(ok, "%s: identifier" % op, "%s stores an item with the identifier %s (%s)" % (op, show(k, 200), where))
                if not (present if f != "genre" else any(present)) and not op.startswith(("set_", "add_")):
                    ctx.ob(not items, "%s: nothing stored" % op, "%s stores an item (%s)" % (op, where))
        ctx.count("operations")


def run(ctx):
    items = [(f, p) for f in FIELDS for p in (False, True)] + [("genre", (a, b), op) for op in GENRE for a in (False, True) for b in (False, True)]
    items.sort(key=lambda x: (x[0] != "genre" or not x[1][0], x[0] not in ("isrc", "lyricist", "artwork"), x[0] not in MULTI))
    pmap(ctx, one, items, limit=600 if ctx.thorough else 300, name=lambda x: " ".join(map(str, x)))
    ctx.count("fields", len(FIELDS) + 1)
    # no two fields share an identifier
    ctx.ob(len({str(v) for v in FIELDS.values()}) == len(FIELDS), "identifiers", "two fields have the same identifier")
