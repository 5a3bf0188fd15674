from .wr import *

RULE = ("Typestate of every buffer and of the position shared through one file, over Tag::write_to (for every combination of "
        "existing and missing atoms), Tag::write_to_path, dump_to and dump_to_path: when success is returned, every buffered writer made by the library has "
        "been flushed with the result checked since its last write; no handle is used relative to the shared position after "
        "another handle moved it; the file is not used through another handle while a buffered writer holds data.")


def check_state(ctx, I, outs, what):
    n = 0
    for s, v in outs:
        if s.phase or not is_ok(v):
            continue
        n += 1
        for o, x in s.mem.items():
            if o[0] == "dirty":
                clean = x == Bool(FALSE) or I.entails(s, c_not(x.c))
                ctx.ob(clean, "%s: success with unwritten data" % what,
                       "%s can return Ok while the buffered writer made at %s holds data that has not been passed on" % (what, o[1][-1]))
                ctx.count("buffers_at_success")
    ctx.count("success_outcomes", n)
    for e in I.events[0]:
        if e[0] == "shared":
            ctx.ob(False, "%s: %s" % (e[1], e[3]), "%s at %s: %s" % (e[1], e[2], e[3]))
    return n


def case(ctx, item):
    c = Case(ctx, item)
    if not check_state(ctx, c.I, c.outs, WRITE_ENTRY):
        ctx.undecided("case %s: no successful outcome" % c.name)
    c.count()


def entry(ctx, I, outs, path):
    if not check_state(ctx, I, outs, path):
        ctx.undecided("%s: no successful outcome" % path)


def run(ctx):
    run_cases(ctx, case)
    run_entries(ctx, (DUMP_ENTRY, DUMP_PATH, (WRITE_PATH, {"opts": {"locate": True}})), entry)
