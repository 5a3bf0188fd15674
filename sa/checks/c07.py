from .common import *

RULE = ("On every path through Tag::read_from, read_from_path, write_to_path (write_to included), dump_to and dump_to_path on which an I/O operation failed, the result is an error of "
        "kind Io that carries the error of that operation; on every path on which text could not be decoded or a "
        "function of the crate failed, the result is an error (unknown channel configuration and sample rate excepted).")


def check_fail(ctx, I, outs, what):
    P = ctx.P
    n = 0
    for s, v in outs:
        if s.phase:
            continue
        fl, er = flag(s), flag(s, "err")
        if fl is None and er is None:
            continue
        n += 1
        if is_ok(v):
            ctx.ob(False, "%s: %s failure swallowed" % (what, fl or er),
                   "%s returns Ok on a path where %s failed" % (what, {"io": "an I/O operation", "mod": "a modifying I/O operation", "dec": "decoding text"}.get(fl or er, "a function of the crate")),
                   outcome=show(v))
            continue
        if not is_err(v):
            ctx.undecided("%s: outcome %s after a failure" % (what, show(v, 100)))
            continue
        if fl in ("io", "mod"):
            k = err_kind(P, v)
            if k is None:
                ctx.ob(False, "%s: kind of the error after an I/O failure" % what, "%s: after an I/O failure the kind of the error is not fixed: %s" % (what, show(v)))
            else:
                name, fs = k
                good = name == "Io" and len(fs) == 1 and "ioerr" in str(fs[0])
                ctx.ob(good, "%s: I/O failure reported as %s" % (what, name),
                       "%s: an I/O failure is returned as kind %s%s" % (what, name, "" if name != "Io" else " without the original error"), outcome=show(v))
        else:
            ctx.ob(True)
    ctx.count("failure_outcomes", n)
    if n == 0:
        ctx.violation(what + ": no failing outcome", "no failing outcome found for %s: failures are not reported" % what)


def entry(ctx, I, outs, path):
    check_fail(ctx, I, outs, path)
    for s, v in outs[:6]:
        ctx.sample("%s -> %s %s" % (path, show(v, 120), flag(s)))


def run(ctx):
    run_entries(ctx, (WRITE_PATH, DUMP_PATH, READ_PATH, READ_ENTRY, DUMP_ENTRY), entry)
