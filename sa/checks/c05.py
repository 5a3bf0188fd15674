from .wr import *

RULE = ("For every combination of existing and missing atoms around the item list, every outcome of Tag::write_to that is an "
        "error is reached either before any operation that modifies the file (write, flush of written data, change of length), "
        "or by the failure of such an operation itself.")


def case(ctx, item):
    c = Case(ctx, item)
    n = 0
    for s, v in c.outs:
        if s.phase or not is_err(v):
            continue
        n += 1
        m = s.mem.get(("mut", c.file))
        f = flag(s)
        ok = f == "mod" or m == Bool(FALSE)
        if not ok and isinstance(m, Bool):
            ok = c.I.entails(s, c_not(m.c))
        k = err_kind(c.P, v)
        ctx.ob(ok, "error %s after a change of the file" % (k[0] if k else flag(s, "err") or f),
               "with %s present, %s can fail with %s after the file has been modified, without a modifying operation having failed" % (c.name, WRITE_ENTRY, show(v, 120)),
               path=[str(x)[:160] for x in list(s.facts)[-12:]])
    if not n:
        ctx.violation("no error outcome", "no failing outcome of %s found" % WRITE_ENTRY)
    ctx.count("error_outcomes", n)
    c.count()


def run(ctx):
    run_cases(ctx, case)
