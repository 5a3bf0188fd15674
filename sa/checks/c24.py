from .common import *
import re

RULE = ("Every function of the public interface that takes no stream and no file (all accessors, setters, formatters and "
        "conversions) is analysed for arbitrary arguments; every overflow check, index, division and panic it can reach is "
        "an obligation that must follow from the conditions on the path to it.")
ASSUME = ["closures and iterators passed in by the caller do not panic",
          "all values held in memory together are smaller than 2^50 bytes"]
SKIP = re.compile(r"::(read_from|read_from_path|write_to|write_to_path|dump_to|dump_to_path)$|Debug>::fmt|std::hash::|error::")


def public_fns(ctx):
    P = ctx.P
    out = []
    for r in P.roots:
        f = P.fns[str(r)]
        if not f.get("exported") or f["closure"] or SKIP.search(f["path"]):
            continue
        if any(t_is_stream(P, f["locals"][i + 1], w) for i in range(f["argc"]) for w in ("Read", "Write") if "impl" in P.types[f["locals"][i + 1]]["name"]):
            continue
        out.append(str(r))
    return out


def one(ctx, fid):
    P = ctx.P
    f = P.fns[fid]
    I, outs, info = analyse(P, fid)
    check_panics(ctx, I, "running " + f["path"])
    ctx.count("functions_analysed")
    ctx.count("outcomes", len(outs))
    for n in I.notes:
        if not n.startswith("call of unknown") and "store at an undetermined" not in n:
            ctx.undecided("%s: %s" % (f["path"], n))
    if not I.obls[0]:
        ctx.count("functions_without_panic_sites")
    return len(I.obls[0])


def run(ctx):
    fns = public_fns(ctx)
    if len(fns) < 100:
        ctx.violation("public interface", "only %d public functions found" % len(fns))
    # slow ones first
    fns.sort(key=lambda i: (0 if re.search("genre|Display", ctx.P.fns[i]["path"]) else 1, i))
    pmap(ctx, one, fns, limit=2000 if ctx.thorough else 60, name=lambda i: ctx.P.fns[i]["path"])
    ctx.count("public_functions", len(fns))
    for i in fns[:12]:
        ctx.sample(ctx.P.fns[i]["path"])
