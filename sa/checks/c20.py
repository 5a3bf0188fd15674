from .common import *
from ..callgraph import CallGraph
import re

RULE = ("Over the resolved call graph of the crate (trait methods by class hierarchy): no function of the public interface other "
        "than the write and dump functions reaches a call that opens a file for writing, changes a file or the file system, or "
        "starts a process; read_from_path opens exactly the given path for reading only; write_to_path opens exactly the given "
        "path for reading and writing without creating, truncating or appending; dump_to_path creates exactly the given path; "
        "write_to opens nothing. The flags and the path of every open are tracked through the function that opens.")
WRITERS = re.compile(r"^tag::Tag::(write_to|write_to_path|dump_to|dump_to_path)$")
# file operations that change nothing
HARMLESS = re.compile(r"^std::fs::(File::(metadata|try_clone|sync_all|sync_data|options)|Metadata::.*|OpenOptions::(new|clone))$")
OPENS = re.compile(r"^std::fs::(File::(open|open_buffered|create|create_new|create_buffered)|OpenOptions::open)$")
EFFECT = re.compile(r"^(std::process|std::net|std::os::|std::env::(set|remove)|std::thread|libc::)")


def name_of(c):
    return (c.get("rpath") or c["path"]).replace("<W>", "").replace("::<>", "")


def classify(P, c):
    """what a call to a function outside the crate does to files: None, 'open', 'modify'"""
    n = name_of(c)
    self_t = P.types[c["self"]]["name"] if c.get("self") is not None else ""
    if OPENS.match(n):
        return "open"
    if n.startswith("std::fs::OpenOptions::"):
        return None
    if n.startswith("std::fs::") or re.match(r"^<(&)?std::fs::", n):
        if HARMLESS.match(n):
            return None
        if " as std::io::Read>" in n or " as std::io::Seek>" in n or "::drop" in n or "Debug>" in n or " as std::convert::" in n:
            return None
        return "modify"
    if EFFECT.match(n):
        return "modify"
    if "std::fs::File" in self_t and ("io::Write" in n or (c.get("trait") or "").endswith("io::Write")):
        return "modify"
    return None


def effects(ctx, G, root):
    """[(kind, name, function, span, path through the call graph)]"""
    P = ctx.P
    pred = G.reach(root)
    out = []
    n = 0
    for i in pred:
        for c, span in G.ext[i]:
            n += 1
            k = classify(P, c)
            if k:
                out.append((k, name_of(c), P.fns[i]["path"], span, G.path_to(pred, i)))
    ctx.count("call_sites", n)
    return out, pred


def opens(ctx, path):
    """every open on a path through the function, with flags and path operand; what it calls with a stream or file is left out"""
    fid = entry_of(ctx, path)
    if fid is None:
        return []
    P = ctx.P
    I, st, args, info = fresh_call(ctx, fid)

    def stub(f):
        return f["local"] and any(is_io(P, f["locals"][i + 1]) for i in range(f["argc"]))

    I.opts["stub"] = stub
    I.run_fn(st, fid, args)
    for n in I.notes:
        ctx.undecided("%s: %s" % (path, str(n)[:150]))
    return [e for e in I.events[0] if e[0] == "open"]


def is_io(P, ty):
    while P.types[ty]["k"] == "ref":
        ty = P.types[ty]["to"]
    n = P.types[ty]["name"]
    return "std::fs::File" in n or t_is_stream(P, ty, "Read") or t_is_stream(P, ty, "Write")


def check_open(ctx, path, want, arg):
    ev = opens(ctx, path)
    ctx.ob(len(ev) > 0, "%s opens nothing" % path, "no open was found in %s" % path)
    for e in ev:
        flags = set(e[3])
        ctx.ob(flags == want, "%s: open flags" % path, "%s opens the file at %s with %s instead of %s" % (path, e[2], sorted(flags), sorted(want)), site=e[2])
        roots = set(re.findall(r"\ba\d+\b", str(e[4])))
        ctx.ob(roots == {arg} and "lit" not in str(e[4]), "%s: path opened" % path, "%s opens %s, which is not the path it was given" % (path, str(e[4])[:150]), site=e[2])
        ctx.sample("%s opens its argument with %s at %s" % (path, sorted(flags), e[2]))


def run(ctx):
    P = ctx.P
    G = CallGraph(P)
    n = 0
    for r in P.roots:
        r = str(r)
        f = P.fns[r]
        if not f.get("exported") or f["closure"] or WRITERS.match(f["path"]):
            continue
        n += 1
        es, pred = effects(ctx, G, r)
        for k, name, fn, span, path in es:
            if k == "open" and f["path"].endswith("tag::Tag::read_from_path"):
                continue
            ctx.ob(False, "%s reaches %s" % (f["path"], name), "%s, which must not change files, reaches %s in %s (%s)" % (f["path"], name, fn, span), path=path)
        ctx.ob(True)
    ctx.count("public_functions", n)
    if n < 380:
        ctx.violation("too few public functions", "only %d public functions found (390 on the reference tree)" % n)
    check_open(ctx, "tag::Tag::read_from_path", {"read"}, "a0")
    check_open(ctx, "tag::Tag::write_to_path", {"read", "write"}, "a1")
    check_open(ctx, "tag::Tag::dump_to_path", {"write", "create", "truncate"}, "a1")
    ALLOW = re.compile(r"^(std::fs::File::set_len|<?.*io::Write.*|std::io::.*)$")
    for path, opener in (("tag::Tag::write_to", False), ("tag::Tag::write_to_path", True), ("tag::Tag::dump_to", False), ("tag::Tag::dump_to_path", True)):
        for r in ctx.anchor(path)[:1]:
            es, pred = effects(ctx, G, str(r))
            for k, name, fn, span, p in es:
                if k == "open":
                    ok = opener and P.fns[str(r)]["path"] == path and len(p) >= 1 and name.startswith("std::fs::")
                    ctx.ob(ok, "%s reaches %s" % (path, name), "%s reaches %s in %s (%s)" % (path, name, fn, span), path=p)
                else:
                    ctx.ob(bool(ALLOW.match(name)), "%s reaches %s" % (path, name), "%s reaches %s in %s (%s)" % (path, name, fn, span), path=p)
            # opens are those found by the flow analysis: none hidden in a callee that was left out
            if opener:
                deep = [e for e in es if e[0] == "open"]
                flow = opens(ctx, path)
                ctx.ob(len({e[3] for e in deep}) <= len({e[2] for e in flow}), "%s: further open" % path, "%s opens a file in a function it calls: %s" % (path, [e[1:4] for e in deep]))
