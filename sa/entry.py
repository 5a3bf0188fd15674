"""Abstract entry states for the analysed functions."""
from .interp import *
from . import models


def pick(P, ids):
    roots = set(map(str, P.roots))
    return sorted(ids, key=lambda i: (i not in roots, i))[0]


def setup_call(P, fid, writer="w", reader="r"):
    """interpreter, state and arguments for an analysis of `fid` for all inputs: readers and writers become
    abstract streams, files abstract files, everything else unconstrained values"""
    f = P.fns[fid]
    I = Interp(P)
    st = St()
    args = []
    info = {}
    for i in range(f["argc"]):
        ty = f["locals"][i + 1]
        t = P.types[ty]
        n = t["name"]
        byref = t["k"] == "ref"
        bare = n.lstrip("&").replace("mut ", "")
        key = T("root", ("a%d" % i, 0))
        if bare in ("std::fs::File",):
            h = I.models.new_file(st, "f")
            info["file"] = h
        elif t_is_stream(P, ty, "Read"):
            I.models.new_reader(st, reader)
            h = reader
            info["reader"] = h
        elif t_is_stream(P, ty, "Write"):
            I.models.new_writer(st, writer)
            h = writer
            info["writer"] = h
        else:
            args.append(I.mkval(ty, key))
            continue
        if byref:
            o = ("V", fresh_uid())
            st.mem[o] = Hdl(h)
            args.append(Ref(o))
        else:
            args.append(Hdl(h))
    return I, st, args, info


def t_is_stream(P, ty, what):
    t = P.types[ty]
    while t["k"] == "ref":
        t = P.types[t["to"]]
    if t["k"] != "param" and t["k"] != "alias":
        return False
    n = t["name"]
    if what == "Write":
        return "Write" in n or n == "W"
    return "Read" in n or n == "R"


def analyse(P, fid, **kw):
    opts = kw.pop("opts", {})
    I, st, args, info = setup_call(P, fid, **kw)
    I.opts.update(opts)
    outs = I.run_fn(st, fid, args)
    return I, outs, info


def the(I, st, a):
    """the value behind a reference argument"""
    while isinstance(a, Ref):
        a = I.load(st, a.obj, a.path)
    return a


def assume_variant(I, st, a, name):
    """restricts the entry state to one variant (by name) of an enum argument"""
    x = the(I, st, a)
    if isinstance(x, Agg):
        return I.types[x.ty]["variants"][x.var]["name"] == name
    i = I.variant_named(x.ty, name)
    st.add(c_eq(L(I.dis(x.ty, x.key)) - I.discr_of(x.ty, i)))
    return True


def variant_names(P, ty):
    while P.types[ty]["k"] == "ref":
        ty = P.types[ty]["to"]
    return [v["name"] for v in P.types[ty]["variants"]]
