"""Abstract values. All are immutable and compared structurally."""
from .terms import *
from .terms import T, L, _CONDS


class V:
    __slots__ = ("_h",)
    F = ()

    def parts(self):
        return tuple(getattr(self, f) for f in self.F)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + self.parts())
            return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return type(self) is type(o) and hash(self) == hash(o) and self.parts() == o.parts()

    def __ne__(self, o):
        return not self == o

    def subst(self, s):
        p = self.parts()
        q = tuple(s.any(x) for x in p)
        if q == p:
            return self
        return type(self)(*q)


class Int(V):
    __slots__ = F = ("l", "bits", "signed")

    def __init__(self, l, bits, signed=False):
        self.l = l if isinstance(l, Lin) else L(l)
        self.bits = bits
        self.signed = signed

    def __repr__(self):
        return "%s:%s%d" % (show_lin(self.l), "i" if self.signed else "u", self.bits)


class Bool(V):
    __slots__ = F = ("c",)

    def __init__(self, c):
        self.c = c

    def subst(self, s):
        return Bool(s.cond(self.c))

    def __repr__(self):
        return "B" + repr(self.c)


class Agg(V):
    """struct, tuple, closure (var None) or enum (var = index) value"""
    __slots__ = F = ("ty", "var", "fs")

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = tuple(fs)

    def subst(self, s):
        q = tuple(s.any(x) for x in self.fs)
        return self if q == self.fs else Agg(self.ty, self.var, q)

    def __repr__(self):
        return "A%s%s{%s}" % (self.ty, "" if self.var is None else "#%s" % (self.var,), ", ".join(map(repr, self.fs)))


class Sym(V):
    """an unknown value of type ty named by the term key"""
    __slots__ = F = ("ty", "key")

    def __init__(self, ty, key):
        self.ty = ty
        self.key = key

    def subst(self, s):
        k = s.any(self.key)
        if isinstance(k, Term):
            return self if k is self.key else Sym(self.ty, k)
        if isinstance(k, V):
            return k
        raise ValueError("subst of %r gives %r" % (self, k))

    def __repr__(self):
        return "S%s<%s>" % (self.ty, show_term(self.key))


class Ref(V):
    """pointer to a place: object and path; view = (offset, length) for part of a sequence"""
    __slots__ = F = ("obj", "path", "view")

    def __init__(self, obj, path=(), view=None):
        self.obj = obj
        self.path = path
        self.view = view

    def __repr__(self):
        return "&%s%s%s" % (show_any(self.obj), "".join("." + show_any(p) for p in self.path), "" if not self.view else show_any(self.view))


class Seq(V):
    """contents of a Vec, String, array, slice or output stream: concatenated segments"""
    __slots__ = F = ("ety", "segs")

    def __init__(self, ety, segs):
        self.ety = ety
        self.segs = tuple(segs)

    def subst(self, s):
        out = []
        ch = False
        for g in self.segs:
            h = subst_seg(g, s)
            if h is not g:
                ch = True
                if h[0] in ("sym", "opq") and isinstance(h[1], Sym):
                    h = (h[0], h[1].key) + h[2:]
                elif h[0] == "opq" and isinstance(h[1], Seq):
                    out.extend(h[1].segs)
                    continue
                elif h[0] == "sym" and isinstance(h[1], Seq):
                    q = h[1]
                    if len(q.segs) == 1 and q.segs[0][0] == "sym":
                        h = ("sym", q.segs[0][1], q.segs[0][2] + h[2], h[3])
                    elif h[2] == ZERO and h[3] == seq_len(q):
                        out.extend(q.segs)
                        continue
                    else:
                        h = ("opq", T("slice", (q, h[2], h[3])), h[3])
            out.append(h)
        return Seq(self.ety, norm_segs(out)) if ch else self

    def __repr__(self):
        return "Q[%s]" % " ++ ".join(show_any(g) for g in self.segs)


def subst_seg(g, s):
    k = g[0]
    if k in ("gen", "loop"):
        # bound variable g[2] is a term with its own uid, never renamed
        h = (k, s.lin(g[1]), g[2]) + tuple(s.any(x) for x in g[3:])
    else:
        h = (k,) + tuple(s.any(x) for x in g[1:])
    return g if h == g else h


class Fn(V):
    __slots__ = F = ("c",)

    def __init__(self, c):
        self.c = c

    def parts(self):
        return ()

    def __hash__(self):
        return hash(str(self.c.get("rraw") or self.c["raw"]))

    def __eq__(self, o):
        return isinstance(o, Fn) and self.c == o.c

    def subst(self, s):
        return self

    def __repr__(self):
        return "fn " + (self.c.get("rpath") or self.c["path"])


class Opq(V):
    """a value about which nothing is known nor needed"""
    __slots__ = F = ("ty", "why")

    def __init__(self, ty, why=""):
        self.ty = ty
        self.why = why

    def __repr__(self):
        return "?%s" % (self.why,)


class It(V):
    """an iterator: kind and operands"""
    __slots__ = F = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def parts(self):
        return (self.k, self.a)

    def subst(self, s):
        q = tuple(s.any(x) for x in self.a)
        return self if q == self.a else It(self.k, *q)

    def __repr__(self):
        return "It:%s(%s)" % (self.k, ", ".join(map(repr, self.a)))


class Hdl(V):
    """a stream object (file, buffered reader or writer, generic reader or writer)"""
    __slots__ = F = ("hid",)

    def __init__(self, hid):
        self.hid = hid

    def subst(self, s):
        return self

    def __repr__(self):
        return "Hdl(%s)" % (self.hid,)


UNINIT = Opq(None, "uninit")
UNIT = None  # set by the interpreter


# ---------------------------------------------------------------- sequences
# assumption: no value held in memory is larger than the address space of a process
MAXLEN = (1 << 47) - 1


def seg_len(g):
    k = g[0]
    if k == "lit":
        return Lin(len(g[1]))
    if k == "sym":
        return g[3]
    if k == "rep":
        return g[2]
    if k == "stm":
        return g[3]
    if k == "gen":
        return g[1]
    if k == "loop":
        return loop_len(g)
    if k == "u16":
        return g[3]
    if k in ("opq", "acc"):
        return g[2]
    raise ValueError(g)


def loop_len(g):
    _, n, bv, parts = g
    v = ZERO
    for c, segs in reversed(parts):
        l = ZERO
        for x in segs:
            l = l + seg_len(x)
        v = l if (c == parts[-1][0] and segs is parts[-1][1]) else ite(c, l, v)
    return lsum(n, bv, v)


def seq_len(q):
    r = ZERO
    for g in q.segs:
        r = r + seg_len(g)
    return r


def norm_segs(segs):
    out = []
    for g in segs:
        if g[0] == "lit" and not g[1]:
            continue
        n = seg_len(g)
        if not n.t and n.c == 0:
            continue
        if g[0] == "loop" and g[1] == ONE and any(c in (TRUE, FALSE) for c, _ in g[3]):
            # a decided alternative
            parts = tuple((c, x) for c, x in g[3] if c != FALSE)
            if parts and parts[0][0] == TRUE:
                rest = norm_segs(tuple(out) + tuple(parts[0][1]))
                out = list(rest)
                continue
            if parts:
                g = (g[0], g[1], g[2], parts)
        if g[0] == "rep" and not g[2].t and g[2].c <= 64:
            g = ("lit", (g[1],) * g[2].c)
        if g[0] == "gen" and not g[1].t and g[1].c <= 64:
            g = ("lit", tuple(Subst({g[2]: Lin(i)}).any(g[3]) for i in range(g[1].c)))
        if out:
            p = out[-1]
            if p[0] == "lit" and g[0] == "lit":
                out[-1] = ("lit", p[1] + g[1])
                continue
            if p[0] == "sym" and g[0] == "sym" and p[1] is g[1] and p[2] + p[3] == g[2]:
                out[-1] = ("sym", p[1], p[2], p[3] + g[3])
                continue
            if p[0] == "stm" and g[0] == "stm" and p[1] is g[1] and p[2] + p[3] == g[2]:
                out[-1] = ("stm", p[1], p[2], p[3] + g[3])
                continue
        out.append(g)
    return tuple(out)


def alt(c, a, b):
    """the segments a if c holds, b otherwise"""
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    pre, post = a[:i], a[len(a) - j :]
    x, y = a[i : len(a) - j], b[i : len(b) - j]
    return norm_segs(pre + (("loop", ONE, bvar(), ((c, x), (c_not(c), y))),) + post)


def seq(ety, segs):
    return Seq(ety, norm_segs(segs))


def cat(a, b):
    return Seq(a.ety, norm_segs(a.segs + b.segs))


def lit(ety, vals):
    return Seq(ety, (("lit", tuple(vals)),) if vals else ())
