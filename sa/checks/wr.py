"""What a write does to the file: the log of its modifying operations, case by case of which atoms exist."""
from .common import *


class Bounds:
    """position, extended flag and length (with header) of an atom found in the file"""

    def __init__(self, pos, ext, ln):
        self.pos, self.ext, self.len = pos, ext, ln

    @property
    def end(self):
        return self.pos + self.len

    @property
    def content(self):
        return self.pos + 8 + ite(self.ext, Lin(8), ZERO)


def bounds_of(I, v):
    """the bounds held by a found atom"""
    if not isinstance(v, Agg) or v.ty is None:
        return None
    sh = I.bounds_shape(v.ty)
    if sh is not None:
        def at(p):
            x = v
            for i in p:
                x = x.fs[i]
            return x
        p, e, n = (at(x) for x in sh)
        return Bounds(p.l, e.c, n.l)
    if I.is_enum(v.ty):
        return None
    for x in v.fs:
        b = bounds_of(I, x)
        if b is not None:
            return b
    return None


def tree(P):
    """(type, [(path, names, type)]) of the found atom that the others are parts of"""
    I = Interp(P)
    best = None
    for fid, f in P.fns.items():
        if not f["local"] or f["closure"] or not I.locates(fid, f):
            continue
        t = P.types[f["locals"][0]]
        if not t.get("args"):
            continue
        ty = t["args"][0]
        ps = [(p, names_of(P, ty, p), u) for p, u in I.optionals(ty)]
        if any(n[-1] == "ilst" for _, n, _ in ps) and (best is None or len(ps) > len(best[1])):
            best = (ty, ps)
    return best


def names_of(P, ty, path):
    out = []
    for i in path:
        t = P.types[ty]
        if t["kind"] == "enum":
            ty = t["args"][0]
            t = P.types[ty]
        f = t["variants"][0]["fields"][i]
        out.append(f["name"])
        ty = f["ty"]
    return tuple(out)


def cases(ps):
    """all combinations of present and missing parts"""
    out = [{}]
    for p, names, _ in ps:
        nxt = []
        for c in out:
            up = [q for q in c if len(q) < len(p) and p[: len(q)] == q]
            if any(not c[q] for q in up):
                nxt.append(c)
            else:
                nxt += [dict(c, **{}) | {p: False}, dict(c) | {p: True}]
        out = nxt
    return out


class Case:
    """analysis of a write under one combination"""

    def __init__(self, ctx, item):
        shape, ty, ps = item
        self.ctx = ctx
        self.P = P = ctx.P
        self.ps = {p: n for p, n, _ in ps}
        self.shape = shape
        self.name = "+".join(n[-1] for p, n, _ in ps if shape.get(p)) or "none"
        self.ty = ty
        ids = P.by_path.get(WRITE_ENTRY)
        self.fid = pick(P, ids)
        I, st, args, info = setup_call(P, self.fid)
        self.I, self.st = I, st
        I.opts["locate"] = True
        I.opts["split"] = True
        I.opts["locate_shape"] = shape
        self.file = info["file"][1]
        self.stm = st.mem[("stm", info["file"])].key
        self.size = L(T("slen", (self.stm,), 0, (1 << 63) - 1))
        self.outs = I.run_fn(st, self.fid, args)
        self.found = {}
        for e in I.events[0]:
            if e[0] == "locate":
                self.found[root_of(e[2])] = e[2]
        self.oks = [s for s, v in self.outs if not s.phase and is_ok(v) and not flag(s) and not flag(s, "err")]

    def count(self):
        ctx, I = self.ctx, self.I
        ctx.count("functions_analysed", len(I.fns_seen))
        ctx.count("call_sites", len(I.calls_seen))
        ctx.count("outcomes", len(self.outs))
        ctx.count("loops_summarised", len(I.loopx.records))
        ctx.count("cases", 1)
        for n in I.notes:
            ctx.undecided("writing, case %s: %s" % (self.name, str(n)[:200]))
        ctx.sample("%s: %d outcomes, %d successful" % (self.name, len(self.outs), len(self.oks)))

    def log(self, s):
        return s.mem.get(("log", self.file))

    def moov(self, s):
        """the found atom that the log of s refers to, and its parts by name"""
        used = roots_in(self.log(s).segs if self.log(s) is not None else ())
        used |= roots_in(tuple(s.facts))
        by = {r.args[1]: (r, v) for r, v in self.found.items() if r is not None}
        for r in sorted(used, key=lambda r: (len(r.args), -r.args[1])):
            r0, v = by.get(r.args[1], (None, None))
            if v is not None and v.ty == self.ty:
                return v if r is r0 else Subst({r0: r}).any(v)
        return None

    def parts(self, s):
        v = self.moov(s)
        if v is None:
            return None
        out = {(): bounds_of(self.I, v)}
        for p, n in self.ps.items():
            if self.shape.get(p):
                x = v
                ok = True
                for i in p:
                    if not isinstance(x, Agg):
                        ok = False
                        break
                    if x.ty is not None and self.I.is_enum(x.ty):
                        x = x.fs[0]
                    x = x.fs[i]
                if ok and isinstance(x, Agg) and x.var == 1:
                    out[n] = bounds_of(self.I, x.fs[0])
        return out

    def region(self, parts):
        """(start, end) of what is replaced: the item list, or the end of the innermost atom around it that exists"""
        leaf = [n for n in self.ps.values() if n[-1] == "ilst"]
        if len(leaf) != 1:
            return None
        leaf = leaf[0]
        if leaf in parts:
            return parts[leaf].pos, parts[leaf].end
        for k in range(len(leaf) - 1, -1, -1):
            if leaf[:k] in parts:
                e = parts[leaf[:k]].end
                return e, e
        return None

    def enclosing(self, parts):
        leaf = [n for n in self.ps.values() if n[-1] == "ilst"][0]
        return [(leaf[:k], parts[leaf[:k]]) for k in range(len(leaf)) if leaf[:k] in parts]


def root_of(v):
    """the root a found value is made from"""
    r = roots_in(v)
    return sorted(r, key=lambda t: t.args[1])[0] if r else None


def roots_in(a, seen=None, out=None):
    """all ("found", uid) roots within a value"""
    if out is None:
        out, seen = set(), set()
    if isinstance(a, (Term, Lin, tuple, V)):
        if id(a) in seen:
            return out
        seen.add(id(a))
    if isinstance(a, Term):
        if a.kind == "root" and a.args[0] == "found":
            out.add(a)
        else:
            for x in a.args:
                roots_in(x, seen, out)
    elif isinstance(a, Lin):
        for x, _ in a.t:
            roots_in(x, seen, out)
    elif isinstance(a, tuple):
        for x in a:
            roots_in(x, seen, out)
    elif isinstance(a, V):
        for x in a.parts():
            roots_in(x, seen, out)
    return out


def flat(I, s, segs):
    """the log of s case by case: [(state, [segments without alternatives])]"""
    for i, g in enumerate(segs):
        if g[0] == "loop" and g[1] == ONE:
            out = []
            for c, body in g[3]:
                t = I.split(s, c)[0]
                if t is not None:
                    out += flat(I, t, tuple(segs[:i]) + tuple(body) + tuple(segs[i + 1 :]))
            return out
    return [(s, list(segs))]


def ops_of(segs):
    """the operations of a log without alternatives: ("w", pos, data) | ("len", n) | ("loop", segment)"""
    out = []
    for g in segs:
        if g[0] == "lit":
            for o in g[1]:
                out.append((o.var,) + tuple(o.fs))
        else:
            out.append(("loop", g))
    return out


def lits(q):
    """the bytes (Lins) of a sequence of known bytes"""
    out = []
    for g in q.segs:
        if g[0] != "lit":
            return None
        for x in g[1]:
            if not isinstance(x, Int):
                return None
            out.append(x.l)
    return out


def number(I, s, bs):
    """the value of big-endian bytes, None if they are not those of one value that fits"""
    v = join_bytes(list(bs))
    t = v.single()
    if t is not None and t.kind == "trunc":
        base, n = t.args
        if I.entails(s, c_ge(base)) and I.entails(s, c_ge(Lin((1 << n) - 1) - base)):
            return base
    return v


def is_write(o):
    return o[0] == "w"


class Effect:
    """the operations of one successful outcome (one alternative of it), each matched with its purpose"""

    def __init__(self, case, s, segs):
        self.case, self.I, self.s = case, case.I, s
        I = self.I
        self.ops = ops_of(segs)
        self.parts = case.parts(s)
        self.fields = {}   # name -> [(offset, [bytes], index)]
        self.data = self.moved = None
        self.lens = []
        self.tables = []
        self.other = []
        if self.parts is None:
            return
        self.a, self.b = case.region(self.parts)
        encl = case.enclosing(self.parts)
        for i, o in enumerate(self.ops):
            if o[0] == "len":
                self.lens.append((i, o[1].l))
                continue
            if o[0] == "loop":
                self.tables.append((i, o[1]))
                continue
            pos, data = o[1].l, o[2]
            n = seq_len(data)
            bs = lits(data)
            hit = False
            for name, b in encl:
                d = pos - b.pos
                k = d.const()
                if k is None:
                    for q in (0, 4, 8):
                        if eqv(I, s, d - q):
                            k = q
                if k is not None and 0 <= k < 16 and bs is not None and len(bs) <= 16 and k + len(bs) <= 16:
                    self.fields.setdefault(name, []).append((k, bs, i))
                    hit = True
                    break
            if hit:
                continue
            if len(data.segs) == 1 and data.segs[0][0] == "stm" and self.moved is None:
                self.moved = (i, pos, data)
                continue
            if self.data is None and eqv(I, s, pos - self.a):
                self.data = (i, pos, data, n)
                continue
            self.other.append((i, pos, data))
        # the difference in size
        self.diff = None if self.data is None else self.data[3] - (self.b - self.a)


def effects(case):
    out = []
    for s in case.oks:
        q = case.log(s)
        if q is None:
            case.ctx.undecided("case %s: the operations of a successful write are not known" % case.name)
            continue
        for t, segs in flat(case.I, s, q.segs):
            e = Effect(case, t, segs)
            if e.parts is None:
                case.ctx.undecided("case %s: the atoms found are not told from the operations" % case.name)
                continue
            out.append(e)
    return out


def run_cases(ctx, func):
    if entry_of(ctx, WRITE_ENTRY) is None:
        return
    t = tree(ctx.P)
    if t is None:
        ctx.undecided("no function that locates atoms")
        return
    ty, ps = t
    if not any(n[-1] == "ilst" for _, n, _ in ps):
        ctx.undecided("no item list among the located atoms")
        return
    items = [(c, ty, ps) for c in cases(ps)]
    pmap(ctx, func, items, limit=600, name=lambda it: "+".join(".".join(n) for p, n, _ in it[1 + 1] if it[0].get(p)) or "none")
