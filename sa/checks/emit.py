"""The bytes that dumping and writing emit, taken apart as atoms."""
from .wr import *
from ..loops import suffix

CONTAINERS = {b"moov": 0, b"udta": 0, b"ilst": 0, b"meta": 4}


def byte_len(g):
    """the number of bytes of a segment, None for one of many rounds"""
    if g[0] == "lit":
        return L(len(g[1]))
    if g[0] == "acc":
        return None
    if g[0] == "loop":
        if len(g[3]) == 1 and g[3][0][0] == TRUE and all(x[0] == "lit" for x in g[3][0][1]):
            return g[1].scale(sum(len(x[1]) for x in g[3][0][1]))
        return None
    return seq_len(Seq(None, (g,)))


class Atom:
    def __init__(self, s, name, size, head, content, path):
        self.s, self.name, self.size, self.head, self.content, self.path = s, name, size, head, content, path
        self.kids = None   # [Atom] | ("rounds", [[Atom]])


class Emission:
    def __init__(self, ctx, I, what):
        self.ctx, self.I, self.what = ctx, I, what
        self.recs = {}
        for rec in I.loopx.history:
            for (o, p), lf in rec.kinds.items():
                if lf.kind == "app":
                    self.recs[lf.uid] = (rec, o, p)
        self.memo = {}

    def rounds(self, g):
        """(number of rounds, index of a round, [(facts, segments emitted)]) of an accumulated segment; None if it is not known"""
        t = g[1]
        if not isinstance(t, Term) or t.args[1] not in self.recs:
            return None
        if t in self.memo:
            return self.memo[t]
        rec, o, p = self.recs[t.args[1]]
        tags = t.args[2] if len(t.args) > 2 else ()

        def re(x):
            for u in tags:
                x = Subst(dict(u.args[2]), u.args[0], u.args[1], u).any(x)
            return x
        X = None
        for lab, e in rec.exits:
            if not isinstance(e, St) or flag(e) or flag(e, "err"):
                continue
            for f in e.facts:
                if f[0] in ("ge", "eq") and abs(f[1].coef(rec.n)) == 1:
                    x = L(rec.n) - f[1].scale(f[1].coef(rec.n))
                    if not mentions(x, rec.n) and self.I.entails(e, c_ge(L(rec.n) - x)) and self.I.entails(e, c_ge(x - L(rec.n))):
                        X = x
                        break
            if X is not None:
                break
        out = None
        if X is not None:
            rs = []
            for b in rec.backs:
                h, v = leaf_get(rec.hs.mem[o], p), leaf_get(b.mem[o], p)
                sg = suffix(h, v)
                if sg is None:
                    return None
                rs.append((tuple(re(f) for f in b.facts if f[0] != "forall"), re(Seq(None, tuple(sg))).segs))
            out = (L(re(X)), L(re(L(rec.n))), rs)
        self.memo[t] = out
        return out

    def round_states(self, s, facts, segs):
        t = s.copy()
        for f in facts:
            t.add(f)
        if FALSE in t.facts:
            return []
        return flat(self.I, t, segs)

    def total(self, s, d, segs):
        """the segments have d bytes together: True, False, or None (not known)"""
        accs = []
        for g in segs:
            n = byte_len(g)
            if n is None:
                if g[0] != "acc":
                    return None
                accs.append(g)
            else:
                d = d - n
        if not accs:
            return eqv_or(self.I, s, d)
        if len(accs) > 1:
            return None
        r = self.rounds(accs[0])
        if r is None:
            return None
        X, n, rs = r
        point, left = L(0), d
        for t, k in d.t:
            if t.kind == "sum" and L(t.args[0]) == X:
                point = point + Subst({level_bv(t.args[1]): n}).lin(t.args[2]).scale(k)
                left = left - L(t).scale(k)
        if X.t:
            t0, k0 = X.t[0]
            c = left.coef(t0) // k0
            left = left - X.scale(c)
            point = point + c
        if not eqv(self.I, s, left):
            return False
        for facts, sg in rs:
            for t, fl in self.round_states(s, facts, sg):
                x = self.total(t, point, fl)
                if not x:
                    return x
        return True

    def take(self, s, d, segs):
        """(segments of the first d bytes, the others), or False / None"""
        segs = list(segs)
        out = []
        while segs:
            if eqv(self.I, s, d):
                return out, segs
            g = segs[0]
            n = byte_len(g)
            if n is None:
                x = self.total(s, d, [g])
                if not x:
                    # everything that is left
                    y = self.total(s, d, segs)
                    if y:
                        return out + segs, []
                    return y
                return out + [g], segs[1:]
            c = d.const()
            if g[0] == "lit" and c is not None and c < len(g[1]):
                if c < 0:
                    return False
                return out + [("lit", g[1][:c])], [("lit", g[1][c:])] + segs[1:]
            d = d - n
            out.append(g)
            segs = segs[1:]
        return (out, []) if eqv_or(self.I, s, d) else False

    def atoms(self, s, segs, path=()):
        """takes a sequence of atoms apart: [Atom or ("rounds", acc, [(state, [...])])]"""
        ctx, I = self.ctx, self.I
        segs = list(segs)
        out = []
        where = ".".join(path) or "top level"
        while segs:
            g = segs[0]
            if g[0] == "acc":
                r = self.rounds(g)
                if r is None:
                    ctx.undecided("%s: bytes emitted by a loop in %s" % (self.what, where))
                    return out
                alts = []
                for facts, sg in r[2]:
                    for t, fl in self.round_states(s, facts, sg):
                        alts.append((t, self.atoms(t, fl, path)))
                out.append(("rounds", r, alts))
                segs = segs[1:]
                continue
            bs = [x.l for x in g[1]] if g[0] == "lit" and all(isinstance(x, Int) for x in g[1]) else []
            if len(bs) < 8:
                if seq_len(Seq(None, (g,))) == ZERO:
                    segs = segs[1:]
                    continue
                ctx.ob(False, "%s: bytes outside of atoms" % where,
                       "%s emits %s in %s where an atom has to start" % (self.what, show(Seq(None, tuple(segs)), 160), where))
                return out
            size = number(I, s, bs[:4])
            nm = [b.const() for b in bs[4:8]]
            name = bytes(nm) if all(x is not None and 0 <= x < 256 for x in nm) else None
            head = 8
            if size.const() == 1 and len(bs) >= 16:
                size, head = number(I, s, bs[8:16]), 16
            label = path + (name.decode("latin1") if name else "item",)
            r = self.take(s, size, segs)
            what = ".".join(label)
            kind = self.kind(s)
            if r is None:
                ctx.undecided("%s: number of bytes of %s" % (self.what, what))
                return out
            ok = r is not False
            ctx.ob(ok, "declared size of %s%s" % (what, kind),
                   "%s: the length field of %s%s holds %s, which is not the number of bytes emitted for it" % (self.what, what, kind, show(size, 200)),
                   emitted=show(Seq(None, tuple(segs)), 600))
            if not ok:
                return out
            mine, segs = list(r[0]), list(r[1])
            body = drop_bytes(mine, head)
            a = Atom(s, name, size, bs[4:8], body, path)
            out.append(a)
            inside = CONTAINERS.get(name)
            if inside is None and path and path[-1] == "ilst":
                inside = 0
            if inside is not None and body is not None:
                a.lead = consts(body)[:inside]
                rest = drop_bytes(body, inside)
                if rest is None:
                    ctx.ob(False, "contents of %s" % what, "%s: the contents of %s do not start with %d known bytes" % (self.what, what, inside))
                    return out
                a.kids = self.atoms(s, rest, label)
            ctx.count("atoms_emitted")
        return out

    def kind(self, s):
        return ""


def named_kid(xs, name):
    return [a for a in xs if isinstance(a, Atom) and a.name == name]
