"""The tag as an abstract machine: operations are analysed one after the other on the same abstract tag, which
holds arbitrary items besides at most one item with the identifier in question."""
import re

from .common import *
from ..entry import pick, t_is_stream
from .c23 import find_type

FIELDS = {
    # single texts
    "album": b"\xa9alb", "copyright": b"cprt", "encoder": b"\xa9too", "lyrics": b"\xa9lyr", "movement": b"\xa9mvn",
    "title": b"\xa9nam", "tv_episode_name": b"tven", "tv_network_name": b"tvnn", "tv_show_name": b"tvsh",
    "work": b"\xa9wrk", "year": b"\xa9day", "isrc": ("com.apple.iTunes", "ISRC"),
    # many texts
    "album_artist": b"aART", "artist": b"\xa9ART", "category": b"catg", "comment": b"\xa9cmt", "composer": b"\xa9wrt",
    "custom_genre": b"\xa9gen", "description": b"desc", "grouping": b"\xa9grp", "keyword": b"keyw",
    "lyricist": ("com.apple.iTunes", "LYRICIST"),
    # flags
    "compilation": b"cpil", "gapless_playback": b"pgap", "show_movement": b"shwm",
    # numbers
    "bpm": b"tmpo", "movement_count": b"\xa9mvc", "movement_index": b"\xa9mvi", "tv_episode": b"tves", "tv_season": b"tvsn",
    # others
    "artwork": b"covr", "media_type": b"stik", "advisory_rating": b"rtng", "standard_genre": b"gnre",
    "track": b"trkn", "disc": b"disk",
}
SINGLE = ("album", "copyright", "encoder", "lyrics", "movement", "title", "tv_episode_name", "tv_network_name", "tv_show_name", "work", "year", "isrc")
MULTI = ("album_artist", "artist", "category", "comment", "composer", "custom_genre", "description", "grouping", "keyword", "lyricist")
FLAGS = ("compilation", "gapless_playback", "show_movement")
NUMBERS = ("bpm", "movement_count", "movement_index", "tv_episode", "tv_season")
ITEM_KEY, LEFT, RIGHT = (T("root", (n, 0)) for n in ("values", "left", "right"))


def plural(n):
    return n[:-1] + "ies" if n.endswith("y") else n + "s"


def methods(P):
    """name -> function ids of the methods of the tag"""
    out = {}
    for path, ids in P.by_path.items():
        m = re.match(r"^(?:.*<impl )?tag::Tag>?::(\w+)$", path)
        if m:
            out.setdefault(m.group(1), []).extend(ids)
    return out


class Machine:
    """one abstract tag"""

    def __init__(self, ctx, present, ident, values=None, also=()):
        self.ctx, self.P = ctx, ctx.P
        P = ctx.P
        self.I = I = Interp(P)
        self.st = st = St()
        self.present = present
        self.t_tag = find_type(P, "tag::Tag")
        self.t_item = find_type(P, "atom::AtomData")
        self.t_ident = find_type(P, "atom::ident::DataIdent")
        self.t_data = find_type(P, "atom::data::Data")
        if None in (self.t_tag, self.t_item, self.t_ident, self.t_data):
            raise AnalysisError("types of the tag")
        fs = P.types[self.t_item]["variants"][0]["fields"]
        self.i_ident = next(i for i, f in enumerate(fs) if f["ty"] == self.t_ident)
        self.i_data = 1 - self.i_ident
        self.t_list = fs[self.i_data]["ty"]
        tf = P.types[self.t_tag]["variants"][0]["fields"]
        self.i_atoms = next((i for i, f in enumerate(tf) if self.is_items(f["ty"])), None)
        if self.i_atoms is None:
            raise AnalysisError("list of items of the tag")
        self.t_atoms = tf[self.i_atoms]["ty"]
        vs = P.types[self.t_ident]["variants"]
        self.v_four = I.variant_named(self.t_ident, "Fourcc")
        self.v_free = I.variant_named(self.t_ident, "Freeform")
        self.t_four = vs[self.v_four]["fields"][0]["ty"]
        self.ident = ident
        self.left = I.mkseq(self.t_item, LEFT)
        self.right = I.mkseq(self.t_item, RIGHT)
        self.values = values
        segs = self.left.segs
        if present:
            if values is None:
                self.values = I.mkseq(self.t_data, ITEM_KEY)
                st.add(c_ge(seq_len(self.values) - 1))
            item = [None, None]
            item[self.i_ident] = self.ident_value(ident)
            item[self.i_data] = self.values
            segs = segs + lit(self.t_item, [Agg(self.t_item, None, tuple(item))]).segs
        # further items, with other identifiers
        self.idents = [ident] + [k for k, _ in also]
        self.present = present = present or any(p for _, p in also)
        self.more = {}
        for n, (k, p) in enumerate(also):
            if p:
                q = I.mkseq(self.t_data, T("root", ("values%d" % (n + 2), 0)))
                st.add(c_ge(seq_len(q) - 1))
                self.more[k] = q
                item = [None, None]
                item[self.i_ident] = self.ident_value(k)
                item[self.i_data] = q
                segs = segs + lit(self.t_item, [Agg(self.t_item, None, tuple(item))]).segs
        if present:
            segs = segs + self.right.segs
        self.others(st, LEFT, self.left)
        if present:
            self.others(st, RIGHT, self.right)
        tag = I.mkval(self.t_tag, T("root", ("tag", 0)))
        self.o = ("V", fresh_uid())
        st.mem[self.o] = Agg(tag.ty, tag.var, tag.fs[:self.i_atoms] + (Seq(self.t_item, segs),) + tag.fs[self.i_atoms + 1:])
        self.methods = methods(P)
        self.parts = {LEFT: seq_len(self.left), RIGHT: seq_len(self.right)}

    def is_items(self, ty):
        t = self.P.types[ty]
        return t["k"] == "adt" and self.t_item in [a for a in t.get("args", ()) if isinstance(a, int)]

    # identifiers
    def ident_value(self, k):
        I = self.I
        if isinstance(k, bytes):
            return Agg(self.t_ident, self.v_four, (self.four(k),))
        if isinstance(k, tuple):
            return Agg(self.t_ident, self.v_free, tuple(self.text(x) for x in k))
        return k

    def four(self, k):
        return Agg(self.t_four, None, (lit(self.I.u8(), [Int(L(b), 8, False) for b in k]),))

    def text(self, s):
        return lit(self.I.u8(), [Int(L(b), 8, False) for b in s.encode()])

    def is_ident(self, st, v, k):
        """condition: the identifier v is k"""
        I = self.I
        if isinstance(v, Agg):
            if isinstance(k, bytes):
                if v.var != self.v_four:
                    return FALSE
                w = self.four(k)
                return c_and([I.val_eq(st, x, y) for x, y in zip(v.fs, (w,))])
            if v.var != self.v_free:
                return FALSE
            return c_and([I.seq_eq(st, x, self.text(y)) for x, y in zip(v.fs, k)])
        d = L(I.dis(self.t_ident, v.key))
        vs = self.P.types[self.t_ident]["variants"]
        i = self.v_four if isinstance(k, bytes) else self.v_free
        fs = [I.mkval(f["ty"], T("fld", (v.key, i, n))) for n, f in enumerate(vs[i]["fields"])]
        c = c_eq(d - I.discr_of(self.t_ident, i))
        if isinstance(k, bytes):
            bs = self.bytes_of(fs[0])
            return c_and([c] + [c_eq(x.l - b) for x, b in zip(bs, k)])
        return c_and([c] + [I.seq_eq(st, x, self.text(y)) for x, y in zip(fs, k)])

    @staticmethod
    def bytes_of(v):
        while isinstance(v, Agg):
            v = v.fs[0]
        return v.segs[0][1]

    def others(self, st, key, q):
        """all items of q have another identifier and at least one value"""
        I = self.I
        bv = bvar()
        e = T("elem", (key, L(bv)))
        v = I.mkval(self.t_ident, T("fld", (e, 0, self.i_ident)))
        n = L(T("len", (T("fld", (e, 0, self.i_data)),), 0, MAXLEN))
        c = c_and([c_not(self.is_ident(st, v, k)) for k in self.idents] + [c_ge(n - 1)])
        st.facts[("forall", bv, seq_len(q), ((key, L(0)),), c)] = None

    # calls
    def fid(self, name):
        ids = self.methods.get(name)
        return pick(self.P, ids) if ids else None

    def argval(self, ty, key):
        return self.I.mkval(ty, key)

    def dis(self, v):
        """the variant of a value, as a number"""
        I = self.I
        if isinstance(v, Agg):
            return L(I.discr_of(v.ty, v.var))
        return L(I.dis(v.ty, v.key)) if v.key.kind != "enumv" else L(v.key.args[0])

    def call(self, st, name, args=(), fid=None, prefix="a"):
        """[(state, result)] of a call of the method on the tag; arguments not given are arbitrary"""
        fid = fid if fid is not None else self.fid(name)
        f = self.P.fns[fid]
        t0 = self.P.types[f["locals"][1]]
        given = [Ref(self.o) if t0["k"] == "ref" else st.mem[self.o]]
        for i in range(1, f["argc"]):
            if i - 1 < len(args) and args[i - 1] is not None:
                given.append(args[i - 1])
            else:
                given.append(self.I.mkval(f["locals"][i + 1], T("root", (prefix + "%d" % i, 0))))
        st = st.copy()
        return [x for s, v in self.I.run_fn(st, fid, given) if not s.phase for x in self.resolved(s, v)]

    def resolved(self, s, v, rounds=12):
        """the state, told apart by the part of the list that an index lies in"""
        I = self.I
        if rounds == 0:
            return [(s, v)]
        for q in {k for f in s.facts if f[0] == "forall" for k, _ in f[3] if isinstance(k, Seq)}:
            s = s.copy()
            self.known(s, q)
        if FALSE in s.facts or self.absurd(s):
            return []
        fixed = []
        for f in s.facts:
            if f[0] == "eq" and sum(1 for x, k in f[1].t if x.kind == "sym") == 1:
                (x, k), = [(x, k) for x, k in f[1].t if x.kind == "sym"]
                if abs(k) == 1:
                    fixed.append((x, L(x) - f[1].scale(k)))
        ts = self.indexed(s, v)
        for x, l in fixed:
            if not mentions(l, x) and any(mentions(t.args[1:], x) for t in ts):
                s = s.copy()
                s.map(Subst({x: l}))
                return self.resolved(s, Subst({x: l}).any(v), rounds)
        for t in ts:
            q = t.args[0]
            if t.kind == "slice":
                r = I.seq_slice(s, q, t.args[1], t.args[2])
                if r.segs != (("opq", t, t.args[2]),):
                    s, v = self.replaced(s, v, t, r)
                    return self.resolved(s, v, rounds - 1)
                continue
            idx = t.args[1]
            at = L(0)
            out = []
            for g in [h for g in q.segs for h in ([("lit", (y,)) for y in g[1]] if g[0] == "lit" else [g])]:
                n = seg_len(g)
                if g[0] in ("sym", "gen", "loop", "lit"):
                    c = s.copy()
                    d = idx - at
                    if g[0] == "lit":
                        c.add(c_eq(d))
                        d = L(0)
                    else:
                        c.add(c_ge(d))
                        c.add(c_ge(n - d - 1))
                    if self.absurd(c):
                        at = at + n
                        continue
                    first = I.split(c, c_eq(d))[0] if g[0] in ("gen", "loop") and d != L(0) else None
                    if first is not None:
                        # the first one, or a later one
                        out.extend(self.resolved(first, v, rounds - 1))
                        c.add(c_ge(d - 1))
                        self.known(c, q)
                        t0 = T("at", (q, at))
                        zs = self.forms(c, q, g, L(0))
                        ks = [I.split(c, k)[0] for k, _ in zs]
                        if FALSE in c.facts or self.absurd(c) or zs and all(k is None or self.absurd(self.replaced(k, v, t0, z)[0]) for k, (_, z) in zip(ks, zs)):
                            at = at + n
                            continue
                    xs = self.forms(c, q, g, d)
                    if not xs:
                        return [(s, v)]
                    self.known(c, q)
                    for k, x in xs:
                        c2 = I.split(c, k)[0]
                        if c2 is None:
                            continue
                        c2, w = self.replaced(c2, v, t, x)
                        if g[0] == "sym":
                            for f in list(c2.facts):
                                if f[0] == "forall":
                                    I.inst_forall(c2, f, g[1], g[2] + d)
                        if FALSE not in c2.facts and not self.absurd(c2):
                            out.extend(self.resolved(c2, w, rounds - 1))
                else:
                    return [(s, v)]
                at = at + n
            return out
        return [(s, v)]

    def forms(self, c, q, g, d):
        """[(condition, value)] the element of a part"""
        x = self.I.seg_val(c, q.ety, g, d)
        if x is not None:
            return [(TRUE, x)]
        if g[0] == "loop" and all(len(y) == 1 and y[0][0] == "lit" and len(y[0][1]) == 1 for _, y in g[3]):
            u = Subst({g[2]: d})
            return [(u.cond(k), u.any(y[0][1][0])) for k, y in g[3]]
        return []

    def indexed(self, s, v):
        """the elements and parts of lists of several parts, by an index"""
        out = set()
        for x in [v, s.mem[self.o]] + [f for f in s.facts if f[0] != "forall"]:
            for t in collect_terms(x):
                if t.kind in ("at", "slice") and isinstance(t.args[0], Seq) and (len(t.args[0].segs) > 1 or t.args[0].segs and t.args[0].segs[0][0] != "sym") and not any(y.kind == "bv" for y in collect_terms(t.args[1:])):
                    out.add(t)
        return sorted(out, key=lambda t: (t.kind, t.id))

    def replaced(self, s, v, t, x):
        s = s.copy()
        u = Subst({t: x.key if isinstance(x, Sym) else x})
        before = set(s.facts)
        s.map(u)
        for f in [f for f in s.facts if f not in before and f[0] != "forall"]:
            s.add(f)
        self.narrow(s)
        return s, u.any(v)

    @staticmethod
    def narrow(s):
        """variants that are left when all others are excluded"""
        out = {}
        for f in list(s.facts):
            if f[0] == "ne" and len(f[1].t) == 1:
                (x, k), = f[1].t
                if abs(k) == 1 and x.kind == "dis" and x.lo is not None and x.hi is not None and x.hi - x.lo < 64:
                    out.setdefault(x, set()).add(-f[1].c * k)
        for x, no in out.items():
            left = [i for i in range(x.lo, x.hi + 1) if i not in no]
            if len(left) == 1:
                s.add(c_eq(L(x) - left[0]))
            elif not left:
                s.add(FALSE)
            elif left[0] > x.lo or left[-1] < x.hi:
                s.add(c_ge(L(x) - left[0]))
                s.add(c_ge(L(left[-1]) - L(x)))

    def known(self, c, q):
        """facts about all elements before an index, for the elements that are known"""
        I = self.I
        at = L(0)
        for g in q.segs:
            if g[0] != "sym":
                for i, x in enumerate(g[1] if g[0] == "lit" else [I.seg_val(c, q.ety, g, L(0))]):
                    for f in list(c.facts):
                        if f[0] == "forall" and f[4] not in (TRUE, FALSE):
                            for k, off in f[3]:
                                if isinstance(k, Seq) and k == q and I.entails(c, c_and([c_ge(at + i - off), c_ge(f[2] - (at + i - off) - 1)])):
                                    y = Subst({f[1]: at + i - off}).cond(f[4])
                                    c.add(y if x is None else Subst({T("at", (q, at + i)): x.key if isinstance(x, Sym) else x}).cond(y))
            at = at + seg_len(g)

    def cell(self, st, v):
        o = ("V", fresh_uid())
        st.mem[o] = v
        return Ref(o)

    # results
    def items(self, s):
        return s.mem[self.o].fs[self.i_atoms]

    def plain(self, s, q):
        """q with the loops over the other items decided"""
        I = self.I
        out = []
        for g in q.segs:
            if g[0] == "loop":
                g = self.decided(s, g) or g
            out.append(g)
        return norm_segs(tuple(out))

    def decided(self, s, g):
        """the loop that copies every element is the sequence"""
        I = self.I
        _, n, bv, alts = g
        j = T("sym", ("j", fresh_uid()), 0, MAXLEN)
        s = s.copy()
        s.add(c_ge(n - L(j) - 1))
        sub = Subst({bv: L(j)})
        es = set()
        real = [(sub.cond(c), sub.any(Seq(None, tuple(x))).segs) for c, x in alts]
        for c, x in real:
            es |= {t for t in set(collect_terms(c)) | set(collect_terms(Seq(None, tuple(x)))) if t.kind == "elem"}
        for e in es:
            for f in list(s.facts):
                if f[0] == "forall" and isinstance(e.args[1], Lin):
                    I.inst_forall(s, f, e.args[0], e.args[1])
        left = []
        for c, x in real:
            t = I.split(s, c)[0]
            if t is not None and FALSE not in t.facts and not self.absurd(t):
                left.append(x)
        if len(left) != 1:
            return None
        x = left[0]
        if not x:
            return ("lit", ())
        if len(x) != 1 or x[0][0] != "lit" or len(x[0][1]) != 1:
            return None
        v = x[0][1][0]
        for e in es:
            d = e.args[1] - L(j) if isinstance(e.args[1], Lin) else None
            if d is not None and not mentions(d, j) and v == I.mkval(self.type_of(e), e):
                return ("sym", e.args[0], d, n)
        return None

    def type_of(self, e):
        return self.t_item if e.args[0] in (LEFT, RIGHT) else self.t_data

    def absurd(self, t):
        I = self.I
        if FALSE in t.facts or I.entails(t, c_ge(L(-1))):
            return True
        return any(f[0] == "or" and all(I.decide(t, x) is False for x in f[1]) for f in list(t.facts))

    def view(self, s):
        """(the other items are as they were, [items with other contents])"""
        q = self.plain(s, self.items(s))
        want = [LEFT] + ([RIGHT] if self.present else [])
        items = []
        at = L(0)
        for g in q:
            if g[0] == "sym" and want and g[1] is want[0] and eqv(self.I, s, g[2] - at):
                at = at + g[3]
                if eqv(self.I, s, at - self.parts[want[0]]):
                    want = want[1:]
                    at = L(0)
            elif g[0] == "lit":
                items.extend(g[1])
            else:
                return None, [g]
        # parts that are empty
        if want and at == L(0):
            want = [w for w in want if not eqv(self.I, s, self.parts[w])]
        return not want, items

    def collected(self, st, it):
        """[(state, sequence)] of the items of an iterator, references followed"""
        I = self.I

        def body(s, x, a):
            y = self.deep(s, x)
            q = s.mem[a]
            s.mem[a] = Seq(q.ety, norm_segs(q.segs + (("lit", (y,)),)))
            return [(None, s)]
        return [(s, v) for lab, s, v in I.models.consume(st, it, Seq(None, ()), body, None, "collected") if not s.phase]

    def deep(self, s, x):
        while isinstance(x, Ref):
            x = self.I.load(s, x.obj, x.path) if x.view is None else self.I.deref(s, x)
        if isinstance(x, Agg) and any(isinstance(f, Ref) for f in x.fs):
            return Agg(x.ty, x.var, tuple(self.deep(s, f) for f in x.fs))
        return x


def canon(x, depth=0):
    """the value with bound variables named by their depth, to be compared"""
    if isinstance(x, Seq):
        return ("Q",) + tuple(canon(g, depth) for g in x.segs)
    if isinstance(x, Agg):
        return ("A", x.var) + tuple(canon(f, depth) for f in x.fs)
    if isinstance(x, tuple):
        if x and x[0] in ("gen", "loop") and len(x) == 4 and isinstance(x[2], Term):
            b = level_bv(1000 + depth)
            u = Subst({x[2]: L(b)})
            y = x[3]
            if x[0] == "gen":
                return ("each", x[1], canon(u.any(y), depth + 1))
            # the alternatives, in any order
            alts = [(u.cond(c), canon(u.any(Seq(None, tuple(q))), depth + 1)) for c, q in y]
            if len(alts) == 1 and alts[0][0] == TRUE and len(y[0][1]) == 1 and y[0][1][0][0] == "lit" and len(y[0][1][0][1]) == 1:
                return ("each", x[1], canon(u.any(y[0][1][0][1][0]), depth + 1))
            return ("loop", x[1], frozenset(alts))
        if x and isinstance(x[0], str) and x[0] in ("ge", "eq", "ne", "atom", "natom", "and", "or"):
            return x
        return tuple(canon(y, depth) for y in x)
    return x


def none(v):
    return isinstance(v, Agg) and v.var == 0 and not v.fs


def some(v):
    return v.fs[0] if isinstance(v, Agg) and v.var == 1 and len(v.fs) == 1 else None
