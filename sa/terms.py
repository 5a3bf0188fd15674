"""Hash-consed terms, linear integer expressions over them, conditions and substitution.

A term names an unknown quantity of the analysed program: a symbolic input, a byte of an input
stream at a position, the length of a sequence, an accumulated sum over a sequence, ...
`Lin` is an affine combination of terms over the (unbounded) integers.
"""
import itertools

_uid = itertools.count(1)


def fresh_uid():
    return next(_uid)


class Term:
    __slots__ = ("id", "kind", "args", "lo", "hi", "_mx", "_parts")
    table = {}
    count = itertools.count(1)

    def __repr__(self):
        return show_term(self)

    def __lt__(self, o):
        return self.id < o.id


def T(kind, args, lo=None, hi=None):
    key = (kind, args)
    t = Term.table.get(key)
    if t is None:
        t = Term()
        t.id = next(Term.count)
        t.kind = kind
        t.args = args
        t.lo = lo
        t.hi = hi
        t._mx = None
        t._parts = None
        Term.table[key] = t
    else:
        # the same quantity may be described with a tighter range later on
        if lo is not None and (t.lo is None or lo > t.lo):
            t.lo = lo
        if hi is not None and (t.hi is None or hi < t.hi):
            t.hi = hi
    return t


class Lin:
    __slots__ = ("c", "t", "_h", "_i", "_g", "_e")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None
        self._i = None
        self._g = None
        self._e = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((x.id, k) for x, k in self.t)))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for x, k in o.t:
            d[x] = d.get(x, 0) + k
        return mk(self.c + o.c, d)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((x, -k) for x, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((x, y * k) for x, y in self.t))

    def const(self):
        return self.c if not self.t else None

    def coef(self, term):
        for x, k in self.t:
            if x is term:
                return k
        return 0

    def terms(self):
        return [x for x, _ in self.t]

    def single(self):
        """the term t if self == t"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def interval(self):
        lo = hi = self.c
        for x, k in self.t:
            a, b = (x.lo, x.hi) if k > 0 else (x.hi, x.lo)
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def __repr__(self):
        return show_lin(self)


def mk(c, d):
    return Lin(c, tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id)))


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(x)
    return Lin(0, ((x, 1),))


def show_lin(l):
    if not l.t:
        return str(l.c)
    s = ""
    for x, k in l.t:
        if k == 1:
            p = "+" + show_term(x)
        elif k == -1:
            p = "-" + show_term(x)
        else:
            p = "%+d*%s" % (k, show_term(x))
        s += p
    if l.c:
        s += "%+d" % l.c
    return s.lstrip("+")


def show_any(a):
    if isinstance(a, (Term,)):
        return show_term(a)
    if isinstance(a, Lin):
        return show_lin(a)
    if isinstance(a, tuple):
        return "(" + ",".join(show_any(x) for x in a) + ")"
    return str(a)


def show_term(t):
    k, a = t.kind, t.args
    if k == "sym":
        return "%s#%s" % (a[0], a[1])
    if k == "be":
        return "be%d[%s@%s]" % (a[2], show_any(a[0]), show_any(a[1]))
    if k == "sb":
        return "byte[%s@%s]" % (show_any(a[0]), show_any(a[1]))
    if k == "stm":
        return str(a[0]) + "'" * (a[2] if len(a) > 2 else 0)
    if k == "fld":
        return "%s.%s" % (show_any(a[0]), "%s" % a[2] if not a[1] else "%s:%s" % (a[1], a[2]))
    if k == "elem":
        return "%s[%s]" % (show_any(a[0]), show_any(a[1]))
    if k == "deref":
        return "*" + show_any(a[0])
    if k == "int":
        return show_any(a[0])
    if k == "root":
        return str(a[0])
    return "%s%s" % (k, show_any(a))


# ---------------------------------------------------------------- conditions
TRUE = ("T",)
FALSE = ("F",)


def c_ge(l):
    """l >= 0"""
    lo, hi = l.interval()
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return ("ge", norm_ge(l))


def norm_ge(l):
    from math import gcd

    g = 0
    for _, k in l.t:
        g = gcd(g, k)
        if g == 1:
            return l
    if g > 1:
        return Lin(l.c // g, tuple((x, k // g) for x, k in l.t))
    return l


def norm_eq(l):
    if l.t and l.t[0][1] < 0:
        return -l
    return l


def c_eq(l):
    lo, hi = l.interval()
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return FALSE
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    return ("eq", norm_eq(l))


def c_ne(l):
    return c_not(c_eq(l))


def c_atom(t, pos=True):
    return ("atom", t) if pos else ("natom", t)


def c_not(c):
    k = c[0]
    if k == "T":
        return FALSE
    if k == "F":
        return TRUE
    if k == "ge":
        return c_ge(-c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "atom":
        return ("natom", c[1])
    if k == "natom":
        return ("atom", c[1])
    if k == "and":
        return c_or([c_not(x) for x in c[1]])
    if k == "or":
        return c_and([c_not(x) for x in c[1]])
    if k == "var":
        return ("nvar", c[1], c[2])
    if k == "nvar":
        return ("var", c[1], c[2])
    raise ValueError(c)


def c_and(cs):
    out = {}
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c[0] == "and":
            for x in c[1]:
                out[x] = None
        else:
            out[c] = None
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return ("and", tuple(out))


def c_or(cs):
    out = {}
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c[0] == "or":
            for x in c[1]:
                out[x] = None
        else:
            out[c] = None
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return ("or", tuple(out))


# ---------------------------------------------------------------- substitution
def max_uid(a):
    """an upper bound of the uids of the symbols in a"""
    if isinstance(a, Term):
        if a._mx is None:
            if a.kind in ("sym", "root", "stm"):
                m = a.args[1] if isinstance(a.args[1], int) else max_uid(a.args[1])
                # derived symbols carry a tag
                a._mx = m
                if len(a.args) > 2:
                    a._mx = max(m, max_uid(a.args[2:]))
            else:
                a._mx = max_uid(a.args)
        return a._mx
    if isinstance(a, Lin):
        m = 0
        for x, _ in a.t:
            v = max_uid(x)
            if v > m:
                m = v
        return m
    if isinstance(a, tuple):
        m = 0
        for x in a:
            v = max_uid(x)
            if v > m:
                m = v
        return m
    if hasattr(a, "parts"):
        return max_uid(a.parts())
    return 0


class Subst:
    """Replaces terms (dict term -> Lin / Term / value / condition) and renames the symbols whose
    uid lies in [u0, u1): each renaming is determined by `tag`, so equal tags give equal names."""

    def __init__(self, m, u0=0, u1=0, tag=None):
        self.m = m
        self.u0 = u0
        self.u1 = u1
        self.tag = tag
        self.memo = {}
        lo = min([max_uid(t) for t in m] + ([u0] if u1 > u0 else [1 << 62])) if (m or u1 > u0) else 1 << 62
        self.lo = min(lo, u0) if u1 > u0 else lo

    def inrange(self, u):
        return isinstance(u, int) and self.u0 <= u < self.u1

    def term(self, t):
        """returns Lin (for integer terms) or Term / value"""
        r = self.memo.get(t)
        if r is not None:
            return r
        if max_uid(t) < self.lo:
            self.memo[t] = t
            return t
        r = self._term(t)
        self.memo[t] = r
        return r

    def _term(self, t):
        if t in self.m:
            return self.m[t]
        k = t.kind
        if k == "bv":
            return t
        if k in ("sym", "root", "stm"):
            u = t.args[1]
            if self.inrange(u):
                return T(k, (t.args[0], u, (t.args[2] if len(t.args) > 2 else ()) + (self.tag,)), t.lo, t.hi)
            if len(t.args) > 2:
                a = self.any(t.args[2:])
                if a != t.args[2:]:
                    return T(k, t.args[:2] + a, t.lo, t.hi)
            return t
        a = tuple(self.any(x) for x in t.args)
        if a == t.args:
            return t
        return rebuild(t, a)

    def lin(self, l):
        if max_uid(l) < self.lo:
            return l
        c = l.c
        d = {}
        for x, k in l.t:
            y = self.term(x)
            if isinstance(y, Term):
                d[y] = d.get(y, 0) + k
            else:
                c += y.c * k
                for z, q in y.t:
                    d[z] = d.get(z, 0) + q * k
        return mk(c, d)

    def cond(self, c):
        k = c[0]
        if k in ("T", "F"):
            return c
        if k == "ge":
            return c_ge(self.lin(c[1]))
        if k == "eq":
            return c_eq(self.lin(c[1]))
        if k == "ne":
            return c_ne(self.lin(c[1]))
        if k in ("atom", "natom"):
            y = self.term(c[1])
            if isinstance(y, tuple):
                return y if k == "atom" else c_not(y)
            return (k, y)
        if k in ("and", "or"):
            xs = [self.cond(x) for x in c[1]]
            return c_and(xs) if k == "and" else c_or(xs)
        if k in ("var", "nvar"):
            return (k, self.any(c[1]), c[2])
        if k == "guard":
            y = self.cond(c[1])
            f1 = tuple(self.cond(x) for x in c[2])
            f0 = tuple(self.cond(x) for x in c[3])
            if y == TRUE:
                return c_and(f1)
            if y == FALSE:
                return c_and(f0)
            return ("guard", y, f1, f0)
        if k == "forall":
            c = ("forall",) + tuple(self.any(x) for x in c[1:])
            pats = tuple(as_pattern(p) for p in c[3])
            return c[:3] + (pats,) + c[4:]
        raise ValueError(c)

    def any(self, a):
        if isinstance(a, Lin):
            return self.lin(a)
        if isinstance(a, Term):
            return self.term(a)
        if isinstance(a, tuple):
            if a and isinstance(a[0], str) and a[0] in _CONDS and len(a) > 1:
                return self.cond(a)
            r = tuple(self.any(x) for x in a)
            return r if r != a else a
        if isinstance(a, (str, int, bool, type(None), frozenset)):
            return a
        if hasattr(a, "subst"):
            return a.subst(self)
        return a


def as_pattern(p):
    """the sequence whose elements a fact is about"""
    k, off = p
    if isinstance(k, Term):
        return p
    if hasattr(k, "key"):
        return (k.key, off)
    segs = getattr(k, "segs", None)
    if segs and len(segs) == 1 and segs[0][0] == "sym":
        return (segs[0][1], segs[0][2] + off)
    return p


_CONDS = {"ge", "eq", "ne", "atom", "natom", "and", "or", "var", "nvar", "guard", "forall"}

_rebuilders = {}


def rebuilder(kind):
    def deco(f):
        _rebuilders[kind] = f
        return f

    return deco


def rebuild(t, args):
    f = _rebuilders.get(t.kind)
    if f is not None:
        return f(t, args)
    return T(t.kind, args, t.lo, t.hi)


def sym(name, lo=None, hi=None, uid=None):
    return T("sym", (name, uid or fresh_uid()), lo, hi)


def be(stm, pos, n):
    if n == 1:
        return T("sb", (stm, pos), 0, 255)
    return T("be", (stm, pos, n), 0, 256 ** n - 1)


def bits(base, sh, w):
    """bits sh .. sh+w of the byte-valued (or wider) term `base`"""
    if base.kind == "bits":
        b2, s2, w2 = base.args
        w = min(w, w2 - sh)
        if w <= 0:
            return ZERO
        return bits(b2, s2 + sh, w)
    hi = base.hi
    if base.lo is not None and base.lo >= 0 and hi is not None:
        nb = hi.bit_length()
        if sh >= nb:
            return ZERO
        w = min(w, nb - sh)
        if sh == 0 and w >= nb:
            return L(base)
    return L(T("bits", (base, sh, w), 0, (1 << w) - 1))


@rebuilder("bits")
def _rb_bits(t, a):
    b = a[0]
    if isinstance(b, Lin):
        return bits_of_lin(b, a[1], a[2])
    return bits(b, a[1], a[2])


def split_bytes(l, nbytes):
    """Decomposes a non-negative value < 256**nbytes into bytes (most significant first), each a
    Lin in 0..255, or None when that is not known to be possible."""
    if not l.t:
        if l.c < 0 or l.c >= 256 ** nbytes:
            return None
        return [Lin(b) for b in l.c.to_bytes(nbytes, "big")]
    out = [ZERO] * nbytes  # index = significance
    if l.c:
        if l.c < 0:
            return None
        for i, b in enumerate(l.c.to_bytes(max(nbytes, 16), "little")):
            if b:
                if i >= nbytes:
                    return None
                out[i] = Lin(b)
    used = [o is not ZERO for o in out]
    for x, k in l.t:
        if k <= 0 or k & (k - 1):
            return None
        sh = k.bit_length() - 1
        if x.lo is None or x.lo < 0 or x.hi is None:
            return None
        if sh % 8 == 0:
            parts = term_bytes(x)
            if parts is None:
                return None
            for i, p in enumerate(parts):
                j = i + sh // 8
                if p.const() == 0:
                    continue
                if j >= nbytes:
                    return None
                if used[j]:
                    # disjoint bits within one byte
                    s = out[j] + p
                    if not disjoint(out[j], p):
                        return None
                    out[j] = s
                else:
                    out[j] = p
                    used[j] = True
        else:
            # a bit field placed inside one byte
            if x.kind != "bits" or (x.hi << (sh % 8)) > 255:
                return None
            j = sh // 8
            if j >= nbytes:
                return None
            p = L(x).scale(1 << (sh % 8))
            if used[j] and not disjoint(out[j], p):
                return None
            out[j] = out[j] + p if used[j] else p
            used[j] = True
    return out[::-1]


def mask_of(l):
    """possible bits of a byte-valued Lin that is a sum of shifted bit fields"""
    m = 0
    if l.c:
        m |= l.c
    for x, k in l.t:
        if k <= 0 or k & (k - 1) or x.lo is None or x.lo < 0 or x.hi is None:
            return None
        w = (1 << x.hi.bit_length()) - 1
        mm = w * k
        if m & mm:
            return None
        m |= mm
    return m


def disjoint(a, b):
    ma, mb = mask_of(a), mask_of(b)
    return ma is not None and mb is not None and not (ma & mb)


def term_bytes(x):
    """the bytes of a term, least significant first (Lins), or None"""
    if x.kind == "sb":
        return [L(x)]
    if x.kind == "be":
        s, p, n = x.args
        return [L(be(s, p + (n - 1 - i), 1)) for i in range(n)]
    if x.hi is not None and x.hi <= 255 and x.lo is not None and x.lo >= 0:
        return [L(x)]
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        n = (x.hi.bit_length() + 7) // 8
        return [L(T("byte", (L(x), i), 0, 255)) for i in range(n)]
    return None


def byte_of(l, i, nbytes):
    """byte i (0 = least significant) of the nbytes wide value l"""
    bs = split_bytes(l, nbytes)
    if bs is not None:
        return bs[nbytes - 1 - i]
    return L(T("byte", (l, i), 0, 255))


@rebuilder("byte")
def _rb_byte(t, a):
    l = a[0]
    if isinstance(l, Term):
        l = L(l)
    lo, hi = l.interval()
    if lo is not None and lo >= 0 and hi is not None:
        n = max((hi.bit_length() + 7) // 8, a[1] + 1)
        bs = split_bytes(l, n)
        if bs is not None:
            return bs[n - 1 - a[1]]
    return T("byte", (l, a[1]), 0, 255)


def join_bytes(bs):
    """value of the bytes bs (most significant first)"""
    # bytes of one value in order?
    n = len(bs)
    terms = [b.single() for b in bs]
    if all(t is not None and t.kind == "byte" for t in terms):
        base = terms[0].args[0]
        if all(t.args[0] == base and t.args[1] == n - 1 - i for i, t in enumerate(terms)):
            lo, hi = base.interval()
            if lo is not None and lo >= 0 and hi is not None and hi < 256 ** n:
                return base
            return L(T("trunc", (base, 8 * n), 0, 256 ** n - 1))
    # group consecutive stream bytes
    out = ZERO
    i = 0
    while i < n:
        t = terms[i]
        if t is not None and t.kind == "sb":
            s, p = t.args
            j = i + 1
            while j < n and terms[j] is not None and terms[j].kind == "sb" and terms[j].args[0] is s and terms[j].args[1] == p + (j - i):
                j += 1
            out = out + L(be(s, p, j - i)).scale(256 ** (n - j))
            i = j
            continue
        if t is not None and t.kind == "byte":
            base = t.args[0]
            lo, hi = base.interval()
            if lo is not None and lo >= 0 and hi is not None:
                w = (hi.bit_length() + 7) // 8
                # leading bytes of a value: byte(base, w-1) ... byte(base, 0)
                if t.args[1] == w - 1 and i + w <= n and all(
                    terms[i + q] is not None and terms[i + q].kind == "byte" and terms[i + q].args == (base, w - 1 - q) for q in range(w)
                ):
                    out = out + base.scale(256 ** (n - i - w))
                    i += w
                    continue
        out = out + bs[i].scale(256 ** (n - 1 - i))
        i += 1
    return out


def bits_of_lin(l, sh, w):
    """(l >> sh) & (2**w - 1) for a non-negative l, canonical per byte"""
    if not l.t:
        if l.c >= 0:
            return Lin((l.c >> sh) & ((1 << w) - 1))
    lo, hi = l.interval()
    if lo is None or lo < 0 or hi is None:
        return L(T("bits", (l, sh, w), 0, (1 << w) - 1))
    n = (hi.bit_length() + 7) // 8
    bs = split_bytes(l, n)
    if bs is None:
        if sh == 0 and hi < (1 << w):
            return l
        return L(T("bitsl", (l, sh, w), 0, min((1 << w) - 1, hi >> sh)))
    out = ZERO
    for i in range(n):  # significance
        b = bs[n - 1 - i]
        blo = 8 * i
        s0 = max(sh, blo)
        e0 = min(sh + w, blo + 8)
        if s0 >= e0:
            continue
        f = byte_field(b, s0 - blo, e0 - s0)
        if f is None:
            return L(T("bitsl", (l, sh, w), 0, min((1 << w) - 1, hi >> sh)))
        out = out + f.scale(1 << (s0 - sh))
    return out


@rebuilder("bitsl")
def _rb_bitsl(t, a):
    l = a[0] if isinstance(a[0], Lin) else L(a[0])
    return bits_of_lin(l, a[1], a[2])


def byte_field(b, s, w):
    if not b.t:
        return Lin((b.c >> s) & ((1 << w) - 1))
    t = b.single()
    if t is not None:
        return bits(t, s, w)
    if mask_of(b) is None:
        return None
    out = Lin((b.c >> s) & ((1 << w) - 1))
    for x, k in b.t:
        sh = k.bit_length() - 1
        nb = x.hi.bit_length()
        # occupies bits sh .. sh+nb
        a0, e0 = max(s, sh), min(s + w, sh + nb)
        if a0 >= e0:
            continue
        out = out + bits(x, a0 - sh, e0 - a0).scale(1 << (a0 - s))
    return out


@rebuilder("be")
def _rb_be(t, a):
    return be(a[0], a[1] if isinstance(a[1], Lin) else L(a[1]), a[2])


@rebuilder("sb")
def _rb_sb(t, a):
    return be(a[0], a[1] if isinstance(a[1], Lin) else L(a[1]), 1)


def mul(a, b):
    if not a.t:
        return b.scale(a.c)
    if not b.t:
        return a.scale(b.c)
    # distribute over the smaller operand's constant part
    if a.c or len(a.t) > 1 or b.c or len(b.t) > 1:
        out = Lin(a.c * b.c)
        if a.c:
            out = out + Lin(0, b.t).scale(a.c)
        if b.c:
            out = out + Lin(0, a.t).scale(b.c)
        for x, k in a.t:
            for y, q in b.t:
                out = out + mul1(x, y).scale(k * q)
        return out
    return mul1(a.t[0][0], b.t[0][0]).scale(a.t[0][1] * b.t[0][1])


def mul1(x, y):
    if y.id < x.id:
        x, y = y, x
    lo = hi = None
    if None not in (x.lo, x.hi, y.lo, y.hi):
        ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
        lo, hi = min(ps), max(ps)
    elif x.lo is not None and y.lo is not None and x.lo >= 0 and y.lo >= 0:
        lo = x.lo * y.lo
    return L(T("mul", (x, y), lo, hi))


@rebuilder("mul")
def _rb_mul(t, a):
    return mul(L(a[0]), L(a[1]))


def div(a, b):
    """floor division of non-negative a by positive b (truncation otherwise is kept opaque)"""
    if not a.t and not b.t and b.c:
        q = abs(a.c) // abs(b.c)
        return Lin(q if (a.c < 0) == (b.c < 0) else -q)
    if not b.t and b.c > 0:
        if b.c == 1:
            return a
        lo, hi = a.interval()
        if lo is not None and lo >= 0:
            return L(T("div", (a, b), lo // b.c, None if hi is None else hi // b.c))
    lo, hi = a.interval()
    bl, bh = b.interval()
    if lo is not None and lo >= 0 and bl is not None and bl >= 0:
        return L(T("div", (a, b), 0, hi))
    return L(T("div", (a, b)))


def rem(a, b):
    if not a.t and not b.t and b.c:
        r = abs(a.c) % abs(b.c)
        return Lin(r if a.c >= 0 else -r)
    lo, hi = a.interval()
    bl, bh = b.interval()
    if lo is not None and lo >= 0 and bl is not None and bl >= 0:
        h = None if bh is None else bh - 1
        if hi is not None:
            h = hi if h is None else min(h, hi)
        return L(T("rem", (a, b), 0, h))
    return L(T("rem", (a, b)))


def _aslin(x):
    return x if isinstance(x, Lin) else L(x)


@rebuilder("div")
def _rb_div(t, a):
    return div(_aslin(a[0]), _aslin(a[1]))


@rebuilder("rem")
def _rb_rem(t, a):
    return rem(_aslin(a[0]), _aslin(a[1]))


def lmin(a, b):
    d = a - b
    if not d.t:
        return a if d.c <= 0 else b
    lo, hi = d.interval()
    if hi is not None and hi <= 0:
        return a
    if lo is not None and lo >= 0:
        return b
    x, y = sorted((a, b), key=lambda l: (len(l.t), [p[0].id for p in l.t], l.c))
    al, ah = a.interval()
    bl, bh = b.interval()
    return L(T("min", (x, y), min(al, bl) if None not in (al, bl) else None, min(ah, bh) if None not in (ah, bh) else (ah if bh is None else bh)))


def lmax(a, b):
    return -lmin(-a, -b)


@rebuilder("min")
def _rb_min(t, a):
    return lmin(_aslin(a[0]), _aslin(a[1]))


def wrap(l, nbits, signed):
    """l reduced to the range of the integer type"""
    lo, hi = l.interval()
    tl, th = trange(nbits, signed)
    if lo is not None and hi is not None and lo >= tl and hi <= th:
        return l
    if not l.t:
        m = l.c & ((1 << nbits) - 1)
        if signed and m >> (nbits - 1):
            m -= 1 << nbits
        return Lin(m)
    return L(T("wrap", (l, nbits, signed), tl, th))


@rebuilder("wrap")
def _rb_wrap(t, a):
    return wrap(_aslin(a[0]), a[1], a[2])


def trange(nbits, signed):
    if signed:
        return -(1 << (nbits - 1)), (1 << (nbits - 1)) - 1
    return 0, (1 << nbits) - 1


def ite(c, a, b):
    """a if c holds, b otherwise"""
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    if c[0] in ("ne", "natom", "nvar"):
        return ite(c_not(c), b, a)
    # the common constant and terms stay outside
    common = {}
    db = dict(b.t)
    for x, k in a.t:
        if db.get(x) == k:
            common[x] = k
    out = mk(0, common)
    a, b = a - out, b - out
    k = b.c
    a, b = a - k, b - k
    out = out + k
    if not b.t and not a.t:
        return out + L(T("ite", (c, ONE, ZERO), 0, 1)).scale(a.c)
    al, ah = a.interval()
    bl, bh = b.interval()
    lo = min(al, bl) if None not in (al, bl) else None
    hi = max(ah, bh) if None not in (ah, bh) else None
    return out + L(T("ite", (c, a, b), lo, hi))


@rebuilder("ite")
def _rb_ite(t, a):
    return ite(a[0], _aslin(a[1]), _aslin(a[2]))


def bvar():
    return T("bv", (fresh_uid(),), 0, None)


def level_bv(d):
    return T("bv", (-d,), 0, None)


def bv_level(a):
    m = 0
    for x in _collect(a):
        if x.kind == "bv" and x.args[0] < 0:
            m = max(m, -x.args[0])
    return m


# assumption: all values held in memory together are smaller than this
MEMSUM = (1 << 50) - 1


def in_memory(l):
    """a sum of sizes of values held in memory"""
    for x, k in l.t:
        if x.kind in ("len", "u16len", "charlen"):
            if any(y.kind == "stm" for y in _collect(x.args)):
                return False
        elif x.kind == "ite":
            if not (in_memory(_aslin(x.args[1])) and in_memory(_aslin(x.args[2]))):
                return False
        elif x.kind == "sum":
            if not in_memory(_aslin(x.args[2])):
                return False
        else:
            return False
    return True


def lsum(n, bv, v):
    """sum of the Lin v over bv in 0..n"""
    if not _mentions(v, bv):
        return mul(n, v)
    inv = mk(v.c, {x: k for x, k in v.t if not _mentions(x, bv)})
    dep = v - inv
    r = mul(n, inv)
    if n.const() is not None and 0 <= n.const() <= 64:
        for i in range(n.const()):
            r = r + Subst({bv: Lin(i)}).lin(dep)
        return r
    for x, k in dep.t:
        d = 1 + max([bv_level(x)] if bv.args[0] > 0 else [-bv.args[0] - 1])
        y = Subst({bv: L(level_bv(d))}).lin(L(x))
        lo, _ = y.interval()
        r = r + L(T("sum", (n, d, y), 0 if lo is not None and lo >= 0 else None, MEMSUM if in_memory(y) else None)).scale(k)
    return r


@rebuilder("sum")
def _rb_sum(t, a):
    v = _aslin(a[2])
    d = a[1]
    # levels inside may have changed: use a fresh variable and renumber
    f = bvar()
    return lsum(_aslin(a[0]), f, Subst({level_bv(d): L(f)}).lin(v))


def _mentions(a, t):
    if isinstance(a, Term):
        if a is t:
            return True
        if a._parts is None:
            a._parts = frozenset(_collect(a.args))
        return t in a._parts
    if isinstance(a, Lin):
        return any(_mentions(x, t) for x, _ in a.t)
    if isinstance(a, tuple):
        return any(_mentions(x, t) for x in a)
    if hasattr(a, "parts"):
        return _mentions(a.parts(), t)
    return False


def _collect(a):
    out = set()
    st = [a]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in out:
                continue
            out.add(x)
            if x._parts is not None:
                out |= x._parts
            else:
                st.append(x.args)
        elif isinstance(x, Lin):
            st.extend(y for y, _ in x.t)
        elif isinstance(x, tuple):
            st.extend(x)
        elif hasattr(x, "parts"):
            st.append(x.parts())
    return out


mentions = _mentions
collect_terms = _collect
