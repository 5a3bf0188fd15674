"""Entailment over conjunctions of conditions: the numeric part of the abstract domain.

Facts are affine (in)equalities between terms; a query is refuted by an exact rational feasibility
check of the facts it is connected to (general simplex), after interval arithmetic. Disjunctive
information (`or`, `guard`, if-then-else terms, disequalities) is used by bounded case splits.
"""
import array
import ctypes
import os
from fractions import Fraction
from .terms import *
from .terms import norm_ge

STATS = {"queries": 0, "lp": 0, "cached": 0}


# ------------------------------------------------------------------ linear feasibility
def _lib():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "liblp.so")
    try:
        l = ctypes.CDLL(p)
        l.lp_infeasible.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
        l.lp_infeasible.restype = ctypes.c_int
        return l.lp_infeasible
    except OSError:
        return None


LIB = _lib()
M64 = (1 << 64) - 1
S63 = 1 << 63


def _pack(kind, c, ts):
    out = [kind, len(ts), 0, 0]
    lo = c & M64
    out[2] = lo - (1 << 64) if lo >= S63 else lo
    out[3] = c >> 64
    for x, k in ts:
        lo = k & M64
        out += (x.id, lo - (1 << 64) if lo >= S63 else lo, k >> 64)
    return array.array("q", out).tobytes()


_rows = {}


def lp_native(ges, eqs, ranges):
    out = []
    try:
        for g in ges:
            r = g._g
            if r is None:
                r = g._g = _pack(0, g.c, g.t)
            out.append(r)
        for g in eqs:
            r = g._e
            if r is None:
                r = g._e = _pack(1, g.c, g.t)
            out.append(r)
        for x, (lo, hi) in ranges.items():
            if lo is not None:
                r = _rows.get((x.id, 1, lo))
                if r is None:
                    r = _rows[(x.id, 1, lo)] = _pack(0, -lo, ((x, 1),))
                out.append(r)
            if hi is not None:
                r = _rows.get((x.id, -1, hi))
                if r is None:
                    r = _rows[(x.id, -1, hi)] = _pack(0, hi, ((x, -1),))
                out.append(r)
    except OverflowError:
        return None
    d = array.array("q", [len(out)]).tobytes() + b"".join(out)
    r = LIB(d, len(d) // 8)
    return None if r < 0 else r == 1


def lp_infeasible(ges, eqs, ranges):
    """True if no rational assignment satisfies all l >= 0 (ges), l = 0 (eqs) and term ranges."""
    STATS["lp"] += 1
    if LIB is not None:
        r = lp_native(ges, eqs, ranges)
        if r is not None:
            return r
    # eliminate equalities
    ges = list(ges)
    eqs = list(eqs)
    ges += [(x, 1, lo) for x, (lo, _) in ranges.items() if lo is not None]
    ges += [(x, -1, hi) for x, (_, hi) in ranges.items() if hi is not None]
    rows = []
    for g in ges:
        if isinstance(g, tuple):
            x, k, b = g
            rows.append(({x: k}, -b if k > 0 else b))
        else:
            rows.append((dict(g.t), g.c))
    eqr = [(dict(e.t), e.c) for e in eqs]
    while eqr:
        d, c = eqr.pop()
        if not d:
            if c != 0:
                return True
            continue
        # prefer a unit coefficient
        p = min(d, key=lambda x: (abs(d[x]) != 1, x.id))
        k = d[p]

        def elim(row):
            e, c2 = row
            if p not in e:
                return row
            q = Fraction(e[p], k)
            if q.denominator == 1:
                q = q.numerator
            e = dict(e)
            for x, y in d.items():
                v = e.get(x, 0) - q * y
                if v:
                    e[x] = v
                else:
                    e.pop(x, None)
            return (e, c2 - q * c)

        rows = [elim(r) for r in rows]
        eqr = [elim(r) for r in eqr]
    # rows: sum + c >= 0
    lows = {}
    his = {}
    slack = []
    for e, c in rows:
        if not e:
            if c < 0:
                return True
            continue
        if len(e) == 1:
            ((x, k),) = e.items()
            b = Fraction(-c, 1) / k
            if k > 0:
                if x not in lows or b > lows[x]:
                    lows[x] = b
            elif x not in his or b < his[x]:
                his[x] = b
        else:
            slack.append((e, c))
    for x in lows:
        if x in his and lows[x] > his[x]:
            return True
    if not slack:
        return False
    # group rows with the same linear part
    tab = {}
    slo = {}
    names = {}
    for e, c in slack:
        key = tuple(sorted(((x.id, k) for x, k in e.items())))
        n = names.get(key)
        if n is None:
            n = ("s", len(names))
            names[key] = n
            tab[n] = dict(e)
            slo[n] = -c
        else:
            slo[n] = max(slo[n], -c)
    return simplex_infeasible(tab, slo, lows, his)


def simplex_infeasible(tab, slo, lows, his):
    lo = dict(lows)
    hi = dict(his)
    lo.update(slo)
    order = {}
    xs = set()
    for e in tab.values():
        xs.update(e)
    for i, x in enumerate(sorted(xs, key=lambda x: x.id)):
        order[x] = i
    for i, s in enumerate(tab):
        order[s] = len(xs) + i
    val = {}
    for x in xs:
        if x in lo:
            val[x] = lo[x]
        elif x in hi:
            val[x] = min(hi[x], 0)
        else:
            val[x] = 0
    rows = {s: dict(e) for s, e in tab.items()}
    for s, e in rows.items():
        val[s] = sum(val[x] * k for x, k in e.items())
    for _ in range(2000):
        # smallest violating basic variable
        b = None
        for s in rows:
            v = val[s]
            if (s in lo and v < lo[s]) or (s in hi and v > hi[s]):
                if b is None or order[s] < order[b]:
                    b = s
        if b is None:
            return False
        row = rows[b]
        low = b in lo and val[b] < lo[b]
        target = lo[b] if low else hi[b]
        ent = None
        for x, k in row.items():
            up = (k > 0) == low
            if up and x in hi and val[x] >= hi[x]:
                continue
            if not up and x in lo and val[x] <= lo[x]:
                continue
            if ent is None or order[x] < order[ent]:
                ent = x
        if ent is None:
            return True
        # pivot b <-> ent
        a = row[ent]
        theta = Fraction(target - val[b]) / a
        if theta.denominator == 1:
            theta = theta.numerator
        val[b] = target
        val[ent] = val[ent] + theta
        for s, e in rows.items():
            if s is not b and ent in e:
                val[s] = val[s] + e[ent] * theta
        del rows[b]
        inv = Fraction(1) / a
        if inv.denominator == 1:
            inv = inv.numerator
        new = {b: inv}
        for x, k in row.items():
            if x is not ent:
                new[x] = -k * inv
        for s, e in list(rows.items()):
            if ent in e:
                q = e.pop(ent)
                for x, k in new.items():
                    v = e.get(x, 0) + q * k
                    if v:
                        e[x] = v
                    else:
                        e.pop(x, None)
        rows[ent] = new
    return False


# ------------------------------------------------------------------ facts
def var_known(facts, key, nvar=None):
    """(known variant or None, excluded variants)"""
    ex = set()
    for f in facts:
        if f[0] == "var" and f[1] is key:
            return f[2], ex
        if f[0] == "nvar" and f[1] is key:
            ex.add(f[2])
    return None, ex


NVARS = {}  # key term -> number of variants (registered when a symbolic enum is inspected)

_cache = {}


def lits(facts):
    out = []
    for f in facts:
        if f[0] == "and":
            out.extend(lits(f[1]))
        elif f != TRUE:
            out.append(f)
    return out


def entails(facts, goal):
    """facts: iterable of conditions"""
    k = goal[0]
    if k == "T":
        return True
    if k == "and":
        return all(entails(facts, g) for g in goal[1])
    if k in ("ge", "eq", "ne"):
        lo, hi = goal[1].interval()
        if k == "ge" and lo is not None and lo >= 0:
            return True
        if k == "ne" and (lo is not None and lo > 0 or hi is not None and hi < 0):
            return True
        if k == "eq" and not goal[1].t:
            return goal[1].c == 0
    fs = facts if isinstance(facts, (dict, set, frozenset)) else set(facts)
    if goal in fs:
        return True
    rel = relevant(facts, goal)
    key = (frozenset(rel), goal)
    r = _cache.get(key)
    if r is None:
        STATS["queries"] += 1
        r = _unsat(list(rel) + [c_not(goal)], 0)
        if not r and k == "eq":
            r = entails(facts, ("ge", goal[1])) and entails(facts, ("ge", -goal[1]))
        _cache[key] = r
    else:
        STATS["cached"] += 1
    return r


def unsat(facts):
    key = (frozenset(facts), FALSE)
    r = _cache.get(key)
    if r is None:
        r = _unsat(list(facts), 0)
        _cache[key] = r
    return r


def cond_keys(c, out=None):
    """the terms (and enum keys) through which a condition is connected to others"""
    if out is None:
        out = set()
    k = c[0]
    if k in ("ge", "eq", "ne"):
        for x, _ in c[1].t:
            lin_keys(x, out)
    elif k in ("atom", "natom"):
        out.add(c[1])
    elif k in ("var", "nvar"):
        out.add(c[1])
    elif k in ("and", "or"):
        for x in c[1]:
            cond_keys(x, out)
    elif k == "guard":
        cond_keys(c[1], out)
        for x in c[2]:
            cond_keys(x, out)
        for x in c[3]:
            cond_keys(x, out)
    return out


_ck = {}


def cond_keys_c(c):
    r = _ck.get(c)
    if r is None:
        r = _ck[c] = frozenset(cond_keys(c))
    return r


def lin_keys(x, out):
    if x in out:
        return
    out.add(x)
    if x.kind in ("div", "rem", "min"):
        for a in x.args:
            for y, _ in a.t:
                lin_keys(y, out)
    elif x.kind == "wrap":
        for y, _ in x.args[0].t:
            lin_keys(y, out)
    elif x.kind == "ite":
        cond_keys(x.args[0], out)
        for a in x.args[1:]:
            for y, _ in a.t:
                lin_keys(y, out)
    elif x.kind == "mul":
        lin_keys(x.args[0], out)
        lin_keys(x.args[1], out)
    elif x.kind in ("bits",):
        lin_keys(x.args[0], out)
    elif x.kind == "len":
        pass


def relevant(facts, goal):
    seen = set(cond_keys_c(goal))
    todo = [(f, cond_keys_c(f)) for f in facts if f[0] != "forall"]
    out = []
    changed = True
    while changed and todo:
        changed = False
        rest = []
        for f, ks in todo:
            if ks & seen:
                out.append(f)
                if not ks <= seen:
                    seen |= ks
                    changed = True
            else:
                rest.append((f, ks))
        todo = rest
    return out


MAXDEPTH = 7


class Known:
    """literals taken for granted, with what follows from each of them alone"""
    __slots__ = ("s", "memo", "tmemo", "idx")

    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.tmemo = {}
        self.idx = None

    def bounds(self, x):
        if self.idx is None:
            ix = {}
            for f in self.s:
                if f[0] in ("ge", "eq", "ne") and len(f[1].t) == 1:
                    ix.setdefault(f[1].t[0][0], []).append(f)
            self.idx = {y: self.calc(y, fs) for y, fs in ix.items()}
        r = self.idx.get(x)
        return r if r is not None else (x.lo, x.hi, ())

    def calc(self, x, fs):
        lo, hi = x.lo, x.hi
        nes = set()
        for f in fs:
            q = f[1].t[0][1]
            v = f[1].c
            if f[0] == "eq":
                if v % q == 0:
                    lo = hi = -v // q
            elif f[0] == "ge":
                if q > 0:
                    b = -(v // q)  # ceil(-v/q)
                    lo = b if lo is None or b > lo else lo
                else:
                    b = v // -q
                    hi = b if hi is None or b < hi else hi
            elif v % q == 0:
                nes.add(-v // q)
        while lo is not None and lo in nes:
            lo += 1
        while hi is not None and hi in nes:
            hi -= 1
        return lo, hi, nes


def simplify(c, known):
    """evaluates the parts of c decided syntactically by the literals in known"""
    k = c[0]
    s = known.s
    if c in s:
        return TRUE
    if k in ("and", "or"):
        xs = [simplify(x, known) for x in c[1]]
        return c_and(xs) if k == "and" else c_or(xs)
    if k in ("eq", "ne", "ge", "atom", "natom"):
        if c_not(c) in s:
            return FALSE
    return c


def ite_terms(l):
    """the terms of l that contain an if-then-else"""
    r = l._i
    if r is None:
        r = l._i = tuple(x for x, _ in l.t if has_ite(x))
    return r


def _subst_ites(l, known):
    """replaces if-then-else terms whose condition is decided by known"""
    its = ite_terms(l)
    if not its:
        return l
    r = known.tmemo.get(l)
    if r is not None:
        return r
    sub = {}
    for x in its:
        y = _sub_term(x, known)
        if y is not x:
            sub[x] = y
    r = l
    if sub:
        c = l.c
        d = {}
        for x, k in l.t:
            y = sub.get(x)
            if y is None:
                d[x] = d.get(x, 0) + k
            elif isinstance(y, Lin):
                c += y.c * k
                for z, m in y.t:
                    d[z] = d.get(z, 0) + m * k
            else:
                d[y] = d.get(y, 0) + k
        r = mk(c, d)
        if r == l:
            r = l
    known.tmemo[l] = r
    return r


_dep = {}


def has_ite(x):
    r = _dep.get(x)
    if r is None:
        if x.kind == "ite":
            r = True
        elif x.kind in ("div", "rem", "min", "wrap", "mul", "bits", "bitsl", "byte"):
            r = any(
                has_ite(y) if isinstance(y, Term) else any(has_ite(z) for z, _ in y.t)
                for y in x.args
                if isinstance(y, (Term, Lin))
            )
        else:
            r = False
        _dep[x] = r
    return r


def _sub_term(x, known):
    if not has_ite(x):
        return x
    r = known.tmemo.get(x)
    if r is None:
        r = known.tmemo[x] = _sub_term1(x, known)
    return r


def _sub_term1(x, known):
    if x.kind == "ite":
        c = simplify_deep(x.args[0], known)
        if c == TRUE:
            return _subst_ites(x.args[1], known)
        if c == FALSE:
            return _subst_ites(x.args[2], known)
        a, b = _subst_ites(x.args[1], known), _subst_ites(x.args[2], known)
        if c == x.args[0] and a is x.args[1] and b is x.args[2]:
            return x
        r = ite(c, a, b)
        if r.single() is x:
            return x
        return r
    args = tuple(
        _subst_ites(y, known) if isinstance(y, Lin) else (_sub_term(y, known) if isinstance(y, Term) else y)
        for y in x.args
    )
    if all(p is q for p, q in zip(args, x.args)):
        return x
    return rebuild(x, args)


def simplify_deep(c, known):
    r = known.memo.get(c)
    if r is None:
        r = known.memo[c] = simplify_deep1(c, known)
    return r


def simplify_deep1(c, known):
    c = simplify(c, known)
    if c[0] in ("ge", "eq", "ne"):
        l = _subst_ites(c[1], known)
        if l is not c[1]:
            c = {"ge": c_ge, "eq": c_eq, "ne": c_ne}[c[0]](l)
            c = simplify(c, known)
        # decided by the literals about the very same quantity?
        r = decide_by_bounds(c, known)
        if r is not None:
            return r
    elif c[0] in ("and", "or"):
        xs = [simplify_deep(x, known) for x in c[1]]
        return c_and(xs) if c[0] == "and" else c_or(xs)
    return c


def decide_by_bounds(c, known):
    """single-term interval reasoning"""
    if c[0] not in ("ge", "eq", "ne"):
        return None
    l = c[1]
    if len(l.t) != 1:
        return None
    x, k = l.t[0]
    lo, hi, nes = known.bounds(x)
    a = None if lo is None else lo * k
    b = None if hi is None else hi * k
    if k < 0:
        a, b = b, a
    a = None if a is None else a + l.c
    b = None if b is None else b + l.c
    if c[0] == "ge":
        if a is not None and a >= 0:
            return TRUE
        if b is not None and b < 0:
            return FALSE
        return None
    neq = a is not None and a > 0 or b is not None and b < 0
    if not neq and l.c % k == 0 and (-l.c // k) in nes:
        neq = True
    if not neq and l.c % k != 0:
        neq = True
    if neq:
        return FALSE if c[0] == "eq" else TRUE
    if a is not None and a == b == 0:
        return TRUE if c[0] == "eq" else FALSE
    return None


def _unsat(conds, depth):
    conds = lits(conds)
    if FALSE in conds:
        return True
    # literal propagation
    LIT = ("ge", "eq", "ne", "atom", "natom")
    for _ in range(8):
        lit_ = set()
        pend = []
        for c in conds:
            if c[0] in LIT:
                lit_.add(c)
            else:
                pend.append(c)
        for c in lit_:
            if c[0] in ("atom", "eq") and c_not(c) in lit_:
                return True
        known = Known(lit_)
        new = []
        changed = False
        its = set()
        for c in lit_:
            if c[0] in ("ge", "eq", "ne"):
                its.update(ite_terms(c[1]))
        its = {x for x in its if _sub_term(x, known) is not x}
        for c in lit_:
            if its and c[0] in ("ge", "eq", "ne") and not its.isdisjoint(ite_terms(c[1])):
                l = _subst_ites(c[1], known)
                if l is not c[1]:
                    d = {"ge": c_ge, "eq": c_eq, "ne": c_ne}[c[0]](l)
                    if d == FALSE:
                        return True
                    changed = True
                    if d != TRUE:
                        new.append(d)
                    continue
            new.append(c)
        for c in pend:
            if c[0] == "guard":
                g = simplify_deep(c[1], known)
                if g == TRUE:
                    new.extend(lits(c[2]))
                    changed = True
                    continue
                if g == FALSE:
                    new.extend(lits(c[3]))
                    changed = True
                    continue
                new.append(c)
            elif c[0] == "or":
                d = simplify_deep(c, known)
                if d == FALSE:
                    return True
                if d != c:
                    changed = True
                if d != TRUE:
                    new.extend(lits([d]))
            elif c[0] == "forall":
                pass
            else:
                new.append(c)
        conds = new
        if FALSE in conds:
            return True
        if not changed:
            break
    known = [c for c in conds if c[0] in ("ge", "eq", "ne", "atom", "natom", "var", "nvar")]
    ges = [c[1] for c in known if c[0] == "ge"]
    eqs = [c[1] for c in known if c[0] == "eq"]
    nes = []
    for c in known:
        if c[0] == "ne":
            lo, hi = c[1].interval()
            if lo == 0:
                ges.append(c[1] - 1)
            elif hi == 0:
                ges.append(-c[1] - 1)
            else:
                nes.append(c[1])
    terms = set()
    for l in ges + eqs + nes:
        terms.update(x for x, _ in l.t)
    axioms(terms, ges, eqs)
    ranges = {}
    for l in ges + eqs:
        for x, _ in l.t:
            if x not in ranges and (x.lo is not None or x.hi is not None):
                ranges[x] = (x.lo, x.hi)
    if lp_infeasible(ges, eqs, ranges):
        return True
    if depth >= MAXDEPTH:
        return False
    # case splits
    for l in nes:
        # l != 0: only worth it when one side is excluded
        if lp_infeasible(ges + [l], eqs, _rng(ranges, l)):
            if _unsat([c for c in conds if c != ("ne", l)] + [c_ge(-l - 1)], depth + 1):
                return True
            return False if not _splits(conds, terms) else _split_rest(conds, terms, depth, ("ne", l), c_ge(-l - 1))
        if lp_infeasible(ges + [-l], eqs, _rng(ranges, l)):
            if _unsat([c for c in conds if c != ("ne", l)] + [c_ge(l - 1)], depth + 1):
                return True
            return False if not _splits(conds, terms) else _split_rest(conds, terms, depth, ("ne", l), c_ge(l - 1))
    for sp in _splits(conds, terms):
        return all(_unsat(conds + [s], depth + 1) for s in sp)
    return False


def _split_rest(conds, terms, depth, old, new):
    conds = [c for c in conds if c != old] + [new]
    for sp in _splits(conds, terms):
        return all(_unsat(conds + [s], depth + 1) for s in sp)
    return False


def _rng(ranges, l):
    r = dict(ranges)
    for x, _ in l.t:
        if x.lo is not None or x.hi is not None:
            r.setdefault(x, (x.lo, x.hi))
    return r


def _splits(conds, terms):
    """the first case split available"""
    for x in sorted(terms, key=lambda x: x.id):
        c = first_ite(x)
        if c is not None:
            yield [c, c_not(c)]
            return
    for c in conds:
        if c[0] == "guard":
            yield [c[1], c_not(c[1])]
            return
    for c in conds:
        if c[0] == "or":
            yield list(c[1])
            return
    for x in sorted(terms, key=lambda x: x.id):
        if x.kind == "min":
            d = x.args[0] - x.args[1]
            if c_ge(d) in conds or c_ge(-d) in conds or c_ge(-d - 1) in conds:
                continue
            yield [c_ge(d), c_ge(-d - 1)]
            return


def first_ite(x):
    if not has_ite(x):
        return None
    if x.kind == "ite":
        return first_lit(x.args[0])
    for y in x.args:
        if isinstance(y, Term):
            c = first_ite(y)
            if c is not None:
                return c
        elif isinstance(y, Lin):
            for z, _ in y.t:
                c = first_ite(z)
                if c is not None:
                    return c
    return None


def first_lit(c):
    if c[0] in ("and", "or"):
        return first_lit(c[1][0])
    return c


def axioms(terms, ges, eqs):
    done = set()
    todo = list(terms)
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        k = x.kind
        if k == "div":
            a, b = x.args
            if not b.t and b.c > 0:
                # a - b*q in [0, b-1]
                d = a - L(x).scale(b.c)
                ges.append(d)
                ges.append(Lin(b.c - 1) - d)
                todo.extend(y for y, _ in a.t)
            else:
                # k * (x mod b) / b < k
                r = a.t[0][0] if len(a.t) == 1 and a.c == 0 and a.t[0][1] > 0 else None
                if r is not None and r.kind == "rem" and r.args[1] == b:
                    ges.append(Lin(a.t[0][1] - 1) - L(x))
                # q <= a for a divisor >= 1 (a >= 0)
                lo, _ = a.interval()
                if lo is not None and lo >= 0:
                    ges.append(a - L(x))
                    todo.extend(y for y, _ in a.t)
        elif k == "rem":
            a, b = x.args
            lo, _ = a.interval()
            bl, _ = b.interval()
            if lo is not None and lo >= 0 and bl is not None and bl >= 0:
                ges.append(a - L(x))
                if bl > 0:
                    ges.append(b - 1 - L(x))
                elif any(_pos(f, b) for f in ges):
                    ges.append(b - 1 - L(x))
                todo.extend(y for y, _ in a.t)
                todo.extend(y for y, _ in b.t)
        elif k == "min":
            a, b = x.args
            ges.append(a - L(x))
            ges.append(b - L(x))
            todo.extend(y for y, _ in a.t)
            todo.extend(y for y, _ in b.t)
        elif k == "ite":
            # minimum and maximum written as a conditional
            c, a, b = x.args
            if c[0] == "ge":
                d = c[1] - (b - a)
                if not d.t:
                    ges.append(b - L(x) + max(d.c, 0))
                    ges.append(a - L(x) + max(-d.c - 1, 0))
                    todo.extend(y for y, _ in a.t + b.t)
                d = c[1] - (a - b)
                if not d.t:
                    ges.append(L(x) - b + max(d.c, 0))
                    ges.append(L(x) - a + max(-d.c - 1, 0))
                    todo.extend(y for y, _ in a.t + b.t)
        elif k == "mul":
            # x*y with y bounded by constants
            a, b = x.args
            for p, q in ((a, b), (b, a)):
                if q.hi is not None and p.lo is not None and p.lo >= 0:
                    ges.append(L(p).scale(q.hi) - L(x))
                if q.lo is not None and p.lo is not None and p.lo >= 0:
                    ges.append(L(x) - L(p).scale(q.lo))
                if p not in done:
                    todo.append(p)
        elif k == "bits":
            b, sh, w = x.args
            if b.hi is not None and sh == 0:
                ges.append(L(b) - L(x))
        elif k == "sum":
            n, d, v = x.args
            lo, hi = v.interval()
            if hi is not None and hi >= 0:
                ges.append(n.scale(hi) - L(x))
            if lo is not None:
                ges.append(L(x) - n.scale(lo))
        elif k == "ulen16":
            ges.append(L(T("len", x.args, 0, (1 << 63) - 1)) - L(x))


def _pos(f, b):
    """does f: l >= 0 say b >= 1"""
    d = f - b
    return not d.t and d.c <= -1


def equal(facts, a, b):
    """a = b for all values allowed by facts"""
    d = a - b
    if not d.t:
        return d.c == 0
    if entails(facts, ("eq", d)):
        return True
    d = cancel_sums(d)
    if not d.t:
        return d.c == 0
    return entails(facts, ("ge", d)) and entails(facts, ("ge", -d))


def cancel_sums(d):
    """cancels sums over the same range whose summands are equal"""
    sums = [(x, k) for x, k in d.t if x.kind == "sum"]
    for i, (x, k) in enumerate(sums):
        for y, q in sums[i + 1 :]:
            if k == -q and x.args[0] == y.args[0]:
                b = bvar()
                u = Subst({level_bv(x.args[1]): L(b)}).lin(x.args[2])
                v = Subst({level_bv(y.args[1]): L(b)}).lin(y.args[2])
                if equal([], u, v):
                    return cancel_sums(d - L(x).scale(k) - L(y).scale(q))
    # several sums over the same range: compare them together
    byn = {}
    for x, k in sums:
        byn.setdefault(x.args[0], []).append((x, k))
    for n, xs in byn.items():
        if len(xs) > 1:
            b = bvar()
            tot = ZERO
            for x, k in xs:
                tot = tot + Subst({level_bv(x.args[1]): L(b)}).lin(x.args[2]).scale(k)
            if equal([], tot, ZERO):
                for x, k in xs:
                    d = d - L(x).scale(k)
                return cancel_sums(d)
    return d
