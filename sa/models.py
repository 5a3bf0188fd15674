"""Models of the functions of the standard library (and of unknown code) used by the crate."""
import re
from .terms import *
from .terms import T, L
from .values import *
from .values import UNINIT, MAXLEN
from .interp import SEQ_ADTS, RESULT, OPTION, AnalysisError

U64MAX = (1 << 64) - 1
I63 = (1 << 63) - 1
UNIT_V = Agg(None, None, ())

IOERR = T("root", ("ioerr", 0))
FAIL_IO = Agg(None, "io", ())
FAIL_MOD = Agg(None, "mod", ())
FAIL_DEC = Agg(None, "dec", ())
FLAG = ("flag", "failed")

_INT = re.compile(r"(?:core|std)::num::<impl ([iu])(\d+|size)>::(\w+)$")


def slen(stm):
    return L(T("slen", (stm,), 0, I63))


class Models:
    def __init__(self, I):
        self.I = I
        self.readers = set()
        self.handles = {}  # hid -> (kind, file)
        self.opens = []
        self.tab = {}
        for n in dir(self):
            if n.startswith("m_"):
                self.tab[n[2:]] = getattr(self, n)
        self.memo = {}

    # ------------------------------------------------------------------ helpers
    def new_reader(self, st, hid, cur=None, stm=None, kind="gen", file=None):
        stm = stm or T("stm", (hid if isinstance(hid, str) else hid[0], fresh_uid()))
        st.mem[("stm", hid)] = Sym(None, stm)
        st.mem[("cur", hid)] = Int(cur if cur is not None else L(T("sym", ("cur", fresh_uid()), 0, I63)), 64)
        self.readers.add(hid)
        self.handles[hid] = (kind, file)
        return stm

    def new_file(self, st, name, stm=None):
        hid = ("file", name)
        self.new_reader(st, hid, kind="file", file=name, stm=stm)
        self.handles[hid] = ("file", name)
        st.mem[("own", name)] = Agg(None, ("file", name), ())
        st.mem[("mut", name)] = Bool(FALSE)
        st.mem[("log", name)] = Seq(None, ())
        return hid

    def new_writer(self, st, hid):
        self.handles[hid] = ("out", None)
        st.mem[("out", hid)] = Seq(self.I.u8(), ())

    def t(self, ty):
        return self.I.types[ty]

    def ok(self, destty, v=UNIT_V):
        return Agg(destty, 0, (v,))

    def err(self, destty, v):
        return Agg(destty, 1, (v,))

    def some(self, destty, v):
        return Agg(destty, 1, (v,))

    def none(self, destty):
        return Agg(destty, 0, ())

    def opt(self, destty, v):
        return self.none(destty) if v is None else self.some(destty, v)

    def argof(self, ty, i):
        a = [x for x in self.t(ty).get("args", []) if isinstance(x, int)]
        return a[i] if i < len(a) else None

    def ioerr(self, destty):
        ty = self.argof(destty, 1)
        if ty is None:
            ty = self.I.P.ty("std::io::Error")
        return self.err(destty, Sym(ty, IOERR))

    def fail(self, st, name, mod=False):
        """(failing state, succeeding state)"""
        b, a = self.I.fork(st, name)
        b.mem[FLAG] = FAIL_MOD if mod else FAIL_IO
        return b, a

    def val(self, st, v, n=8):
        while isinstance(v, Ref) and n:
            v = self.I.deref(st, v)
            n -= 1
        return v

    def seqof(self, st, v):
        v = self.val(st, v)
        if isinstance(v, Sym) and self.I.is_seq_ty(v.ty):
            v = self.I.mkval(v.ty, v.key)
        if isinstance(v, Agg) and len(v.fs) == 1:  # Box<str>, Rc<..>
            return self.seqof(st, v.fs[0])
        if isinstance(v, Seq):
            return v
        return None

    def content(self, st, v, d=0):
        """deep value with references replaced by what they point at"""
        if d > 12:
            return Opq(None, "deep")
        if isinstance(v, Ref):
            return self.content(st, self.I.deref(st, v), d + 1)
        if isinstance(v, Agg):
            fs = tuple(self.content(st, x, d + 1) for x in v.fs)
            return v if all(a is b for a, b in zip(fs, v.fs)) else Agg(v.ty, v.var, fs)
        return v

    def seqref(self, st, v):
        """innermost reference to a sequence: (Ref, Seq) or None"""
        n = 0
        while isinstance(v, Ref) and n < 8:
            x = self.I.deref(st, v)
            if isinstance(x, Sym) and self.I.is_seq_ty(x.ty):
                return v, self.I.mkval(x.ty, x.key)
            if isinstance(x, Seq):
                return v, x
            v = x
            n += 1
        return None

    def i64(self, l):
        return Int(l, 64)

    def virt(self, st, v):
        o = ("V", fresh_uid())
        st.mem[o] = v
        return o

    # ------------------------------------------------------------------ dispatch
    def call(self, st, c, args, destty, span, argtys):
        path = c["path"]
        r = c.get("rpath") or path
        k = (path, r)
        f = self.memo.get(k)
        if f is None:
            f = self.memo[k] = self.lookup(path, r, c) or (None,)
        if f[0] is None:
            return None
        return f[0](st, args, destty, span, c, *f[1:])

    def lookup(self, path, r, c):
        m = _INT.match(path)
        if m:
            f = self.tab.get("int_" + m.group(3))
            if f:
                b = 64 if m.group(2) == "size" else int(m.group(2))
                return (f, b, m.group(1) == "i")
            return None
        tr = c.get("trait")
        name = path.rsplit("::", 1)[-1]
        if tr == "std::iter::Iterator" or tr == "std::iter::DoubleEndedIterator" or tr == "std::iter::ExactSizeIterator":
            f = self.tab.get("iter_" + name)
            if f:
                return (f,)
            return None
        if tr:
            if c.get("fn") is not None and tr not in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
                # a body is available; some library bodies are modelled all the same
                if not (tr == "std::cmp::Ord" and name in ("min", "max")) and not (tr == "std::cmp::PartialEq" and "array" in r):
                    return None
            f = self.tab.get("%s_%s" % (tr.rsplit("::", 1)[-1], name))
            if f and not tr.startswith("atom") and not tr.startswith("crate"):
                return (f,)
            return None
        p = re.sub(r"<[^<>]*>", "", path)
        for _ in range(4):
            p = re.sub(r"<[^<>]*>", "", p)
        p = p.replace("core::", "std::").replace("alloc::", "std::").replace("::::", "::")
        m = re.match(r"(?:std::)?(\w+)::(.*)$", p)
        if "<impl [T]>" in path or "<impl [T]" in path:
            key = "slice_" + name
        elif "<impl str>" in path:
            key = "str_" + name
        else:
            q = [x for x in p.split("::") if x]
            key = "_".join(q[-2:]) if len(q) >= 2 else q[-1]
        f = self.tab.get(key)
        if f is None:
            return None
        if c.get("fn") is not None:
            g = self.I.P.fns[str(c["fn"])]
            if g["local"]:
                return None
        return (f,)

    def unknown_call(self, st, name, args, destty, span):
        I = self.I
        mut = False
        cont = tuple(self.content(st, a) for a in args)
        I.note("call of unknown function %s" % name, I.site())
        return [(st, I.mkval(destty, T("call", (name,) + cont)))] if destty is not None else [(st, Opq(None, name))]

    def pure(self, st, name, args, destty):
        cont = tuple(self.content(st, a) for a in args)
        return [(st, self.I.mkval(destty, T("call", (name,) + cont)))]

    # ------------------------------------------------------------------ function traits
    def m_FnOnce_call_once(self, st, args, destty, span, c):
        return self.fncall(st, args, destty, span)

    def m_FnMut_call_mut(self, st, args, destty, span, c):
        return self.fncall(st, args, destty, span)

    def m_Fn_call(self, st, args, destty, span, c):
        return self.fncall(st, args, destty, span)

    def fncall(self, st, args, destty, span):
        fv = args[0]
        tup = args[1]
        a = list(tup.fs) if isinstance(tup, Agg) else [tup]
        return self.invoke(st, fv, a, destty, span)

    def invoke(self, st, fv, a, destty, span=None):
        I = self.I
        ref = None
        f = fv
        while isinstance(f, Ref):
            ref = f
            f = I.deref(st, f)
        if isinstance(f, Agg) and f.ty is not None and I.types[f.ty]["k"] == "closure":
            return I.call_closure(st, f, a, destty, span, ref)
        if isinstance(f, Fn):
            return I.call_fn(st, f.c, a, destty, span)
        if isinstance(f, Sym):
            cont = tuple(self.content(st, x) for x in a)
            return [(st, I.mkval(destty, T("call", ("fn", f.key) + cont)))]
        return self.unknown_call(st, "indirect call", [f] + a, destty, span)

    def ret_ty(self, fv, st):
        """result type of a callable"""
        I = self.I
        f = self.val(st, fv)
        if isinstance(f, Agg) and f.ty is not None and I.types[f.ty]["k"] == "closure":
            return I.P.fns[str(I.types[f.ty]["fn"])]["locals"][0]
        if isinstance(f, Fn):
            if f.c.get("ctor"):
                return f.c["ctor_ty"]
            if f.c.get("fn") is not None:
                return I.P.fns[str(f.c["fn"])]["locals"][0]
        return None

    # ------------------------------------------------------------------ formatting
    def m_Argument_new_display(self, st, args, destty, span, c):
        return [(st, Agg(None, "arg", (self.content(st, args[0]),)))]

    m_Argument_new_debug = m_Argument_new_lower_hex = m_Argument_new_upper_hex = m_Argument_new_display

    def m_Arguments_new(self, st, args, destty, span, c):
        return [(st, Agg(None, "fmt", tuple(self.content(st, a) for a in args)))]

    m_Arguments_from_str = m_Arguments_new_const = m_Arguments_new_v1 = m_Arguments_new

    def m_fmt_format(self, st, args, destty, span, c):
        return self.text(st, args)

    def text(self, st, args):
        k = T("fmt", (self.content(st, args[0]),))
        return [(st, Seq(self.I.u8(), (("opq", k, L(T("len", (k,), 0, MAXLEN))),)))]

    def m_hint_must_use(self, st, args, destty, span, c):
        return [(st, args[0])]

    m_convert_identity = m_hint_black_box = m_hint_must_use

    def fmtres(self, st, args, destty, span, c):
        k = T("call", ("fmt::Result",) + tuple(self.content(st, a) for a in args[1:]))
        return [(st, Sym(destty, k))]

    m_Formatter_write_fmt = m_Formatter_write_str = fmtres
    m_Formatter_debug_c_like_enum_write_str = m_Formatter_debug_struct_field1_finish = fmtres
    m_Formatter_debug_struct_field2_finish = m_Formatter_debug_struct_field3_finish = fmtres
    m_Formatter_debug_struct_field4_finish = m_Formatter_debug_struct_field5_finish = fmtres
    m_Formatter_debug_tuple_field1_finish = m_Formatter_debug_tuple_field2_finish = fmtres
    m_Formatter_write_char = m_Formatter_pad = fmtres

    def m_ToString_to_string(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        if q is not None:
            return [(st, q)]
        return self.text(st, args)

    # ------------------------------------------------------------------ integers
    def m_int_to_be_bytes(self, st, args, destty, span, c, nb, sg):
        l = args[0].l
        n = nb // 8
        if sg:
            l = wrap(l, nb, False)
        bs = split_bytes(l, n)
        if bs is None:
            bs = [byte_of(l, n - 1 - i, n) for i in range(n)]
        return [(st, lit(self.I.u8(), [Int(b, 8) for b in bs]))]

    def m_int_from_be_bytes(self, st, args, destty, span, c, nb, sg):
        q = self.seqof(st, args[0])
        n = nb // 8
        bs = []
        for i in range(n):
            v = self.I.seq_get(st, q, Lin(i))
            if not isinstance(v, Int):
                return self.pure(st, "from_be_bytes", args, destty)
            bs.append(v.l)
        l = join_bytes(bs)
        if sg:
            l = wrap(l, nb, True)
        return [(st, Int(l, nb, sg))]

    def m_int_to_le_bytes(self, st, args, destty, span, c, nb, sg):
        r = self.m_int_to_be_bytes(st, args, destty, span, c, nb, sg)
        return [(s, Seq(v.ety, (("lit", tuple(reversed(v.segs[0][1]))),))) for s, v in r]

    def m_int_from_le_bytes(self, st, args, destty, span, c, nb, sg):
        q = self.seqof(st, args[0])
        vs = [self.I.seq_get(st, q, Lin(i)) for i in range(nb // 8)]
        return self.m_int_from_be_bytes(st, [lit(q.ety, vs[::-1])], destty, span, c, nb, sg)

    def inrange(self, r, nb, sg):
        lo, hi = trange(nb, sg)
        return c_and([c_ge(r - lo), c_ge(Lin(hi) - r)])

    def arith(self, op, a, b):
        return a + b if op == "add" else a - b if op == "sub" else mul(a, b)

    def checked(op):
        def f(self, st, args, destty, span, c, nb, sg):
            r = self.arith(op, args[0].l, args[1].l)
            y, n = self.I.split(st, self.inrange(r, nb, sg))
            out = []
            if y is not None:
                out.append((y, self.some(destty, Int(r, nb, sg))))
            if n is not None:
                out.append((n, self.none(destty)))
            return out

        return f

    m_int_checked_add = checked("add")
    m_int_checked_sub = checked("sub")
    m_int_checked_mul = checked("mul")

    def saturating(op):
        def f(self, st, args, destty, span, c, nb, sg):
            r = self.arith(op, args[0].l, args[1].l)
            lo, hi = trange(nb, sg)
            return [(st, Int(lmax(lmin(r, Lin(hi)), Lin(lo)), nb, sg))]

        return f

    m_int_saturating_add = saturating("add")
    m_int_saturating_sub = saturating("sub")
    m_int_saturating_mul = saturating("mul")

    def wrapping(op):
        def f(self, st, args, destty, span, c, nb, sg):
            r = self.arith(op, args[0].l, args[1].l)
            return [(st, Int(self.I.fit(st, r, nb, sg), nb, sg))]

        return f

    m_int_wrapping_add = wrapping("add")
    m_int_wrapping_sub = wrapping("sub")
    m_int_wrapping_mul = wrapping("mul")

    def m_int_checked_div(self, st, args, destty, span, c, nb, sg):
        z, n = self.I.split(st, c_eq(args[1].l))
        out = []
        if z is not None:
            out.append((z, self.none(destty)))
        if n is not None:
            out.append((n, self.some(destty, Int(div(args[0].l, args[1].l), nb, sg))))
        return out

    def m_int_pow(self, st, args, destty, span, c, nb, sg):
        a, b = args[0].l.const(), args[1].l.const()
        if a is not None and b is not None:
            return [(st, Int(Lin(a ** b), nb, sg))]
        return self.pure(st, "pow", args, destty)

    def m_int_abs_diff(self, st, args, destty, span, c, nb, sg):
        d = args[0].l - args[1].l
        return [(st, Int(ite(c_ge(d), d, -d), nb, False))]

    def m_int_is_power_of_two(self, st, args, destty, span, c, nb, sg):
        return self.pure(st, "is_power_of_two", args, destty)

    def m_Ord_min(self, st, args, destty, span, c):
        return self.minmax(st, args, True)

    def m_Ord_max(self, st, args, destty, span, c):
        return self.minmax(st, args, False)

    m_cmp_min, m_cmp_max = m_Ord_min, m_Ord_max

    def minmax(self, st, args, mn):
        a, b = args
        if not (isinstance(a, Int) and isinstance(b, Int)):
            return None
        c = c_ge(b.l - a.l)
        if mn:
            y, n = self.I.split(st, c)
        else:
            n, y = self.I.split(st, c)
        out = []
        if y is not None:
            out.append((y, a))
        if n is not None:
            out.append((n, b))
        return self.I.join_outs(out)

    def m_intrinsics_cold_path(self, st, args, destty, span, c):
        return [(st, UNIT_V)]

    def m_intrinsics_raw_eq(self, st, args, destty, span, c):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        return [(st, Bool(self.I.val_eq(st, a, b)))]

    def m_panicking_unreachable_default_msg(self, st, args, destty, span, c):
        return [(st, Opq(None, "msg"))]

    def panic(self, st, args, destty, span, c):
        self.I.oblige(st, "panic:" + c["path"].rsplit("::", 1)[-1], FALSE, span)
        return []

    m_option_expect_failed = m_option_unwrap_failed = m_result_unwrap_failed = m_panicking_panic = panic
    m_panicking_panic_fmt = m_panicking_panic_bounds_check = m_rt_begin_panic = m_rt_panic_fmt = panic
    m_panicking_panic_display = m_panicking_assert_failed = m_panicking_panic_str_2015 = panic
    m_panicking_panic_explicit = m_panicking_unreachable_display = m_panicking_panic_str_literal = panic
    m_rt_panic_display = m_panicking_panic_const = panic

    # ------------------------------------------------------------------ memory helpers
    def m_mem_take(self, st, args, destty, span, c):
        r = args[0]
        v = self.I.deref(st, r)
        outs = self.default(st, destty, span)
        if outs is None:
            return None
        res = []
        for s, d in outs:
            self.I.assign_ref(s, r, d)
            res.append((s, v))
        return res

    def default(self, st, ty, span):
        t = self.t(ty)
        if t["k"] == "adt":
            if t["path"] in SEQ_ADTS:
                return [(st, Seq(self.I.seq_elem_ty(ty), ()))]
            if t["path"] in OPTION:
                return [(st, self.none(ty))]
            for fid, f in self.I.P.fns.items():
                if f.get("trait") == "std::default::Default" and f.get("impl_self") == ty:
                    return self.I.run_fn(st, fid, [])
        if t["k"] == "int":
            return [(st, Int(ZERO, t["bits"], t["signed"]))]
        if t["k"] == "bool":
            return [(st, Bool(FALSE))]
        if t["k"] == "array" and isinstance(t["len"], int):
            r = self.default(st, t["elem"], span)
            if r:
                return [(st, Seq(t["elem"], norm_segs((("rep", r[0][1], Lin(t["len"])),))))]
        return None

    def m_Default_default(self, st, args, destty, span, c):
        return self.default(st, destty, span)

    def m_mem_replace(self, st, args, destty, span, c):
        v = self.I.deref(st, args[0])
        self.I.assign_ref(st, args[0], args[1])
        return [(st, v)]

    def m_mem_swap(self, st, args, destty, span, c):
        v, w = self.I.deref(st, args[0]), self.I.deref(st, args[1])
        self.I.assign_ref(st, args[0], w)
        self.I.assign_ref(st, args[1], v)
        return [(st, UNIT_V)]

    def m_mem_drop(self, st, args, destty, span, c):
        return [(st, UNIT_V)]

    m_mem_forget = m_mem_drop

    def m_mem_size_of(self, st, args, destty, span, c):
        a = [x for x in c.get("args", []) if isinstance(x, int)]
        if a:
            t = self.t(a[0])
            if t["k"] == "int":
                return [(st, Int(Lin(t["bits"] // 8), 64))]
            if t["k"] == "array" and isinstance(t["len"], int) and self.t(t["elem"])["k"] == "int":
                return [(st, Int(Lin(t["len"] * self.t(t["elem"])["bits"] // 8), 64))]
        return self.pure(st, "size_of" + str(a), [], destty)

    def m_Box_new_uninit(self, st, args, destty, span, c):
        o = ("X", fresh_uid())
        st.mem[o] = Opq(None, "uninit")
        return [(st, Ref(o))]

    def m_boxed_box_assume_init_into_vec_unsafe(self, st, args, destty, span, c):
        v = args[0]
        n = 0
        obj = v.obj if isinstance(v, Ref) else None
        while not isinstance(v, Seq) and n < 12:
            n += 1
            if isinstance(v, Ref):
                v = self.I.deref(st, v)
            elif isinstance(v, Agg):
                c2 = [x for x in v.fs if isinstance(x, (Seq, Agg, Ref))]
                if not c2:
                    break
                v = c2[-1]
            else:
                break
        if obj is not None and obj[0] == "X":
            st.mem.pop(obj, None)
        if isinstance(v, Seq):
            ety = self.I.seq_elem_ty(destty)
            return [(st, Seq(ety, v.segs))]
        return [(st, self.I.fresh(destty, "vec"))]

    def m_Box_new(self, st, args, destty, span, c):
        return self.m_Rc_new(st, args, destty, span, c)

    def m_Rc_new(self, st, args, destty, span, c):
        o = ("X", fresh_uid())
        st.mem[o] = args[0]
        return [(st, Ref(o))]

    m_Arc_new = m_Rc_new

    def m_Borrow_borrow(self, st, args, destty, span, c):
        return [(st, args[0])]

    m_AsMut_as_mut = m_BorrowMut_borrow_mut = m_Borrow_borrow

    def m_AsRef_as_ref(self, st, args, destty, span, c):
        if isinstance(self.val(st, args[0]), Sym) and self.t(self.val(st, args[0]).ty)["k"] in ("param", "alias"):
            return self.pure(st, "as_ref", args, destty)
        return [(st, args[0])]

    # ------------------------------------------------------------------ clone, eq, conversions
    def m_Clone_clone(self, st, args, destty, span, c):
        v = args[0]
        if isinstance(v, Ref):
            v = self.I.deref(st, v)
        return [(st, v)]

    def m_ToOwned_to_owned(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        if q is not None:
            return [(st, q)]
        return self.m_Clone_clone(st, args, destty, span, c)

    def m_slice_to_vec(self, st, args, destty, span, c):
        return [(st, self.seqof(st, args[0]))]

    m_slice_into_vec = m_slice_to_vec
    m_str_to_string = m_str_to_owned = m_str_into_string = m_slice_to_vec

    def m_PartialEq_eq(self, st, args, destty, span, c):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        r = (c.get("rpath") or "")
        if not r:
            # resolved by the caller's type parameters: an unknown but deterministic relation
            x, y = self.content(st, a), self.content(st, b)
            if isinstance(x, (Sym, Agg)) or isinstance(y, (Sym, Agg)):
                return [(st, Bool(("atom", T("bool", (T("call", ("eq", x, y)),)))))]
        return self.eq_seqs(st, a, b, c)

    def eq_seqs(self, st, a, b, c):
        I = self.I
        qa, qb = self.seqof(st, a), self.seqof(st, b)
        if qa is not None and qb is not None:
            ety = qa.ety if qa.ety is not None else qb.ety
            if ety is not None and self.t(ety)["k"] == "adt" and self.t(ety).get("local"):
                return self.eq_local(st, qa, qb, ety)
            return [(st, Bool(I.seq_eq(st, qa, qb)))]
        return [(st, Bool(I.val_eq(st, a, b)))]

    def eq_local(self, st, qa, qb, ety):
        """equality of sequences of crate types: deterministic relation"""
        I = self.I
        return [(st, Bool(I.seq_eq(st, qa, qb)))]

    def m_PartialEq_ne(self, st, args, destty, span, c):
        return [(s, Bool(c_not(v.c))) for s, v in self.m_PartialEq_eq(st, args, destty, span, c)]

    def m_From_from(self, st, args, destty, span, c):
        t = self.t(destty)
        v = args[0]
        if t["k"] == "adt" and t["path"] == "std::io::Error":
            # an error made up by the crate
            return [(st, Sym(destty, T("root", ("owerr", 0))))]
        if t["k"] == "adt" and t["path"] in SEQ_ADTS:
            q = self.seqof(st, v)
            if q is not None:
                return [(st, q)]
        if t["k"] in ("int", "char"):
            if isinstance(v, Int):
                return [(st, Int(v.l, t.get("bits", 32), t.get("signed", False)))]
            if isinstance(v, Bool):
                return [(st, Int(ite(v.c, ONE, ZERO), t.get("bits", 32), t.get("signed", False)))]
        return self.pure(st, "from:" + t["name"], args, destty)

    def m_Into_into(self, st, args, destty, span, c):
        v = args[0]
        if isinstance(v, Sym):
            return [(st, self.I.mkval(destty, T("call", ("into", self.I_ty(destty), Sym(None, v.key)))))]
        t = self.t(destty)
        if t["k"] == "adt" and t["path"] in SEQ_ADTS and self.seqof(st, v) is not None:
            return [(st, self.seqof(st, v))]
        return self.pure(st, "into:" + t["name"], args, destty)

    def I_ty(self, ty):
        return self.t(ty)["name"]

    def m_TryFrom_try_from(self, st, args, destty, span, c):
        okty = self.argof(destty, 0)
        t = self.t(okty)
        out = []
        ety = self.argof(destty, 1)
        ev = Opq(ety, "conversion error")
        if t["k"] == "array" and isinstance(t["len"], int):
            q = self.seqof(st, args[0])
            if q is None:
                return self.pure(st, "try_from", args, destty)
            y, n = self.I.split(st, c_eq(seq_len(q) - t["len"]))
            if y is not None:
                vs = [self.I.seq_get(y, q, Lin(i)) for i in range(t["len"])] if t["len"] <= 64 else None
                out.append((y, self.ok(destty, lit(t["elem"], vs) if vs is not None else q)))
            if n is not None:
                out.append((n, self.err(destty, ev)))
            return out
        if t["k"] == "int" and isinstance(args[0], Int):
            y, n = self.I.split(st, self.inrange(args[0].l, t["bits"], t["signed"]))
            if y is not None:
                out.append((y, self.ok(destty, Int(args[0].l, t["bits"], t["signed"]))))
            if n is not None:
                out.append((n, self.err(destty, ev)))
            return out
        return self.pure(st, "try_from", args, destty)

    m_TryInto_try_into = m_TryFrom_try_from

    # ------------------------------------------------------------------ slices, vectors, strings
    def m_Deref_deref(self, st, args, destty, span, c):
        v = args[0]
        if isinstance(v, Ref):
            x = self.I.deref(st, v)
            if isinstance(x, Ref):
                return [(st, x)]  # Box, Rc
        return [(st, v)]

    m_DerefMut_deref_mut = m_Deref_deref
    m_Vec_as_slice = m_Vec_as_mut_slice = m_String_as_str = m_String_as_bytes = m_str_as_bytes = m_Deref_deref
    m_String_as_mut_str = m_Box_as_ref = m_slice_as_ref = m_String_borrow = m_Deref_deref

    def m_Vec_new(self, st, args, destty, span, c):
        return [(st, Seq(self.I.seq_elem_ty(destty), ()))]

    m_String_new = m_Vec_new

    def m_Vec_with_capacity(self, st, args, destty, span, c):
        self.alloc(st, args[0].l, span)
        return [(st, Seq(self.I.seq_elem_ty(destty), ()))]

    m_String_with_capacity = m_Vec_with_capacity

    def m_Vec_reserve(self, st, args, destty, span, c):
        self.alloc(st, args[1].l, span)
        return [(st, UNIT_V)]

    m_String_reserve = m_Vec_reserve_exact = m_Vec_reserve

    def m_Vec_shrink_to_fit(self, st, args, destty, span, c):
        return [(st, UNIT_V)]

    def m_vec_from_elem(self, st, args, destty, span, c):
        self.alloc(st, args[1].l, span)
        return [(st, Seq(self.I.seq_elem_ty(destty), norm_segs((("rep", args[0], args[1].l),))))]

    def alloc(self, st, n, span):
        """memory is requested for n elements: has to be bounded by what was read"""
        lo, hi = n.interval()
        if hi is not None and hi <= 1 << 16:
            self.I.event("alloc", self.I.site(), span, n, True)
            return
        ok = False
        for o, v in st.mem.items():
            if o[0] == "stm":
                if self.I.entails(st, c_ge(slen(v.key) - n + 65536)):
                    ok = True
        self.I.event("alloc", self.I.site(), span, n, ok)

    def m_Vec_len(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        if q is None:
            return self.pure(st, "len", args, destty)
        return [(st, Int(seq_len(q), 64))]

    m_slice_len = m_str_len = m_String_len = m_Vec_len

    def m_Vec_is_empty(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        if q is None:
            return self.pure(st, "is_empty", args, destty)
        return [(st, Bool(c_eq(seq_len(q))))]

    m_slice_is_empty = m_str_is_empty = m_String_is_empty = m_Vec_is_empty

    def m_Vec_capacity(self, st, args, destty, span, c):
        return [(st, self.I.fresh(destty, "cap"))]

    def m_Vec_push(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0]) or (None, None)
        if r is None:
            return self.unknown_call(st, "push", args, destty, span)
        self.I.assign_ref(st, r, cat(q, lit(q.ety, [args[1]])))
        return [(st, UNIT_V)]

    def m_Vec_insert(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        i = args[1].l
        self.I.oblige(st, "bounds", c_ge(seq_len(q) - i), span)
        a = self.I.seq_slice(st, q, ZERO, i)
        b = self.I.seq_slice(st, q, i, seq_len(q) - i)
        self.I.assign_ref(st, r, cat(cat(a, lit(q.ety, [args[2]])), b))
        return [(st, UNIT_V)]

    def m_Vec_pop(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = seq_len(q)
        z, nz = self.I.split(st, c_eq(n))
        out = []
        if z is not None:
            out.append((z, self.none(destty)))
        if nz is not None:
            v = self.I.seq_get(nz, q, n - 1)
            self.I.assign_ref(nz, r, self.I.seq_slice(nz, q, ZERO, n - 1))
            out.append((nz, self.some(destty, v)))
        return out

    def m_Vec_clear(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        self.I.assign_ref(st, r, Seq(q.ety, ()))
        return [(st, UNIT_V)]

    m_String_clear = m_Vec_clear

    def m_Vec_truncate(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = args[1].l
        a, b = self.I.split(st, c_ge(seq_len(q) - n))
        out = []
        if a is not None:
            self.I.assign_ref(a, r, self.I.seq_slice(a, q, ZERO, n))
            out.append((a, UNIT_V))
        if b is not None:
            out.append((b, UNIT_V))
        return out

    def m_Vec_resize(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = args[1].l
        ln = seq_len(q)
        self.alloc(st, n, span)
        a, b = self.I.split(st, c_ge(n - ln))
        out = []
        if a is not None:
            self.I.assign_ref(a, r, Seq(q.ety, norm_segs(q.segs + (("rep", args[2], n - ln),))))
            out.append((a, UNIT_V))
        if b is not None:
            self.I.assign_ref(b, r, self.I.seq_slice(b, q, ZERO, n))
            out.append((b, UNIT_V))
        return out

    def m_Vec_remove(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        i = args[1].l
        n = seq_len(q)
        self.I.oblige(st, "bounds", c_and([c_ge(n - i - 1)]), span)
        v = self.I.seq_get(st, q, i)
        a = self.I.seq_slice(st, q, ZERO, i)
        b = self.I.seq_slice(st, q, i + 1, n - i - 1)
        self.I.assign_ref(st, r, cat(a, b))
        return [(st, v)]

    def m_Vec_swap_remove(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        i = args[1].l
        n = seq_len(q)
        self.I.oblige(st, "bounds", c_and([c_ge(n - i - 1)]), span)
        v = self.I.seq_get(st, q, i)
        last = self.I.seq_get(st, q, n - 1)
        k = T("swaprm", (q, i))
        self.I.assign_ref(st, r, Seq(q.ety, (("opq", k, n - 1),)))
        return [(st, v)]

    def m_Vec_append(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        r2, q2 = self.seqref(st, args[1])
        self.I.assign_ref(st, r, cat(q, q2))
        self.I.assign_ref(st, r2, Seq(q2.ety, ()))
        return [(st, UNIT_V)]

    def m_Vec_extend_from_slice(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        q2 = self.seqof(st, args[1])
        self.I.assign_ref(st, r, cat(q, q2))
        return [(st, UNIT_V)]

    m_String_push_str = m_Vec_extend_from_slice

    def m_String_push(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        v = args[1]
        if isinstance(v, Int) and v.l.interval()[1] is not None and v.l.interval()[1] < 128:
            self.I.assign_ref(st, r, cat(q, lit(q.ety, [Int(v.l, 8)])))
        else:
            k = T("chars", (q, v))
            self.I.assign_ref(st, r, Seq(q.ety, (("opq", k, L(T("len", (k,), 0, MAXLEN))),)))
        return [(st, UNIT_V)]

    def m_slice_iter(self, st, args, destty, span, c):
        rq = self.seqref(st, args[0])
        if rq is None:
            return self.unknown_call(st, "iter", args, destty, span)
        r, q = rq
        return [(st, self.mkiter(r, q))]

    m_slice_iter_mut = m_slice_iter

    def mkiter(self, r, q):
        off, n = r.view if r.view is not None else (ZERO, seq_len(q))
        return It("seq", Ref(r.obj, r.path), Int(off, 64), Int(off + n, 64), None)

    def m_slice_chunks_exact(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        off, n = r.view if r.view is not None else (ZERO, seq_len(q))
        k = args[1].l
        self.I.oblige(st, "panic:chunk size", c_ge(k - 1), span)
        cnt = div(n, k)
        return [(st, It("chunks", Ref(r.obj, r.path), Int(off, 64), Int(ZERO, 64), Int(cnt, 64), Int(k, 64)))]

    def elemref(self, r, idx):
        off = idx + r.view[0] if r.view is not None else idx
        return Ref(r.obj, r.path + (("e", off),))

    def index_range(self, v, n):
        """(kind, start, end) of a range index"""
        if isinstance(v, Int):
            return None
        if isinstance(v, Agg) and v.ty is not None:
            p = self.t(v.ty)["path"].rsplit("::", 1)[-1]
            if p == "Range":
                return v.fs[0].l, v.fs[1].l
            if p == "RangeFrom":
                return v.fs[0].l, n
            if p == "RangeTo":
                return ZERO, v.fs[0].l
            if p == "RangeFull":
                return ZERO, n
            if p == "RangeInclusive":
                return v.fs[0].l, v.fs[1].l + 1
            if p == "RangeToInclusive":
                return ZERO, v.fs[0].l + 1
        return None

    def m_Index_index(self, st, args, destty, span, c):
        rq = self.seqref(st, args[0])
        if rq is None:
            return self.unknown_call(st, "index", args, destty, span)
        r, q = rq
        n = r.view[1] if r.view is not None else seq_len(q)
        ix = args[1]
        if isinstance(ix, Int):
            self.I.oblige(st, "bounds", c_ge(n - ix.l - 1), span)
            return [(st, self.elemref(r, ix.l))]
        rg = self.index_range(ix, n)
        if rg is None:
            self.I.oblige(st, "bounds", FALSE, span)
            return [(st, self.I.mkval(destty, T("root", ("idx", fresh_uid()))))]
        a, b = rg
        self.I.oblige(st, "bounds", c_and([c_ge(b - a), c_ge(n - b)]), span)
        off = r.view[0] if r.view is not None else ZERO
        return [(st, Ref(r.obj, r.path, (off + a, b - a)))]

    m_IndexMut_index_mut = m_Index_index

    def m_slice_get(self, st, args, destty, span, c):
        rq = self.seqref(st, args[0])
        if rq is None:
            return self.unknown_call(st, "get", args, destty, span)
        r, q = rq
        n = r.view[1] if r.view is not None else seq_len(q)
        ix = args[1]
        if isinstance(ix, Int):
            cond = c_ge(n - ix.l - 1)
            ref = self.elemref(r, ix.l)
        else:
            rg = self.index_range(ix, n)
            if rg is None:
                return self.unknown_call(st, "get", args, destty, span)
            a, b = rg
            cond = c_and([c_ge(b - a), c_ge(n - b)])
            off = r.view[0] if r.view is not None else ZERO
            ref = Ref(r.obj, r.path, (off + a, b - a))
        y, nn = self.I.split(st, cond)
        out = []
        if y is not None:
            out.append((y, self.some(destty, ref)))
        if nn is not None:
            out.append((nn, self.none(destty)))
        return out

    m_slice_get_mut = m_slice_get

    def m_slice_first(self, st, args, destty, span, c):
        return self.m_slice_get(st, [args[0], Int(ZERO, 64)], destty, span, c)

    m_slice_first_mut = m_slice_first

    def m_slice_last(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = r.view[1] if r.view is not None else seq_len(q)
        z, nz = self.I.split(st, c_eq(n))
        out = []
        if z is not None:
            out.append((z, self.none(destty)))
        if nz is not None:
            out.append((nz, self.some(destty, self.elemref(r, n - 1))))
        return out

    m_slice_last_mut = m_slice_last

    def m_slice_split_at(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        off, n = r.view if r.view is not None else (ZERO, seq_len(q))
        m = args[1].l
        self.I.oblige(st, "bounds", c_ge(n - m), span)
        return [(st, Agg(None, None, (Ref(r.obj, r.path, (off, m)), Ref(r.obj, r.path, (off + m, n - m)))))]

    m_slice_split_at_mut = m_slice_split_at

    def m_slice_starts_with(self, st, args, destty, span, c):
        q, p = self.seqof(st, args[0]), self.seqof(st, args[1])
        n = seq_len(p)
        cond = c_ge(seq_len(q) - n)
        s2 = st.copy()
        s2.add(cond)
        return [(st, Bool(c_and([cond, self.I.seq_eq(s2, self.I.seq_slice(s2, q, ZERO, n), p)])))]

    def m_slice_contains(self, st, args, destty, span, c):
        I = self.I
        q = self.seqof(st, args[0])
        x = self.val(st, args[1])
        if len(q.segs) == 1 and q.segs[0][0] == "lit":
            return [(st, Bool(c_or([I.val_eq(st, self.val(st, e), x) for e in q.segs[0][1]])))]
        return self.pure(st, "contains", args, destty)

    def m_slice_copy_from_slice(self, st, args, destty, span, c):
        q2 = self.seqof(st, args[1])
        r, q = self.seqref(st, args[0])
        n = r.view[1] if r.view is not None else seq_len(q)
        self.I.oblige(st, "panic:copy_from_slice", c_eq(n - seq_len(q2)), span)
        self.I.assign_ref(st, r, q2)
        return [(st, UNIT_V)]

    m_slice_clone_from_slice = m_slice_copy_from_slice

    def m_slice_fill(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = r.view[1] if r.view is not None else seq_len(q)
        self.I.assign_ref(st, r, Seq(q.ety, norm_segs((("rep", args[1], n),))))
        return [(st, UNIT_V)]

    def m_slice_concat(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        out = Seq(self.I.u8(), ())
        if all(g[0] == "lit" for g in q.segs):
            for g in q.segs:
                for v in g[1]:
                    out = cat(out, self.seqof(st, v))
            return [(st, out)]
        return self.pure(st, "concat", args, destty)

    # strings
    def m_str_encode_utf16(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        key = T("u16of", (q,))
        n = L(T("u16len", (key,), 0, MAXLEN))
        return [(st, It("own", Seq(self.I.P.ty("u16"), norm_segs((("u16", key, ZERO, n),))), Int(ZERO, 64), Int(n, 64), None))]

    def m_str_chars(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        key = T("charsof", (q,))
        n = L(T("charlen", (key,), 0, MAXLEN))
        st.add(c_ge(seq_len(q) - n))
        st.add(c_ge(n.scale(4) - seq_len(q)))
        return [(st, It("own", Seq(self.I.P.ty("char"), norm_segs((("sym", key, ZERO, n),))), Int(ZERO, 64), Int(n, 64), None))]

    def m_String_from_utf8(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        return self.decode(st, c_atom(T("utf8ok", (q,))), q, destty)

    m_str_from_utf8 = m_String_from_utf8

    def m_String_from_utf16(self, st, args, destty, span, c):
        q = self.seqof(st, args[0])
        k = T("u16dec", (q,))
        return self.decode(st, c_atom(T("u16ok", (q,))), Seq(self.I.u8(), (("opq", k, L(T("len", (k,), 0, MAXLEN))),)), destty)

    def decode(self, st, cond, v, destty):
        y, n = self.I.split(st, cond)
        out = []
        if y is not None:
            out.append((y, self.ok(destty, v)))
        if n is not None:
            if not n.mem.get(FLAG):
                n.mem[FLAG] = FAIL_DEC
            ety = self.argof(destty, 1)
            out.append((n, self.err(destty, Sym(ety, T("root", ("decerr", 0))))))
        return out

    def m_String_from_utf8_lossy(self, st, args, destty, span, c):
        return self.pure(st, "from_utf8_lossy", args, destty)

    m_String_from_utf16_lossy = m_String_from_utf8_lossy

    def m_String_into_bytes(self, st, args, destty, span, c):
        return [(st, self.seqof(st, args[0]))]

    m_String_into_boxed_str = m_Vec_into_boxed_slice = m_String_into_bytes

    # ------------------------------------------------------------------ iterators
    def m_IntoIterator_into_iter(self, st, args, destty, span, c):
        v = args[0]
        if isinstance(v, It):
            return [(st, v)]
        if isinstance(v, Ref):
            rq = self.seqref(st, v)
            if rq:
                return [(st, self.mkiter(*rq))]
            x = self.I.deref(st, v)
            if isinstance(x, It):
                return [(st, v)]
        if isinstance(v, Sym) and self.I.is_seq_ty(v.ty):
            v = self.I.mkval(v.ty, v.key)
        if isinstance(v, Seq):
            return [(st, It("own", v, Int(ZERO, 64), Int(seq_len(v), 64), None))]
        if isinstance(v, Sym):
            t = self.t(v.ty)
            ety = self.I.P.item_of.get(v.ty)
            if ety is None:
                ety = self.item_ty(t["name"])
            if ety is not None:
                q = self.I.mkseq(ety, v.key)
                return [(st, It("own", q, Int(ZERO, 64), Int(seq_len(q), 64), None))]
            if t["k"] == "adt" and t["path"] in OPTION:
                return [(st, It("once", v))]
        if isinstance(v, Agg) and v.ty is not None and self.t(v.ty)["k"] == "adt":
            p = self.t(v.ty)["path"]
            if p in OPTION:
                ety = self.argof(v.ty, 0)
                q = lit(ety, v.fs if v.var == 1 else [])
                return [(st, It("own", q, Int(ZERO, 64), Int(seq_len(q), 64), None))]
            return [(st, v)]  # ranges and iterators implemented by the crate
        return self.unknown_call(st, "into_iter", args, destty, span)

    def item_ty(self, name):
        m = re.search(r"Item = ([^>]+(?:<[^>]*>)?)>", name)
        if not m:
            return None
        w = m.group(1).strip()
        for i, t in enumerate(self.I.types):
            if t["name"] == w:
                return i
        for i, t in enumerate(self.I.types):
            if t["name"].endswith("::" + w):
                return i
        # generic argument paths are shortened in the name of the parameter
        w2 = re.sub(r"[\w]+::", "", w)
        for i, t in enumerate(self.I.types):
            if re.sub(r"[\w]+::", "", t["name"]) == w2:
                return i
        return None

    def adapter(k):
        def f(self, st, args, destty, span, c):
            return [(st, It(k, *args))]

        return f

    m_iter_map = adapter("map")
    m_iter_filter_map = adapter("fmap")
    m_iter_filter = adapter("filter")
    m_iter_rev = adapter("rev")
    m_iter_cloned = adapter("cloned")
    m_iter_copied = adapter("cloned")
    m_iter_take_while = adapter("takew")
    m_iter_inspect = adapter("inspect")
    m_iter_by_ref = lambda self, st, args, destty, span, c: [(st, args[0])]
    m_iter_fuse = lambda self, st, args, destty, span, c: [(st, args[0])]

    def m_iter_flat_map(self, st, args, destty, span, c):
        return [(st, It("flat", args[0], args[1], Agg(None, "nofront", ())))]

    def m_iter_flatten(self, st, args, destty, span, c):
        return [(st, It("flat", args[0], Agg(None, "id", ()), Agg(None, "nofront", ())))]

    def m_iter_chain(self, st, args, destty, span, c):
        outs = self.m_IntoIterator_into_iter(st, [args[1]], destty, span, c)
        return [(s, It("chain", args[0], b, Bool(FALSE))) for s, b in outs]

    def m_iter_zip(self, st, args, destty, span, c):
        outs = self.m_IntoIterator_into_iter(st, [args[1]], destty, span, c)
        return [(s, It("zip", args[0], b)) for s, b in outs]

    def m_iter_enumerate(self, st, args, destty, span, c):
        return [(st, It("enum", args[0], Int(ZERO, 64)))]

    def m_iter_skip(self, st, args, destty, span, c):
        it = args[0]
        if isinstance(it, It) and it.k in ("seq", "own"):
            p = lmin(it.a[1].l + args[1].l, it.a[2].l)
            return [(st, It(it.k, it.a[0], Int(p, 64), it.a[2], it.a[3]))]
        return None

    def m_iter_take(self, st, args, destty, span, c):
        it = args[0]
        if isinstance(it, It) and it.k in ("seq", "own"):
            p = lmin(it.a[1].l + args[1].l, it.a[2].l)
            return [(st, It(it.k, it.a[0], it.a[1], Int(p, 64), it.a[3]))]
        return [(st, It("taken", it, args[1]))]

    def iter_len(self, it):
        if isinstance(it, It):
            if it.k in ("seq", "own"):
                return it.a[2].l - it.a[1].l
            if it.k == "chunks":
                return it.a[3].l - it.a[2].l
            if it.k in ("map", "cloned", "rev", "enum", "inspect"):
                return self.iter_len(it.a[0])
        return None

    def m_iter_len(self, st, args, destty, span, c):
        n = self.iter_len(self.val(st, args[0]))
        if n is None:
            return None
        return [(st, Int(n, 64))]

    def m_iter_size_hint(self, st, args, destty, span, c):
        return self.pure(st, "size_hint", args, destty)

    def m_ChunksExact_remainder(self, st, args, destty, span, c):
        return self.pure(st, "remainder", args, destty)

    def inext(self, st, it, span=None):
        """[(state, iterator, item or None)]; a state with a phase set has to be passed on"""
        I = self.I
        if isinstance(it, Ref):
            outs = []
            for s, it2, x in self.inext(st, I.deref(st, it), span):
                if not s.phase:
                    I.assign_ref(s, it, it2)
                outs.append((s, it, x))
            return outs
        if isinstance(it, Agg) and it.ty is not None:
            return self.range_next(st, it)
        if not isinstance(it, It):
            if isinstance(it, Sym):
                it = self.m_IntoIterator_into_iter(st, [it], None, span, None)[0][1]
            if not isinstance(it, It):
                raise AnalysisError("iteration over %r" % (it,))
        k = it.k
        if k in ("seq", "own"):
            src, pos, end, trunc = it.a
            y, n = I.split(st, c_ge(end.l - pos.l - 1))
            out = []
            if y is not None:
                if k == "seq":
                    x = Ref(src.obj, src.path + (("e", pos.l),))
                else:
                    x = I.seq_get(y, src, pos.l)
                for s in self.told_apart(y, src, pos.l):
                    if k != "seq":
                        x = I.seq_get(s, src, pos.l)
                    out.append((s, It(k, src, Int(pos.l + 1, 64), end, trunc), x))
            if n is not None:
                if trunc is not None:
                    n = n.copy()
                    n.phase = trunc.fs[0].l.const()
                    # the position is at the end of the segment
                    n.add(c_eq(pos.l - end.l))
                    out.append((n, it, None))
                else:
                    out.append((n, it, None))
            return out
        if k == "once":
            v = it.a[0]
            raise AnalysisError("iteration over an unknown option")
        if k == "chunks":
            src, off, i, cnt, n = it.a
            y, no = I.split(st, c_ge(cnt.l - i.l - 1))
            out = []
            if y is not None:
                x = Ref(src.obj, src.path, (off.l + mul(i.l, n.l), n.l))
                out.append((y, It(k, src, off, Int(i.l + 1, 64), cnt, n), x))
            if no is not None:
                out.append((no, it, None))
            return out
        if k == "map":
            out = []
            for s, i2, x in self.inext(st, it.a[0], span):
                if x is None:
                    out.append((s, It(k, i2, it.a[1]), None))
                    continue
                for s2, v in self.invoke(s, it.a[1], [x], self.ret_ty(it.a[1], s), span):
                    out.append((s2, It(k, i2, it.a[1]), v))
            return out
        if k in ("cloned",):
            return [(s, It(k, i2), None if x is None else (I.deref(s, x) if isinstance(x, Ref) else x)) for s, i2, x in self.inext(st, it.a[0], span)]
        if k == "enum":
            return [
                (s, It(k, i2, it.a[1] if x is None else Int(it.a[1].l + 1, 64)), None if x is None else Agg(None, None, (it.a[1], x)))
                for s, i2, x in self.inext(st, it.a[0], span)
            ]
        if k == "inspect":
            out = []
            for s, i2, x in self.inext(st, it.a[0], span):
                if x is None:
                    out.append((s, It(k, i2, it.a[1]), None))
                    continue
                o = self.virt(s, x)
                for s2, v in self.invoke(s, it.a[1], [Ref(o)], self.ret_ty(it.a[1], s), span):
                    s2.mem.pop(o, None)
                    out.append((s2, It(k, i2, it.a[1]), x))
            return out
        if k == "zip":
            out = []
            for s, i2, x in self.inext(st, it.a[0], span):
                if x is None:
                    out.append((s, It(k, i2, it.a[1]), None))
                    continue
                for s2, j2, y in self.inext(s, it.a[1], span):
                    out.append((s2, It(k, i2, j2), None if y is None else Agg(None, None, (x, y))))
            return out
        if k == "rev":
            return self.inext_back(st, it, span)
        if k == "chain":
            out = []
            d = I.decide(st, it.a[2].c)
            if d is None:
                y, n = I.split(st, it.a[2].c)
                return self.inext(y, It(k, it.a[0], it.a[1], Bool(TRUE)), span) + self.inext(n, It(k, it.a[0], it.a[1], Bool(FALSE)), span)
            if d is False:
                for s, i2, x in self.inext(st, it.a[0], span):
                    if x is not None or s.phase:
                        out.append((s, It(k, i2, it.a[1], Bool(FALSE)), x))
                        continue
                    for s2, j2, y in self.inext(s, it.a[1], span):
                        out.append((s2, It(k, i2, j2, Bool(TRUE)), y))
                return out
            return [(s, It(k, it.a[0], j2, Bool(TRUE)), y) for s, j2, y in self.inext(st, it.a[1], span)]
        if k in ("fmap", "filter", "flat"):
            # skips elements: a loop of its own
            return self.skip_loop(st, it, span)
        if k == "takew":
            out = []
            for s, i2, x in self.inext(st, it.a[0], span):
                if x is None:
                    out.append((s, It(k, i2, it.a[1]), None))
                    continue
                o = self.virt(s, x)
                for s2, v in self.invoke(s, it.a[1], [Ref(o)], I.P.ty("bool"), span):
                    s2.mem.pop(o, None)
                    y, n = I.split(s2, v.c)
                    if y is not None:
                        out.append((y, It(k, i2, it.a[1]), x))
                    if n is not None:
                        e = Seq(None, ())
                        out.append((n, It("own", e, Int(ZERO, 64), Int(ZERO, 64), None), None))
            return out
        if k == "taken":
            z, nz = I.split(st, c_eq(it.a[1].l))
            out = []
            if z is not None:
                out.append((z, it, None))
            if nz is not None:
                out += [(s, It(k, i2, Int(it.a[1].l - 1, 64)), x) for s, i2, x in self.inext(nz, it.a[0], span)]
            return out
        raise AnalysisError("iterator %s" % k)

    def told_apart(self, st, src, pos):
        """states for the different forms of an element"""
        I = self.I
        q = I.load(st, src.obj, src.path) if isinstance(src, Ref) else src
        r = I.seg_at(st, q, pos) if isinstance(q, Seq) else None
        g = q.segs[r[0]] if r is not None else None
        if g is None or g[0] != "loop" or not 1 < len(g[3]) <= 8 or not all(len(y) == 1 and y[0][0] == "lit" and len(y[0][1]) == 1 and isinstance(y[0][1][0], Agg) for _, y in g[3]):
            return [st]
        out = []
        rest = st
        for c, _ in g[3]:
            c = Subst({g[2]: r[1]}).cond(c)
            if rest is None:
                break
            s, rest = I.split(rest, c)
            if s is not None:
                out.append(s)
        return out

    def inext_back(self, st, it, span):
        I = self.I
        inner = it.a[0]
        if isinstance(inner, It) and inner.k in ("seq", "own"):
            src, pos, end, trunc = inner.a
            y, n = I.split(st, c_ge(end.l - pos.l - 1))
            out = []
            if y is not None:
                if inner.k == "seq":
                    x = Ref(src.obj, src.path + (("e", end.l - 1),))
                else:
                    x = I.seq_get(y, src, end.l - 1)
                out.append((y, It("rev", It(inner.k, src, pos, Int(end.l - 1, 64), trunc)), x))
            if n is not None:
                out.append((n, it, None))
            return out
        if isinstance(inner, It) and inner.k in ("map", "cloned", "inspect"):
            outs = []
            for s, i2, x in self.inext_back(st, It("rev", inner.a[0]), span):
                j2 = It(inner.k, i2.a[0], *inner.a[1:])
                if x is None:
                    outs.append((s, It("rev", j2), None))
                elif inner.k == "cloned":
                    outs.append((s, It("rev", j2), I.deref(s, x) if isinstance(x, Ref) else x))
                else:
                    for s2, v in self.invoke(s, inner.a[1], [x], self.ret_ty(inner.a[1], s), span):
                        outs.append((s2, It("rev", j2), v))
            return outs
        if isinstance(inner, Agg) and inner.ty is not None:
            a, b = inner.fs[0], inner.fs[1]
            y, n = I.split(st, c_ge(b.l - a.l - 1))
            out = []
            if y is not None:
                x = Int(b.l - 1, b.bits, b.signed)
                out.append((y, It("rev", Agg(inner.ty, inner.var, (a, x))), x))
            if n is not None:
                out.append((n, it, None))
            return out
        raise AnalysisError("reversed iterator %r" % (inner,))

    def range_next(self, st, it):
        I = self.I
        p = self.t(it.ty)["path"].rsplit("::", 1)[-1]
        if p == "Range":
            a, b = it.fs
            y, n = I.split(st, c_ge(b.l - a.l - 1))
            out = []
            if y is not None:
                out.append((y, Agg(it.ty, it.var, (Int(a.l + 1, a.bits, a.signed), b)), a))
            if n is not None:
                out.append((n, it, None))
            return out
        if p == "RangeInclusive":
            a, b = it.fs[0], it.fs[1]
            ex = it.fs[2] if len(it.fs) > 2 else Bool(FALSE)
            y, n = I.split(st, c_and([c_ge(b.l - a.l), c_not(ex.c)]))
            out = []
            if y is not None:
                q, last = I.split(y, c_ge(b.l - a.l - 1))
                if q is not None:
                    out.append((q, Agg(it.ty, it.var, (Int(a.l + 1, a.bits, a.signed), b, ex)), a))
                if last is not None:
                    out.append((last, Agg(it.ty, it.var, (a, b, Bool(TRUE))), a))
            if n is not None:
                out.append((n, it, None))
            return out
        if p == "RangeFrom":
            a = it.fs[0]
            return [(st, Agg(it.ty, it.var, (Int(a.l + 1, a.bits, a.signed),)), a)]
        # an iterator of the crate
        for fid, f in I.P.fns.items():
            if f.get("trait") == "std::iter::Iterator" and f["path"].endswith("::next") and f.get("impl_self") == it.ty:
                o = self.virt(st, it)
                out = []
                for s, v in I.run_fn(st, fid, [Ref(o)]):
                    it2 = s.mem.pop(o)
                    if isinstance(v, Agg):
                        out.append((s, it2, v.fs[0] if v.var == 1 else None))
                    else:
                        raise AnalysisError("iterator result")
                return out
        raise AnalysisError("iteration over %s" % self.t(it.ty)["name"])

    def skip_loop(self, st, it, span):
        I = self.I
        st = st.copy()
        o = self.virt(st, it)
        r = self.virt(st, UNINIT)
        bo = I.P.ty("bool")

        def step(s):
            backs, exits = [], []
            cur = s.mem[o]
            k = cur.k
            if k == "flat" and isinstance(cur.a[2], (It, Ref)) or k == "flat" and isinstance(cur.a[2], Agg) and cur.a[2].ty is not None:
                for s2, f2, x in self.inext(s, cur.a[2], span):
                    if s2.phase:
                        exits.append(("ret", s2))
                    elif x is not None:
                        s2.mem[o] = It("flat", cur.a[0], cur.a[1], f2)
                        s2.mem[r] = x
                        exits.append(("some", s2))
                    else:
                        s2.mem[o] = It("flat", cur.a[0], cur.a[1], Agg(None, "nofront", ()))
                        backs.append(s2)
                return backs, exits
            for s2, i2, x in self.inext(s, cur.a[0], span):
                if s2.phase:
                    exits.append(("ret", s2))
                    continue
                if x is None:
                    s2.mem[o] = It(k, i2, *cur.a[1:])
                    exits.append(("none", s2))
                    continue
                if k == "fmap":
                    for s3, v in self.invoke(s2, cur.a[1], [x], self.ret_ty(cur.a[1], s2), span):
                        s3.mem[o] = It(k, i2, cur.a[1])
                        for s4, y in self.option_cases(s3, v):
                            if y is None:
                                backs.append(s4)
                            else:
                                s4.mem[r] = y
                                exits.append(("some", s4))
                elif k == "filter":
                    vo = self.virt(s2, x)
                    for s3, v in self.invoke(s2, cur.a[1], [Ref(vo)], bo, span):
                        s3.mem.pop(vo, None)
                        s3.mem[o] = It(k, i2, cur.a[1])
                        y, n = I.split(s3, v.c)
                        if y is not None:
                            y.mem[r] = x
                            exits.append(("some", y))
                        if n is not None:
                            n.mem[o] = It(k, i2, cur.a[1])
                            backs.append(n)
                else:  # flat
                    if isinstance(cur.a[1], Agg) and cur.a[1].var == "id":
                        rs = [(s2, x)]
                    else:
                        rs = self.invoke(s2, cur.a[1], [x], self.ret_ty(cur.a[1], s2), span)
                    for s3, v in rs:
                        for s4, f in self.m_IntoIterator_into_iter(s3, [v], None, span, None):
                            s4.mem[o] = It("flat", i2, cur.a[1], f)
                            backs.append(s4)
            return backs, exits

        def restrict(s):
            pass

        out = []
        for lab, s in I.loopx.loop(st, step, restrict, ("next:" + it.k, span), span):
            it2 = s.mem.pop(o)
            x = s.mem.pop(r)
            if s.phase:
                out.append((s, it2, None))
            elif lab == "some":
                out.append((s, it2, x))
            else:
                out.append((s, it2, None))
        return out

    def option_cases(self, st, v):
        """[(state, payload or None)] of an option value"""
        I = self.I
        if isinstance(v, Agg):
            return [(st, v.fs[0] if v.var == 1 else None)]
        if isinstance(v, Sym):
            dis = I.dis(v.ty, v.key)
            if isinstance(dis, Term) and dis.kind == "dis":
                o = ("V", fresh_uid())
                s0 = st.copy()
                s0.mem[o] = v
                r = I.loopx.expand(s0, dis)
                if r is not None:
                    out = []
                    for s in r:
                        v2 = s.mem.pop(o)
                        out.extend(self.option_cases(s, v2))
                    return out
            y, n = I.split(st, c_eq(L(dis) - 1))
            out = []
            if y is not None:
                a = I.open(y, v, 1)
                out.append((y, a.fs[0]))
            if n is not None:
                out.append((n, None))
            return out
        raise AnalysisError("option value %r" % (v,))

    def m_iter_next(self, st, args, destty, span, c):
        r = args[0]
        outs = []
        for s, it2, x in self.inext(st, r, span):
            if s.phase:
                outs.append((s, None))
                continue
            outs.append((s, self.opt(destty, x)))
        return outs

    def m_iter_next_back(self, st, args, destty, span, c):
        I = self.I
        r = args[0]
        it = I.deref(st, r)
        outs = []
        for s, it2, x in self.inext_back(st, It("rev", it), span):
            I.assign_ref(s, r, it2.a[0])
            outs.append((s, self.opt(destty, x)))
        return outs

    # consumers -------------------------------------------------------
    def consume(self, st, it, init, body, span, what):
        """loops over it. body(state, item, accobj) -> [(kind, state)] with kind None (go on) or an
        exit label. Returns [(label or 'end', state, accumulator)]"""
        I = self.I
        if isinstance(it, It) and it.k in ("fmap", "filter"):
            return self.consume(st, it.a[0], init, self.skipping(it, body, span), span, what)
        st = st.copy()
        byref = isinstance(it, Ref)
        o = None if byref else self.virt(st, it)
        a = self.virt(st, init)
        ref = it if byref else Ref(o)

        def step(s):
            backs, exits = [], []
            for s2, i2, x in self.inext(s, ref, span):
                if s2.phase:
                    exits.append(("ret", s2))
                elif x is None:
                    exits.append(("end", s2))
                else:
                    for lab, s3 in body(s2, x, a):
                        if lab is None and not s3.phase:
                            backs.append(s3)
                        else:
                            exits.append((lab or "ret", s3))
            return backs, exits

        out = []
        for lab, s in I.loopx.loop(st, step, lambda s: None, (what, span), span):
            if o is not None:
                s.mem.pop(o, None)
            v = s.mem.pop(a, UNINIT)
            out.append((lab, s, v))
        return out

    def skipping(self, it, body, span):
        """the body of a loop over the items that are not skipped"""
        I = self.I
        bo = I.P.ty("bool")

        def mapped(s, x, a):
            out = []
            for s2, v in self.invoke(s, it.a[1], [x], self.ret_ty(it.a[1], s), span):
                if s2.phase:
                    out.append((None, s2))
                    continue
                for s3, y in self.option_cases(s2, v):
                    out += [(None, s3)] if y is None else body(s3, y, a)
            return out

        def filtered(s, x, a):
            out = []
            vo = self.virt(s, x)
            for s2, v in self.invoke(s, it.a[1], [Ref(vo)], bo, span):
                if s2.phase:
                    out.append((None, s2))
                    continue
                s2.mem.pop(vo, None)
                y, n = I.split(s2, v.c)
                if y is not None:
                    out += body(y, x, a)
                if n is not None:
                    out.append((None, n))
            return out

        return mapped if it.k == "fmap" else filtered

    def finish(self, outs, f):
        res = []
        for lab, s, v in outs:
            if s.phase:
                res.append((s, None))
            else:
                res.append((s, f(lab, s, v)))
        return res

    def refitem(self, s, x):
        o = self.virt(s, x)
        return o, Ref(o)

    def m_iter_find(self, st, args, destty, span, c):
        I = self.I
        bo = I.P.ty("bool")

        def body(s, x, a):
            o, r = self.refitem(s, x)
            out = []
            for s2, v in self.invoke(s, args[1], [r], bo, span):
                s2.mem.pop(o, None)
                if s2.phase:
                    out.append((None, s2))
                    continue
                y, n = I.split(s2, v.c)
                if y is not None:
                    y.mem[a] = x
                    out.append(("found", y))
                if n is not None:
                    out.append((None, n))
            return out

        return self.finish(self.consume(st, args[0], UNINIT, body, span, "find"), lambda lab, s, v: self.opt(destty, v if lab == "found" else None))

    def m_iter_any(self, st, args, destty, span, c):
        return self.anyall(st, args, span, True)

    def m_iter_all(self, st, args, destty, span, c):
        return self.anyall(st, args, span, False)

    def anyall(self, st, args, span, isany):
        I = self.I
        bo = I.P.ty("bool")

        def body(s, x, a):
            out = []
            for s2, v in self.invoke(s, args[1], [x], bo, span):
                if s2.phase:
                    out.append((None, s2))
                    continue
                y, n = I.split(s2, v.c)
                if y is not None:
                    out.append(("found" if isany else None, y))
                if n is not None:
                    out.append((None if isany else "found", n))
            return out

        outs = self.consume(st, args[0], UNINIT, body, span, "any" if isany else "all")
        return self.finish(outs, lambda lab, s, v: Bool(TRUE if (lab == "found") == isany else FALSE))

    def m_iter_position(self, st, args, destty, span, c):
        I = self.I
        bo = I.P.ty("bool")

        def body(s, x, a):
            out = []
            for s2, v in self.invoke(s, args[1], [x], bo, span):
                if s2.phase:
                    out.append((None, s2))
                    continue
                y, n = I.split(s2, v.c)
                if y is not None:
                    out.append(("found", y))
                if n is not None:
                    n.mem[a] = Int(n.mem[a].l + 1, 64)
                    out.append((None, n))
            return out

        outs = self.consume(st, args[0], Int(ZERO, 64), body, span, "position")
        return self.finish(outs, lambda lab, s, v: self.opt(destty, v if lab == "found" else None))

    def m_iter_find_map(self, st, args, destty, span, c):
        def body(s, x, a):
            out = []
            for s2, v in self.invoke(s, args[1], [x], self.ret_ty(args[1], s), span):
                if s2.phase:
                    out.append((None, s2))
                    continue
                for s3, y in self.option_cases(s2, v):
                    if y is None:
                        out.append((None, s3))
                    else:
                        s3.mem[a] = y
                        out.append(("found", s3))
            return out

        outs = self.consume(st, args[0], UNINIT, body, span, "find_map")
        return self.finish(outs, lambda lab, s, v: self.opt(destty, v if lab == "found" else None))

    def m_iter_fold(self, st, args, destty, span, c):
        def body(s, x, a):
            out = []
            for s2, v in self.invoke(s, args[2], [s.mem[a], x], destty, span):
                if not s2.phase:
                    s2.mem[a] = v
                out.append((None, s2))
            return out

        return self.finish(self.consume(st, args[0], args[1], body, span, "fold"), lambda lab, s, v: v)

    def m_iter_for_each(self, st, args, destty, span, c):
        def body(s, x, a):
            return [(None, s2) for s2, v in self.invoke(s, args[1], [x], destty, span)]

        return self.finish(self.consume(st, args[0], UNINIT, body, span, "for_each"), lambda lab, s, v: UNIT_V)

    def m_iter_try_for_each(self, st, args, destty, span, c):
        okv = self.t(destty)

        def body(s, x, a):
            out = []
            for s2, v in self.invoke(s, args[1], [x], destty, span):
                if s2.phase:
                    out.append((None, s2))
                elif isinstance(v, Agg) and okv["path"] in RESULT:
                    if v.var == 1:
                        s2.mem[a] = v
                        out.append(("break", s2))
                    else:
                        out.append((None, s2))
                else:
                    raise AnalysisError("try_for_each")
            return out

        outs = self.consume(st, args[0], UNINIT, body, span, "try_for_each")
        return self.finish(outs, lambda lab, s, v: v if lab == "break" else self.ok(destty))

    def m_iter_count(self, st, args, destty, span, c):
        n = self.iter_len(args[0])
        if n is not None and self.pureit(args[0]):
            return [(st, Int(n, 64))]

        def body(s, x, a):
            s.mem[a] = Int(s.mem[a].l + 1, 64)
            return [(None, s)]

        return self.finish(self.consume(st, args[0], Int(ZERO, 64), body, span, "count"), lambda lab, s, v: v)

    def pureit(self, it):
        return isinstance(it, It) and (it.k in ("seq", "own", "chunks") or it.k in ("rev", "cloned", "enum") and self.pureit(it.a[0]))

    def m_iter_sum(self, st, args, destty, span, c):
        t = self.t(destty)
        if t["k"] != "int":
            return None
        I = self.I

        def body(s, x, a):
            if isinstance(x, Ref):
                x = I.deref(s, x)
            r = s.mem[a].l + x.l
            I.oblige(s, "overflow:sum", self.inrange(r, t["bits"], t["signed"]), span)
            s.mem[a] = Int(r, t["bits"], t["signed"])
            return [(None, s)]

        return self.finish(self.consume(st, args[0], Int(ZERO, t["bits"], t["signed"]), body, span, "sum"), lambda lab, s, v: v)

    def extremum(mx):
        def f(self, st, args, destty, span, c):
            I = self.I

            def body(s, x, a):
                cur = s.mem[a]
                if not isinstance(cur, Agg) or cur.var == 0:
                    s.mem[a] = self.some(destty, x)
                    return [(None, s)]
                xv, cv = self.val(s, x), self.val(s, cur.fs[0])
                if not isinstance(xv, Int):
                    raise AnalysisError("extremum")
                y, n = I.split(s, c_ge(xv.l - cv.l) if mx else c_ge(cv.l - xv.l - 1))
                out = []
                if y is not None:
                    y.mem[a] = self.some(destty, x)
                    out.append((None, y))
                if n is not None:
                    out.append((None, n))
                return out

            return self.finish(self.consume(st, args[0], self.none(destty), body, span, "max"), lambda lab, s, v: v)

        return f

    m_iter_max = extremum(True)
    m_iter_min = extremum(False)

    def m_iter_last(self, st, args, destty, span, c):
        def body(s, x, a):
            s.mem[a] = self.some(destty, x)
            return [(None, s)]

        return self.finish(self.consume(st, args[0], self.none(destty), body, span, "last"), lambda lab, s, v: v)

    def m_iter_nth(self, st, args, destty, span, c):
        I = self.I
        it = I.deref(st, args[0]) if isinstance(args[0], Ref) else args[0]
        if isinstance(it, It) and it.k in ("seq", "own") and isinstance(args[0], Ref):
            src, pos, end, tr = it.a
            p = pos.l + args[1].l
            y, n = I.split(st, c_ge(end.l - p - 1))
            out = []
            if y is not None:
                x = Ref(src.obj, src.path + (("e", p),)) if it.k == "seq" else I.seq_get(y, src, p)
                I.assign_ref(y, args[0], It(it.k, src, Int(p + 1, 64), end, tr))
                out.append((y, self.some(destty, x)))
            if n is not None:
                I.assign_ref(n, args[0], It(it.k, src, end, end, tr))
                out.append((n, self.none(destty)))
            return out
        k = args[1].l.const()
        if k is None or k > 16:
            return None
        work = [st]
        out = []
        for i in range(k + 1):
            nxt = []
            for s in work:
                for s2, it2, x in self.inext(s, args[0], span):
                    if s2.phase:
                        out.append((s2, None))
                    elif x is None:
                        out.append((s2, self.none(destty)))
                    elif i == k:
                        out.append((s2, self.some(destty, x)))
                    else:
                        nxt.append(s2)
            work = nxt
        return out

    def m_iter_collect(self, st, args, destty, span, c):
        return self.collect(st, args[0], destty, span)

    def m_FromIterator_from_iter(self, st, args, destty, span, c):
        return self.collect(st, args[0], destty, span)

    def collect(self, st, it, destty, span):
        t = self.t(destty)
        I = self.I
        if t["k"] == "adt" and t["path"] in SEQ_ADTS:
            ety = I.seq_elem_ty(destty)
            if t["path"].endswith("String"):
                return self.pure(st, "collect", [it], destty)
            if isinstance(it, It) and it.k == "own" and it.a[3] is None:
                return [(st, I.seq_slice(st, it.a[0], it.a[1].l, it.a[2].l - it.a[1].l))]
            return self.finish(self.consume(st, it, Seq(ety, ()), self.pusher, span, "collect"), lambda lab, s, v: v)
        if t["k"] == "adt" and (t["path"] in RESULT or t["path"] in OPTION):
            inner = self.argof(destty, 0)
            good = 0 if t["path"] in RESULT else 1
            if self.t(inner)["k"] == "adt" and self.t(inner)["path"] in SEQ_ADTS:
                ety = I.seq_elem_ty(inner)

                def body(s, x, a):
                    if not isinstance(x, Agg):
                        raise AnalysisError("collect of unknown results")
                    if x.var == good:
                        s.mem[a] = cat(s.mem[a], lit(ety, [x.fs[0]]))
                        return [(None, s)]
                    s.mem[a] = Agg(destty, x.var, x.fs)
                    return [("bad", s)]

                outs = self.consume(st, it, Seq(ety, ()), body, span, "collect")
                return self.finish(outs, lambda lab, s, v: v if lab == "bad" else Agg(destty, good, (v,)))
        return self.unknown_call(st, "collect", [it], destty, span)

    def pusher(self, s, x, a):
        q = s.mem[a]
        s.mem[a] = cat(q, lit(q.ety, [x]))
        return [(None, s)]

    def m_Extend_extend(self, st, args, destty, span, c):
        I = self.I
        r, q = self.seqref(st, args[0])
        outs = []
        for s0, it in self.m_IntoIterator_into_iter(st, [args[1]], destty, span, c):
            if isinstance(it, It) and it.k == "own" and it.a[3] is None and self.t(q.ety)["k"] != "ref":
                x = I.seq_slice(s0, it.a[0], it.a[1].l, it.a[2].l - it.a[1].l)
                I.assign_ref(s0, r, cat(q, x))
                outs.append((s0, UNIT_V))
                continue

            # collected first: the items cannot depend on the extended sequence
            acc = ("V", fresh_uid())
            s0 = s0.copy()
            s0.mem[acc] = Seq(q.ety, ())

            def body(s, x, a):
                if isinstance(x, Ref) and self.t(q.ety)["k"] not in ("ref", "ptr"):
                    x = I.deref(s, x)
                s.mem[acc] = cat(s.mem[acc], lit(q.ety, [x]))
                return [(None, s)]

            for lab, s, v in self.consume(s0, it, UNINIT, body, span, "extend"):
                if not s.phase:
                    I.assign_ref(s, r, cat(I.deref(s, r), s.mem.pop(acc)))
                outs.append((s, UNIT_V))
        return outs

    def m_Vec_retain(self, st, args, destty, span, c):
        I = self.I
        bo = I.P.ty("bool")
        rq = self.seqref(st, args[0])
        if rq is None:
            return self.unknown_call(st, "retain", args, destty, span)
        r, q = rq

        def body(s, x, a):
            o, rr = self.refitem(s, x)
            out = []
            for s2, v in self.invoke(s, args[1], [rr], bo, span):
                x2 = s2.mem.pop(o, x)
                if s2.phase:
                    out.append((None, s2))
                    continue
                y, n = I.split(s2, v.c)
                if y is not None:
                    y.mem[a] = cat(y.mem[a], lit(q.ety, [x2]))
                    out.append((None, y))
                if n is not None:
                    out.append((None, n))
            return out

        it = It("own", q, Int(ZERO, 64), Int(seq_len(q), 64), None)
        outs = []
        for lab, s, v in self.consume(st, it, Seq(q.ety, ()), body, span, "retain"):
            if s.phase:
                outs.append((s, None))
                continue
            I.assign_ref(s, r, v)
            outs.append((s, UNIT_V))
        return outs

    m_Vec_retain_mut = m_Vec_retain

    def m_Vec_drain(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = seq_len(q)
        rg = self.index_range(args[1], n)
        if rg is None:
            return None
        a, b = rg
        self.I.oblige(st, "bounds", c_and([c_ge(b - a), c_ge(n - b)]), span)
        x = self.I.seq_slice(st, q, a, b - a)
        self.I.assign_ref(st, r, cat(self.I.seq_slice(st, q, ZERO, a), self.I.seq_slice(st, q, b, n - b)))
        return [(st, It("own", x, Int(ZERO, 64), Int(b - a, 64), None))]

    def m_Vec_split_off(self, st, args, destty, span, c):
        r, q = self.seqref(st, args[0])
        n = seq_len(q)
        a = args[1].l
        self.I.oblige(st, "bounds", c_ge(n - a), span)
        x = self.I.seq_slice(st, q, a, n - a)
        self.I.assign_ref(st, r, self.I.seq_slice(st, q, ZERO, a))
        return [(st, x)]

    # ------------------------------------------------------------------ files and streams
    def handle(self, st, v):
        """Hdl, 'take' adapter (with the Ref to it) or sequence behind v"""
        n = 0
        r = None
        while isinstance(v, Ref) and n < 8:
            r = v
            v = self.I.deref(st, v)
            n += 1
        return v, r

    def m_File_open(self, st, args, destty, span, c):
        return self.open_file(st, ("read",), destty, span, args[0])

    def m_File_create(self, st, args, destty, span, c):
        return self.open_file(st, ("write", "create", "truncate"), destty, span, args[0])

    m_File_create_new = m_File_create

    def m_OpenOptions_new(self, st, args, destty, span, c):
        return [(st, Agg(None, "oo", (Agg(None, (), ()),)))]

    m_File_options = m_OpenOptions_new

    def oo(flag):
        def f(self, st, args, destty, span, c):
            r = args[0]
            v = self.I.deref(st, r) if isinstance(r, Ref) else r
            b = args[1]
            on = isinstance(b, Bool) and b.c != FALSE
            fl = set(v.fs[0].var)
            fl.discard(flag)
            if on:
                fl.add(flag)
            nv = Agg(None, "oo", (Agg(None, tuple(sorted(fl)), ()),))
            if isinstance(r, Ref):
                self.I.assign_ref(st, r, nv)
                return [(st, r)]
            return [(st, nv)]

        return f

    m_OpenOptions_read = oo("read")
    m_OpenOptions_write = oo("write")
    m_OpenOptions_create = oo("create")
    m_OpenOptions_create_new = oo("create_new")
    m_OpenOptions_truncate = oo("truncate")
    m_OpenOptions_append = oo("append")

    def m_OpenOptions_open(self, st, args, destty, span, c):
        v = self.val(st, args[0])
        return self.open_file(st, v.fs[0].var, destty, span, args[1])

    def open_file(self, st, flags, destty, span, path=None):
        self.I.event("open", self.I.site(), span, tuple(flags), self.content(st, path) if path is not None else None)
        b, a = self.fail(st, "open")
        name = "f%d" % sum(1 for o in a.mem if o[0] == "own")
        hid = self.new_file(a, name, stm=self.opts_stm(name))
        if "truncate" in flags:
            a.mem[("mut", name)] = Bool(TRUE)
        # a newly opened file is positioned at its start
        a.mem[("cur", hid)] = Int(ZERO, 64)
        a.mem[("opened", name)] = Agg(None, tuple(flags), ())
        return [(a, self.ok(destty, Hdl(hid))), (b, self.ioerr(destty))]

    def opts_stm(self, name):
        return T("stm", (name, self.I.opts.setdefault("stm:" + name, fresh_uid())))

    def m_BufReader_new(self, st, args, destty, span, c):
        return self.buffered(st, args[0], "br", span, destty)

    def m_BufWriter_new(self, st, args, destty, span, c):
        return self.buffered(st, args[0], "bw", span, destty)

    def m_BufReader_with_capacity(self, st, args, destty, span, c):
        return self.buffered(st, args[1], "br", span, destty)

    def m_BufWriter_with_capacity(self, st, args, destty, span, c):
        return self.buffered(st, args[1], "bw", span, destty)

    def buffered(self, st, inner, kind, span, destty):
        h, _ = self.handle(st, inner)
        if not isinstance(h, Hdl):
            if isinstance(h, Seq):
                raise AnalysisError("buffered access to memory")
            return self.unknown_call(st, "Buf::new", [inner], destty, span)
        ik, file = self.handles[h.hid]
        hid = (kind, file if file is not None else h.hid, span)
        self.handles[hid] = (kind, file if file is not None else h.hid)
        if ("cur", h.hid) in st.mem:
            st.mem[("cur", hid)] = st.mem[("cur", h.hid)]
            st.mem[("stm", hid)] = st.mem[("stm", h.hid)]
        self.readers.add(hid)
        st.mem[("dirty", hid)] = Bool(FALSE)
        # nobody knows where the shared offset is for a buffered handle that has not been positioned
        return [(st, Hdl(hid))]

    def uses(self, st, h, span, absolute=False):
        """the handle is used at (absolute: after setting) the offset shared through the file"""
        kind, file = self.handles[h.hid]
        if file is None:
            return
        own = st.mem.get(("own", file))
        if own is None:
            return
        for o, v in st.mem.items():
            if o[0] == "dirty" and o[1] != h.hid and self.handles[o[1]][1] == file and v != Bool(FALSE):
                self.I.event("shared", self.I.site(), span, "use of the file through %s while %s holds unwritten data" % (kind, self.handles[o[1]][0]))
        if not absolute and own.var != h.hid and own.var != ("file", file):
            self.I.event("shared", self.I.site(), span, "relative use of %s after another handle moved the shared offset" % kind)
        st.mem[("own", file)] = Agg(None, h.hid, ())

    def mutate(self, st, h, op):
        kind, file = self.handles[h.hid]
        lf = ("log", file)
        st.mem[lf] = cat(st.mem.get(lf) or Seq(None, ()), lit(None, [op]))
        st.mem[("mut", file)] = Bool(TRUE)
        # what is read from now on is something else
        for o in list(st.mem):
            if o[0] == "stm" and self.handles[o[1]][1] == file:
                st.mem[o] = Sym(None, T("stm", ("after", 0)))

    def stm(self, st, h):
        return st.mem[("stm", h.hid)].key

    def cur(self, st, h):
        return st.mem[("cur", h.hid)].l

    def m_Read_by_ref(self, st, args, destty, span, c):
        return [(st, args[0])]

    m_Write_by_ref = m_Read_by_ref

    def m_Read_take(self, st, args, destty, span, c):
        return [(st, Agg(None, "take", (args[0], args[1])))]

    def readerr(self, st, destty, name):
        b, a = self.fail(st, name)
        return a, (b, self.ioerr(destty))

    def errcur(self, st, h):
        if ("cur", h.hid) in st.mem:
            st.mem[("cur", h.hid)] = Int(L(T("sym", ("errcur", 0), 0, U64MAX)), 64)

    def m_Read_read_exact(self, st, args, destty, span, c):
        I = self.I
        h, hr = self.handle(st, args[0])
        rq = self.seqref(st, args[1])
        if not isinstance(h, Hdl) or rq is None:
            return self.read_other(st, h, hr, args, destty, span)
        r, q = rq
        n = r.view[1] if r.view is not None else seq_len(q)
        self.uses(st, h, span)
        a, (b, ev) = self.readerr(st, destty, "read")
        self.errcur(b, h)
        cur, stm = self.cur(a, h), self.stm(a, h)
        a.add(c_ge(slen(stm) - cur - n))
        I.assign_ref(a, r, self.bytes(stm, cur, n))
        a.mem[("cur", h.hid)] = Int(cur + n, 64)
        return [(a, self.ok(destty)), (b, ev)]

    def bytes(self, stm, pos, n):
        k = n.const()
        if k is not None and k <= 64:
            return lit(self.I.u8(), [Int(L(be(stm, pos + i, 1)), 8) for i in range(k)])
        return Seq(self.I.u8(), norm_segs((("stm", stm, pos, n),)))

    def read_other(self, st, h, hr, args, destty, span):
        """reading from memory: &[u8] or Cursor"""
        if isinstance(h, Agg) and h.var == "take":
            inner, _ = self.handle(st, h.fs[0])
            rq = self.seqref(st, args[1])
            if isinstance(inner, Hdl) and rq is not None and hr is not None:
                n = rq[0].view[1] if rq[0].view is not None else seq_len(rq[1])
                y, no = self.I.split(st, c_ge(h.fs[1].l - n))
                out = []
                if y is not None:
                    for s, v in self.m_Read_read_exact(y, [h.fs[0], args[1]], destty, span, None):
                        if v.var == 0:
                            self.I.assign_ref(s, hr, Agg(None, "take", (h.fs[0], Int(h.fs[1].l - n, 64))))
                        out.append((s, v))
                if no is not None:
                    no.mem[FLAG] = FAIL_IO
                    self.errcur(no, inner)
                    out.append((no, self.ioerr(destty)))
                return out
        q = h if isinstance(h, Seq) else None
        if q is not None and hr is not None:
            rq = self.seqref(st, args[1])
            n = rq[0].view[1] if rq[0].view is not None else seq_len(rq[1])
            ln = seq_len(q)
            y, no = self.I.split(st, c_ge(ln - n))
            out = []
            if y is not None:
                self.I.assign_ref(y, rq[0], self.I.seq_slice(y, q, ZERO, n))
                self.note_mem(y)
                out.append((y, self.ok(destty)))
            if no is not None:
                no.mem[FLAG] = FAIL_IO
                out.append((no, self.ioerr(destty)))
            return out
        return self.unknown_call(st, "read", args, destty, span)

    def note_mem(self, st):
        self.I.note("reading from memory", self.I.site())

    def m_Read_read_to_end(self, st, args, destty, span, c):
        I = self.I
        h, hr = self.handle(st, args[0])
        rq = self.seqref(st, args[1])
        limit = None
        if isinstance(h, Agg) and h.var == "take":
            limit = h.fs[1].l
            h, _ = self.handle(st, h.fs[0])
        if not isinstance(h, Hdl) or rq is None:
            return self.unknown_call(st, "read_to_end", args, destty, span)
        r, q = rq
        self.uses(st, h, span)
        a, (b, ev) = self.readerr(st, destty, "read")
        self.errcur(b, h)
        cur, stm = self.cur(a, h), self.stm(a, h)
        k = L(T("sym", ("got", fresh_uid()), 0, I63))
        rest = slen(stm) - cur
        if limit is not None:
            a.add(c_ge(limit - k))
        a.add(c_or([c_ge(-k), c_ge(rest - k)]))
        if limit is None:
            a.add(c_or([c_and([c_eq(k), c_ge(-rest)]), c_eq(rest - k)]))
        else:
            # everything there is, up to the limit
            a.add(c_or([c_eq(limit - k), c_ge(k - rest)]))
        I.assign_ref(a, r, Seq(q.ety, norm_segs(q.segs + (("stm", stm, cur, k),))))
        a.mem[("cur", h.hid)] = Int(cur + k, 64)
        return [(a, self.ok(destty, Int(k, 64))), (b, ev)]

    def m_Read_read(self, st, args, destty, span, c):
        I = self.I
        h, hr = self.handle(st, args[0])
        rq = self.seqref(st, args[1])
        if not isinstance(h, Hdl) or rq is None:
            return self.unknown_call(st, "read", args, destty, span)
        r, q = rq
        n = r.view[1] if r.view is not None else seq_len(q)
        self.uses(st, h, span)
        a, (b, ev) = self.readerr(st, destty, "read")
        self.errcur(b, h)
        cur, stm = self.cur(a, h), self.stm(a, h)
        k = L(T("sym", ("got", fresh_uid()), 0, I63))
        a.add(c_ge(n - k))
        a.add(c_or([c_ge(-k), c_ge(slen(stm) - cur - k)]))
        off = r.view[0] if r.view is not None else ZERO
        whole = I.load(a, r.obj, r.path)
        tail = I.seq_slice(a, whole, off + k, seq_len(whole) - off - k)
        head = I.seq_slice(a, whole, ZERO, off)
        I.store(a, r.obj, r.path, Seq(whole.ety, norm_segs(head.segs + (("stm", stm, cur, k),) + tail.segs)))
        a.mem[("cur", h.hid)] = Int(cur + k, 64)
        return [(a, self.ok(destty, Int(k, 64))), (b, ev)]

    def seek_target(self, st, h, sf):
        """new position as a Lin"""
        if isinstance(sf, Agg) and sf.var is not None:
            name = self.t(sf.ty)["variants"][sf.var]["name"]
            if name == "Start":
                return sf.fs[0].l, True
            if name == "Current":
                return self.cur(st, h) + sf.fs[0].l, False
            if name == "End":
                return slen(self.stm(st, h)) + sf.fs[0].l, True
        return None, False

    def m_Seek_seek(self, st, args, destty, span, c):
        I = self.I
        h, _ = self.handle(st, args[0])
        if not isinstance(h, Hdl):
            return self.unknown_call(st, "seek", args, destty, span)
        p, absolute = self.seek_target(st, h, args[1])
        if p is None:
            p = L(T("sym", ("seek", fresh_uid()), 0, U64MAX))
        kind, file = self.handles[h.hid]
        if kind == "bw":
            st = st.copy()
            st.mem[("dirty", h.hid)] = Bool(FALSE)
        self.uses(st, h, span, absolute)
        mod = kind == "bw"
        b, a = self.fail(st, "seek", mod=mod)
        self.errcur(b, h)
        if p == self.cur(st, h) and not absolute:
            pass
        a.add(c_ge(p))
        a.add(c_ge(Lin(U64MAX) - p))
        if any(f == FALSE for f in a.facts):
            return [(b, self.ioerr(destty))]
        a.mem[("cur", h.hid)] = Int(p, 64)
        res = Int(p, 64) if destty is None or self.t(self.argof(destty, 0))["k"] == "int" else UNIT_V
        return [(a, self.ok(destty, res)), (b, self.ioerr(destty))]

    def m_Seek_stream_position(self, st, args, destty, span, c):
        h, _ = self.handle(st, args[0])
        if not isinstance(h, Hdl):
            return self.unknown_call(st, "stream_position", args, destty, span)
        self.uses(st, h, span)
        a, e = self.readerr(st, destty, "seek")
        self.errcur(e[0], h)
        return [(a, self.ok(destty, Int(self.cur(a, h), 64))), e]

    def m_Seek_stream_len(self, st, args, destty, span, c):
        h, _ = self.handle(st, args[0])
        if not isinstance(h, Hdl):
            return self.unknown_call(st, "stream_len", args, destty, span)
        a, e = self.readerr(st, destty, "seek")
        self.errcur(e[0], h)
        return [(a, self.ok(destty, Int(slen(self.stm(a, h)), 64))), e]

    def m_Seek_rewind(self, st, args, destty, span, c):
        return self.seek_to(st, args[0], lambda s, h: ZERO, destty, span, True)

    def m_Seek_seek_relative(self, st, args, destty, span, c):
        return self.seek_to(st, args[0], lambda s, h: self.cur(s, h) + args[1].l, destty, span, False)

    m_BufReader_seek_relative = m_Seek_seek_relative

    def seek_to(self, st, hv, f, destty, span, absolute):
        h, _ = self.handle(st, hv)
        if not isinstance(h, Hdl):
            return self.unknown_call(st, "seek", [hv], destty, span)
        p = f(st, h)
        kind, file = self.handles[h.hid]
        if kind == "bw":
            st = st.copy()
            st.mem[("dirty", h.hid)] = Bool(FALSE)
        self.uses(st, h, span, absolute)
        b, a = self.fail(st, "seek", mod=kind == "bw")
        self.errcur(b, h)
        a.add(c_ge(p))
        a.mem[("cur", h.hid)] = Int(p, 64)
        return [(a, self.ok(destty)), (b, self.ioerr(destty))]

    def m_Write_write_all(self, st, args, destty, span, c):
        I = self.I
        h, hr = self.handle(st, args[0])
        data = self.seqof(st, args[1])
        if isinstance(h, Seq) and hr is not None and data is not None:
            I.assign_ref(st, hr, cat(h, data))
            return [(st, self.ok(destty))]
        if not isinstance(h, Hdl) or data is None:
            return self.unknown_call(st, "write_all", args, destty, span)
        kind, file = self.handles[h.hid]
        if kind == "out":
            b, a = self.fail(st, "write", mod=True)
            o = ("out", h.hid)
            a.mem[o] = cat(a.mem[o], data)
            return [(a, self.ok(destty)), (b, self.ioerr(destty))]
        self.uses(st, h, span)
        if file is not None:
            st = st.copy()
            st.mem[("mut", file)] = Bool(TRUE)
        b, a = self.fail(st, "write", mod=True)
        self.errcur(b, h)
        cur = self.cur(a, h)
        self.mutate(a, h, Agg(None, "w", (Int(cur, 64), data)))
        a.mem[("cur", h.hid)] = Int(cur + seq_len(data), 64)
        if kind == "bw":
            a.mem[("dirty", h.hid)] = Bool(TRUE)
        self.mutate_err(b, h)
        return [(a, self.ok(destty)), (b, self.ioerr(destty))]

    def mutate_err(self, st, h):
        kind, file = self.handles[h.hid]
        st.mem.pop(("log", file), None)

    def m_Write_flush(self, st, args, destty, span, c):
        h, hr = self.handle(st, args[0])
        if isinstance(h, Seq):
            return [(st, self.ok(destty))]
        if not isinstance(h, Hdl):
            return self.unknown_call(st, "flush", args, destty, span)
        kind, file = self.handles[h.hid]
        b, a = self.fail(st, "flush", mod=True)
        if kind == "bw":
            a.mem[("dirty", h.hid)] = Bool(FALSE)
            self.mutate_err(b, h)
        return [(a, self.ok(destty)), (b, self.ioerr(destty))]

    def m_File_sync_all(self, st, args, destty, span, c):
        b, a = self.fail(st, "sync", mod=True)
        return [(a, self.ok(destty)), (b, self.ioerr(destty))]

    m_File_sync_data = m_File_sync_all

    def m_File_set_len(self, st, args, destty, span, c):
        h, _ = self.handle(st, args[0])
        if not isinstance(h, Hdl):
            return self.unknown_call(st, "set_len", args, destty, span)
        kind, file = self.handles[h.hid]
        st = st.copy()
        st.mem[("mut", file)] = Bool(TRUE)
        b, a = self.fail(st, "set_len", mod=True)
        self.mutate(a, h, Agg(None, "len", (args[1],)))
        if isinstance(args[1], Int):
            # file sizes are signed 64 bit numbers: anything larger has been refused
            a.add(c_ge(Lin(I63) - args[1].l))
        self.mutate_err(b, h)
        return [(a, self.ok(destty)), (b, self.ioerr(destty))]

    def m_File_metadata(self, st, args, destty, span, c):
        h, _ = self.handle(st, args[0])
        b, a = self.fail(st, "metadata")
        return [(a, self.ok(destty, Agg(None, "meta", (Hdl(h.hid),)))), (b, self.ioerr(destty))]

    def m_Metadata_len(self, st, args, destty, span, c):
        v = self.val(st, args[0])
        if isinstance(v, Agg) and v.var == "meta":
            return [(st, Int(slen(self.stm(st, v.fs[0])), 64))]
        return self.pure(st, "metadata.len", args, destty)

    def m_File_try_clone(self, st, args, destty, span, c):
        h, _ = self.handle(st, args[0])
        b, a = self.fail(st, "dup")
        return [(a, self.ok(destty, h)), (b, self.ioerr(destty))]

    def m_BufReader_get_ref(self, st, args, destty, span, c):
        h, _ = self.handle(st, args[0])
        kind, file = self.handles[h.hid]
        o = ("X", fresh_uid())
        st.mem[o] = Hdl(("file", file))
        return [(st, Ref(o))]

    m_BufReader_get_mut = m_BufWriter_get_ref = m_BufWriter_get_mut = m_BufReader_get_ref

    def m_Error_new(self, st, args, destty, span, c):
        t = self.t(destty)
        if t["k"] == "adt" and t["path"] == "std::io::Error":
            return [(st, Sym(destty, T("root", ("owerr", 0))))]
        return None

    def m_Error_other(self, st, args, destty, span, c):
        return self.m_Error_new(st, args, destty, span, c)

    def m_Error_kind(self, st, args, destty, span, c):
        return self.pure(st, "io::Error::kind", args, destty)
