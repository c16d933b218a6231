"""Assumed contracts for the parts of std (and log/fmt) that the crate calls.

Every model used in a proof is reported in the evidence (trusted base).  Unknown callees raise
Unsupported: nothing is silently ignored except logging and message formatting.
"""
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, IntVal, BoolVal, Select, Store, Int
import fp, mir
from mir import parse_type, INTS, split_top, match_close, scan_depth0
from vals import *

OS = z3.Function('os!kth', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.IntSort(), z3.RealSort())
OSW = z3.Function('os!wit', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.IntSort())


def os_axioms():
    A, B = z3.Consts('os?a os?b', z3.ArraySort(z3.IntSort(), z3.RealSort()))
    n, k = z3.Ints('os?n os?k')
    w = OSW(A, B, n)
    return [z3.ForAll([A, B, n, k], Implies(OS(A, n, k) != OS(B, n, k), And(w >= 0, w < n, Select(A, w) != Select(B, w))), patterns=[z3.MultiPattern(OS(A, n, k), OS(B, n, k))])]


RARR = z3.ArraySort(z3.IntSort(), z3.RealSort())
FSUM = z3.Function('fp!!sum', RARR, z3.IntSort(), z3.RealSort())
FSUMW = z3.Function('fs!w', RARR, RARR, z3.IntSort(), z3.IntSort())


def sum_axioms():
    """FSUM(a, n) is the left-to-right f32 sum of a[0..n): it depends on those entries only, and unfolds at the end"""
    A, B = z3.Consts('fs?a fs?b', RARR)
    n, m = z3.Ints('fs?n fs?m')
    w = FSUMW(A, B, n)
    return [z3.ForAll([A, B, n], Implies(FSUM(A, n) != FSUM(B, n), And(w >= 0, w < n, Select(A, w) != Select(B, w))), patterns=[z3.MultiPattern(FSUM(A, n), FSUM(B, n))]),
            z3.ForAll([A, n], Implies(n <= 0, FSUM(A, n) == 0), patterns=[FSUM(A, n)]),
            z3.ForAll([A, n, m], Implies(And(n >= 0, m == n + 1), FSUM(A, m) == fp.fadd(FSUM(A, n), Select(A, n))), patterns=[z3.MultiPattern(FSUM(A, n), FSUM(A, m))])]


ORD = ('adt', 'std::cmp::Ordering', ())


def OPT(t):
    return ('adt', 'std::option::Option', (t,))


class StMap:
    def __init__(self, it, f):
        self.it, self.f = it, f


class Std:
    def __init__(self, eng):
        self.E = eng
        import engine
        self.e = engine

    # ------------------------------------------------------------ helpers
    def some(self, v, t=None):
        return En(IntVal(1), {0: [], 1: [v]}, OPT(t or ('other', '?')))

    def none(self, t=None):
        return En(IntVal(0), {0: []}, OPT(t or ('other', '?')))

    def opt(self, c, v, t=None):
        return En(self.e.ite(c, IntVal(1), IntVal(0)), {0: [], 1: [v]}, OPT(t or ('other', '?')))

    def ordering(self, lt, eq):
        return En(self.e.ite(lt, IntVal(-1), self.e.ite(eq, IntVal(0), IntVal(1))), {-1: [], 0: [], 1: []}, ORD)

    def deref(self, st, v):
        while isinstance(v, RefM):
            v = self.E.read_ref(st, v)
        return v

    def str_len(self, st, s):
        f = z3.Function('str!len', z3.IntSort(), z3.IntSort())
        if z3.is_int_value(s):
            for k, v in self.E.strs.items():
                if v == s.as_long() and k.startswith('"') and '\\' not in k:
                    return IntVal(len(k[1:-1].encode()))
        r = f(s)
        self.E.fact(st, And(r >= 0, r <= 2**62))
        return r

    # ------------------------------------------------------------ name parsing
    def parse_callee(self, c):
        """(selfty string or None, trait string or None, method, generics list, path)"""
        c = c.strip()
        gens = []
        # trailing ::<..>
        if c.endswith('>'):
            # find the matching '<' of the trailing generics at depth 0
            i = 0
            last = -1
            while True:
                j = scan_depth0(c, i, '<')
                if j < 0:
                    break
                k = match_close(c, j)
                if k == len(c) - 1 and c[j - 2:j] == '::':
                    last = j
                    break
                i = k + 1
            if last > 0:
                gens = split_top(c[last + 1:-1])
                c = c[:last - 2]
        if c.startswith('<'):
            k = match_close(c, 0)
            inner = c[1:k]
            m = c[k + 1:]
            meth = m[2:] if m.startswith('::') else m
            # split ' as ' at depth 0
            i = 0
            pos = -1
            while True:
                j = scan_depth0(inner, i, ' ')
                if j < 0:
                    break
                if inner[j:j + 4] == ' as ':
                    pos = j
                    break
                i = j + 1
            if pos >= 0:
                return inner[:pos], inner[pos + 4:], meth, gens, c
            return inner, None, meth, gens, c
        m = re.match(r'^(.*)::([\w]+)$', c, re.S)
        if not m:
            return None, None, c, gens, c
        head, meth = m.group(1), m.group(2)
        mm = re.match(r'^(?:core|std|alloc)::(?:\w+::)*<impl (.*)>$', head, re.S)
        if mm:
            return mm.group(1), None, meth, gens, c
        return head, None, meth, gens, c

    def call(self, st, callee, args, atys, dty):
        E = self.E
        if callee.startswith(('log::', '<log::')) or 'log::__private_api' in callee:
            if '::le' in callee or '::lt' in callee:
                return self.e.TRUE
            return Opq('log')
        if callee.startswith(('core::fmt', 'std::fmt', 'std::io::_e', 'std::io::_print', 'core::panicking::panic_fmt')) or 'as std::fmt::' in callee or 'format_args' in callee:
            if callee.startswith('core::panicking'):
                E.oblige(st, self.e.FALSE, 'explicit panic unreachable', 'panic')
                st.pc = st.pc + (self.e.FALSE,)
                return Poison('panic')
            if E.opts.get('fmt'):
                r = self.fmt(st, callee, args, atys)
                if r is not None:
                    return r
            if callee.startswith('std::fmt::format'):
                return E.fresh_int('fmtstr')
            return Opq('fmt')
        selfty, trait, meth, gens, path = self.parse_callee(callee)
        if meth == 'fmt':
            return Opq('fmt')
        tr = trait.split('<')[0].split('::')[-1] if trait else None
        head = None
        if selfty is not None:
            s = selfty
            s = re.sub(r"^&('\w+ )?(mut )?", '', s)
            t = parse_type(selfty) if selfty else None
            hs = E.strip(t) if t else None
            if t and t[0] == 'box':
                head = 'Box'
            elif hs:
                head = {'vec': 'Vec', 'slice': 'slice', 'array': 'slice', 'float': 'f32', 'int': 'int', 'bool': 'bool', 'str': 'str', 'tuple': 'tuple', 'closure': 'closure'}.get(hs[0])
                if head is None and hs[0] == 'adt':
                    head = hs[1].split('::')[-1]
                if head is None and hs[0] == 'other':
                    head = 'other'
        self.selfty = selfty
        self.trait = trait
        self.gens = gens
        names = []
        if tr:
            names += ['t_%s_%s' % (tr, meth)]
        if head:
            names += ['m_%s_%s' % (head, meth)]
        names += ['f_' + re.sub(r'<.*?>', '', path).replace('::', '_')]
        if tr is None and head is None:
            names += ['f_' + meth]
        for n in names:
            f = getattr(self, n, None)
            if f is not None:
                E.models_used.add((tr or head or '') + '::' + meth)
                return f(st, args, atys, dty)
        raise Unsupported('std call %s (%s)' % (callee[:150], names))

    # ------------------------------------------------------------ panics, hints, misc
    def panic(self, st, what):
        self.E.oblige(st, self.e.FALSE, what, 'panic')
        st.pc = st.pc + (self.e.FALSE,)
        return Poison('panic')

    def f_core_panicking_panic(self, st, a, at, dt):
        return self.panic(st, 'explicit panic unreachable')

    f_core_panicking_panic_fmt = f_core_panicking_panic
    f_core_option_unwrap_failed = f_core_panicking_panic
    f_core_option_expect_failed = f_core_panicking_panic
    f_std_rt_panic_fmt = f_core_panicking_panic
    f_std_rt_begin_panic = f_core_panicking_panic
    f_core_panicking_assert_failed = f_core_panicking_panic
    f_core_panicking_panic_display = f_core_panicking_panic
    f_core_panicking_unreachable_display = f_core_panicking_panic

    def ident(self, st, a, at, dt):
        return a[0]

    f_std_hint_must_use = ident
    f_std_hint_black_box = ident
    f_std_convert_identity = ident
    f_std_mem_forget = lambda self, st, a, at, dt: Tup([])
    f_std_mem_drop = lambda self, st, a, at, dt: Tup([])

    def f_std_mem_swap(self, st, a, at, dt):
        x, y = self.E.read_ref(st, a[0]), self.E.read_ref(st, a[1])
        self.E.write_ref(st, a[0], y)
        self.E.write_ref(st, a[1], x)
        return Tup([])

    def f_std_mem_replace(self, st, a, at, dt):
        x = self.E.read_ref(st, a[0])
        self.E.write_ref(st, a[0], a[1])
        return x

    def f_std_mem_take(self, st, a, at, dt):
        x = self.E.read_ref(st, a[0])
        if isinstance(x, Sq):
            self.E.write_ref(st, a[0], self.empty(x.ety))
            return x
        raise Unsupported('mem::take')

    def f_std_env_var(self, st, a, at, dt):
        return self.E.fresh_val(dt, 'env', st)

    def opaque_ret(self, st, a, at, dt):
        return self.E.fresh_val(dt, 'ext', st) if dt is not None else Opq('ext')

    f_std_time_Instant_now = opaque_ret
    m_Instant_now = opaque_ret
    m_Instant_elapsed = opaque_ret
    m_Duration_as_secs_f32 = opaque_ret
    m_Duration_as_millis = opaque_ret
    m_Duration_as_secs_f64 = opaque_ret

    # ------------------------------------------------------------ Deref / Borrow / conversions / Clone
    t_Deref_deref = ident
    t_AsRef_as_ref = ident
    t_Borrow_borrow = ident
    t_Into_into = ident
    t_From_from = ident
    t_ToOwned_to_owned = ident
    m_str_to_string = ident
    t_ToString_to_string = lambda self, st, a, at, dt: a[0] if self.E.strip(at[0] or ('other',))[0] == 'str' else self.E.fresh_int('tostr')
    m_str_to_owned = ident
    m_str_as_str = ident
    m_Vec_as_slice = ident
    m_Vec_into_boxed_slice = ident
    m_slice_into_vec = ident

    def t_Deref_deref(self, st, a, at, dt):
        return self.deref(st, a[0])

    def t_DerefMut_deref_mut(self, st, a, at, dt):
        return a[0]

    m_Vec_as_mut_slice = t_DerefMut_deref_mut

    def t_Clone_clone(self, st, a, at, dt):
        return self.deref(st, a[0])

    def m_slice_to_vec(self, st, a, at, dt):
        return self.deref(st, a[0])

    m_slice_to_owned = m_slice_to_vec
    t_ToOwned_to_owned = m_slice_to_vec

    def t_Default_default(self, st, a, at, dt):
        t = self.E.strip(parse_type(self.selfty))
        return self.default_of(t)

    def default_of(self, t):
        if t[0] == 'int':
            return IntVal(0)
        if t[0] == 'float':
            return fp.rv(0)
        if t[0] == 'bool':
            return self.e.FALSE
        if t[0] == 'vec':
            return self.empty(t[1])
        if t[0] == 'tuple':
            return Tup([self.default_of(x) for x in t[1]])
        if t[0] == 'adt' and t[1] == 'std::option::Option':
            return self.none(t[2][0])
        if t[0] == 'str':
            return self.E.str_id('""')
        raise Unsupported('default of %s' % (t,))

    # ------------------------------------------------------------ comparison
    def eq_val(self, st, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        e = self.e
        if z3.is_expr(a) and z3.is_expr(b):
            if z3.is_real(a):
                return fp.eq(a, b)
            if z3.is_int(a):
                return e.icmp('==', a, b)
            return a == b
        if isinstance(a, Tup) and isinstance(b, Tup):
            return e.and_(*[self.eq_val(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, En) and isinstance(b, En):
            cs = [e.icmp('==', a.d, b.d)]
            for k in set(a.pay) & set(b.pay):
                if a.pay[k]:
                    cs.append(e.imp(e.icmp('==', a.d, IntVal(k)), e.and_(*[self.eq_val(st, x, y) for x, y in zip(a.pay[k], b.pay[k])])))
            return e.and_(*cs)
        if isinstance(a, Sq) and isinstance(b, Sq):
            r = self.E.fresh_bool('seqeq')
            w = self.E.fresh_int('w')
            _, k, v = self.E.generic(st, a.n, lambda s, i: self.eq_val(s, a.get(i), b.get(i)))
            self.E.fact(st, e.imp(r, And(a.n == b.n, FA([k], e.imp(And(k >= 0, k < a.n), v)))))
            self.E.fact(st, e.imp(Not(r), Or(a.n != b.n, And(w >= 0, w < a.n, Not(self.eq_val(st, a.get(w), b.get(w)))))))
            return r
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.E.fresh_bool('opqeq')
        raise Unsupported('eq of %s' % type(a).__name__)

    def t_PartialEq_eq(self, st, a, at, dt):
        return self.eq_val(st, a[0], a[1])

    def t_PartialEq_ne(self, st, a, at, dt):
        return self.e.not_(self.eq_val(st, a[0], a[1]))

    def t_PartialOrd_partial_cmp(self, st, a, at, dt):
        x, y = self.deref(st, a[0]), self.deref(st, a[1])
        if z3.is_expr(x) and z3.is_real(x):
            o = self.ordering(fp.lt(x, y), fp.eq(x, y))
            return self.opt(self.e.and_(fp.notnan(x), fp.notnan(y)), o, ORD)
        return self.some(self.cmp_val(st, x, y), ORD)

    def cmp_val(self, st, x, y):
        x, y = self.deref(st, x), self.deref(st, y)
        if z3.is_expr(x) and z3.is_int(x):
            return self.ordering(self.e.icmp('<', x, y), self.e.icmp('==', x, y))
        if z3.is_expr(x) and z3.is_bool(x):
            return self.ordering(And(Not(x), y), x == y)
        if isinstance(x, Tup) and x.items:
            r = self.cmp_val(st, x.items[-1], y.items[-1])
            for p, q in list(zip(x.items, y.items))[-2::-1]:
                c = self.cmp_val(st, p, q)
                r = En(self.e.ite(self.e.icmp('!=', c.d, IntVal(0)), c.d, r.d), r.pay, ORD)
            return r
        if isinstance(x, En) and not any(x.pay.values()):
            return self.ordering(x.d < y.d, x.d == y.d)
        raise Unsupported('cmp of %s' % type(x).__name__)

    def t_Ord_cmp(self, st, a, at, dt):
        return self.cmp_val(st, a[0], a[1])

    def m_f32_total_cmp(self, st, a, at, dt):
        x, y = self.deref(st, a[0]), self.deref(st, a[1])
        return self.ordering(x < y, x == y)   # NAN sorts last (sign of NaN/zero not tracked)

    def pcmp(op):
        def f(self, st, a, at, dt):
            x, y = self.deref(st, a[0]), self.deref(st, a[1])
            if z3.is_expr(x) and z3.is_real(x):
                return {'lt': fp.lt, 'le': fp.le, 'gt': fp.gt, 'ge': fp.ge}[op](x, y)
            if z3.is_expr(x) and z3.is_int(x):
                return {'lt': lambda: self.e.icmp('<', x, y), 'le': lambda: self.e.icmp('<=', x, y), 'gt': lambda: self.e.icmp('<', y, x), 'ge': lambda: self.e.icmp('<=', y, x)}[op]()
            raise Unsupported('partial_ord')
        return f
    t_PartialOrd_lt, t_PartialOrd_le, t_PartialOrd_gt, t_PartialOrd_ge = pcmp('lt'), pcmp('le'), pcmp('gt'), pcmp('ge')

    def m_Ordering_reverse(self, st, a, at, dt):
        return En(-a[0].d if self.e.ival(a[0].d) is None else IntVal(-self.e.ival(a[0].d)), a[0].pay, ORD)

    def m_Ordering_then_with(self, st, a, at, dt):
        o = a[0]
        z = self.e.icmp('==', o.d, IntVal(0))
        r = self.E.with_cond(st, z, lambda s: self.E.call_value(s, a[1], []))
        if r is None:
            return o
        return En(self.e.ite(z, r.d, o.d), o.pay, ORD)

    def m_Ordering_then(self, st, a, at, dt):
        return En(self.e.ite(self.e.icmp('==', a[0].d, IntVal(0)), a[1].d, a[0].d), a[0].pay, ORD)

    for _n, _c in (('is_lt', lambda d: d < 0), ('is_le', lambda d: d <= 0), ('is_gt', lambda d: d > 0), ('is_ge', lambda d: d >= 0), ('is_eq', lambda d: d == 0), ('is_ne', lambda d: d != 0)):
        def _mk(c):
            return lambda self, st, a, at, dt: c(a[0].d)
        locals()['m_Ordering_' + _n] = _mk(_c)

    # ------------------------------------------------------------ integers
    def rng(self, t):
        bits, sg = INTS[t]
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)

    def ity(self, at):
        t = self.E.strip(parse_type(self.selfty))
        return t[1]

    def t_Ord_min(self, st, a, at, dt):
        x, y = a[0], a[1]
        if z3.is_expr(x) and z3.is_int(x):
            p, q = self.e.ival(x), self.e.ival(y)
            if p is not None and q is not None:
                return IntVal(min(p, q))
            return If(x <= y, x, y)
        raise Unsupported('min')

    def t_Ord_max(self, st, a, at, dt):
        x, y = a[0], a[1]
        if z3.is_expr(x) and z3.is_int(x):
            p, q = self.e.ival(x), self.e.ival(y)
            if p is not None and q is not None:
                return IntVal(max(p, q))
            return If(x > y, x, y)
        raise Unsupported('max')

    def f_std_cmp_min(self, st, a, at, dt):
        return self.t_Ord_min(st, a, at, dt)

    def f_std_cmp_max(self, st, a, at, dt):
        return self.t_Ord_max(st, a, at, dt)

    def t_Ord_clamp(self, st, a, at, dt):
        self.E.oblige(st, self.e.icmp('<=', a[1], a[2]), 'clamp: min <= max', 'panic')
        return If(a[0] < a[1], a[1], If(a[0] > a[2], a[2], a[0]))

    def m_int_saturating_sub(self, st, a, at, dt):
        lo, hi = self.rng(self.ity(at))
        r = self.e.isub(a[0], a[1])
        if self.e.ival(r) is not None:
            return IntVal(max(lo, min(hi, self.e.ival(r))))
        return If(r < lo, IntVal(lo), r) if lo == 0 else If(r < lo, IntVal(lo), If(r > hi, IntVal(hi), r))

    def m_int_saturating_add(self, st, a, at, dt):
        lo, hi = self.rng(self.ity(at))
        r = self.e.iadd(a[0], a[1])
        return If(r > hi, IntVal(hi), r) if lo == 0 else If(r < lo, IntVal(lo), If(r > hi, IntVal(hi), r))

    def m_int_saturating_mul(self, st, a, at, dt):
        lo, hi = self.rng(self.ity(at))
        r = self.e.imul(a[0], a[1])
        return If(r > hi, IntVal(hi), r) if lo == 0 else If(r < lo, IntVal(lo), If(r > hi, IntVal(hi), r))

    def _wrapping(self, f):
        def g(st, a, at, dt):
            bits, sg = INTS[self.ity(at)]
            return self.E.wrap(f(a[0], a[1]), bits, sg)
        return g

    def m_int_wrapping_add(self, st, a, at, dt):
        return self._wrapping(self.e.iadd)(st, a, at, dt)

    def m_int_wrapping_sub(self, st, a, at, dt):
        return self._wrapping(self.e.isub)(st, a, at, dt)

    def m_int_wrapping_mul(self, st, a, at, dt):
        return self._wrapping(self.e.imul)(st, a, at, dt)

    def _checked(self, st, r, at):
        lo, hi = self.rng(self.ity(at))
        return self.opt(And(r >= lo, r <= hi) if self.e.ival(r) is None else BoolVal(lo <= self.e.ival(r) <= hi), r, ('int', self.ity(at)))

    def m_int_checked_add(self, st, a, at, dt):
        return self._checked(st, self.e.iadd(a[0], a[1]), at)

    def m_int_checked_sub(self, st, a, at, dt):
        return self._checked(st, self.e.isub(a[0], a[1]), at)

    def m_int_checked_mul(self, st, a, at, dt):
        return self._checked(st, self.e.imul(a[0], a[1]), at)

    def m_int_checked_div(self, st, a, at, dt):
        if INTS[self.ity(at)][1]:
            raise Unsupported('signed checked_div')
        return self.opt(self.e.icmp('!=', a[1], IntVal(0)), self.e.idiv(a[0], a[1]), ('int', self.ity(at)))

    def m_int_abs(self, st, a, at, dt):
        lo, hi = self.rng(self.ity(at))
        self.E.oblige(st, self.e.not_(self.e.icmp('==', a[0], IntVal(lo))), 'abs overflow', 'overflow')
        return If(a[0] >= 0, a[0], -a[0])

    def m_int_unsigned_abs(self, st, a, at, dt):
        return If(a[0] >= 0, a[0], -a[0])

    def m_int_abs_diff(self, st, a, at, dt):
        return If(a[0] >= a[1], a[0] - a[1], a[1] - a[0])

    def m_int_signum(self, st, a, at, dt):
        return If(a[0] > 0, IntVal(1), If(a[0] < 0, IntVal(-1), IntVal(0)))

    def m_int_is_multiple_of(self, st, a, at, dt):
        y = self.e.ival(a[1])
        if y:
            return self.e.icmp('==', self.e.imod(a[0], a[1]), IntVal(0))
        return If(a[1] == 0, a[0] == 0, self.e.imod(a[0], a[1]) == 0)

    def m_int_div_ceil(self, st, a, at, dt):
        self.E.oblige(st, self.e.icmp('!=', a[1], IntVal(0)), 'div_ceil by zero', 'div0')
        q = self.e.idiv(a[0], a[1])
        r = self.e.imod(a[0], a[1])
        return If(r == 0, q, q + 1)

    def m_int_rem_euclid(self, st, a, at, dt):
        self.E.oblige(st, self.e.icmp('!=', a[1], IntVal(0)), 'rem_euclid by zero', 'div0')
        y = self.e.ival(a[1])
        if y is not None and y > 0:
            return a[0] % a[1]
        r = self.e.imod(a[0], a[1])
        self.E.fact(st, Implies(a[1] > 0, And(r >= 0, r < a[1])))
        return r

    def m_int_div_euclid(self, st, a, at, dt):
        self.E.oblige(st, self.e.icmp('!=', a[1], IntVal(0)), 'div_euclid by zero', 'div0')
        y = self.e.ival(a[1])
        if y is not None and y > 0:
            return a[0] / a[1]
        raise Unsupported('div_euclid')

    def m_int_next_power_of_two(self, st, a, at, dt):
        lo, hi = self.rng(self.ity(at))
        r = self.E.fresh_int('npow2')
        self.E.oblige(st, a[0] <= (hi + 1) // 2, 'next_power_of_two overflow', 'overflow')
        self.E.fact(st, And(r >= a[0], r >= 1, Implies(a[0] >= 1, r < 2 * a[0]), r <= (hi + 1) // 2))
        return r

    def m_int_is_power_of_two(self, st, a, at, dt):
        r = self.E.fresh_bool('ispow2')
        self.E.fact(st, Implies(r, a[0] >= 1))
        return r

    def m_int_pow(self, st, a, at, dt):
        n = self.e.ival(a[1])
        lo, hi = self.rng(self.ity(at))
        if n is not None and n <= 4:
            r = IntVal(1)
            for _ in range(n):
                r = self.e.imul(r, a[0])
                self.E.oblige(st, And(r >= lo, r <= hi), 'pow overflow', 'overflow')
            return r
        raise Unsupported('int pow')

    # ------------------------------------------------------------ floats
    def m_f32_max(self, st, a, at, dt):
        return fp.fmax(a[0], a[1])

    def m_f32_min(self, st, a, at, dt):
        return fp.fmin(a[0], a[1])

    def m_f32_abs(self, st, a, at, dt):
        return fp.fabs(a[0])

    def m_f32_clamp(self, st, a, at, dt):
        self.E.oblige(st, fp.le(a[1], a[2]), 'f32::clamp: min <= max and not NaN', 'panic')
        return fp.clampv(a[0], a[1], a[2])

    def m_f32_sqrt(self, st, a, at, dt):
        return fp.sqrt(a[0])

    def m_f32_is_finite(self, st, a, at, dt):
        return fp.fin(a[0])

    def m_f32_is_nan(self, st, a, at, dt):
        return fp.isnan(a[0])

    def m_f32_is_infinite(self, st, a, at, dt):
        return Or(a[0] == fp.INF, a[0] == -fp.INF)

    def m_f32_is_sign_negative(self, st, a, at, dt):
        r = self.E.fresh_bool('signbit')
        self.E.fact(st, And(Implies(a[0] < 0, r), Implies(And(a[0] > 0, a[0] <= fp.INF), Not(r))))
        return r

    def m_f32_is_sign_positive(self, st, a, at, dt):
        return Not(self.m_f32_is_sign_negative(st, a, at, dt))

    def m_f32_signum(self, st, a, at, dt):
        r = self.E.fresh('signum', z3.RealSort())
        self.E.fact(st, And(Implies(a[0] > fp.INF, r == fp.NAN), Implies(And(a[0] > 0, a[0] <= fp.INF), r == 1), Implies(a[0] < 0, r == -1), Implies(a[0] == 0, Or(r == 1, r == -1))))
        return r

    def m_f32_floor(self, st, a, at, dt):
        return fp.floor(a[0])

    def m_f32_ceil(self, st, a, at, dt):
        return fp.ceil(a[0])

    def m_f32_round(self, st, a, at, dt):
        return fp.fround(a[0])

    def m_f32_trunc(self, st, a, at, dt):
        return fp.trunc(a[0])

    def m_f32_fract(self, st, a, at, dt):
        r = self.E.fresh('fract', z3.RealSort())
        self.E.fact(st, And(Implies(fp.fin(a[0]), And(r > -1, r < 1, Implies(a[0] >= 0, r >= 0), Implies(a[0] <= 0, r <= 0))), Implies(Not(fp.fin(a[0])), r == fp.NAN)))
        return r

    def m_f32_powf(self, st, a, at, dt):
        return fp.powf(a[0], a[1])

    def m_f32_powi(self, st, a, at, dt):
        n = self.e.ival(a[1])
        if n == 2:
            return fp.mul(a[0], a[0])
        if n == 1:
            return a[0]
        return fp.powi(a[0], a[1])

    def m_f32_rem_euclid(self, st, a, at, dt):
        return fp.remeu(a[0], a[1])

    def m_f32_mul_add(self, st, a, at, dt):
        r = self.E.fresh('fma', z3.RealSort())
        self.E.fact(st, And(r >= -fp.INF, r <= fp.NAN))
        return r

    def m_f32_recip(self, st, a, at, dt):
        return fp.div(fp.rv(1), a[0])

    def m_f32_to_radians(self, st, a, at, dt):
        return fp.mul(a[0], fp.lit('0.017453292519943295'))

    def m_f32_atan2(self, st, a, at, dt):
        f = z3.Function('fp!atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
        r = f(a[0], a[1])
        self.E.fact(st, And(r >= -4, Or(r <= 4, r == fp.NAN), Implies(And(a[0] <= fp.INF, a[1] <= fp.INF), r <= 4)))
        return r

    def m_f32_hypot(self, st, a, at, dt):
        r = fp.hyp(a[0], a[1])
        self.E.fact(st, And(r >= 0, r <= fp.NAN, Implies(And(fp.notnan(a[0]), fp.notnan(a[1])), r <= fp.INF)))
        return r

    def m_f32_copysign(self, st, a, at, dt):
        raise Unsupported('copysign')

    for _n in ('exp', 'ln', 'log10', 'log2', 'sin', 'cos', 'tan', 'exp2', 'tanh', 'atan'):
        def _mk(n):
            return lambda self, st, a, at, dt: fp.UN[n](a[0])
        locals()['m_f32_' + _n] = _mk(_n)

    def cplx(self, op, x, y):
        (a, b), (c, d) = x.items, y.items
        if op in ('Add', 'Sub'):
            f = fp.add if op == 'Add' else fp.sub
            return Tup([f(a, c), f(b, d)], x.name)
        if op == 'Mul':
            return Tup([fp.sub(fp.mul(a, c), fp.mul(b, d)), fp.add(fp.mul(a, d), fp.mul(b, c))], x.name)
        raise Unsupported('complex ' + op)

    # operators through traits on references: &a * &b
    def _op(op):
        def f(self, st, a, at, dt):
            x, y = self.deref(st, a[0]), self.deref(st, a[1])
            if z3.is_expr(x) and z3.is_real(x):
                return self.E.binop(st, op, x, y, ('float', 'f32'))
            if isinstance(x, Tup) and len(x.items) == 2 and isinstance(y, Tup):
                return self.cplx(op, x, y)
            t = self.E.strip(parse_type(self.selfty))
            if op in ('Div', 'Rem'):
                self.E.oblige(st, self.e.icmp('!=', y, IntVal(0)), 'division by zero', 'div0')
                return self.E.binop(st, op, x, y, t)
            r = self.E.binop(st, op + 'WithOverflow', x, y, t)
            self.E.oblige(st, self.e.not_(r.items[1]), op + ' overflow', 'overflow')
            return r.items[0]
        return f
    t_Add_add, t_Sub_sub, t_Mul_mul, t_Div_div, t_Rem_rem = _op('Add'), _op('Sub'), _op('Mul'), _op('Div'), _op('Rem')

    def _opassign(op):
        def f(self, st, a, at, dt):
            x, y = self.deref(st, a[0]), self.deref(st, a[1])
            t = self.E.strip(parse_type(self.selfty))
            if z3.is_expr(x) and z3.is_real(x):
                r = self.E.binop(st, op, x, y, t)
            elif isinstance(x, Tup) and len(x.items) == 2 and isinstance(y, Tup):
                r = self.cplx(op, x, y)
            else:
                q = self.E.binop(st, op + 'WithOverflow', x, y, t)
                self.E.oblige(st, self.e.not_(q.items[1]), op + ' overflow', 'overflow')
                r = q.items[0]
            self.E.write_ref(st, a[0], r)
            return Tup([])
        return f
    t_AddAssign_add_assign, t_SubAssign_sub_assign, t_MulAssign_mul_assign, t_DivAssign_div_assign = _opassign('Add'), _opassign('Sub'), _opassign('Mul'), _opassign('Div')

    def t_Neg_neg(self, st, a, at, dt):
        x = self.deref(st, a[0])
        return fp.neg(x) if z3.is_real(x) else -x

    def t_Not_not(self, st, a, at, dt):
        return self.e.not_(self.deref(st, a[0]))

    # ------------------------------------------------------------ strings (opaque ids)
    def _strpred(name):
        def f(self, st, a, at, dt):
            g = z3.Function('str!' + name, z3.IntSort(), z3.IntSort(), z3.BoolSort())
            x, y = self.deref(st, a[0]), self.deref(st, a[1])
            if z3.is_expr(x) and z3.is_expr(y) and z3.is_int(x) and z3.is_int(y):
                return g(x, y)
            return self.E.fresh_bool('strp')
        return f
    m_str_contains, m_str_starts_with, m_str_ends_with = _strpred('contains'), _strpred('starts_with'), _strpred('ends_with')

    # format!: concatenation of literal pieces and displayed arguments (rustc's byte-encoded template)
    def fmt(self, st, callee, args, atys):
        E = self.E
        I = z3.IntSort()
        ka, ko = ('fmtargs', 0), ('fmtout', 0)
        if '::new_display::<' in callee:
            x = self.deref(st, args[0])
            t = E.strip(atys[0]) if atys[0] else None
            if not z3.is_expr(x) or t is None or t[0] not in ('str', 'int', 'adt'):
                return None
            d = x if t[0] in ('str', 'adt') else z3.Function('str!decimal', I, I)(x)
            if t[0] == 'int':
                E.assumptions.add('Display of an integer is its decimal text; u32 parsing reads decimal text back')
            old = st.store.get(ka)
            st.store[ka] = Tup((list(old.items) if isinstance(old, Tup) else []) + [d])
            return Opq('fmt')
        if re.match(r'std::fmt::Arguments::<[^>]*>::new::<', callee):
            out = self.fmt_tpl(st, args[0], st.store.get(ka))
            st.store.pop(ka, None)
            if out is not None:
                st.store[ko] = out
            else:
                st.store.pop(ko, None)
            return Opq('fmt')
        if callee.startswith('std::fmt::format'):
            o = st.store.pop(ko, None)
            if z3.is_expr(o):
                return o
        return None

    def fmt_tpl(self, st, tpl, args):
        E = self.E
        if not (isinstance(tpl, Opq) and tpl.tag.startswith('bytes:b"')) or not isinstance(args, Tup):
            return None
        b = eval(tpl.tag[6:])
        pieces, i, k = [], 0, 0
        while i < len(b) and b[i]:
            if b[i] == 0xC0:
                if k >= len(args.items):
                    return None
                pieces.append(args.items[k])
                k, i = k + 1, i + 1
            elif b[i] < 0x80:
                n = b[i]
                t = b[i + 1:i + 1 + n].decode()
                pieces.append(E.str_id('"%s"' % t))
                i += 1 + n
            else:
                return None
        if not pieces:
            return None
        I = z3.IntSort()
        cat = z3.Function('str!cat', I, I, I)
        r = pieces[0]
        for p in pieces[1:]:
            r = cat(r, p)
        return r

    def m_str_split_at(self, st, a, at, dt, checked=False):
        I, B = z3.IntSort(), z3.BoolSort()
        s, k = self.deref(st, a[0]), a[1]
        bnd = z3.Function('str!boundary', I, I, B)(s, k)
        if not checked:
            self.E.oblige(st, bnd, 'str split at a character boundary', 'slice')
        parts = Tup([z3.Function('str!prefix', I, I, I)(s, k), z3.Function('str!suffix', I, I, I)(s, k)])
        if checked:
            return En(self.e.ite(bnd, IntVal(1), IntVal(0)), {0: [], 1: [parts]}, dt)
        return parts

    def m_str_split_at_checked(self, st, a, at, dt):
        return self.m_str_split_at(st, a, at, dt, True)

    def m_str_is_char_boundary(self, st, a, at, dt):
        I, B = z3.IntSort(), z3.BoolSort()
        return z3.Function('str!boundary', I, I, B)(self.deref(st, a[0]), a[1])

    def m_str_parse(self, st, a, at, dt):
        I, B = z3.IntSort(), z3.BoolSort()
        s = self.deref(st, a[0])
        t = self.E.strip(dt[2][0]) if dt and dt[0] == 'adt' and len(dt) > 2 and dt[2] else None
        if t is None or t[0] != 'int':
            raise Unsupported('parse %s' % (dt,))
        ok = z3.Function('str!parses_' + t[1], I, B)(s)
        v = z3.Function('str!value_' + t[1], I, I)(s)
        w, sg = INTS[t[1]]
        lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if sg else (0, 2**w - 1)
        self.E.fact(st, And(v >= lo, v <= hi))
        return En(self.e.ite(ok, IntVal(0), IntVal(1)), {0: [v], 1: [Opq('parse error')]}, dt)

    def m_str_len(self, st, a, at, dt):
        return self.str_len(st, self.deref(st, a[0]))

    def m_str_is_empty(self, st, a, at, dt):
        return self.e.icmp('==', self.str_len(st, self.deref(st, a[0])), IntVal(0))

    def newstr(self, st, a, at, dt):
        return self.E.fresh_int('str')

    m_str_to_lowercase = m_str_to_uppercase = m_str_trim = m_str_new = m_str_with_capacity = newstr
    m_slice_join = newstr
    m_str_push_str = lambda self, st, a, at, dt: (self.E.write_ref(st, a[0], self.E.fresh_int('str')), Tup([]))[1]
    m_str_push = m_str_push_str

    # ------------------------------------------------------------ Option / Result
    def isd(self, v, d):
        return self.e.icmp('==', v.d, IntVal(d))

    def m_Option_is_some(self, st, a, at, dt):
        return self.isd(self.deref(st, a[0]), 1)

    def m_Option_is_none(self, st, a, at, dt):
        return self.isd(self.deref(st, a[0]), 0)

    def m_Result_is_ok(self, st, a, at, dt):
        return self.isd(self.deref(st, a[0]), 0)

    def m_Result_is_err(self, st, a, at, dt):
        return self.isd(self.deref(st, a[0]), 1)

    def pay(self, v, d, i=0):
        p = v.pay.get(d)
        if p is None or i >= len(p):
            return Poison('absent variant')
        return p[i]

    def m_Option_unwrap(self, st, a, at, dt):
        self.E.oblige(st, self.isd(a[0], 1), 'unwrap of None', 'unwrap')
        return self.pay(a[0], 1)

    m_Option_expect = m_Option_unwrap

    def m_Result_unwrap(self, st, a, at, dt):
        self.E.oblige(st, self.isd(a[0], 0), 'unwrap of Err', 'unwrap')
        return self.pay(a[0], 0)

    m_Result_expect = m_Result_unwrap

    def sel(self, c, x, y):
        """c ? x : y where x/y may be absent"""
        if isinstance(x, Poison):
            return y
        if isinstance(y, Poison):
            return x
        return self.E.merge_val(c, x, y)

    def m_Option_unwrap_or(self, st, a, at, dt):
        return self.sel(self.isd(a[0], 1), self.pay(a[0], 1), a[1])

    def m_Result_unwrap_or(self, st, a, at, dt):
        return self.sel(self.isd(a[0], 0), self.pay(a[0], 0), a[1])

    def m_Option_unwrap_or_default(self, st, a, at, dt):
        return self.sel(self.isd(a[0], 1), self.pay(a[0], 1), self.default_of(self.E.strip(dt)))

    def m_Result_unwrap_or_default(self, st, a, at, dt):
        return self.sel(self.isd(a[0], 0), self.pay(a[0], 0), self.default_of(self.E.strip(dt)))

    def m_Option_unwrap_or_else(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        d = self.E.with_cond(st, self.e.not_(c), lambda s: self.E.call_value(s, a[1], []))
        return self.pay(a[0], 1) if d is None else self.sel(c, self.pay(a[0], 1), d)

    def m_Result_unwrap_or_else(self, st, a, at, dt):
        c = self.isd(a[0], 0)
        d = self.E.with_cond(st, self.e.not_(c), lambda s: self.E.call_value(s, a[1], [self.payv(a[0], 1)]))
        return self.pay(a[0], 0) if d is None else self.sel(c, self.pay(a[0], 0), d)

    def payv(self, v, d):
        p = self.pay(v, d)
        return Opq('absent') if isinstance(p, Poison) else p

    def m_Option_map(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        t = dt[2][0] if dt and dt[0] == 'adt' else None
        if isinstance(p, Poison) or self.e.is_false(c):
            return self.none(t)
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        return self.opt(c, r, t)

    def m_Option_and_then(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        t = dt[2][0] if dt and dt[0] == 'adt' else None
        if isinstance(p, Poison) or self.e.is_false(c):
            return self.none(t)
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        return En(self.e.ite(c, r.d, IntVal(0)), {0: [], **r.pay}, r.ty)

    def m_Option_map_or(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        if isinstance(p, Poison):
            return a[1]
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[2], [p]))
        return a[1] if r is None else self.E.merge_val(c, r, a[1])

    def m_Option_map_or_else(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        d = self.E.with_cond(st, self.e.not_(c), lambda s: self.E.call_value(s, a[1], []))
        if isinstance(p, Poison):
            return d
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[2], [p]))
        return d if r is None else r if d is None else self.E.merge_val(c, r, d)

    def m_Option_is_some_and(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        if isinstance(p, Poison):
            return self.e.FALSE
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        return self.e.FALSE if r is None else self.e.and_(c, r)

    def m_Option_is_none_or(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        if isinstance(p, Poison):
            return self.e.TRUE
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        return self.e.TRUE if r is None else self.e.imp(c, r)

    def m_Option_filter(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        if isinstance(p, Poison):
            return a[0]
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        return self.opt(self.e.and_(c, r), p, a[0].ty[2][0])

    def m_Option_or(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        return self.E.merge_val(c, a[0], a[1])

    def m_Option_or_else(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        r = self.E.with_cond(st, self.e.not_(c), lambda s: self.E.call_value(s, a[1], []))
        return a[0] if r is None else self.E.merge_val(c, a[0], r)

    def m_Option_zip(self, st, a, at, dt):
        c = self.e.and_(self.isd(a[0], 1), self.isd(a[1], 1))
        p, q = self.pay(a[0], 1), self.pay(a[1], 1)
        t = dt[2][0] if dt else None
        if isinstance(p, Poison) or isinstance(q, Poison):
            return self.none(t)
        return self.opt(c, Tup([p, q]), t)

    def m_Option_ok_or(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        return En(self.e.ite(c, IntVal(0), IntVal(1)), {0: [self.pay(a[0], 1)], 1: [a[1]]}, dt)

    def m_Option_ok_or_else(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        d = self.E.with_cond(st, self.e.not_(c), lambda s: self.E.call_value(s, a[1], []))
        return En(self.e.ite(c, IntVal(0), IntVal(1)), {0: [self.pay(a[0], 1)], 1: [d if d is not None else Opq('')]}, dt)

    def m_Option_as_ref(self, st, a, at, dt):
        return self.deref(st, a[0])

    m_Option_copied = m_Option_cloned = m_Option_as_deref = m_Result_as_ref = m_Option_as_ref

    def m_Option_as_mut(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        return En(v.d, {0: [], 1: [a[0].ext(('vf', 1, 0, ''))]}, v.ty)

    def m_Option_take(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        self.E.write_ref(st, a[0], self.none(v.ty[2][0]))
        return v

    def m_Option_insert(self, st, a, at, dt):
        self.E.write_ref(st, a[0], self.some(a[1]))
        return a[0].ext(('vf', 1, 0, ''))

    def m_Result_ok(self, st, a, at, dt):
        c = self.isd(a[0], 0)
        p = self.pay(a[0], 0)
        t = dt[2][0] if dt else None
        return self.none(t) if isinstance(p, Poison) else self.opt(c, p, t)

    def m_Result_err(self, st, a, at, dt):
        c = self.isd(a[0], 1)
        p = self.pay(a[0], 1)
        t = dt[2][0] if dt else None
        return self.none(t) if isinstance(p, Poison) else self.opt(c, p, t)

    def m_Result_map(self, st, a, at, dt):
        c = self.isd(a[0], 0)
        p = self.pay(a[0], 0)
        if isinstance(p, Poison):
            return a[0]
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        pay = {0: [r]}
        if 1 in a[0].pay:
            pay[1] = a[0].pay[1]
        return En(a[0].d, pay, dt)

    def m_Result_map_err(self, st, a, at, dt):
        v = a[0]
        p = self.pay(v, 1)
        c = self.isd(v, 1)
        pay = dict(v.pay)
        if not isinstance(p, Poison):
            r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
            pay[1] = [r if r is not None else Opq('err')]
        return En(v.d, pay, dt)

    def m_Result_and_then(self, st, a, at, dt):
        v = a[0]
        c = self.isd(v, 0)
        p = self.pay(v, 0)
        if isinstance(p, Poison):
            return v
        r = self.E.with_cond(st, c, lambda s: self.E.call_value(s, a[1], [p]))
        err = En(IntVal(1), {1: v.pay.get(1, [Opq('err')])}, dt)
        return self.E.merge_val(c, r, err)

    def t_Try_branch(self, st, a, at, dt):
        v = a[0]
        if isinstance(v, En) and v.ty[1] == 'std::option::Option':
            # Some -> Continue(0), None -> Break(1)
            return En(self.e.ite(self.isd(v, 1), IntVal(0), IntVal(1)), {0: v.pay.get(1, [Poison('absent')]), 1: [self.none()]}, dt)
        return En(v.d, {0: v.pay.get(0, [Poison('absent')]), 1: [En(IntVal(1), {1: v.pay.get(1, [Opq('err')])}, dt[2][0] if dt else v.ty)]}, dt)

    def t_FromResidual_from_residual(self, st, a, at, dt):
        v = a[0]
        if dt and dt[1] == 'std::option::Option':
            return self.none(dt[2][0])
        return En(IntVal(1), {1: v.pay.get(1, [Opq('err')])}, dt)

    # ------------------------------------------------------------ Vec / slice
    def empty(self, ety):
        ls = self.E.leafsorts(ety)
        return Sq(IntVal(0), ArrE([self.E.default_array(s) for s in ls], ety, self.E), ety)

    def m_Vec_new(self, st, a, at, dt):
        t = self.E.strip(dt)
        return self.empty(t[1])

    m_Vec_with_capacity = m_Vec_new

    def f_std_vec_from_elem(self, st, a, at, dt):
        t = self.E.strip(dt)
        return self.E.repeat(a[0], a[1], t[1])

    def f_std_boxed_box_assume_init_into_vec_unsafe(self, st, a, at, dt):
        return a[0]

    def m_Box_new_uninit(self, st, a, at, dt):
        return Opq('uninit box')

    m_BoxRaw_new_uninit = m_Box_new_uninit

    def m_Box_new(self, st, a, at, dt):
        return a[0]

    def seqlen(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, Sq):
            return v.n
        if isinstance(v, It):
            return self.e.isub(v.n, v.pos)
        raise Unsupported('len of %s' % type(v).__name__)

    def m_Vec_len(self, st, a, at, dt):
        return self.seqlen(st, a[0])

    m_slice_len = m_Vec_len

    def m_Vec_is_empty(self, st, a, at, dt):
        return self.e.icmp('==', self.seqlen(st, a[0]), IntVal(0))

    m_slice_is_empty = m_Vec_is_empty

    def m_Vec_capacity(self, st, a, at, dt):
        r = self.E.fresh_int('cap')
        self.E.fact(st, r >= self.seqlen(st, a[0]))
        return r

    def noop(self, st, a, at, dt):
        return Tup([])

    m_Vec_reserve = m_Vec_shrink_to_fit = m_Vec_reserve_exact = noop

    def m_Vec_push(self, st, a, at, dt):
        E = self.E
        v = E.read_ref(st, a[0])
        if not isinstance(v, Sq):
            raise Unsupported('push on %s' % type(v).__name__)
        x = a[1]
        ety = v.ety
        if ety is None:
            raise Unsupported('push untyped')
        if not E.leafsorts(ety):
            E.write_ref(st, a[0], Sq(self.e.iadd(v.n, IntVal(1)), v.el, ety))
            return Tup([])
        v = E.materialize(v, None, st)
        lv = E.flatten(self.derefv(st, x), ety, st)
        arrs = [Store(p, v.n, l) for p, l in zip(v.el.arrs, lv)]
        if not E.binders and self.e.ival(v.n) is None:
            # name the new arrays: gives quantifier triggers a ground term to match
            nm = [E.fresh('push', x.sort()) for x in arrs]
            for x, y in zip(nm, arrs):
                E.fact(st, x == y)
            arrs = nm
        n2 = self.e.iadd(v.n, IntVal(1))
        E.write_ref(st, a[0], Sq(n2, ArrE(arrs, v.el.ety, E), ety))
        if self.e.ival(n2) is None:
            E.fact(st, n2 <= (2**63 - 1) // E.min_size(ety))
        return Tup([])

    def derefv(self, st, x):
        return x

    def m_Vec_pop(self, st, a, at, dt):
        E = self.E
        v = E.read_ref(st, a[0])
        c = self.e.icmp('<', IntVal(0), v.n)
        last = self.e.isub(v.n, IntVal(1))
        x = v.get(last)
        E.write_ref(st, a[0], Sq(self.e.ite(c, last, v.n), v.el, v.ety))
        return self.opt(c, x, v.ety)

    def m_Vec_clear(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        self.E.write_ref(st, a[0], Sq(IntVal(0), v.el, v.ety))
        return Tup([])

    def m_Vec_truncate(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        self.E.write_ref(st, a[0], Sq(self.e.ite(self.e.icmp('<', a[1], v.n), a[1], v.n), v.el, v.ety))
        return Tup([])

    def m_Vec_resize(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        x = a[2]
        self.E.write_ref(st, a[0], Sq(a[1], FunE(lambda i: self.E.merge_val(self.e.icmp('<', i, v.n), v.get(i), x), v.ety), v.ety))
        return Tup([])

    def append(self, st, ref, n2, get2):
        E = self.E
        v = E.read_ref(st, ref)
        n = v.n
        if self.e.ival(n) == 0:
            new = Sq(n2, FunE(get2, v.ety), v.ety)
        else:
            new = Sq(self.e.iadd(n, n2), FunE(lambda i: E.merge_val(self.e.icmp('<', i, n), v.get(i), get2(self.e.isub(i, n))), v.ety), v.ety)
        E.fact(st, new.n <= (2**63 - 1) // E.min_size(v.ety))
        E.write_ref(st, ref, new)
        return Tup([])

    def m_Vec_extend_from_slice(self, st, a, at, dt):
        s = self.deref(st, a[1])
        return self.append(st, a[0], s.n, s.get)

    def t_Extend_extend(self, st, a, at, dt):
        it = self.norm(self.to_iter(st, a[1]))
        return self.append(st, a[0], it.n, it.get)

    def m_Vec_append(self, st, a, at, dt):
        s = self.E.read_ref(st, a[1])
        r = self.append(st, a[0], s.n, s.get)
        self.E.write_ref(st, a[1], self.empty(s.ety))
        return r

    def m_Vec_insert(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        i, x = a[1], a[2]
        self.E.oblige(st, self.e.icmp('<=', i, v.n), 'insert index', 'bounds')
        new = Sq(self.e.iadd(v.n, IntVal(1)), FunE(lambda k: self.E.merge_val(k < i, v.get(k), self.E.merge_val(k == i, x, v.get(self.e.isub(k, IntVal(1))))), v.ety), v.ety)
        self.E.write_ref(st, a[0], new)
        return Tup([])

    def m_Vec_remove(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        i = a[1]
        self.E.oblige(st, self.e.icmp('<', i, v.n), 'remove index', 'bounds')
        x = v.get(i)
        new = Sq(self.e.isub(v.n, IntVal(1)), FunE(lambda k: self.E.merge_val(k < i, v.get(k), v.get(self.e.iadd(k, IntVal(1)))), v.ety), v.ety)
        self.E.write_ref(st, a[0], new)
        return x

    def m_slice_swap(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        self.E.oblige(st, And(a[1] < v.n, a[2] < v.n), 'swap index', 'bounds')
        x, y = v.get(a[1]), v.get(a[2])
        self.E.write_ref(st, a[0].ext(('i', a[1])), y)
        self.E.write_ref(st, a[0].ext(('i', a[2])), x)
        return Tup([])

    def m_slice_reverse(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        self.E.write_ref(st, a[0], Sq(v.n, FunE(lambda i: v.get(self.e.isub(self.e.isub(v.n, IntVal(1)), i)), v.ety), v.ety))
        return Tup([])

    def m_slice_fill(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        x = a[1]
        self.E.write_ref(st, a[0], Sq(v.n, FunE(lambda i: x, v.ety), v.ety))
        return Tup([])

    def m_slice_copy_from_slice(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        s = self.deref(st, a[1])
        self.E.oblige(st, self.e.icmp('==', v.n, s.n), 'copy_from_slice lengths', 'panic')
        self.E.write_ref(st, a[0], Sq(v.n, s.el, v.ety))
        return Tup([])

    m_slice_clone_from_slice = m_slice_copy_from_slice

    def m_slice_rotate_left(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        k = a[1]
        self.E.oblige(st, self.e.icmp('<=', k, v.n), 'rotate amount', 'panic')
        self.E.write_ref(st, a[0], Sq(v.n, FunE(lambda i: v.get(If(i + k < v.n, i + k, i + k - v.n)), v.ety), v.ety))
        return Tup([])

    def m_slice_rotate_right(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        k = a[1]
        self.E.oblige(st, self.e.icmp('<=', k, v.n), 'rotate amount', 'panic')
        self.E.write_ref(st, a[0], Sq(v.n, FunE(lambda i: v.get(If(i >= k, i - k, i - k + v.n)), v.ety), v.ety))
        return Tup([])

    def m_slice_first(self, st, a, at, dt):
        v = self.deref(st, a[0])
        c = self.e.icmp('<', IntVal(0), v.n)
        return self.opt(c, v.get(0), v.ety)

    def m_slice_last(self, st, a, at, dt):
        v = self.deref(st, a[0])
        c = self.e.icmp('<', IntVal(0), v.n)
        return self.opt(c, v.get(self.e.isub(v.n, IntVal(1))), v.ety)

    def m_slice_last_mut(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        c = self.e.icmp('<', IntVal(0), v.n)
        return self.opt(c, a[0].ext(('i', self.e.isub(v.n, IntVal(1)))), v.ety)

    def m_slice_first_mut(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        return self.opt(self.e.icmp('<', IntVal(0), v.n), a[0].ext(('i', IntVal(0))), v.ety)

    def rng_of(self, st, r, n, ty):
        """(lo, hi) of a range value r for a sequence of length n"""
        h = ty[1].split('::')[-1]
        e = self.e
        if h == 'Range':
            return r.items[0], r.items[1]
        if h == 'RangeFrom':
            return r.items[0], n
        if h == 'RangeTo':
            return IntVal(0), r.items[0]
        if h == 'RangeInclusive':
            return r.items[0], e.iadd(r.items[1], IntVal(1))
        if h == 'RangeToInclusive':
            return IntVal(0), e.iadd(r.items[0], IntVal(1))
        if h == 'RangeFull':
            return IntVal(0), n
        raise Unsupported('range ' + h)

    def index_ty(self):
        t = self.trait
        if not t or '<' not in t:
            return ('int', 'usize')
        return parse_type(t[t.index('<') + 1:-1])

    def t_Index_index(self, st, a, at, dt):
        v = self.deref(st, a[0])
        it = self.index_ty()
        if isinstance(v, MapV):
            raise Unsupported('map index')
        if not isinstance(v, Sq):
            if z3.is_expr(v):
                # str slicing
                self.E.oblige(st, self.e.FALSE, 'str slicing on char boundary', 'slice')
                return self.E.fresh_int('str')
            raise Unsupported('index of %s' % type(v).__name__)
        if it[0] == 'int':
            self.E.oblige(st, self.e.icmp('<', a[1], v.n), 'index in bounds', 'bounds')
            return v.get(a[1])
        lo, hi = self.rng_of(st, a[1], v.n, it)
        self.E.oblige(st, self.e.icmp('<=', lo, hi), 'slice start <= end', 'slice')
        self.E.oblige(st, self.e.icmp('<=', hi, v.n), 'slice end <= len', 'slice')
        return self.E.subslice(v, lo, hi)

    def t_IndexMut_index_mut(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        it = self.index_ty()
        if not isinstance(v, Sq):
            raise Unsupported('index_mut of %s' % type(v).__name__)
        if it[0] == 'int':
            self.E.oblige(st, self.e.icmp('<', a[1], v.n), 'index in bounds', 'bounds')
            return a[0].ext(('i', a[1]))
        lo, hi = self.rng_of(st, a[1], v.n, it)
        self.E.oblige(st, self.e.icmp('<=', lo, hi), 'slice start <= end', 'slice')
        self.E.oblige(st, self.e.icmp('<=', hi, v.n), 'slice end <= len', 'slice')
        if it[1].endswith('RangeFull'):
            return a[0]
        return a[0].ext(('sl', lo, hi))

    def m_slice_get(self, st, a, at, dt):
        v = self.deref(st, a[0])
        i = a[1]
        if z3.is_expr(i):
            return self.opt(self.e.icmp('<', i, v.n), v.get(i), v.ety)
        t = parse_type(self.gens[0]) if self.gens else (at[1] if at else None)
        lo, hi = self.rng_of(st, i, v.n, t)
        return self.opt(self.e.and_(self.e.icmp('<=', lo, hi), self.e.icmp('<=', hi, v.n)), self.E.subslice(v, lo, hi), ('slice', v.ety))

    def m_slice_get_mut(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        i = a[1]
        if z3.is_expr(i):
            return self.opt(self.e.icmp('<', i, v.n), a[0].ext(('i', i)), v.ety)
        raise Unsupported('get_mut range')

    def m_slice_contains(self, st, a, at, dt):
        v = self.deref(st, a[0])
        return self.any_model(st, It(v.n, v.get, 0), lambda s, x: self.eq_val(s, x, a[1]))

    m_Vec_contains = m_slice_contains

    def m_slice_split_at(self, st, a, at, dt):
        v = self.deref(st, a[0])
        self.E.oblige(st, self.e.icmp('<=', a[1], v.n), 'split_at index', 'slice')
        return Tup([self.E.subslice(v, IntVal(0), a[1]), self.E.subslice(v, a[1], v.n)])

    def m_slice_split_at_mut(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        self.E.oblige(st, self.e.icmp('<=', a[1], v.n), 'split_at index', 'slice')
        return Tup([a[0].ext(('sl', IntVal(0), a[1])), a[0].ext(('sl', a[1], v.n))])

    def m_slice_split_first(self, st, a, at, dt):
        v = self.deref(st, a[0])
        return self.opt(self.e.icmp('<', IntVal(0), v.n), Tup([v.get(0), self.E.subslice(v, IntVal(1), v.n)]))

    def m_slice_split_last(self, st, a, at, dt):
        v = self.deref(st, a[0])
        l = self.e.isub(v.n, IntVal(1))
        return self.opt(self.e.icmp('<', IntVal(0), v.n), Tup([v.get(l), self.E.subslice(v, IntVal(0), l)]))

    def m_RangeInclusive_new(self, st, a, at, dt):
        return Tup([a[0], a[1], self.e.FALSE], 'RangeInclusive')

    def m_RangeInclusive_contains(self, st, a, at, dt):
        r, x = self.deref(st, a[0]), self.deref(st, a[1])
        if z3.is_real(x):
            return self.e.and_(fp.le(r.items[0], x), fp.le(x, r.items[1]))
        return self.e.and_(self.e.icmp('<=', r.items[0], x), self.e.icmp('<=', x, r.items[1]))

    def m_RangeInclusive_start(self, st, a, at, dt):
        return self.deref(st, a[0]).items[0]

    def m_RangeInclusive_end(self, st, a, at, dt):
        return self.deref(st, a[0]).items[1]

    def m_Range_contains(self, st, a, at, dt):
        r, x = self.deref(st, a[0]), self.deref(st, a[1])
        if z3.is_real(x):
            return self.e.and_(fp.le(r.items[0], x), fp.lt(x, r.items[1]))
        return self.e.and_(self.e.icmp('<=', r.items[0], x), self.e.icmp('<', x, r.items[1]))

    # ------------------------------------------------------------ sorting
    def sort_model(self, st, ref, leq, name, nth=None):
        """replace *ref by a permutation sorted by leq(s, a, b) (a may come before b)"""
        E = self.E
        v = E.read_ref(st, ref)
        E.assumptions.add('slice sort: result is a permutation of the input ordered by the comparator (a total order on the elements present is an obligation)')
        n = v.n
        perm = E.fresh_fn('perm', z3.IntSort(), z3.IntSort())
        inv = E.fresh_fn('pinv', z3.IntSort(), z3.IntSort())
        k = Int('k!%d' % next(E.cnt))
        g = And(k >= 0, k < n)
        E.fact(st, FA([k], Implies(g, And(perm(k) >= 0, perm(k) < n, inv(perm(k)) == k)), patterns=[perm(k)]))
        E.fact(st, FA([k], Implies(g, And(inv(k) >= 0, inv(k) < n, perm(inv(k)) == k)), patterns=[inv(k)]))
        old = v
        new = Sq(n, FunE(lambda i: old.get(perm(i)), v.ety), v.ety)
        # fresh arrays so that both directions have triggers
        if E.leafsorts(v.ety):
            arrs = [E.fresh('sorted', z3.ArraySort(z3.IntSort(), s)) for s in E.leafsorts(v.ety)]
            new = Sq(n, ArrE(arrs, v.ety, E), v.ety)
            om = old if isinstance(old.el, ArrE) else E.materialize(old, None, st)
            for x, y in zip(arrs, om.el.arrs):
                E.fact(st, FA([k], Implies(g, Select(x, k) == Select(y, perm(k))), patterns=[Select(x, k)]))
                E.fact(st, FA([k], Implies(g, Select(y, k) == Select(x, inv(k))), patterns=[Select(y, k)]))
            if leq is None:
                E.write_ref(st, ref, new)
                return Tup([])
            j = Int('j!%d' % next(E.cnt))
            gg = And(k >= 0, k < j, j < n) if nth is None else And(k >= 0, k <= nth, nth <= j, j < n)
            nf = len(E.facts)
            s2 = st.copy()
            s2.assume(gg)
            E.binders.append((k, gg))
            E.binders.append((j, gg))
            c = leq(s2, new.get(k), new.get(j))
            E.binders.pop()
            E.binders.pop()
            E._close_binder(nf, k)
            E._close_binder(nf, j)
            p = Select(arrs[0], k), Select(arrs[0], j)
            E.fact(st, FA([k, j], Implies(gg, c), patterns=[tuple(p)]))
        if leq is not None and nth is None and v.ety is not None and E.strip(v.ety) == ('float', 'f32') and E.opts.get('os'):
            # order statistics: the k-th smallest value of a list is a function of the list
            x, y = arrs[0], om.el.arrs[0]
            a, b = Int('k!%d' % next(E.cnt)), Int('j!%d' % next(E.cnt))
            up = FA([a, b], Implies(And(a >= 0, a < b, b < n), Select(x, a) <= Select(x, b)), patterns=[(Select(x, a), Select(x, b))])
            E.fact(st, Implies(up, FA([k], Implies(g, Select(x, k) == OS(y, n, k)), patterns=[Select(x, k)])))
        E.write_ref(st, ref, new)
        return Tup([])

    def m_slice_sort_by(self, st, a, at, dt):
        E = self.E
        v = E.read_ref(st, a[0])
        if E.partial:       # nothing is known of the comparator: some permutation
            return self.sort_model(st, a[0], None, 'sort_by')
        self.check_cmp(st, v, a[1])
        return self.sort_model(st, a[0], lambda s, x, y: self.e.icmp('<=', E.call_value(s, a[1], [x, y]).d, IntVal(0)), 'sort_by')

    m_slice_sort_unstable_by = m_slice_sort_by

    def m_slice_select_nth_unstable_by(self, st, a, at, dt):
        E = self.E
        v = E.read_ref(st, a[0])
        E.oblige(st, self.e.icmp('<', a[1], v.n), 'select_nth index in range', 'panic')
        if E.partial:
            self.sort_model(st, a[0], None, 'select_nth')
            return Tup([Opq('lt'), a[0].ext(('i', a[1])), Opq('gt')])
        self.check_cmp(st, v, a[2])
        self.sort_model(st, a[0], lambda s, x, y: self.e.icmp('<=', E.call_value(s, a[2], [x, y]).d, IntVal(0)), 'select_nth', a[1])
        return Tup([Opq('lt'), a[0].ext(('i', a[1])), Opq('gt')])

    def check_cmp(self, st, v, clo):
        """evaluate the comparator on generic elements (panics inside it are obligations) and
        oblige it to be a total order on the elements (std may panic otherwise)"""
        E = self.E
        k, j = Int('ck!%d' % next(E.cnt)), Int('cj!%d' % next(E.cnt))
        g = And(k >= 0, k < v.n, j >= 0, j < v.n)
        nf = len(E.facts)
        s2 = st.copy()
        s2.assume(g)
        E.binders.append((k, g))
        E.binders.append((j, g))
        c1 = E.call_value(s2, clo, [v.get(k), v.get(j)])
        c2 = E.call_value(s2, clo, [v.get(j), v.get(k)])
        # antisymmetry: cmp(a,b) = -cmp(b,a)
        E.oblige(s2, c1.d == -c2.d, 'sort comparator antisymmetric', 'sortord', assume=False)
        # transitivity of <=
        l = Int('cl!%d' % next(E.cnt))
        g3 = And(l >= 0, l < v.n)
        s3 = s2.copy()
        s3.assume(g3)
        E.binders.append((l, g3))
        c3 = E.call_value(s3, clo, [v.get(j), v.get(l)])
        c4 = E.call_value(s3, clo, [v.get(k), v.get(l)])
        E.oblige(s3, Implies(And(c1.d <= 0, c3.d <= 0), And(c4.d <= 0, Implies(c4.d == 0, And(c1.d == 0, c3.d == 0)))), 'sort comparator transitive', 'sortord', assume=False)
        E.binders.pop()
        E.binders.pop()
        E.binders.pop()
        E._close_binder(nf, k)
        E._close_binder(nf, j)
        E._close_binder(nf, l)

    def m_slice_sort(self, st, a, at, dt):
        return self.sort_model(st, a[0], lambda s, x, y: self.e.icmp('<=', self.cmp_val(s, x, y).d, IntVal(0)), 'sort')

    m_slice_sort_unstable = m_slice_sort

    def m_slice_sort_by_key(self, st, a, at, dt):
        return self.sort_model(st, a[0], lambda s, x, y: self.e.icmp('<=', self.cmp_val(s, self.E.call_value(s, a[1], [x]), self.E.call_value(s, a[1], [y])).d, IntVal(0)), 'sort_by_key')

    m_slice_sort_unstable_by_key = m_slice_sort_by_key

    def m_Vec_dedup(self, st, a, at, dt):
        E = self.E
        v = E.read_ref(st, a[0])
        r, src, m = self.dedup(st, a[0], lambda s, x, y: self.eq_val(s, x, y))
        # equality is transitive, so the element just before a kept one differs from it
        j = Int('j!%d' % next(E.cnt))
        if v.ety is not None and E.strip(v.ety)[0] in ('int', 'float'):
            # every element equals the kept one that opened its run
            new = E.read_ref(st, a[0])
            grp = E.fresh_fn('ddgrp', z3.IntSort(), z3.IntSort())
            E.fact(st, FA([j], Implies(And(j >= 0, j < m), grp(src(j)) == j), patterns=[src(j)]))
            E.fact(st, FA([j], Implies(And(j >= 0, j < v.n), And(grp(j) >= 0, grp(j) < m, src(grp(j)) <= j, new.get(grp(j)) == v.get(src(grp(j))), Or(src(grp(j)) == j, self.eq_val(st, v.get(j), new.get(grp(j)))))), patterns=[grp(j)] + ([v.get(j)] if z3.is_select(v.get(j)) else [])))
            E.fact(st, FA([j], Implies(And(j >= 1, j < m), And(src(j) >= 1, Not(self.eq_val(st, v.get(src(j) - 1), v.get(src(j)))))), patterns=[src(j)]))
            if E.opts.get('pigeon') and E.strip(v.ety)[0] == 'int':
                # integers that rise at every step are no more than their span; otherwise w is a step that does not rise
                w = E.fresh_int('ddw')
                E.fact(st, Or(m <= 0, m <= new.get(m - 1) - new.get(IntVal(0)) + 1, And(w >= 0, w + 1 < m, new.get(w) >= new.get(w + 1))))
        return r

    def m_Vec_dedup_by(self, st, a, at, dt):
        return self.dedup(st, a[0], lambda s, x, y: self.E.call_value(s, a[1], [y, x]))[0]

    def dedup(self, st, ref, same):
        E = self.E
        v = E.read_ref(st, ref)
        m = E.fresh_int('dd')
        src = E.fresh_fn('ddsrc', z3.IntSort(), z3.IntSort())
        k, j = Int('k!%d' % next(E.cnt)), Int('j!%d' % next(E.cnt))
        E.fact(st, And(m >= 0, m <= v.n, Implies(v.n > 0, m > 0), Implies(m > 0, src(0) == 0)))
        E.fact(st, FA([k], Implies(And(k >= 0, k < m), And(src(k) >= k, src(k) < v.n)), patterns=[src(k)]))
        E.fact(st, FA([k, j], Implies(And(k >= 0, k < j, j < m), src(k) < src(j)), patterns=[(src(k), src(j))]))
        new = E.materialize(Sq(m, FunE(lambda i: v.get(src(i)), v.ety), v.ety), None, st)
        nf = len(E.facts)
        g = And(k >= 0, k + 1 < m)
        s2 = st.copy()
        s2.assume(g)
        E.binders.append((k, g))
        c = same(s2, new.get(k), new.get(k + 1))
        E.binders.pop()
        E._close_binder(nf, k)
        E.fact(st, FA([k], Implies(g, Not(c)), patterns=[(Select(x, k), Select(x, k + 1)) for x in new.el.arrs]))
        E.write_ref(st, ref, new)
        return Tup([]), src, m

    def m_Vec_retain(self, st, a, at, dt):
        E = self.E
        v = E.read_ref(st, a[0])
        it = self.filter_model(st, It(v.n, v.get, 0), lambda s, x: E.call_value(s, a[1], [x]))
        E.write_ref(st, a[0], Sq(it.n, FunE(it.get, v.ety), v.ety))
        return Tup([])

    def m_Vec_drain(self, st, a, at, dt):
        v = self.E.read_ref(st, a[0])
        t = parse_type(self.gens[0]) if self.gens else at[1]
        lo, hi = self.rng_of(st, a[1], v.n, t)
        self.E.oblige(st, self.e.and_(self.e.icmp('<=', lo, hi), self.e.icmp('<=', hi, v.n)), 'drain range', 'slice')
        s = self.E.subslice(v, lo, hi)
        d = self.e.isub(hi, lo)
        self.E.write_ref(st, a[0], Sq(self.e.isub(v.n, d), FunE(lambda i: self.E.merge_val(i < lo, v.get(i), v.get(i + d)), v.ety), v.ety))
        return It(s.n, s.get, 0)

    # ------------------------------------------------------------ iterators
    def to_iter(self, st, v, ty=None):
        e = self.e
        if isinstance(v, It):
            return v
        if isinstance(v, Sq):
            return It(v.n, v.get, 0, v.ety)
        if isinstance(v, RefM):
            x = self.E.read_ref(st, v)
            if isinstance(x, Sq):
                return It(x.n, lambda i: v.ext(('i', i)), 0, ('ref', True, x.ety), 'mut')
            if isinstance(x, It):
                raise Unsupported('by-ref iterator adaptor')
            v = x
        if isinstance(v, Tup):
            if len(v.items) >= 2 and z3.is_expr(v.items[0]) and z3.is_int(v.items[0]):
                lo, hi = v.items[0], v.items[1]
                if len(v.items) == 3:
                    hi = e.iadd(hi, IntVal(1))
                a, b = e.ival(lo), e.ival(hi)
                if a is not None and b is not None:
                    n = IntVal(max(a, b))
                elif a == 0:
                    n = hi     # unsigned upper bound, or a negative one giving an empty range
                    if not self.nonneg_ty(ty):
                        n = If(hi >= 0, hi, IntVal(0))
                else:
                    n = If(lo <= hi, hi, lo)
                return It(n, lambda i: i, lo, ('int', 'usize'), 'range')
            if len(v.items) == 1:
                raise Unsupported('unbounded range')
        if isinstance(v, En) and v.ty[1] == 'std::option::Option':
            p = v.pay.get(1)
            return It(e.ite(self.isd(v, 1), IntVal(1), IntVal(0)), lambda i: p[0] if p else Opq(''), 0)
        if isinstance(v, MapV):
            return self.map_iter(st, v)
        raise Unsupported('iterate %s' % type(v).__name__)

    def nonneg_ty(self, ty):
        if ty and ty[0] == 'adt' and ty[2] and ty[2][0][0] == 'int':
            return not INTS[ty[2][0][1]][1]
        return False

    def norm(self, it):
        if self.e.ival(it.pos) == 0:
            return it
        p = it.pos
        return It(self.e.isub(it.n, p), lambda i: it.get(self.e.iadd(i, p)), 0, it.ity, it.kind)

    def t_IntoIterator_into_iter(self, st, a, at, dt):
        t = parse_type(self.selfty)
        return self.to_iter(st, a[0], self.E.strip(t))

    def m_slice_iter(self, st, a, at, dt):
        return self.to_iter(st, self.deref(st, a[0]))

    m_Vec_iter = m_slice_iter
    m_Option_iter = m_slice_iter

    def m_slice_iter_mut(self, st, a, at, dt):
        return self.to_iter(st, a[0])

    def m_slice_windows(self, st, a, at, dt):
        v = self.deref(st, a[0])
        w = a[1]
        self.E.oblige(st, self.e.icmp('!=', w, IntVal(0)), 'windows(0)', 'panic')
        return It(If(v.n >= w, v.n - w + 1, IntVal(0)), lambda i: self.E.subslice(v, i, self.e.iadd(i, w)), 0)

    def m_slice_chunks(self, st, a, at, dt):
        v = self.deref(st, a[0])
        w = a[1]
        self.E.oblige(st, self.e.icmp('!=', w, IntVal(0)), 'chunks(0)', 'panic')
        q, r = self.e.idiv(v.n, w), self.e.imod(v.n, w)

        def get(i):
            lo = self.e.imul(i, w)
            hi = lo + w
            return self.E.subslice(v, lo, If(hi <= v.n, hi, v.n))
        return It(If(r == 0, q, q + 1), get, 0)

    def m_slice_chunks_exact(self, st, a, at, dt):
        v = self.deref(st, a[0])
        w = a[1]
        self.E.oblige(st, self.e.icmp('!=', w, IntVal(0)), 'chunks(0)', 'panic')
        return It(self.e.idiv(v.n, w), lambda i: self.E.subslice(v, self.e.imul(i, w), self.e.imul(i, w) + w), 0)

    def item(self, it, i):
        return it.get(i)

    def t_Iterator_next(self, st, a, at, dt):
        it = self.E.read_ref(st, a[0])
        if isinstance(it, Tup):
            it = self.to_iter(st, it, parse_type(self.selfty))
        if not isinstance(it, It):
            raise Unsupported('next on %s' % type(it).__name__)
        e = self.e
        has = e.icmp('<', it.pos, it.n)
        x = it.get(it.pos) if not e.is_false(has) else Poison('exhausted')
        self.E.write_ref(st, a[0], It(it.n, it.get, e.ite(has, e.iadd(it.pos, IntVal(1)), it.pos), it.ity, it.kind))
        t = dt[2][0] if dt and dt[0] == 'adt' and dt[2] else None
        return En(e.ite(has, IntVal(1), IntVal(0)), {0: [], 1: [x]}, OPT(t or ('other', '?')))

    def t_DoubleEndedIterator_next_back(self, st, a, at, dt):
        it = self.E.read_ref(st, a[0])
        e = self.e
        has = e.icmp('<', it.pos, it.n)
        l = e.isub(it.n, IntVal(1))
        x = it.get(l)
        self.E.write_ref(st, a[0], It(e.ite(has, l, it.n), it.get, it.pos, it.ity, it.kind))
        return self.opt(has, x, dt[2][0] if dt else None)

    def t_Iterator_nth(self, st, a, at, dt):
        it = self.E.read_ref(st, a[0])
        e = self.e
        p = e.iadd(it.pos, a[1])
        has = e.icmp('<', p, it.n)
        self.E.write_ref(st, a[0], It(it.n, it.get, e.ite(has, e.iadd(p, IntVal(1)), it.n), it.ity, it.kind))
        return self.opt(has, it.get(p), dt[2][0] if dt else None)

    def t_ExactSizeIterator_len(self, st, a, at, dt):
        return self.seqlen(st, a[0])

    def t_Iterator_size_hint(self, st, a, at, dt):
        raise Unsupported('size_hint')

    def iter_ident(self, st, a, at, dt):
        return self.to_iter(st, a[0], parse_type(self.selfty))

    t_Iterator_copied = t_Iterator_cloned = t_Iterator_by_ref = t_Iterator_fuse = iter_ident

    def t_Iterator_peekable(self, st, a, at, dt):
        return self.to_iter(st, a[0])

    def m_Peekable_peek(self, st, a, at, dt):
        it = self.E.read_ref(st, a[0])
        return self.opt(self.e.icmp('<', it.pos, it.n), it.get(it.pos), dt[2][0] if dt else None)

    def t_Iterator_by_ref(self, st, a, at, dt):
        return a[0]

    def t_Iterator_enumerate(self, st, a, at, dt):
        it = self.norm(self.to_iter(st, a[0], parse_type(self.selfty)))
        return It(it.n, lambda i: Tup([i, it.get(i)]), 0)

    def t_Iterator_zip(self, st, a, at, dt):
        x, y = self.norm(self.to_iter(st, a[0], parse_type(self.selfty))), self.norm(self.to_iter(st, a[1]))
        n = x.n if x.n.eq(y.n) else If(x.n <= y.n, x.n, y.n)
        return It(n, lambda i: Tup([x.get(i), y.get(i)]), 0)

    def t_Iterator_chain(self, st, a, at, dt):
        x, y = self.norm(self.to_iter(st, a[0])), self.norm(self.to_iter(st, a[1]))
        return It(self.e.iadd(x.n, y.n), lambda i: self.E.merge_val(self.e.icmp('<', i, x.n), x.get(i), y.get(self.e.isub(i, x.n))), 0)

    def t_Iterator_rev(self, st, a, at, dt):
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        p, n = it.pos, it.n
        last = self.e.isub(n, IntVal(1))
        if self.e.ival(p) == 0:
            return It(n, lambda i: it.get(self.e.isub(last, i)), 0)
        return It(self.e.isub(n, p), lambda i: it.get(self.e.isub(last, i)), 0)

    def t_Iterator_skip(self, st, a, at, dt):
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        p = self.e.iadd(it.pos, a[1])
        return It(it.n, it.get, self.e.ite(self.e.icmp('<=', p, it.n), p, it.n), it.ity, it.kind)

    def t_Iterator_take(self, st, a, at, dt):
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        q = self.e.iadd(it.pos, a[1])
        return It(self.e.ite(self.e.icmp('<=', q, it.n), q, it.n), it.get, it.pos, it.ity, it.kind)

    def t_Iterator_step_by(self, st, a, at, dt):
        it = self.norm(self.to_iter(st, a[0], parse_type(self.selfty)))
        k = a[1]
        e = self.e
        self.E.oblige(st, e.icmp('!=', k, IntVal(0)), 'step_by(0)', 'panic')
        if e.ival(k) == 1:
            return it
        m = self.E.fresh_int('steps')
        # m = ceil(n / k)
        self.E.fact(st, And(m >= 0, Implies(it.n > 0, m > 0), m <= it.n, e.imul(m, k) >= it.n, Implies(m > 0, e.imul(m - 1, k) < it.n), Implies(it.n <= 0, m == 0)))
        return It(m, lambda i: it.get(e.imul(i, k)), 0)

    def t_Iterator_map(self, st, a, at, dt):
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        f = a[1]
        try:
            g, k, v = self.E.generic(st, it.n, lambda s, i: self.E.call_value(s, f, [it.get(i)]), 'mp', it.pos)
        except Unsupported as e:
            if 'side effects' not in str(e):
                raise
            return StMap(it, f)
        return It(it.n, g, it.pos)

    def t_Iterator_inspect(self, st, a, at, dt):
        return self.to_iter(st, a[0])

    def pred_at(self, st, it, fn, name='pr'):
        """python fn index -> Bool term"""
        g, k, v = self.E.generic(st, it.n, lambda s, i: fn(s, it.get(i)), name, it.pos)
        return g

    def filter_model(self, st, it, fn, value=None):
        """subsequence of items satisfying fn"""
        E = self.E
        E.assumptions.add('Iterator::filter/retain/filter_map: output is exactly the in-order subsequence of items satisfying the predicate')
        g, kk, v = E.generic(st, it.n, lambda s, i: fn(s, it.get(i)), 'fl', it.pos)
        if isinstance(v, En):
            pred = lambda i: self.isd(g(i), 1)
            item = lambda i: self.pay(g(i), 1)
        else:
            pred = g
            item = it.get
        m = E.fresh_int('fn')
        src = E.fresh_fn('fsrc', z3.IntSort(), z3.IntSort())
        rank = E.fresh_fn('frank', z3.IntSort(), z3.IntSort())
        j, k = Int('j!%d' % next(E.cnt)), Int('k!%d' % next(E.cnt))
        p, n = it.pos, it.n
        E.fact(st, And(m >= 0, m <= n - p))
        E.fact(st, FA([j], Implies(And(j >= 0, j < m), And(src(j) >= p, src(j) < n, pred(src(j)), rank(src(j)) == j, src(j) >= p + j)), patterns=[src(j)]))
        E.fact(st, FA([j, k], Implies(And(j >= 0, j < k, k < m), src(j) < src(k)), patterns=[(src(j), src(k))]))
        # completeness
        pk = pred(k)
        trig = self.triggers(it.get(k), k)
        body = Implies(And(k >= p, k < n, pk), And(rank(k) >= 0, rank(k) < m, src(rank(k)) == k))
        if trig is not None:
            E.fact(st, FA([k], body, patterns=[trig]))
        E.fact(st, FA([k], body, patterns=[rank(k)]))
        w = E.fresh_int('fw')
        E.fact(st, Implies(m == 0, FA([k], Implies(And(k >= p, k < n), Not(pk)))))
        return It(m, lambda i: item(src(i)), 0, it.ity)

    def triggers(self, v, k):
        """an uninterpreted/select term mentioning k inside v"""
        out = []

        def find(t):
            if not self.E.mentions(t, k):
                return
            if z3.is_select(t) and t.arg(1).eq(k):
                out.append(t)
                return
            if z3.is_app(t):
                for c in t.children():
                    find(c)
        try:
            for p, l in self.E.pyleaves(v):
                if z3.is_expr(l):
                    find(l)
        except Exception:
            pass
        return out[0] if out else None

    def t_Iterator_filter(self, st, a, at, dt):
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        return self.filter_model(st, it, lambda s, x: self.E.call_value(s, a[1], [x]))

    def t_Iterator_filter_map(self, st, a, at, dt):
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        return self.filter_model(st, it, lambda s, x: self.E.call_value(s, a[1], [x]))

    def t_Iterator_take_while(self, st, a, at, dt):
        E = self.E
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        g = self.pred_at(st, it, lambda s, x: E.call_value(s, a[1], [x]))
        m = E.fresh_int('tw')
        k = Int('k!%d' % next(E.cnt))
        E.fact(st, And(m >= it.pos, m <= it.n, Implies(m < it.n, Not(g(m)))))
        E.fact(st, FA([k], Implies(And(k >= it.pos, k < m), g(k))))
        return It(m, it.get, it.pos, it.ity)

    def t_Iterator_skip_while(self, st, a, at, dt):
        E = self.E
        it = self.to_iter(st, a[0], parse_type(self.selfty))
        g = self.pred_at(st, it, lambda s, x: E.call_value(s, a[1], [x]))
        m = E.fresh_int('sw')
        k = Int('k!%d' % next(E.cnt))
        E.fact(st, And(m >= it.pos, m <= it.n, Implies(m < it.n, Not(g(m)))))
        E.fact(st, FA([k], Implies(And(k >= it.pos, k < m), g(k))))
        return It(it.n, it.get, m, it.ity)

    def t_Iterator_flat_map(self, st, a, at, dt):
        raise Unsupported('flat_map')

    # --- consumers
    def consume(self, st, v):
        """iterator argument given by value or as &mut"""
        if isinstance(v, RefM):
            it = self.E.read_ref(st, v)
            if isinstance(it, It):
                return it, v
            if isinstance(it, Sq):
                return self.to_iter(st, v), None
            return self.to_iter(st, it, parse_type(self.selfty)), v
        return self.to_iter(st, v, parse_type(self.selfty) if self.selfty else None), None

    def t_Iterator_collect(self, st, a, at, dt):
        if isinstance(a[0], StMap):
            # stateful map closure: run it in order, pushing into the result
            t = self.E.strip(dt)
            if t[0] != 'vec':
                raise Unsupported('collect of stateful map')
            E, key = self.E, ('acc', next(self.E.cnt))
            st.store[key] = self.empty(t[1])
            ref = RefM(key, ())

            def step(s, x, acc):
                v = E.call_value(s, a[0].f, [x])
                self.m_Vec_push(s, [ref, v], None, None)
                return None
            self.synth_loop(st, a[0].it, step, None, None)
            return st.store.pop(key)
        it = self.norm(self.to_iter(st, a[0], parse_type(self.selfty)))
        t = self.E.strip(dt)
        if t[0] == 'vec':
            self.E.fact(st, And(it.n >= 0, it.n <= (2**63 - 1) // self.E.min_size(t[1])))
            return Sq(it.n, FunE(it.get, t[1]), t[1])
        if t[0] == 'str':
            return self.E.fresh_int('str')
        if t[0] == 'adt' and t[1] == 'std::result::Result' and t[2][0][0] == 'vec':
            E = self.E
            r = E.fresh_bool('allok')
            w = E.fresh_int('w')
            k = Int('k!%d' % next(E.cnt))
            E.fact(st, Implies(r, FA([k], Implies(And(k >= 0, k < it.n), self.isd(it.get(k), 0)))))
            E.fact(st, Implies(Not(r), And(w >= 0, w < it.n, self.isd(it.get(w), 1))))
            ety = t[2][0][1]
            return En(self.e.ite(r, IntVal(0), IntVal(1)), {0: [Sq(it.n, FunE(lambda i: self.pay(it.get(i), 0), ety), ety)], 1: [Opq('err')]}, t)
        if t[0] == 'adt' and t[1].split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return MapV('collected')
        raise Unsupported('collect into %s' % (t,))

    def t_FromIterator_from_iter(self, st, a, at, dt):
        return self.t_Iterator_collect(st, a, at, dt)

    def t_Iterator_count(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        return self.e.isub(it.n, it.pos)

    def t_Iterator_last(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        return self.opt(self.e.icmp('<', it.pos, it.n), it.get(self.e.isub(it.n, IntVal(1))), dt[2][0])

    def any_model(self, st, it, fn):
        E = self.E
        g = self.pred_at(st, it, fn)
        n, p = self.e.ival(it.n), self.e.ival(it.pos)
        if n is not None and p is not None and n - p <= 8:
            return self.e.or_(*[g(IntVal(i)) for i in range(p, n)])
        r = E.fresh_bool('any')
        w = E.fresh_int('aw')
        k = Int('k!%d' % next(E.cnt))
        E.fact(st, Implies(r, And(w >= it.pos, w < it.n, g(w))))
        trig = self.triggers(it.get(k), k)
        body = Implies(And(k >= it.pos, k < it.n, g(k)), r)
        E.fact(st, FA([k], body, patterns=[trig]) if trig is not None else FA([k], body))
        return r

    def t_Iterator_any(self, st, a, at, dt):
        it, ref = self.consume(st, a[0])
        return self.any_model(st, it, lambda s, x: self.E.call_value(s, a[1], [x]))

    def t_Iterator_all(self, st, a, at, dt):
        it, ref = self.consume(st, a[0])
        return self.e.not_(self.any_model(st, it, lambda s, x: self.e.not_(self.E.call_value(s, a[1], [x]))))

    def position_model(self, st, it, fn):
        E = self.E
        g = self.pred_at(st, it, fn)
        f = E.fresh_bool('found')
        w = E.fresh_int('pw')
        k = Int('k!%d' % next(E.cnt))
        E.fact(st, Implies(f, And(w >= it.pos, w < it.n, g(w))))
        trig = self.triggers(it.get(k), k)
        b1 = Implies(And(f, k >= it.pos, k < w), Not(g(k)))
        b2 = Implies(And(Not(f), k >= it.pos, k < it.n), Not(g(k)))
        for b in (b1, b2):
            E.fact(st, FA([k], b, patterns=[trig]) if trig is not None else FA([k], b))
        return f, w, g

    def t_Iterator_position(self, st, a, at, dt):
        it, ref = self.consume(st, a[0])
        f, w, _ = self.position_model(st, it, lambda s, x: self.E.call_value(s, a[1], [x]))
        return self.opt(f, self.e.isub(w, it.pos), ('int', 'usize'))

    def t_Iterator_find(self, st, a, at, dt):
        it, ref = self.consume(st, a[0])
        f, w, _ = self.position_model(st, it, lambda s, x: self.E.call_value(s, a[1], [x]))
        return self.opt(f, it.get(w), dt[2][0])

    def t_Iterator_rposition(self, st, a, at, dt):
        it, ref = self.consume(st, a[0])
        E = self.E
        g = self.pred_at(st, it, lambda s, x: E.call_value(s, a[1], [x]))
        f = E.fresh_bool('found')
        w = E.fresh_int('pw')
        k = Int('k!%d' % next(E.cnt))
        E.fact(st, Implies(f, And(w >= it.pos, w < it.n, g(w), FA([k], Implies(And(k > w, k < it.n), Not(g(k)))))))
        E.fact(st, Implies(Not(f), FA([k], Implies(And(k >= it.pos, k < it.n), Not(g(k))))))
        return self.opt(f, self.e.isub(w, it.pos), ('int', 'usize'))

    def t_Iterator_find_map(self, st, a, at, dt):
        it, ref = self.consume(st, a[0])
        E = self.E
        g, kk, v = E.generic(st, it.n, lambda s, i: E.call_value(s, a[1], [it.get(i)]), 'fm', it.pos)
        f, w, _ = self.position_model(st, It(it.n, g, it.pos), lambda s, x: self.isd(x, 1))
        return En(self.e.ite(f, IntVal(1), IntVal(0)), {0: [], 1: [self.pay(g(w), 1)]}, dt)

    def extremum(self, st, it, better_or_eq, tie=None):
        """witness index w with better_or_eq(get(w), get(k)) for all k; returns (nonempty, w).
        tie: (later, strictly): every later (or, if not later, every earlier) element is strictly worse"""
        E = self.E
        w = E.fresh_int('ew')
        ne = self.e.icmp('<', it.pos, it.n)
        E.fact(st, self.e.imp(ne, And(w >= it.pos, w < it.n)))

        def claim(test, extra):
            k = Int('k!%d' % next(E.cnt))
            g = self.e.and_(ne, k >= it.pos, k < it.n, *extra(k))
            nf = len(E.facts)
            s2 = st.copy()
            s2.assume(g)
            E.binders.append((k, g))
            c = test(s2, it.get(w), it.get(k))
            E.binders.pop()
            E._close_binder(nf, k)
            trig = self.triggers(it.get(k), k)
            b = self.e.imp(g, c)
            E.fact(st, FA([k], b, patterns=[trig]) if trig is not None else FA([k], b))
        claim(better_or_eq, lambda k: [])
        if tie is not None:
            later, strictly = tie
            claim(strictly, lambda k: [k > w if later else k < w])
        return ne, w

    def t_Iterator_max_by(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        self.check_cmp_it(st, it, a[1])
        d = lambda s, x, y: self.E.call_value(s, a[1], [x, y]).d
        ne, w = self.extremum(st, it, lambda s, x, y: self.e.icmp('<=', IntVal(0), d(s, x, y)), (True, lambda s, x, y: self.e.icmp('<', IntVal(0), d(s, x, y))))
        return self.opt(ne, it.get(w), dt[2][0] if dt else None)

    def t_Iterator_min_by(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        self.check_cmp_it(st, it, a[1])
        d = lambda s, x, y: self.E.call_value(s, a[1], [x, y]).d
        ne, w = self.extremum(st, it, lambda s, x, y: self.e.icmp('<=', d(s, x, y), IntVal(0)), (False, lambda s, x, y: self.e.icmp('<', d(s, x, y), IntVal(0))))
        return self.opt(ne, it.get(w), dt[2][0] if dt else None)

    def check_cmp_it(self, st, it, clo):
        """max_by/min_by: the extremality claim needs a total order; it is an obligation of kind 'order'"""
        n = self.norm(it)
        self.check_cmp(st, Sq(n.n, FunE(n.get, None), None), clo)

    def t_Iterator_max_by_key(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        key = lambda s, x: self.E.call_value(s, a[1], [x])
        d = lambda s, x, y: self.cmp_val(s, key(s, x), key(s, y)).d
        ne, w = self.extremum(st, it, lambda s, x, y: self.e.icmp('<=', IntVal(0), d(s, x, y)), (True, lambda s, x, y: self.e.icmp('<', IntVal(0), d(s, x, y))))
        return self.opt(ne, it.get(w), dt[2][0] if dt else None)

    def t_Iterator_min_by_key(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        key = lambda s, x: self.E.call_value(s, a[1], [x])
        d = lambda s, x, y: self.cmp_val(s, key(s, x), key(s, y)).d
        ne, w = self.extremum(st, it, lambda s, x, y: self.e.icmp('<=', d(s, x, y), IntVal(0)), (False, lambda s, x, y: self.e.icmp('<', d(s, x, y), IntVal(0))))
        return self.opt(ne, it.get(w), dt[2][0] if dt else None)

    def t_Iterator_max(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        d = lambda s, x, y: self.cmp_val(s, x, y).d
        ne, w = self.extremum(st, it, lambda s, x, y: self.e.icmp('<=', IntVal(0), d(s, x, y)), (True, lambda s, x, y: self.e.icmp('<', IntVal(0), d(s, x, y))))
        return self.opt(ne, it.get(w), dt[2][0] if dt else None)

    def t_Iterator_min(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        d = lambda s, x, y: self.cmp_val(s, x, y).d
        ne, w = self.extremum(st, it, lambda s, x, y: self.e.icmp('<=', d(s, x, y), IntVal(0)), (False, lambda s, x, y: self.e.icmp('<', d(s, x, y), IntVal(0))))
        return self.opt(ne, it.get(w), dt[2][0] if dt else None)

    def t_Iterator_sum(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        E = self.E
        t = E.strip(parse_type(self.gens[0])) if self.gens else E.strip(dt)
        x0 = it.get(it.pos)
        n, p = self.e.ival(z3.simplify(it.n)), self.e.ival(z3.simplify(it.pos))
        if n is not None and p is not None and n - p <= 12:
            acc = fp.rv(0) if t[0] == 'float' else IntVal(0)
            for i in range(p, n):
                x = self.deref(st, it.get(IntVal(i)))
                if t[0] == 'float':
                    acc = fp.add(acc, x) if fp.numeral(acc) != 0 else x
                else:
                    acc = self.e.iadd(acc, x)
                    lo, hi = self.rng(t[1])
                    E.oblige(st, And(acc >= lo, acc <= hi), 'sum overflow', 'overflow')
            return acc
        if t[0] == 'float':
            m = self.norm(it)
            sq = E.materialize(Sq(m.n, FunE(lambda i: self.deref(st, m.get(i)), t), t), t, st)
            arr = sq.el.arrs[0]
            return self.fsum(st, arr, sq.n)
        if t[0] == 'int':
            m = self.norm(it)
            r = E.fresh_int('isum')
            lo, hi = self.rng(t[1])
            w = E.fresh_int('sw')
            w2 = E.fresh_int('sw2')
            mx = E.fresh_int('smax')
            mn = E.fresh_int('smin')
            k = Int('k!%d' % next(E.cnt))
            # max/min element bounds: n*mn <= sum <= n*mx
            g = And(k >= 0, k < m.n)
            xk = self.deref(st, m.get(k))
            trig = self.triggers(xk, k)
            b = Implies(g, And(xk <= mx, xk >= mn))
            E.fact(st, FA([k], b, patterns=[trig]) if trig is not None else FA([k], b))
            E.fact(st, Implies(m.n > 0, And(w >= 0, w < m.n, self.deref(st, m.get(w)) == mx, w2 >= 0, w2 < m.n, self.deref(st, m.get(w2)) == mn)))
            E.fact(st, Implies(m.n <= 0, r == 0))
            E.fact(st, Implies(m.n > 0, And(r <= self.e.imul(m.n, mx), r >= self.e.imul(m.n, mn))))
            E.oblige(st, And(r <= hi, r >= lo), 'sum overflow', 'overflow')
            return r
        raise Unsupported('sum of %s' % (t,))

    def fsum(self, st, arr, n):
        """left-to-right f32 sum of arr[0..n): a function of contents with sign/NaN facts"""
        E = self.E
        r = FSUM(arr, n)
        w = E.fresh_int('fsw')
        E.assumptions.add('f32 iterator sum: left fold of f32 addition; used facts: sum of non-negative (non-NaN) terms is non-negative and not NaN, and at least each term; empty sum is 0; all-zero sum is 0')
        E.fact(st, And(r >= -fp.INF, r <= fp.NAN, Implies(n <= 0, r == 0)))
        # all terms >= 0 and not NaN  ->  0 <= r <= INF and r >= each term ; some term NaN -> r NaN
        bad = And(w >= 0, w < n, Or(Select(arr, w) < 0, Select(arr, w) > fp.INF))
        E.fact(st, Or(bad, And(r >= 0, r <= fp.INF)))
        k = Int('k!%d' % next(E.cnt))
        E.fact(st, Or(bad, FA([k], Implies(And(k >= 0, k < n), r >= Select(arr, k)), patterns=[Select(arr, k)])))
        E.fact(st, FA([k], Implies(And(k >= 0, k < n, Select(arr, k) > fp.INF), r > fp.INF), patterns=[Select(arr, k)]))
        w2 = E.fresh_int('fsz')
        E.fact(st, Or(And(w2 >= 0, w2 < n, Select(arr, w2) != 0), r == 0))
        for cap in E.opts.get('caps') or ():
            if cap[0] == 'add':
                E.assumptions.add('f32 sums saturate: terms in [0, X] keep the running sum within [0, S] for X <= S/2^25, S a power of two')
                w3 = E.fresh_int('fsc')
                E.fact(st, Or(And(w3 >= 0, w3 < n, Or(Select(arr, w3) < 0, Select(arr, w3) > fp.rv(cap[2]))), r <= fp.rv(cap[1])))
            if cap[0] == 'sadd':
                w3 = E.fresh_int('fsc')
                E.fact(st, Or(And(w3 >= 0, w3 < n, Or(Select(arr, w3) < -fp.rv(cap[2]), Select(arr, w3) > fp.rv(cap[2]))), And(r <= fp.rv(cap[1]), r >= -fp.rv(cap[1]))))
        return r

    def t_Iterator_product(self, st, a, at, dt):
        raise Unsupported('product')

    def t_Iterator_fold(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        E = self.E
        init, f = a[1], a[2]
        if isinstance(f, FnItem) and re.search(r'f32.*::(max|min)$', f.name):
            return self.fold_extremum(st, it, init, f.name.rsplit('::', 1)[1])
        if isinstance(f, Clo):
            k = self.closure_is_minmax(f)
            if k:
                return self.fold_extremum(st, it, init, k)
        return self.fold_loop(st, it, init, f, dt)

    def closure_is_minmax(self, f):
        """|a, b| a.max(b) style closures"""
        b = self.E.P.closures.get(f.ty)
        if b is None or f.items:
            return None
        calls = []
        for blk in b.blocks.values():
            if blk.cleanup:
                continue
            if blk.term is None:
                mir.finish_block(blk)
            if blk.term[0] == 'call':
                calls.append(blk.term)
            elif blk.term[0] not in ('return', 'goto'):
                return None
        if len(calls) == 1 and re.match(r'^core::f32::<impl f32>::(max|min)$', calls[0][2]):
            # both parameters must flow unchanged into the call
            s = State0 = None
            E = self.E
            x, y = z3.Real('mm!x'), z3.Real('mm!y')
            import engine
            st = engine.State({}, ())
            k = calls[0][2].rsplit('::', 1)[1]
            want = fp.fmax(x, y) if k == 'max' else fp.fmin(x, y)
            try:
                v = E.call_value(st, f, [x, y])
                want2 = fp.fmax(y, x) if k == 'max' else fp.fmin(y, x)
                if z3.is_expr(v) and (v.eq(want) or v.eq(want2)):
                    return k
            except Unsupported:
                return None
        return None

    def fold_extremum(self, st, it, init, kind):
        E = self.E
        r = E.fresh('fold' + kind, z3.RealSort())
        w = E.fresh_int('fw')
        k = Int('k!%d' % next(E.cnt))
        e = self.e
        xk = self.deref(st, it.get(k))
        g = And(k >= it.pos, k < it.n)
        trig = self.triggers(xk, k)
        E.assumptions.add('fold(f32::max/min): result is the initial value or one of the items, bounds every non-NaN item and the non-NaN initial value')
        if kind == 'max':
            b = Implies(And(g, xk <= fp.INF), And(xk <= r, r <= fp.INF))
            E.fact(st, Implies(init <= fp.INF, And(r >= init, r <= fp.INF)))
        else:
            b = Implies(And(g, xk <= fp.INF), r <= xk)
            E.fact(st, Implies(init <= fp.INF, r <= init))
        E.fact(st, FA([k], b, patterns=[trig]) if trig is not None else FA([k], b))
        E.fact(st, Or(r == init, And(w >= it.pos, w < it.n, self.deref(st, it.get(w)) == r)))
        return r

    def t_Iterator_for_each(self, st, a, at, dt):
        it, _ = self.consume(st, a[0])
        self.synth_loop(st, it, lambda s, x, acc: (self.E.call_value(s, a[1], [x]), None)[1], None, None)
        return Tup([])

    def fold_loop(self, st, it, init, f, dt):
        return self.synth_loop(st, it, lambda s, x, acc: self.E.call_value(s, f, [acc, x]), init, dt)

    def synth_loop(self, st, it, step, acc0, accty):
        """acc := acc0; for x in it { acc := step(acc, x) } with inferred invariants; mutates st"""
        E = self.E
        e = self.e
        n, p = e.ival(z3.simplify(it.n)), e.ival(z3.simplify(it.pos))
        if n is not None and p is not None and n - p <= 12:
            acc = acc0
            for i in range(p, n):
                acc = step(st, it.get(IntVal(i)), acc)
            return acc
        ak = ('acc', next(E.cnt))
        pk = ('pos', next(E.cnt))
        st.store[ak] = acc0 if acc0 is not None else Tup([])
        st.store[pk] = it
        base = st.copy()
        changed = {ak: None, pk: {('pos',)}}

        def run(changed, real):
            h = base.copy()
            for k2, ps in changed.items():
                v = base.store.get(k2)
                if v is None or isinstance(v, Poison):
                    continue
                h.store[k2] = E.havoc_val(v, accty if k2 == ak else None, h, None if ps is None else (lambda q, ps=ps: not E.path_changed(q, ps)), (), 'f')
            return h
        for _ in range(8):
            snap = (len(E.facts), len(E.obls), len(E.cands))
            E.dry += 1
            try:
                h = run(changed, False)
                b = h.copy()
                itv = h.store[pk]
                b.assume(itv.pos < itv.n)
                b.store[ak] = step(b, itv.get(itv.pos), h.store[ak]) if acc0 is not None else (step(b, itv.get(itv.pos), None), h.store[ak])[1]
            finally:
                E.dry -= 1
                del E.facts[snap[0]:]
                del E.obls[snap[1]:]
                del E.cands[snap[2]:]
            grew = False
            for k2, hv in h.store.items():
                if k2 in (ak, pk):
                    continue
                bv = b.store.get(k2)
                if bv is hv:
                    continue
                hl = dict(E.pyleaves(hv))
                bl = dict(E.pyleaves(bv))
                ps = {q for q, x in hl.items() if not (bl.get(q) is x or (z3.is_expr(x) and z3.is_expr(bl.get(q)) and x.eq(bl[q])))} | {q for q in bl if q not in hl}
                if ps and (k2 not in changed or (changed[k2] is not None and not ps <= changed[k2])):
                    changed[k2] = ps | (changed.get(k2) or set())
                    grew = True
            if not grew:
                break
        h = run(changed, True)
        itv = h.store[pk]
        E.fact(st, And(itv.pos >= it.pos, itv.pos <= itv.n) if True else None)
        for k2 in changed:
            for f in (E.inv(h.store[k2], accty) if k2 == ak and accty is not None else E.inv_untyped(h.store[k2])):
                E.fact(h, f)
        import cands
        cs = cands.generate_keys(E, base, h, changed, pk)
        mine = []
        for desc, pred in cs:
            try:
                e0, e1 = pred(base), pred(h)
            except Unsupported:
                continue
            if e.is_true(e1):
                continue
            lit = z3.Bool('c!%d' % next(E.cnt))
            c = self.e.Cand(lit, desc, ('synth', ak))
            E.cands.append(c)
            mine.append((c, pred))
            if not E.dry:
                E.obls.append(self.e.Obl('init ' + desc, 'inv', len(E.facts), base.pc, e0, E.where(), c))
            E.facts.append(e.imp(lit, e.imp(e.and_(*h.pc), e1)))
        b = h.copy()
        b.assume(itv.pos < itv.n)
        x = itv.get(itv.pos)
        r = step(b, x, h.store[ak])
        if acc0 is not None:
            b.store[ak] = r
        b.store[pk] = It(itv.n, itv.get, itv.pos + 1, itv.ity, itv.kind)
        if not E.dry:
            for c, pred in mine:
                try:
                    g = pred(b)
                except Unsupported:
                    g = e.FALSE
                E.obls.append(self.e.Obl('keep ' + c.desc, 'inv', len(E.facts), b.pc, g, E.where(), c))
        st.store = dict(h.store)
        E.fact(st, itv.pos == itv.n)
        acc = st.store.pop(ak)
        st.store.pop(pk)
        return acc

    # ------------------------------------------------------------ closures called through traits
    def t_FnOnce_call_once(self, st, a, at, dt):
        args = a[1].items if isinstance(a[1], Tup) else [a[1]]
        return self.E.call_value(st, a[0], args)

    t_FnMut_call_mut = t_Fn_call = t_FnOnce_call_once

    # ------------------------------------------------------------ hash maps: content abstracted
    def merge_map(self, c, a, b):
        return MapV('merged')

    def havoc_map(self, st, v):
        return MapV('havoc')

    def m_HashMap_new(self, st, a, at, dt):
        return MapV('new')

    m_BTreeMap_new = m_HashSet_new = m_BTreeSet_new = m_HashMap_with_capacity = m_HashMap_new

    def m_HashMap_insert(self, st, a, at, dt):
        self.E.write_ref(st, a[0], MapV('ins'))
        return self.E.fresh_val(dt, 'mapold', st)

    m_BTreeMap_insert = m_HashSet_insert = m_HashMap_insert

    def m_HashMap_get(self, st, a, at, dt):
        return self.E.fresh_val(dt, 'mapget', st)

    m_BTreeMap_get = m_HashMap_contains_key = m_HashSet_contains = m_HashMap_get

    def m_HashMap_entry(self, st, a, at, dt):
        self.E.write_ref(st, a[0], MapV('entry'))
        return Opq('entry')

    m_BTreeMap_entry = m_HashMap_entry

    def m_Entry_or_insert(self, st, a, at, dt):
        # &mut V into the map: content is abstracted, so a scratch cell of unknown value stands for it
        key = ('cell', next(self.E.cnt))
        t = dt[2] if dt and dt[0] == 'ref' else dt
        st.store[key] = self.E.fresh_val(t, 'mapcell', st)
        return RefM(key, ())

    m_Entry_or_default = m_Entry_or_insert_with = m_Entry_or_insert

    def m_HashMap_iter(self, st, a, at, dt):
        return self.map_iter(st, self.deref(st, a[0]), a and at and at[0])

    m_BTreeMap_iter = m_HashMap_iter

    def map_iter(self, st, v, ty=None):
        t = self.E.strip(ty) if ty else (parse_type(self.selfty) if self.selfty else None)
        t = self.E.strip(t) if t else None
        if not (t and t[0] == 'adt' and len(t[2]) >= 2):
            raise Unsupported('map iteration of %s' % (t,))
        kt, vt = t[2][0], t[2][1]
        n = self.E.fresh_val(('int', 'usize'), 'mapn', st)
        pair = ('tuple', (kt, vt))
        s = self.E.fresh_val(('vec', pair), 'mapitems', st)
        return It(s.n, s.get, 0)

    # ------------------------------------------------------------ rustfft: transforms are uninterpreted (buffer of the same length, any values, bounded if the input is)
    def m_FftPlanner_new(self, st, a, at, dt):
        return Opq('fft')

    m_FftPlanner_plan_fft_forward = m_FftPlanner_plan_fft_inverse = m_FftPlanner_new

    def t_Fft_process(self, st, a, at, dt):
        v = self.E.read_ref(st, a[1])
        ct = ('adt', 'rustfft::num_complex::Complex', (('float', 'f32'),))
        s = self.E.fresh_val(('slice', ct), 'fftout', st)
        self.E.fact(st, s.n == v.n)
        # assumed of rustfft: bounded finite input gives bounded finite output (each output is a sum of n inputs times unit factors)
        E = self.E
        k = Int('k!%d' % next(E.cnt))
        B, O = fp.rv(2**30), fp.rv(2**62)
        nf = len(E.facts)
        E.binders.append((k, And(k >= 0, k < v.n)))
        x = v.get(k)
        E.binders.pop()
        E._close_binder(nf, k)
        o = s.get(k)
        inb = ForAll([k], Implies(And(k >= 0, k < v.n), And(*[And(t >= -B, t <= B) for t in x.items])))
        E.fact(st, Implies(And(v.n <= 2**31, inb), FA([k], Implies(And(k >= 0, k < v.n), And(*[And(t >= -O, t <= O) for t in o.items])), patterns=[t for t in o.items if z3.is_select(t)])))
        self.E.write_ref(st, a[1], Sq(v.n, s.el, ct))
        return Tup([])

    def m_Complex_new(self, st, a, at, dt):
        return Tup([a[0], a[1]], 'Complex')

    def m_Complex_conj(self, st, a, at, dt):
        c = self.deref(st, a[0])
        return Tup([c.items[0], fp.neg(c.items[1])], 'Complex')

    def m_Complex_norm_sqr(self, st, a, at, dt):
        c = self.deref(st, a[0])
        return fp.add(fp.mul(c.items[0], c.items[0]), fp.mul(c.items[1], c.items[1]))

    def m_Complex_norm(self, st, a, at, dt):
        c = self.deref(st, a[0])
        r = self.E.fresh_val(('float', 'f32'), 'norm', st)
        self.E.fact(st, r >= 0)
        return r

    def m_HashMap_len(self, st, a, at, dt):
        return self.E.fresh_val(('int', 'usize'), 'maplen', st)

    def m_HashMap_is_empty(self, st, a, at, dt):
        return self.E.fresh_bool('mapempty')
