"""binary32 arithmetic for the verifier.

A f32 is a z3 Real: finite values are themselves, +/-INF are two constants beyond every finite
value and NAN is a constant above INF.  (The sign of zero is not tracked; where it could matter,
1/0, the result is left undetermined.)  Comparisons, min/max/abs/clamp/floor/ceil/casts are exact.
+,-,*,/ are uninterpreted symbols constrained by facts that IEEE-754 correct rounding implies:
  finite results are rnd(exact result), rnd is monotone, fixes every program literal, 0 and 1, and
  has relative error <= 2^-24 plus absolute error 2^-150;
so anything proved from them holds of the machine operation for every input.
"""
import struct
from fractions import Fraction
import z3
from z3 import Real, Int, Function, RealSort, IntSort, BoolSort, And, Or, Not, Implies, If, ForAll, RealVal, ToReal, ToInt, BoolVal

R = RealSort()
INF = Real('fp!INF')
NAN = Real('fp!NAN')
MAXV = Fraction(2**24 - 1) * Fraction(2)**104
MAX = RealVal(str(MAXV))

rnd = Function('fp!rnd', R, R)
fadd = Function('fp!add', R, R, R)
fsub = Function('fp!sub', R, R, R)
fmul = Function('fp!mul', R, R, R)
fdiv = Function('fp!div', R, R, R)
frem = Function('fp!rem', R, R, R)
i2f = Function('fp!i2f', IntSort(), R)
SQRT = Function('fp!sqrt', R, R)
UN = {n: Function('fp!' + n, R, R) for n in ('exp', 'ln', 'log10', 'log2', 'sin', 'cos', 'tan', 'exp2', 'tanh', 'atan')}
powf = Function('fp!powf', R, R, R)
powi = Function('fp!powi', R, IntSort(), R)
remeu = Function('fp!rem_euclid', R, R, R)
hyp = Function('fp!hypot', R, R, R)
atan2 = Function('fp!atan2', R, R, R)

TRUSTED = [
    'IEEE-754 binary32 +,-,*,/,sqrt: result is the correctly rounded exact result (rounding monotone, exact on representable literals, relative error <= 2^-24); sign of zero not tracked',
    'libm f32 exp/powf/ln/log/sin/cos: only range, sign, NaN and monotonicity facts are assumed (exp >= 0, |sin|,|cos| <= 1, powf of non-negative base >= 0)',
]


def f32_from_text(s):
    """exact Fraction of the f32 nearest to decimal text (rustc prints shortest round-trip text)."""
    x = struct.unpack('<f', struct.pack('<f', float(s)))[0]
    return Fraction(x)


def rv(fr):
    return RealVal(str(Fraction(fr)))


def numeral(x):
    """Fraction if x is a literal, else None"""
    if z3.is_rational_value(x):
        return x.as_fraction()
    return None


def lit(s):
    s = s.strip()
    if s in ('inf', '+inf'):
        return INF
    if s == '-inf':
        return -INF
    if s == 'NaN':
        return NAN
    return rv(f32_from_text(s))


def isnan(x):
    n = numeral(x)
    if n is not None:
        return BoolVal(False)
    return x > INF


def notnan(x):
    n = numeral(x)
    if n is not None:
        return BoolVal(True)
    return x <= INF


def fin(x):
    n = numeral(x)
    if n is not None:
        return BoolVal(True)
    return And(x > -INF, x < INF)


def valid(x):
    return And(x >= -INF, Or(x <= INF, x == NAN), Implies(And(x > -INF, x < INF), And(x <= MAX, x >= -MAX)))


def _c(x):
    return z3.simplify(x)


def lt(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return BoolVal(na < nb)
    if nb is not None:
        return a < b
    return And(a < b, b <= INF)


def le(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return BoolVal(na <= nb)
    if nb is not None:
        return a <= b
    return And(a <= b, b <= INF)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return BoolVal(na == nb)
    if na is not None or nb is not None:
        return a == b
    return And(a == b, a <= INF)


def neg(a):
    n = numeral(a)
    if n is not None:
        return rv(-n)
    if a.eq(INF):
        return -INF
    return If(a > INF, a, -a)


def fabs(a):
    n = numeral(a)
    if n is not None:
        return rv(abs(n))
    return If(a >= 0, a, -a)   # NAN > 0 stays NAN


def fmin(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return rv(min(na, nb))
    # NAN is larger than anything, so plain min already drops NaN
    return If(a <= b, a, b)


def fmax(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return rv(max(na, nb))
    if na is not None:
        return If(b > INF, a, If(b > a, b, a))
    if nb is not None:
        return If(a > INF, b, If(a >= b, a, b))
    return If(a > INF, b, If(b > INF, a, If(a >= b, a, b)))


def clampv(x, lo, hi):
    return If(lt(x, lo), lo, If(gt(x, hi), hi, x))


def round_frac(fr):
    """correct rounding of a Fraction to f32 (None on overflow)"""
    fr = Fraction(fr)
    try:
        d = fr.numerator / fr.denominator  # correctly rounded double
        x = struct.unpack('<f', struct.pack('<f', d))[0]
    except OverflowError:
        return None
    # double rounding check: choose nearest of neighbours exactly
    import math
    bits = struct.unpack('<I', struct.pack('<f', x))[0]
    best = Fraction(x)
    for b in (bits - 1, bits + 1):
        if 0 <= b < 2**32:
            y = struct.unpack('<f', struct.pack('<I', b))[0]
            if y == y and abs(y) != float('inf'):
                if abs(Fraction(y) - fr) < abs(best - fr):
                    best = Fraction(y)
    return best


def is_pow2(fr):
    fr = abs(fr)
    if fr == 0:
        return False
    a, b = fr.numerator, fr.denominator
    return (a & (a - 1)) == 0 and (b & (b - 1)) == 0


def add(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        r = round_frac(na + nb)
        if r is not None:
            return rv(r)
    if na is not None:
        return fadd(b, a)
    return fadd(a, b)


def sub(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        r = round_frac(na - nb)
        if r is not None:
            return rv(r)
    return fsub(a, b)


def mul(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        r = round_frac(na * nb)
        if r is not None:
            return rv(r)
    if nb == 1:
        return a
    if na == 1:
        return b
    if na is not None:
        return fmul(b, a)
    return fmul(a, b)


def div(a, b):
    na, nb = numeral(a), numeral(b)
    if nb is not None and nb != 0:
        if na is not None:
            r = round_frac(na / nb)
            if r is not None:
                return rv(r)
        if nb == 1:
            return a
        if is_pow2(nb) and 2**-20 <= abs(nb) <= 2**20:
            return fmul(a, rv(1 / nb))
    return fdiv(a, b)


def rem(a, b):
    return frem(a, b)


def round_sqrt(fr):
    """correctly rounded f32 square root of a non-negative Fraction"""
    import math
    fr = Fraction(fr)
    if fr == 0:
        return fr
    x = round_frac(Fraction(math.isqrt(fr.numerator << 400), math.isqrt(fr.denominator << 400) or 1))
    bits = struct.unpack('<I', struct.pack('<f', float(x)))[0]
    cand = [Fraction(struct.unpack('<f', struct.pack('<I', b))[0]) for b in range(max(bits - 2, 0), bits + 3)]
    # the rounding boundary between neighbours is their mean m: sqrt(fr) < m  iff  fr < m*m
    r = cand[0]
    for u, v in zip(cand, cand[1:]):
        m = (u + v) / 2
        if fr > m * m:
            r = v
        elif fr == m * m:
            return None
    return r


def sqrt(a):
    n = numeral(a)
    if n is not None and n >= 0:
        r = round_sqrt(n)
        if r is not None:
            return rv(r)
    return SQRT(a)


def from_int(n):
    v = None
    if z3.is_int_value(n):
        r = round_frac(n.as_long())
        if r is not None:
            return rv(r)
    return i2f(n)


def to_int(x, bits, signed):
    lo = -(1 << (bits - 1)) if signed else 0
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    n = numeral(x)
    if n is not None:
        t = int(n)  # truncates toward zero
        return z3.IntVal(max(lo, min(hi, t)))
    t = ToInt(x) if not signed else If(x >= 0, ToInt(x), -ToInt(-x))
    return If(x > INF, z3.IntVal(0), If(x <= lo, z3.IntVal(lo), If(x >= hi, z3.IntVal(hi), t)))


def floor(x):
    n = numeral(x)
    if n is not None:
        import math
        return rv(math.floor(n))
    return If(fin(x), ToReal(ToInt(x)), x)


def ceil(x):
    n = numeral(x)
    if n is not None:
        import math
        return rv(math.ceil(n))
    return If(fin(x), -ToReal(ToInt(-x)), x)


def trunc(x):
    return If(fin(x), If(x >= 0, ToReal(ToInt(x)), -ToReal(ToInt(-x))), x)


def fround(x):
    h = RealVal('1/2')
    # |x| >= 2^23 are integers already; ToInt(x+1/2)=x there
    return If(fin(x), If(x >= 0, ToReal(ToInt(x + h)), -ToReal(ToInt(-x + h))), x)


# ------------------------------------------------------------------ axioms
def collect(exprs):
    """names of fp symbols and numerals used in a list of expressions"""
    seen = set()
    names = set()
    nums = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if nm.startswith('fp!'):
                    names.add(nm)
                    if nm in ('fp!mul', 'fp!div'):
                        for k in (0, 1):
                            n = numeral(e.arg(k))
                            if n is not None:
                                nums.add((nm, k, n))
            elif z3.is_rational_value(e) and e.sort() == R:
                nums.add(('num', 0, e.as_fraction()))
            stack.extend(e.children())
    return names, nums


def axioms(names, nums, level=1, fpx=False, caps=None):
    a, b, c, x, y = z3.Reals('fp?a fp?b fp?c fp?x fp?y')
    n = Int('fp?n')
    A = [INF > RealVal('1000000000000000000000000000000000000000'), NAN > INF]
    need_rnd = bool(names & {'fp!add', 'fp!sub', 'fp!mul', 'fp!div', 'fp!i2f', 'fp!rnd'})

    def fa(vs, body, *pats):
        A.append(ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]))

    def dom(r):
        return And(r >= -INF, Or(r <= INF, r == NAN))
    if need_rnd:
        fa([x, y], Implies(x <= y, rnd(x) <= rnd(y)), (rnd(x), rnd(y)))
        e24 = RealVal('1/16777216')
        tin = RealVal(str(Fraction(1, 2**150)))
        fa([x], And(rnd(x) >= -INF, rnd(x) <= INF,
                    Implies(And(x <= MAX, x >= -MAX), And(rnd(x) <= MAX, rnd(x) >= -MAX)),
                    Implies(x >= 0, rnd(x) >= 0), Implies(x <= 0, rnd(x) <= 0),
                    Implies(And(x >= 0, x <= MAX), And(rnd(x) <= x * (1 + e24) + tin, rnd(x) >= x * (1 - e24) - tin)),
                    Implies(And(x <= 0, x >= -MAX), And(rnd(x) >= x * (1 + e24) - tin, rnd(x) <= x * (1 - e24) + tin))),
           rnd(x))
        lits = {Fraction(0), Fraction(1)} | {q for (_, _, q) in nums}
        for q in lits:
            if abs(q) <= MAXV and round_frac(q) == q:
                A.append(rnd(rv(q)) == rv(q))
    if 'fp!i2f' in names:
        p24 = 1 << 24
        fa([n], And(i2f(n) == rnd(ToReal(n)),
                    Implies(And(n <= p24, n >= -p24), i2f(n) == ToReal(n)),
                    Implies(n >= 0, i2f(n) >= 0), Implies(n >= 1, i2f(n) >= 1), Implies(n <= 0, i2f(n) <= 0),
                    Implies(And(n <= 2**64, n >= -2**64), And(i2f(n) <= 2**64, i2f(n) >= -2**64))), i2f(n))
    if 'fp!add' in names:
        r = fadd(a, b)
        fa([a, b], And(dom(r),
                       Implies(Or(a > INF, b > INF), r == NAN),
                       Implies(And(fin(a), fin(b)), And(r == rnd(a + b), Implies(b >= 0, r >= a), Implies(b <= 0, r <= a), Implies(a >= 0, r >= b), Implies(a <= 0, r <= b))),
                       Implies(Or(And(a == INF, b > -INF, b <= INF), And(b == INF, a > -INF, a <= INF)), r == INF),
                       Implies(Or(And(a == -INF, b < INF), And(b == -INF, a < INF)), r == -INF),
                       Implies(Or(And(a == INF, b == -INF), And(b == INF, a == -INF)), r == NAN)), r)
        if level >= 2:
            fa([a, b], fadd(a, b) == fadd(b, a), fadd(a, b))
    if 'fp!sub' in names:
        r = fsub(a, b)
        fa([a, b], And(dom(r),
                       Implies(Or(a > INF, b > INF), r == NAN),
                       Implies(And(fin(a), fin(b)), And(r == rnd(a - b), Implies(b >= 0, r <= a), Implies(b <= 0, r >= a),
                                                        Implies(a >= b, r >= 0), Implies(a <= b, r <= 0),
                                                        Implies(a > b, r > 0), Implies(a < b, r < 0))),
                       Implies(Or(And(a == INF, b < INF), And(b == -INF, a > -INF, a <= INF)), r == INF),
                       Implies(Or(And(a == -INF, b > -INF, b <= INF), And(b == INF, a < INF)), r == -INF),
                       Implies(Or(And(a == INF, b == INF), And(b == -INF, a == -INF)), r == NAN)), r)
    if 'fp!mul' in names:
        r = fmul(a, b)
        fa([a, b], And(dom(r),
                       Implies(Or(a > INF, b > INF), r == NAN),
                       Implies(And(fin(a), fin(b)), And(r <= INF, Implies(Or(a == 0, b == 0), r == 0))),
                       Implies(And(a <= INF, b <= INF, a != 0, b != 0), r <= INF),
                       Implies(And(a <= INF, b <= INF, Or(And(a == 0, Not(fin(b))), And(b == 0, Not(fin(a))))), r == NAN),
                       Implies(And(a <= INF, b <= INF, Or(And(a >= 0, b >= 0), And(a <= 0, b <= 0))), r >= 0),
                       Implies(And(a <= INF, b <= INF, Or(And(a >= 0, b <= 0), And(a <= 0, b >= 0))), Or(r <= 0, r == NAN)),
                       Implies(And(fin(a), b >= 0, b <= 1), And(Implies(a >= 0, r <= a), Implies(a <= 0, r >= a))),
                       Implies(And(fin(b), a >= 0, a <= 1), And(Implies(b >= 0, r <= b), Implies(b <= 0, r >= b))),
                       Implies(And(a >= 1, a <= INF, b >= 0, b <= INF, fin(b)), r >= b),
                       Implies(And(b >= 1, b <= INF, a >= 0, a <= INF, fin(a)), r >= a)), r)
        if fpx:
            t76 = RealVal(str(Fraction(1, 2**76)))
            fa([a, b], And(Implies(And(a <= -1, b <= 0, fin(b)), r >= -b),
                           Implies(Or(And(a > 0, a <= INF, b == INF), And(b > 0, b <= INF, a == INF)), r == INF),
                           Implies(And(a <= t76, a >= -t76, b <= t76, b >= -t76), r == 0)), r)
        for (nm, k, q) in nums:
            if nm == 'fp!mul':
                qq = rv(q)
                t = fmul(a, qq) if k == 1 else fmul(qq, a)
                fa([a], And(Implies(fin(a), t == rnd(a * qq)),
                            Implies(a == INF, t == (INF if q > 0 else -INF if q < 0 else NAN)),
                            Implies(a == -INF, t == (-INF if q > 0 else INF if q < 0 else NAN)),
                            Implies(a > INF, t == NAN)), t)
        if level >= 2:
            fa([a, b], fmul(a, b) == fmul(b, a), fmul(a, b))
            fa([a, b, c], Implies(And(a <= c, c <= INF, fin(b), b >= 0, fin(a), fin(c)), fmul(a, b) <= fmul(c, b)), (fmul(a, b), fmul(c, b)))
            if fpx:
                fa([a, b, c], Implies(And(a >= -c, c <= INF, fin(b), b >= 0, fin(a), fin(c), c >= 0), fmul(a, b) >= -fmul(c, b)), (fmul(a, b), fmul(c, b)))
    if 'fp!div' in names:
        r = fdiv(a, b)
        fa([a, b], And(dom(r),
                       Implies(Or(a > INF, b > INF), r == NAN),
                       Implies(And(fin(a), b <= INF, b != 0), r <= INF),
                       Implies(And(a <= INF, fin(b), b != 0), r <= INF),
                       Implies(And(a <= INF, b == 0, a != 0), Or(r == INF, r == -INF)),
                       Implies(And(a == 0, b == 0), r == NAN),
                       Implies(And(Or(a == INF, a == -INF), Or(b == INF, b == -INF)), r == NAN),
                       Implies(And(a >= 0, a <= INF, b > 0, b <= INF), r >= 0),
                       Implies(And(a <= 0, b < 0), r >= 0),
                       Implies(And(a <= 0, b > 0, b <= INF), Or(r <= 0, r == NAN)),
                       Implies(And(a >= 0, a <= INF, b < 0), Or(r <= 0, r == NAN)),
                       Implies(And(a == 0, b != 0, b <= INF), r == 0),
                       Implies(And(fin(a), Or(b == INF, b == -INF)), r == 0),
                       Implies(And(a == INF, fin(b), b > 0), r == INF),
                       Implies(And(a >= 0, a <= b, b > 0, fin(b)), r <= 1),
                       Implies(And(a <= 0, a >= -b, b > 0, fin(b)), r >= -1),
                       Implies(And(a >= b, b > 0, fin(b), a <= INF), r >= 1),
                       Implies(And(a >= 0, fin(a), b >= 1, b <= INF), r <= a),
                       Implies(And(a >= 0, fin(a), b > 0, b <= 1), r >= a),
                       Implies(And(a == b, fin(a), a != 0), r == 1)), r)
        for (nm, k, q) in nums:
            if nm == 'fp!div' and k == 1 and q != 0:
                qq = rv(q)
                t = fdiv(a, qq)
                fa([a], Implies(fin(a), t == rnd(a * rv(1 / q))), t)
        if level >= 2:
            fa([a, b, c], Implies(And(a >= 0, a <= MAX, b > 0, b <= c, c <= INF), fdiv(a, c) <= fdiv(a, b)), (fdiv(a, b), fdiv(a, c)))
            fa([a, b, c], Implies(And(a <= c, fin(a), fin(c), b > 0, b <= INF), fdiv(a, b) <= fdiv(c, b)), (fdiv(a, b), fdiv(c, b)))
    # caps: instances of monotonicity of rounding, at powers of two.  ('mul', A, B): |a| <= A, |b| <= B -> |a*b| <= AB.
    # ('add', S, X) with X <= S/2^25: 0 <= a <= S, 0 <= b <= X -> a+b <= S, because S plus less than half its ulp rounds to S.
    for cap in caps or ():
        assert cap[0] in ('sq', 'divk', 'mulk') or all(is_pow2(Fraction(v)) for v in cap[1:])
        if cap[0] == 'count' and 'fp!add' in names:
            # a running sum of k numbers in [0,1] stays below k rounded: x <= fl(k), 0 <= c <= 1 -> fl(x + c) <= fl(k + 1).
            # (fl(k) <= k: x + c <= k + 1.  fl(k) > k: then fl(k) >= k + 1 and fl(k) + 1 rounds to fl(k), to even at a tie.)
            kk = z3.Int('fp?k')
            r = fadd(a, b)
            fa([a, b, kk], Implies(And(kk >= 0, a >= 0, a <= from_int(kk), b >= 0, b <= 1), And(r >= 0, r <= from_int(kk + 1))), (r, from_int(kk)))
        if cap[0] == 'mul' and 'fp!mul' in names:
            Ac, Bc = rv(cap[1]), rv(cap[2])
            r = fmul(a, b)
            lim = rv(Fraction(cap[1]) * Fraction(cap[2]))
            assert Fraction(cap[1]) * Fraction(cap[2]) <= 2**127
            fa([a, b], Implies(Or(And(a <= Ac, a >= -Ac, b <= Bc, b >= -Bc), And(b <= Ac, b >= -Ac, a <= Bc, a >= -Bc)), And(r <= lim, r >= -lim)), r)
        if cap[0] == 'grow' and 'fp!add' in names:    # |a| <= X, b >= D >= ulp(X) -> a + b > a (the next float is at most a + D)
            assert Fraction(cap[1]) / 2**23 <= Fraction(cap[2])
            r = fadd(a, b)
            fa([a, b], Implies(And(a >= -rv(cap[1]), a <= rv(cap[1]), b >= rv(cap[2]), b <= INF), r > a), r)
        if cap[0] == 'gap' and 'fp!sub' in names:     # b >= A, a < b -> b - a >= ulp below A = A/2^24
            r = fsub(b, a)
            fa([a, b], Implies(And(b >= rv(cap[1]), b <= INF, a < b), r >= rv(Fraction(cap[1]) / 2**24)), r)
        if cap[0] == 'sq' and 'fp!mul' in names:      # K > 0: a >= K -> a*a >= K^2(1-2^-23);  |a| <= K -> a*a <= K^2(1+2^-23)
            r = fmul(a, a)
            K = Fraction(cap[1])
            fa([a], And(Implies(And(a >= rv(K), a <= INF), r >= rv(K * K * (1 - Fraction(1, 2**23)))), Implies(And(a >= -rv(K), a <= rv(K)), r <= rv(K * K * (1 + Fraction(1, 2**23))))), r)
        if cap[0] == 'divk' and 'fp!div' in names:    # A, C > 0, b within 2^-20 of C: a <= -A -> a/b <= -A/C(1-2^-19);  a >= -A -> a/b >= -A/C(1+2^-19)
            r = fdiv(a, b)
            Av, C = Fraction(cap[1]), Fraction(cap[2])
            e = Fraction(1, 2**19)
            fa([a, b], Implies(And(b >= rv(C * (1 - e / 2)), b <= rv(C * (1 + e / 2)), a <= INF), And(Implies(a <= rv(-Av), r <= rv(-Av / C * (1 - e))), Implies(a >= rv(-Av), r >= rv(-Av / C * (1 + e))))), r)
        if cap[0] == 'mulk' and 'fp!mul' in names:    # 0 <= a <= A, b within 2^-20 of K > 0 -> 0 <= a*b <= A K (1 + 2^-18)
            r = fmul(a, b)
            Av, K = Fraction(cap[1]), Fraction(cap[2])
            e = Fraction(1, 2**20)
            for x, y in ((a, b), (b, a)):
                fa([a, b], Implies(And(x >= 0, x <= rv(Av), y >= rv(K * (1 - e)), y <= rv(K * (1 + e))), And(r >= 0, r <= rv(Av * K * (1 + 4 * e)))), r)
        if cap[0] == 'subcmp' and 'fp!sub' in names:  # C a power of two: a - b rounds to less than C exactly if a - b < C(1 - 2^-25) (the midpoint below C rounds to C)
            r = fsub(a, b)
            C = Fraction(cap[1])
            m = rv(C * (1 - Fraction(1, 2**25)))
            fa([a, b], Implies(And(a >= -MAX, a <= MAX, b >= -MAX, b <= MAX), And((r < rv(C)) == (a - b < m), (r > rv(-C)) == (b - a < m))), r)
        if cap[0] == 'divlo' and 'fp!div' in names:   # a >= A, 0 < b <= B -> a/b >= A/B
            r = fdiv(a, b)
            fa([a, b], Implies(And(a >= rv(cap[1]), a <= INF, b > 0, b <= rv(cap[2])), r >= rv(Fraction(cap[1]) / Fraction(cap[2]))), r)
        if cap[0] == 'divhi' and 'fp!div' in names:   # |a| <= A, b >= B -> |a/b| <= A/B
            r = fdiv(a, b)
            lim = rv(Fraction(cap[1]) / Fraction(cap[2]))
            assert Fraction(cap[1]) / Fraction(cap[2]) <= 2**127
            fa([a, b], Implies(And(a <= rv(cap[1]), a >= -rv(cap[1]), b >= rv(cap[2]), b <= INF), And(r <= lim, r >= -lim)), r)
        if cap[0] == 'add' and 'fp!add' in names:
            Sc, Xc = rv(cap[1]), rv(cap[2])
            assert Fraction(cap[2]) * 2**25 <= Fraction(cap[1]) <= 2**127
            r = fadd(a, b)
            fa([a, b], Implies(Or(And(a >= 0, a <= Sc, b >= 0, b <= Xc), And(b >= 0, b <= Sc, a >= 0, a <= Xc)), And(r >= 0, r <= Sc)), r)
        if cap[0] == 'uadd' and 'fp!add' in names:   # a <= A, b <= A -> a+b <= 2A (also for -inf)
            r = fadd(a, b)
            assert Fraction(cap[1]) <= 2**126
            fa([a, b], Implies(And(a <= rv(cap[1]), b <= rv(cap[1])), r <= rv(2 * Fraction(cap[1]))), r)
        for r in ([fadd(a, b)] if 'fp!add' in names else []) + ([fsub(a, b)] if 'fp!sub' in names else []):
            if cap[0] != 'badd':    # |a|, |b| <= A -> |a+b|, |a-b| <= 2A
                break
            A1, A2 = rv(cap[1]), rv(2 * Fraction(cap[1]))
            assert Fraction(cap[1]) <= 2**126
            fa([a, b], Implies(And(a <= A1, a >= -A1, b <= A1, b >= -A1), And(r <= A2, r >= -A2)), r)
        if cap[0] == 'sadd' and 'fp!add' in names:   # both signs
            Sc, Xc = rv(cap[1]), rv(cap[2])
            assert Fraction(cap[2]) * 2**25 <= Fraction(cap[1]) <= 2**127
            r = fadd(a, b)
            fa([a, b], Implies(Or(And(a >= -Sc, a <= Sc, b >= -Xc, b <= Xc), And(b >= -Sc, b <= Sc, a >= -Xc, a <= Xc)), And(r >= -Sc, r <= Sc)), r)
    if 'fp!rem' in names:
        r = frem(a, b)
        fa([a, b], And(dom(r), Implies(And(fin(a), fin(b), b > 0), And(r < b, r > -b, Implies(a >= 0, And(r >= 0, r <= a))))), r)
    if 'fp!rem_euclid' in names:
        r = remeu(a, b)
        fa([a, b], And(dom(r), Implies(And(fin(a), fin(b), b > 0), And(r >= 0, r <= b))), r)
    if 'fp!sqrt' in names:
        r = SQRT(a)
        fa([a], And(dom(r), Implies(a > INF, r == NAN), Implies(a < 0, r == NAN),
                    Implies(And(a >= 0, a <= INF), And(r >= 0, r <= INF)), Implies(a == 0, r == 0), Implies(a == INF, r == INF),
                    Implies(And(a >= 0, a <= 1), And(r <= 1, r >= a)), Implies(And(a >= 1, fin(a)), And(r >= 1, r <= a)),
                    Implies(And(a >= RealVal(str(Fraction(1, 2**62))), a <= INF), r >= RealVal(str(Fraction(1, 2**31)))),
                    Implies(And(a > 0, fin(a)), And(r > 0, r <= 2**64))), r)
        fa([a, b], Implies(And(a <= b, a >= 0, b <= INF), SQRT(a) <= SQRT(b)), (SQRT(a), SQRT(b)))
    for nm in ('sin', 'cos'):
        if 'fp!' + nm in names:
            r = UN[nm](a)
            fa([a], And(dom(r), Implies(fin(a), And(r >= -1, r <= 1)), Implies(Not(fin(a)), r == NAN)), r)
    if 'fp!exp' in names:
        r = UN['exp'](a)
        fa([a], And(dom(r), Implies(a > INF, r == NAN), Implies(a <= INF, And(r >= 0, r <= INF)), Implies(a <= 0, r <= 1),
                    Implies(And(a >= 0, a <= INF), r >= 1), Implies(a == -INF, r == 0), Implies(And(a > -80, a <= INF), r > 0), Implies(a <= 80, r <= MAX),
                    Implies(a <= rv(Fraction('-2.303')), r < rv(Fraction('0.09999'))), Implies(And(a >= rv(Fraction('-2.302')), a <= INF), r > rv(Fraction('0.10001')))), r)
    if 'fp!exp2' in names:
        r = UN['exp2'](a)
        fa([a], And(dom(r), Implies(a > INF, r == NAN), Implies(a <= INF, And(r >= 0, r <= INF)), Implies(And(a > -100, a <= INF), r > 0)), r)
    if 'fp!tanh' in names:
        r = UN['tanh'](a)
        fa([a], And(dom(r), Implies(a > INF, r == NAN), Implies(a <= INF, And(r >= -1, r <= 1)), Implies(And(a >= 0, a <= INF), r >= 0)), r)
    for nm in ('ln', 'log10', 'log2'):
        if 'fp!' + nm in names:
            r = UN[nm](a)
            fa([a], And(dom(r), Implies(a > INF, r == NAN), Implies(a < 0, r == NAN), Implies(a == 0, r == -INF),
                        Implies(And(a > 0, fin(a)), And(r >= -200, r <= 200)), Implies(a == INF, r == INF),
                        Implies(And(a >= 1, a <= INF), r >= 0), Implies(And(a >= 0, a <= 1), r <= 0),
                        Implies(And(a >= RealVal('1/100000000000'), a <= INF), r >= {'log10': -12, 'ln': -26, 'log2': -37}[nm])), r)
    if 'fp!powf' in names:
        r = powf(a, b)
        fa([a, b], And(dom(r), Implies(And(a >= 0, a <= INF, b <= INF), And(r >= 0, r <= INF)),
                       Implies(And(a > 0, a <= INF, b == 0), r == 1),
                       Implies(b == 1, r == a),
                       Implies(And(a >= 0, a <= 1, b >= 0, b <= INF), r <= 1),
                       Implies(And(a >= 1, a <= INF, b >= 0, b <= INF), r >= 1),
                       Implies(And(a >= 1, a <= 10, b <= 38), r <= MAX),
                       Implies(And(a >= 1, a <= 10, b <= 12), r <= 2**40),
                       Implies(And(a >= 1, a <= 10, b >= -10), r >= RealVal('99/1000000000000')),
                       Implies(And(a >= RealVal('1/10'), a <= 10, b >= -37, b <= 37), r > 0),
                       Implies(And(a >= 1, a <= INF, b <= 0), r <= 1)), r)
        fa([a, b, c], Implies(And(a >= 1, a <= INF, b <= c, c <= INF), powf(a, b) <= powf(a, c)), (powf(a, b), powf(a, c)))
    if 'fp!powi' in names:
        r = powi(a, n)
        fa([a, n], And(dom(r), Implies(And(a >= 0, a <= INF), And(r >= 0, r <= INF)), Implies(And(n == 2, a <= INF), And(r >= 0, r <= INF)),
                       Implies(And(a >= 0, a <= 1, n >= 0), r <= 1)), r)
        if level >= 1:
            fa([a], powi(a, 2) == fmul(a, a), powi(a, 2))
    return A
