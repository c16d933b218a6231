"""Contracts on the functions of stratum-dsp, keyed by their path in the crate."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, IntVal, BoolVal, Int
import fp
import engine
from fp import fin, INF, NAN
from vals import *
from spec import Contract, Ctx, Lemma
from engine import and_, or_, imp, not_, ite, TRUE, FALSE, ival
from cands import bvar, forall_el, sorted_pred, getp

C = {}


def con(fn, **kw):
    c = Contract(fn, **kw)
    C[fn] = c
    return c


def rv(x):
    return fp.rv(x) if not isinstance(x, str) else fp.lit(x)


# ------------------------------------------------------------------ spec helpers
def unit(x):
    return And(x >= 0, x <= 1)


def all_el(v, f):
    return forall_el(v, lambda i, e: f(e))


def all2(v, f):
    """every entry of a Vec<Vec<..>>"""
    i, j = bvar(), bvar()
    e = v.get(i)
    t = e.get(j)
    return FA([i, j], Implies(And(i >= 0, i < v.n, j >= 0, j < e.n), f(t)), [t] if z3.is_expr(t) else [])


def finite_seq(v):
    return all_el(v, fin)


def rect(v, w):
    return forall_el(v, lambda i, e: e.n == w)


def desc_by(v, path=()):
    """ordered by falling value"""
    return sorted_pred(v, path, False, lambda x, y: x >= y)


def strictly_inc(v, path=()):
    return sorted_pred(v, path, True)


def nondec(v, path=()):
    return sorted_pred(v, path, False)


notnan = lambda x: x <= INF


def shape(eng, ty):
    """coarse shape of a type: 'i', 'f', ('t', ..)"""
    ty = eng.strip(ty) if ty is not None else None
    if ty is None:
        return None
    if ty[0] == 'int':
        return 'i'
    if ty[0] == 'float':
        return 'f'
    if ty[0] == 'bool':
        return 'b'
    if ty[0] == 'tuple':
        return ('t',) + tuple(shape(eng, x) for x in ty[1])
    if ty[0] in ('vec', 'slice'):
        return ('v', shape(eng, ty[1]))
    if ty[0] == 'adt':
        return ty[1].split('::')[-1]
    return None


def each(sh, *preds):
    """candidates: every element of any sequence of this element shape satisfies pred(cx, e)"""
    def t(eng, A, base, h, entry):
        for s in A:
            if s.kind == 'sq' and s.changed and shape(eng, s.ety) == sh:
                for k, p in enumerate(preds):
                    yield '%s[] spec%d' % (s.name, k), (lambda st, s=s, p=p: forall_el(s(st), lambda i, e: p(eng.cx0, e))), [s]
    return t


def whole(sh, *preds):
    """candidates: pred(cx, seq) for any changing sequence of this element shape"""
    def t(eng, A, base, h, entry):
        for s in A:
            if s.kind == 'sq' and s.changed and shape(eng, s.ety) == sh:
                for k, p in enumerate(preds):
                    yield '%s whole%d' % (s.name, k), (lambda st, s=s, p=p: p(eng.cx0, s(st))), [s]
    return t


def scanned(sh, *preds):
    """candidates: pred(cx, seq, position) for any changing sequence of this element shape and any iterator"""
    def t(eng, A, base, h, entry):
        for s in A:
            if s.kind == 'sq' and s.changed and shape(eng, s.ety) == sh:
                for a in A:
                    if a.kind == 'it' and a.changed:
                        for k, p in enumerate(preds):
                            yield '%s scanned%d by %s' % (s.name, k, a.name), (lambda st, s=s, a=a, p=p: p(eng.cx0, s(st), a(st).pos)), [s, a]
    return t


# ------------------------------------------------------------------ P03 channel mixing
def _mix(c):
    l, r, mode = c[0], c[1], c[2]

    def body(v):
        i = bvar()
        a, b, o = l.get(i), r.get(i), v.get(i)
        avg = fp.mul(fp.add(a, b), rv('0.5'))
        dom = If(fp.ge(fp.fabs(a), fp.fabs(b)), a, b)
        return FA([i], Implies(And(i >= 0, i < v.n), o == If(mode.d == 2, dom, avg)))
    return c.okval(body)


con('preprocessing::channel_mixer::stereo_to_mono', panics='P03', ens=[
    ('P03', 'unequal lengths are an error, equal lengths succeed', lambda c: c.ok == (c[0].n == c[1].n)),
    ('P03', 'one output sample per input pair', lambda c: c.okval(lambda v: v.n == c[0].n)),
    ('P03', 'each output sample is the documented mix of its pair', _mix),
])


# ------------------------------------------------------------------ P06 adaptive thresholds
from stdm import OS


def arr_of(c, v):
    return c.eng.materialize(v, None, c.st).el.arrs[0]


def _median(A, n):
    m = n / 2
    return If(n % 2 == 0, fp.mul(fp.add(OS(A, n, m - 1), OS(A, n, m)), rv('0.5')), OS(A, n, m))


def _mad(c):
    v, k = c[0], c[1]
    A = arr_of(c, v)
    n = v.n
    med = _median(A, n)
    D = c.eng.fresh('dev', z3.ArraySort(z3.IntSort(), z3.RealSort()))
    i = bvar()
    c.eng.fact0(FA([i], z3.Select(D, i) == fp.fabs(fp.sub(z3.Select(A, i), med)), [z3.Select(D, i)]))
    mad = _median(D, n)
    return c.okval(lambda r: r == fp.add(med, fp.mul(k, mad)))


con('features::onset::threshold::adaptive_threshold_median_mad', panics='P06', opts={'os': True},
    req=[('values finite', lambda c: finite_seq(c[0])), ('multiplier is a number', lambda c: c[1] <= INF)],
    ens=[
    ('P06', 'error exactly on empty input or negative multiplier', lambda c: c.ok == And(c[0].n > 0, c[1] >= 0)),
    ('P06', 'median plus k times the median absolute deviation', _mad),
])
con('features::onset::threshold::percentile_threshold', panics='P06', opts={'os': True},
    req=[('values finite', lambda c: finite_seq(c[0]))],
    ens=[
    ('P06', 'error exactly on empty input or fraction outside 0..1', lambda c: c.ok == And(c[0].n > 0, c[1] >= 0, c[1] <= 1)),
    ('P06', 'result is the order statistic at floor(n*p), clamped to the largest', lambda c: c.okval(lambda r:
        (lambda ix: r == OS(arr_of(c, c[0]), c[0].n, If(ix < c[0].n - 1, ix, c[0].n - 1)))(fp.to_int(fp.mul(fp.from_int(c[0].n), c[1]), 64, False)))),
    ('P06', 'result is one of the values', lambda c: c.okval(lambda r: (lambda i: Exists([i], And(i >= 0, i < c[0].n, c[0].get(i) == r)))(bvar()))),
])


# ------------------------------------------------------------------ P07 onset detectors
def _onset_post(nframes):
    return [
        ('P07', 'positions strictly increasing', lambda c: c.okval(lambda v: strictly_inc(v))),
        ('P07', 'positions inside the analysed frames, never frame 0', lambda c: c.okval(lambda v: all_el(v, lambda e: And(e >= 1, e < nframes(c))))),
    ]


def _ragged_err(c):
    """a spectrogram with a frame of a different width, or with empty frames, is an error"""
    i = bvar()
    s = c[0]
    return c.okval(lambda v: Implies(s.n > 0, And(s.get(0).n > 0, FA([i], Implies(And(i >= 0, i < s.n), s.get(i).n == s.get(0).n), [s.get(i).n]))))


def _pct_err(c):
    return Implies(And(c[0].n > 0, Not(And(c[1] >= 0, c[1] <= 1))), c.err)


con('features::onset::hfc::detect_hfc_onsets', panics='P07',
    ens=_onset_post(lambda c: c[0].n) + [('P07', 'ragged or empty frames are an error', _ragged_err)])
con('features::onset::spectral_flux::detect_spectral_flux_onsets', panics='P07',
    req=[('magnitudes finite', lambda c: all2(c[0], fin))],
    ens=_onset_post(lambda c: c[0].n) + [('P07', 'ragged or empty frames are an error', _ragged_err), ('P07', 'percentile outside 0..1 is an error', _pct_err)])
con('features::onset::hpss::detect_hpss_onsets', panics='P07',
    ens=_onset_post(lambda c: c[0].n) + [('P07', 'percentile outside 0..1 is an error', _pct_err)])
def _hop_grid(eng, A, base, h, entry):
    """positions pushed so far lie on the hop grid up to the scan position"""
    hop = eng.args0[2]
    for s in A:
        if s.kind == 'sq' and s.changed and s.ety is not None and eng.strip(s.ety)[0] == 'int':
            yield '%s[]>=hop' % s.name, (lambda st, s=s: forall_el(s(st), lambda i, e: e >= hop)), [s]
            yield '%s[]>=2hop' % s.name, (lambda st, s=s: forall_el(s(st), lambda i, e: e >= 2 * hop)), [s]
            for a in A:
                if a.kind == 'it' and a.changed:
                    yield '%s[]<=pos*hop' % s.name, (lambda st, s=s, a=a: forall_el(s(st), lambda i, e: e <= engine.IMUL(a(st).pos, hop))), [s, a]


con('features::onset::energy_flux::detect_energy_flux_onsets', panics='P07', elem=[_hop_grid],
    req=[('samples finite', lambda c: finite_seq(c[0]))],
    ens=[('P07', 'positions strictly increasing', lambda c: c.okval(lambda v: strictly_inc(v))),
         ('P07', 'positions inside the samples, after the first frame', lambda c: c.okval(lambda v: all_el(v, lambda e: And(e >= c[2], e >= 1, e < c[0].n)))),
         ('P07', 'no more onsets than samples', lambda c: c.okval(lambda v: v.n <= c[0].n)),
         ('P07', 'zero frame or hop size is an error', lambda c: Implies(And(c[0].n > 0, Or(c[1] == 0, c[2] == 0)), c.err))])


# ------------------------------------------------------------------ P11 peak picking
def _localmax(s, i):
    return And(Implies(i > 0, s.get(i) > s.get(i - 1)), Implies(i + 1 < s.n, s.get(i) > s.get(i + 1)))


def _thr_ok(c, v):
    """every value reaches the threshold: the absolute one, or the given fraction of every sample of the signal"""
    s, t = c[0], c[1]
    i, k = bvar(), bvar()
    x = v.get(i).items[1]
    rel = And(t > 0, t < 1)
    p = [(x, s.get(k))] if z3.is_select(x) else []
    return And(Implies(Not(rel), forall_el(v, lambda _, e: e.items[1] >= t)),
               Implies(rel, FA([i, k], Implies(And(i >= 0, i < v.n, k >= 0, k < s.n), x >= fp.mul(s.get(k), t)), p)))


def _sep(c, v):
    i, j = bvar(), bvar()
    x, y = v.get(i).items[0], v.get(j).items[0]
    d = If(x >= y, x - y, y - x)
    return FA([i, j], Implies(And(i >= 0, i < j, j < v.n), d >= c[2]), [(x, y)] if z3.is_select(x) else [])


def _pk_place(c, e):
    return And(e.items[0] >= 0, e.items[0] < c[0].n, e.items[1] == c[0].get(e.items[0]))


def _qual(c):
    """a predicate that holds of positions which are strict local maxima reaching the threshold"""
    e = c.eng
    if not hasattr(e, 'spec_qual'):
        Q = e.fresh_fn('qualifies', z3.IntSort(), z3.BoolSort())
        s, t = c[0], c[1]
        q, k = bvar(), bvar()
        rel = And(t > 0, t < 1)
        e.fact0(FA([q], Implies(Q(q), And(q >= 0, q < s.n, _localmax(s, q), Implies(Not(rel), s.get(q) >= t))), [Q(q)]))
        e.fact0(FA([q, k], Implies(And(Q(q), rel, k >= 0, k < s.n), s.get(q) >= fp.mul(s.get(k), t)), [(Q(q), s.get(k))]))
        e.spec_qual = Q
    return e.spec_qual


def _covers(c, v, q, need):
    """some entry of v lies closer to q than the minimum distance and is at least as high"""
    k = bvar()
    x = v.get(k)
    d = If(x.items[0] >= q, x.items[0] - q, q - x.items[0])
    lim = If(c[2] > 1, c[2], 1)
    return z3.Exists([k], And(k >= 0, k < v.n, d < lim, x.items[1] >= need), patterns=[x.items[0]] if z3.is_select(x.items[0]) else [])


def _found_so_far(c, v, pos):
    Q = _qual(c)
    q, k = bvar(), bvar()
    x = v.get(k)
    return FA([q], Implies(And(Q(q), q >= 1, q < pos), z3.Exists([k], And(k >= 0, k < v.n, x.items[0] == q), patterns=[x.items[0]] if z3.is_select(x.items[0]) else [])), [Q(q)])


def _kept_cover(eng, A, base, h, entry):
    c = eng.cx0
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == ('t', 'i', 'f'):
            for a in A:
                if a.kind == 'it' and a.changed:
                    it = a(h)
                    e = it.get(it.pos)
                    if isinstance(e, Tup) and len(e.items) == 2 and z3.is_expr(e.items[0]) and z3.is_int(e.items[0]) and z3.is_expr(e.items[1]) and z3.is_real(e.items[1]):
                        def cov(st, s=s, a=a):
                            k = bvar()
                            it = a(st)
                            x = it.get(k)
                            p = [x.items[0]] if z3.is_select(x.items[0]) else []
                            return FA([k], Implies(And(k >= 0, k < it.pos), _covers(c, s(st), x.items[0], x.items[1])), p)
                        yield '%s covers what %s passed' % (s.name, a.name), cov, [s, a]
                        yield '%s above next(%s)' % (s.name, a.name), (lambda st, s=s, a=a: Implies(a(st).pos < a(st).n, forall_el(s(st), lambda i, e: e.items[1] >= a(st).get(a(st).pos).items[1]))), [s, a]


def _complete(c):
    s = c[0]
    Q = _qual(c)
    k, q = bvar(), bvar()
    loud = z3.Exists([k], And(k >= 0, k < s.n, s.get(k) >= rv('1e-10')))
    return Implies(And(s.n >= 3, loud), FA([q], Implies(Q(q), _covers(c, c.ret, q, s.get(q))), [Q(q)]))


con('features::period::peak_picking::find_peaks', panics='P11', opts={'ax': 2},
    elem=[each(('t', 'i', 'f'), _pk_place, lambda c, e: _localmax(c[0], e.items[0])), whole(('t', 'i', 'f'), _sep, _thr_ok), scanned(('t', 'i', 'f'), _found_so_far), _kept_cover],
    req=[('signal finite', lambda c: finite_seq(c[0])), ('threshold finite', lambda c: fin(c[1]))],
    ens=[
    ('P11', 'every peak is a position of the signal with its value', lambda c: all_el(c.ret, lambda e: _pk_place(c, e))),
    ('P11', 'every peak is strictly higher than its neighbours', lambda c: all_el(c.ret, lambda e: _localmax(c[0], e.items[0]))),
    ('P11', 'every peak reaches the threshold', lambda c: _thr_ok(c, c.ret)),
    ('P11', 'peaks are at least the minimum distance apart', lambda c: _sep(c, c.ret)),
    ('P11', 'peaks come in falling order of height', lambda c: desc_by(c.ret, (1,))),
    ('P11', 'a signal of fewer than 3 samples or nowhere above 1e-10 has no peaks', lambda c: Implies(Or(c[0].n < 3, all_el(c[0], lambda x: x < rv('1e-10'))), c.ret.n == 0)),
    ('P11', 'no qualifying peak is dropped without a reported peak at least as high within the distance', _complete),
])


# ------------------------------------------------------------------ P04 silence trimming
def named_ints(A, h):
    seen = set()
    for a in A:
        if a.kind == 'int' and not a.changed and not a.guards and not a.name.startswith('_'):
            t = a(h)
            if t.get_id() not in seen:
                seen.add(t.get_id())
                yield a.name, t


def _reg(e):
    return e.items[0], e.items[1]


def _regs_ordered(c, v):
    i, j = bvar(), bvar()
    (s1, e1), (s2, e2) = _reg(v.get(i)), _reg(v.get(j))
    return FA([i, j], Implies(And(i >= 0, i < j, j < v.n), e1 <= s2), [(e1, s2)] if z3.is_select(e1) else [])


def _min_dur(c):
    d = c[2]
    return fp.to_int(fp.mul(fp.div(fp.from_int(d.items[1]), rv('1000')), fp.from_int(c[1])), 64, False)


def _reg_ok(c, e):
    s, t = _reg(e)
    return And(s >= 0, s < t, t <= c[0].n)


def _reg_long(c, e):
    s, t = _reg(e)
    return Implies(s > 0, t - s >= _min_dur(c))


def _sil_templates(eng, A, base, h, entry):
    its = [a for a in A if a.kind == 'it' and a.changed]
    starts = [u for u in A if u.kind == 'sq' and not u.changed and shape(eng, u.ety) == 'i' and not u.name.startswith('_')]
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) in ('SilenceRegion', ('t', 'i', 'i')):
            for u in starts:
                fs = u(h)
                for it in its:
                    yield '%s ends by %s[pos-1]' % (s.name, u.name), (lambda st, s=s, fs=fs, it=it: forall_el(s(st), lambda i, e: And(it(st).pos >= 1, _reg(e)[1] <= fs.get(it(st).pos - 1)))), [s, it]
                for b in A:
                    if b.kind == 'bool' and b.changed:
                        for a in A:
                            if a.kind == 'int' and a.changed and not a.guards:
                                yield '%s -> %s ends by %s[%s]' % (b.name, s.name, u.name, a.name), (lambda st, s=s, fs=fs, a=a, b=b: Implies(b(st), forall_el(s(st), lambda i, e: _reg(e)[1] <= fs.get(a(st))))), [s, a, b]


def _trim(c):
    x, n = c[0], c[0].n

    def f(v):
        tr, rg = v.items
        first, last = rg.get(IntVal(0)), rg.get(rg.n - 1)
        ts = If(And(rg.n > 0, first.items[0] == 0), first.items[1], 0)
        te = If(And(rg.n > 0, last.items[1] == n), last.items[0], n)
        i = bvar()
        return And(tr.n == If(ts < te, te - ts, 0),
                   FA([i], Implies(And(i >= 0, i < tr.n), tr.get(i) == x.get(ts + i)), [tr.get(i)] if z3.is_select(tr.get(i)) else []))
    return c.okval(f)


def _all_zero(c):
    e = c.eng
    if c.applied:
        return And(notnan(c[2].items[0]), all_el(c[0], lambda x: x == 0))
    if not hasattr(e, 'spec_zero'):
        Z = e.fresh('all_zero', z3.BoolSort())
        i = bvar()
        x = c[0].get(i)
        e.fact0(Implies(Z, And(notnan(c[2].items[0]), FA([i], Implies(And(i >= 0, i < c[0].n), x == 0), [x] if z3.is_select(x) else []))))
        e.spec_zero = Z
    return e.spec_zero


def _zero_templates(eng, A, base, h, entry):
    """what holds of the scan if every sample is zero"""
    Z = _all_zero(eng.cx0)
    for s in A:
        if s.kind == 'sq' and s.changed:
            sh = shape(eng, s.ety)
            if sh == 'f':
                yield 'zero -> %s[]==0' % s.name, (lambda st, s=s: Implies(Z, forall_el(s(st), lambda i, e: e == 0))), [s]
            if sh == 'b':
                yield 'zero -> %s[]' % s.name, (lambda st, s=s: Implies(Z, forall_el(s(st), lambda i, e: e))), [s]
            if sh in ('SilenceRegion', ('t', 'i', 'i')):
                yield 'zero -> no %s' % s.name, (lambda st, s=s: Implies(Z, s(st).n == 0)), [s]
        if s.kind == 'bool' and s.changed:
            for a in A:
                if a.kind == 'it' and a.changed:
                    yield 'zero -> %s once scanned' % s.name, (lambda st, s=s, a=a: Implies(And(Z, a(st).pos > 0), s(st))), [s, a]
                    for b in A:
                        if b.kind == 'int' and b.changed and not b.guards:
                            yield 'zero -> %s==0' % b.name, (lambda st, b=b: Implies(Z, b(st) == 0)), [b]
        if s.kind == 'opt' and s.changed:
            pass


con('preprocessing::silence::detect_and_trim', panics='P04', elem=[each('SilenceRegion', _reg_ok, _reg_long), whole('SilenceRegion', _regs_ordered), _sil_templates, _zero_templates],
    ens=[
    ('P04', 'all-zero audio is one silence region and trims to nothing', lambda c: Implies(And(_all_zero(c), c[0].n > 0), c.okval(lambda v: And(v.items[0].n == 0, v.items[1].n == 1, v.items[1].get(IntVal(0)).items[0] == 0, v.items[1].get(IntVal(0)).items[1] == c[0].n)))),
    ('P04', 'error exactly on zero sample rate or frame size with non-empty audio', lambda c: c.ok == Or(c[0].n == 0, And(c[1] != 0, c[2].items[2] != 0))),
    ('P04', 'regions are non-empty and inside the audio', lambda c: c.okval(lambda v: all_el(v.items[1], lambda e: _reg_ok(c, e)))),
    ('P04', 'regions are ordered and disjoint', lambda c: c.okval(lambda v: _regs_ordered(c, v.items[1]))),
    ('P04', 'a region not at the very start lasts at least the minimum duration', lambda c: c.okval(lambda v: all_el(v.items[1], lambda e: _reg_long(c, e)))),
    ('P04', 'the trimmed audio is the input between the leading and the trailing region', _trim),
])


# ------------------------------------------------------------------ P02 confidence report
AR = ('adt', 'analysis::result::AnalysisResult', ())
AC = ('adt', 'analysis::confidence::AnalysisConfidence', ())
AM = ('adt', 'analysis::result::AnalysisMetadata', ())


def fld(c, v, ty, name):
    fs = c.eng.P.struct_fields(ty)
    for i, (n, _) in enumerate(fs):
        if n == name:
            return v.items[i]
    raise Unsupported('no field %s' % name)


def ar(c, name):
    return fld(c, c[0], AR, name)


def clamp01(x):
    return If(x < 0, rv(0), If(x > 1, rv(1), x))


_score_req = [('scores are numbers', lambda c: And(*[notnan(ar(c, n)) for n in ('bpm', 'bpm_confidence', 'key_confidence', 'key_clarity', 'grid_stability')]))]


def _warns(c, *words):
    """some recorded warning contains one of the words"""
    w = fld(c, ar(c, 'metadata'), AM, 'confidence_warnings')
    f = z3.Function('str!contains', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    i = bvar()
    x = w.get(i)
    return Exists([i], And(i >= 0, i < w.n, Or(*[f(x, c.eng.str_id('"%s"' % t)) for t in words])))


def _bpm_conf(c, r):
    base = clamp01(ar(c, 'bpm_confidence'))
    return If(ar(c, 'bpm') <= 0, r == 0, If(_warns(c, 'BPM'), r == fp.mul(base, rv('0.7')), r == base))


def _key_conf(c, r):
    base = clamp01(ar(c, 'key_confidence'))
    cl = ar(c, 'key_clarity')
    adj = If(fp.lt(cl, rv('0.2')), rv('0.6'), If(fp.lt(cl, rv('0.5')), rv('0.85'), rv(1)))
    b = If(adj == 1, base, fp.mul(base, adj))
    return If(ar(c, 'key_confidence') <= 0, r == 0, If(_warns(c, 'key', 'Key', 'tonality'), r == fp.mul(b, rv('0.7')), r == b))


con('analysis::confidence::compute_bpm_confidence', panics='P02', req=_score_req, ens=[
    ('P02', 'no tempo gives 0, otherwise the clamped confidence, times 0.7 if a warning mentions BPM', lambda c: _bpm_conf(c, c.ret)),
    ('P02', 'tempo confidence in [0,1]', lambda c: unit(c.ret)),
])
con('analysis::confidence::compute_key_confidence', panics='P02', req=_score_req, ens=[
    ('P02', 'no key gives 0, otherwise the clamped confidence, lowered by weak clarity and by a warning about the key', lambda c: _key_conf(c, c.ret)),
    ('P02', 'key confidence in [0,1]', lambda c: unit(c.ret)),
])


def _overall(c):
    g = lambda n: fld(c, c.ret, AC, n)
    b, k, s, o = g('bpm_confidence'), g('key_confidence'), g('grid_stability'), g('overall_confidence')
    w = fp.add(fp.add(fp.mul(b, rv('0.4')), fp.mul(k, rv('0.3'))), fp.mul(s, rv('0.3')))
    return And(Implies(And(b > 0, k > 0), o == clamp01(w)), Implies(And(b > 0, k <= 0), o == fp.mul(b, rv('0.6'))),
               Implies(And(b <= 0, k > 0), o == fp.mul(k, rv('0.6'))), Implies(And(b <= 0, k <= 0), o == 0))


def _flags(c):
    g = lambda n: fld(c, c.ret, AC, n)
    b, k, s, fl = g('bpm_confidence'), g('key_confidence'), g('grid_stability'), g('flags')
    old = fld(c, ar(c, 'metadata'), AM, 'flags')
    n = old.n
    p1 = fp.lt(b, rv('0.3'))
    p2 = fp.lt(k, rv('0.2'))
    p3 = fp.lt(s, rv('0.3'))
    i1 = n
    i2 = n + If(p1, 1, 0)
    i3 = i2 + If(p2, 1, 0)
    i = bvar()
    return And(fl.n == i3 + If(p3, 1, 0), Implies(p1, fl.get(i1).d == 0), Implies(p2, fl.get(i2).d == 1), Implies(p3, fl.get(i3).d == 2),
               FA([i], Implies(And(i >= 0, i < n), fl.get(i).d == old.get(i).d)))


con('analysis::confidence::compute_confidence', panics='P02', req=_score_req, ens=[
    ('P02', 'every reported confidence in [0,1]', lambda c: And(*[unit(fld(c, c.ret, AC, n)) for n in ('bpm_confidence', 'key_confidence', 'grid_stability', 'overall_confidence')])),
    ('P02', 'tempo part', lambda c: _bpm_conf(c, fld(c, c.ret, AC, 'bpm_confidence'))),
    ('P02', 'key part', lambda c: _key_conf(c, fld(c, c.ret, AC, 'key_confidence'))),
    ('P02', 'grid part is the clamped stability', lambda c: fld(c, c.ret, AC, 'grid_stability') == clamp01(ar(c, 'grid_stability'))),
    ('P02', 'overall is the documented weighting', _overall),
    ('P02', 'each low part raises exactly its own flag after the flags already there', _flags),
])
_ov = lambda c: fld(c, c[0], AC, 'overall_confidence')
con('analysis::confidence::AnalysisConfidence::is_high_confidence', panics='P02', ens=[('P02', 'high is 0.7 and above', lambda c: c.ret == fp.ge(_ov(c), rv('0.7')))])
con('analysis::confidence::AnalysisConfidence::is_low_confidence', panics='P02', ens=[('P02', 'low is below 0.5', lambda c: c.ret == fp.lt(_ov(c), rv('0.5')))])
con('analysis::confidence::AnalysisConfidence::is_medium_confidence', panics='P02', ens=[('P02', 'medium is from 0.5 to below 0.7', lambda c: c.ret == And(fp.ge(_ov(c), rv('0.5')), fp.lt(_ov(c), rv('0.7'))))])


# ------------------------------------------------------------------ P01 key notation
_I, _B = z3.IntSort(), z3.BoolSort()
SDEC, SCAT = z3.Function('str!decimal', _I, _I), z3.Function('str!cat', _I, _I, _I)
SPRE, SSUF, SBND = z3.Function('str!prefix', _I, _I, _I), z3.Function('str!suffix', _I, _I, _I), z3.Function('str!boundary', _I, _I, _B)
SLEN, SPOK, SPV = z3.Function('str!len', _I, _I), z3.Function('str!parses_u32', _I, _B), z3.Function('str!value_u32', _I, _I)
NOTES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
# wheel: position p (1..12) of the major keys climbs by fifths from C; each minor key sits at its relative major's place
WHEEL = {0: {1 + p: (7 * p) % 12 for p in range(12)}, 1: {1 + p: (7 * p + 9) % 12 for p in range(12)}}
LETTER = {0: 'A', 1: 'B'}


def _txt(c, s):
    return c.eng.str_id('"%s"' % s)


def _keyname(c):
    k = c[0]
    out = []
    for v, suf in ((0, ''), (1, 'm')):
        i = k.pay[v][0]
        for n, nm in enumerate(NOTES):
            want = _txt(c, nm) if not suf else SCAT(_txt(c, nm), _txt(c, suf))
            out.append(Implies(And(k.d == v, i % 12 == n), c.ret == want))
    return And(*out)


def _keycode(c):
    k = c[0]
    out = []
    for v in (0, 1):
        i = k.pay[v][0]
        for num, idx in WHEEL[v].items():
            out.append(Implies(And(k.d == v, i % 12 == idx), c.ret == SCAT(SDEC(IntVal(num)), _txt(c, LETTER[v]))))
    return And(*out)


def _parse_key(c):
    s = c[0]
    n = SLEN(s)
    num, suf = SPRE(s, n - 1), SSUF(s, n - 1)
    ok0 = And(n >= 2, SBND(s, n - 1), SPOK(num), SPV(num) >= 1, SPV(num) <= 12)
    r = c.ret
    out = [(r.d == 1) == And(ok0, Or(suf == _txt(c, 'A'), suf == _txt(c, 'B')))]
    if r.pay.get(1):
        key = r.pay[1][0]
        for v in (0, 1):
            for p, idx in WHEEL[v].items():
                if v in key.pay:
                    out.append(Implies(And(r.d == 1, suf == _txt(c, LETTER[v]), SPV(num) == p), And(key.d == v, key.pay[v][0] == idx)))
                else:
                    out.append(Not(And(r.d == 1, suf == _txt(c, LETTER[v]), SPV(num) == p)))
    return And(*out)


def _roundtrip(c):
    """every code written by Key::numerical (see its contract) is read back as the key it was written from"""
    s, r = c[0], c.ret
    out = []
    for v in (0, 1):
        for p, idx in WHEEL[v].items():
            code = SCAT(SDEC(IntVal(p)), _txt(c, LETTER[v]))
            key = r.pay.get(1)
            same = And(r.d == 1, key[0].d == v, key[0].pay[v][0] == idx) if key and v in key[0].pay else BoolVal(False)
            out.append(Implies(s == code, same))
    return And(*out)


def _str_facts(c):
    """text facts about the 24 codes: decimal text followed by one ASCII letter"""
    out = []
    for v in (0, 1):
        L = _txt(c, LETTER[v])
        for p in range(1, 13):
            d = SDEC(IntVal(p))
            s = SCAT(d, L)
            n = len(str(p)) + 1
            out += [SLEN(s) == n, SBND(s, IntVal(n - 1)), SPRE(s, IntVal(n - 1)) == d, SSUF(s, IntVal(n - 1)) == L, SPOK(d), SPV(d) == p]
    return out


con('analysis::result::Key::name', panics='P01', opts={'fmt': True}, ens=[('P01', 'name of each key: note, with m for minor', _keyname)])
con('analysis::result::Key::numerical', panics='P01', opts={'fmt': True}, ens=[('P01', 'wheel code of each key: number by fifths, A for major, B for minor', _keycode)])
con('analysis::result::Key::from_numerical', panics='P01', opts={'fmt': True}, lemmas=[_str_facts], ens=[
    ('P01', 'accepts exactly a number from 1 to 12 followed by A or B, and yields the key at that place', _parse_key),
    ('P01', 'reads every written code back to the same key', _roundtrip),
])

con('analysis::confidence::AnalysisConfidence::confidence_level', panics='P02', ens=[('P02', 'every score has exactly one level name', lambda c: c.ret == If(fp.ge(_ov(c), rv('0.7')), _txt(c, 'High'), If(fp.lt(_ov(c), rv('0.5')), _txt(c, 'Low'), _txt(c, 'Medium'))))])


# ------------------------------------------------------------------ P09 harmonic/percussive separation
BIG = fp.rv(2**100)


def mags(c, v=None):
    """magnitudes: numbers from 0 to 2^100"""
    return all2(c[0] if v is None else v, lambda t: And(t >= 0, t <= BIG))


def _is_rect(s):
    return And(s.n > 0, s.get(IntVal(0)).n > 0, rect(s, s.get(IntVal(0)).n))


def same_shape(v, s):
    return And(v.n == s.n, forall_el(v, lambda i, e: e.n == s.get(i).n))


def at2(v, i, j):
    return v.get(i).get(j)


def _filled(eng, A, base, h, entry):
    """rows / columns filled so far"""
    its = [a for a in A if a.kind == 'it' and a.changed]
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == ('v', 'f'):
            yield '%s[][]<=BIG' % s.name, (lambda st, s=s: all2(s(st), lambda t: t <= BIG)), [s]


_filter_ens = [
    ('P09', 'median filter keeps the shape', lambda c: same_shape(c.ret, c[0])),
    ('P09', 'median filter stays in the magnitude range', lambda c: mags(c, c.ret)),
]
_filter_req = [('rectangular, not empty', lambda c: _is_rect(c[0])), ('magnitudes', mags), ('margin below 2^62', lambda c: c[1] <= 2**62)]
for _f in ('apply_horizontal_median_filter', 'apply_vertical_median_filter'):
    con('features::onset::hpss::' + _f, panics='P09', req=_filter_req, ens=_filter_ens, elem=[_filled], opts={'rlits': [2**101, 2**100]})


def _split_lemma():
    e, d = z3.RealVal('1/16777216'), z3.RealVal(str(fp.Fraction(1, 2**150)))
    h, p, t, a, b, o, x, y = z3.Reals('lm?h lm?p lm?t lm?a lm?b lm?o lm?x lm?y')
    low = z3.RealVal('1/100000000000')
    g1 = And(h + p <= t * (1 + 3 * e), h + p >= t * (1 - 3 * e))
    g2 = And(a + b <= 1 + 5 * e, a + b >= 1 - 5 * e)
    rel = lambda r, v, k: And(r <= v * (1 + e) + d * k, r >= v * (1 - e) - d * k)
    steps = [
        ('the rounded total is the total up to rounding', [h >= 0, p >= 0, rel(t, h + p, 1), t > low], g1),
        ('the two rounded shares add up to one up to rounding', [h >= 0, p >= 0, t > low, g1, rel(a * t, h, t), rel(b * t, p, t)], g2),
        ('the two rounded parts add up to the original up to rounding', [o >= 0, a >= 0, b >= 0, g2, rel(x, o * a, 1), rel(y, o * b, 1)],
         And(x + y <= o * (1 + 7 * e) + 3 * d, x + y >= o * (1 - 7 * e) - 3 * d)),
    ]
    T = fp.fadd(h, p)
    X, Y = fp.fmul(o, fp.fdiv(h, T)), fp.fmul(o, fp.fdiv(p, T))
    pre = And(o >= 0, o <= BIG, h >= 0, h <= BIG, p >= 0, p <= BIG, T > low)
    fact = FA([o, h, p], Implies(pre, And(X + Y <= o * (1 + 7 * e) + 3 * d, X + Y >= o * (1 - 7 * e) - 3 * d)), [(X, Y)])
    return Lemma('splitting by shares conserves', fact, steps)


TOL = z3.RealVal('1/1000000')
TINY = z3.RealVal(str(fp.Fraction(1, 10**40)))


def _split_ok(o, h, p):
    return And(h >= 0, p >= 0, h <= o, p <= o, h + p <= o * (1 + TOL) + TINY, h + p >= o * (1 - TOL) - TINY)


def all_ij(H, P, O, lo, hi, pred, jlo=None, jhi=None):
    i, j = bvar(), bvar()
    g = [i >= lo, i < hi, j >= (0 if jlo is None else jlo), j < (H.get(i).n if jhi is None else jhi)]
    x, y, o = at2(H, i, j), at2(P, i, j), at2(O, i, j)
    pats = [t for t in (x, y) if z3.is_select(t)]
    return FA([i, j], Implies(And(*g), pred(o, x, y)), pats)


def _hpss_templates(eng, A, base, h, entry):
    O = eng.cx0[0]
    its = [a for a in A if a.kind == 'it' and a.changed]
    uits = [a for a in A if a.kind == 'it' and not a.changed]
    ss = [s for s in A if s.kind == 'sq' and s.changed and shape(eng, s.ety) == ('v', 'f')]
    for s in ss:
        yield '%s[][]<=BIG' % s.name, (lambda st, s=s: all2(s(st), lambda t: t <= BIG)), [s]
        yield '%s same shape' % s.name, (lambda st, s=s: same_shape(s(st), O)), [s]
    for H in ss:
        for P in ss:
            if H is P or str(H.key) > str(P.key):
                continue
            for it in its:
                yield '%s+%s split once %s ran' % (H.name, P.name, it.name), (lambda st, H=H, P=P, it=it: Implies(it(st).pos >= 1, all_ij(H(st), P(st), O, 0, O.n, _split_ok))), [H, P, it]
                yield '%s+%s split below %s' % (H.name, P.name, it.name), (lambda st, H=H, P=P, it=it: all_ij(H(st), P(st), O, 0, it(st).pos, _split_ok)), [H, P, it]
                for ou in uits:
                    yield '%s+%s split in row below %s' % (H.name, P.name, it.name), (lambda st, H=H, P=P, it=it, ou=ou: all_ij(H(st), P(st), O, ou(st).pos - 1, ou(st).pos, _split_ok, 0, it(st).pos)), [H, P, it, ou]
                    yield '%s+%s split in rows above (%s)' % (H.name, P.name, ou.name), (lambda st, H=H, P=P, it=it, ou=ou: all_ij(H(st), P(st), O, 0, ou(st).pos - 1, _split_ok)), [H, P, ou]


con('features::onset::hpss::hpss_decompose', panics='P09', opts={'rlits': [2**101, 2**100], 'nounroll': True}, lem=[_split_lemma()],
    req=[('magnitudes', mags), ('margin below 2^62', lambda c: c[1] <= 2**62)], elem=[_hpss_templates],
    ens=[
    ('P09', 'error exactly on an empty or ragged spectrogram', lambda c: c.ok == _is_rect(c[0])),
    ('P09', 'both parts have the shape of the input', lambda c: c.okval(lambda v: And(same_shape(v.items[0], c[0]), same_shape(v.items[1], c[0])))),
    ('P09', 'each part is between zero and the original, and the two add up to it', lambda c: c.okval(lambda v: all_ij(v.items[0], v.items[1], c[0], 0, c[0].n, _split_ok))),
])


# ------------------------------------------------------------------ P05 normalization
def _gains(eng):
    if not hasattr(eng, 'spec_gains'):
        eng.spec_gains = [rv(1)]
    return eng.spec_gains


def with_gain(c, pred):
    """there is a gain g with pred(g): a ghost result.  Call site: a fresh value; proof: one of the reals the loops multiply by."""
    if c.applied:
        g = c.eng.fresh('gain', z3.RealSort())
        _gains(c.eng).append(g)
        return pred(g)
    return Or(*[pred(g) for g in _gains(c.eng)])


def _scaled(v, o, g, lo=0, hi=None):
    i = bvar()
    x = v.get(i)
    return FA([i], Implies(And(i >= lo, i < (v.n if hi is None else hi)), x == (o.get(i) if z3.is_rational_value(g) and g.as_fraction() == 1 else fp.mul(o.get(i), g))), [x] if z3.is_select(x) else [])


def _gain_templates(eng, A, base, h, entry):
    """samples below the scan position are scaled by a fixed factor, the rest is untouched"""
    o = eng.cx0[0]
    gs = {}
    for a in A:
        if a.kind == 'float' and not a.changed and not a.guards:
            t = a(h)
            if fp.numeral(t) is None:
                gs.setdefault(t.get_id(), (a.name, t))
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == 'f':
            for it in A:
                if it.kind == 'it' and it.changed:
                    yield '%s untouched from %s' % (s.name, it.name), (lambda st, s=s, it=it: _scaled(s(st), o, rv(1), it(st).pos)), [s, it]
                    for n, g in gs.values():
                        if not any(g.eq(x) for x in _gains(eng)):
                            _gains(eng).append(g)
                        yield '%s scaled by %s below %s' % (s.name, n, it.name), (lambda st, s=s, it=it, g=g: _scaled(s(st), o, g, 0, it(st).pos)), [s, it]


BIG40 = fp.rv(2**40)
_norm_req = [('samples of magnitude up to 2^40', lambda c: all_el(c[0], lambda x: And(x >= -BIG40, x <= BIG40)))]
_one = ('P05', 'every sample is multiplied by one common non-negative gain', lambda c: with_gain(c, lambda g: And(g >= 0, g <= INF, _scaled(c.final(0), c[0], g))))
_empty_err = ('P05', 'empty audio is an error', lambda c: Implies(c[0].n == 0, c.err))
FULL = z3.RealVal('1000001/1000000')
_noclip = ('P05', 'no sample exceeds full scale after success', lambda c: Implies(c.ok, all_el(c.final(0), lambda x: And(x <= FULL, x >= -FULL))))

def _peak_lemma():
    """a value no larger than p, times a gain no larger than the rounded T/p, is at most T up to rounding"""
    e, d = z3.RealVal('1/16777216'), z3.RealVal(str(fp.Fraction(1, 2**149)))
    x, g, T, p, q, r = z3.Reals('lp?x lp?g lp?T lp?p lp?q lp?r')
    lo, sl = z3.RealVal(str(fp.Fraction(1, 2**77))), z3.RealVal(str(fp.Fraction(1, 2**100)))
    dom = [p >= lo, p <= BIG40, T >= 0, T <= BIG40]
    steps = [
        ('the rounded quotient times the divisor', dom + [q >= 0, q * p <= T * (1 + e) + d * p], q * p <= T * (1 + e) + sl / 4),
        ('smaller factors, smaller product', [p > 0, g >= 0, q >= g, x >= 0, x <= p], x * g <= q * p),
        ('the rounded product', dom + [r <= x * g * (1 + e) + d, x * g <= q * p, q * p <= T * (1 + e) + sl / 4], r <= T * (1 + 4 * e) + sl),
    ]
    R = fp.fmul(x, g)
    lim = T * (1 + 4 * e) + sl
    fact = FA([x, g, T, p], Implies(And(*dom, g >= 0, g <= fp.fdiv(T, p), x <= p, x >= -p), And(R <= lim, R >= -lim)), [(R, fp.fdiv(T, p))])
    return Lemma('scaling by a limited gain cannot clip', fact, steps)


def _mean_lemma():
    """the mean of a sum that is at least one is at least 2^-62"""
    e, d = z3.RealVal('1/16777216'), z3.RealVal(str(fp.Fraction(1, 2**149)))
    s, m, q = z3.Reals('lm?s lm?m lm?q')
    M = 2**61
    steps = [('the rounded quotient', [s >= 1, m >= 1, m <= M, q * m >= s * (1 - e) - d * m], q >= z3.RealVal(str(fp.Fraction(1, 2**62))))]
    fact = FA([s, m], Implies(And(s >= 1, m >= 1, m <= M, s <= INF), fp.fdiv(s, m) >= z3.RealVal(str(fp.Fraction(1, 2**62)))), [fp.fdiv(s, m)])
    return Lemma('mean of a large sum', fact, steps)


def _reach_lemma():
    """p times the rounded T/p is T up to rounding"""
    e, d = z3.RealVal('1/16777216'), z3.RealVal(str(fp.Fraction(1, 2**149)))
    x, T, p, q, r = z3.Reals('lr?x lr?T lr?p lr?q lr?r')
    dom = [p >= z3.RealVal(str(fp.Fraction(1, 2**77))), p <= BIG40, T >= z3.RealVal(str(fp.Fraction(1, 2**34))), T <= BIG40]
    low = T * (1 - 5 * e)
    steps = [('the rounded quotient times the divisor', dom + [q * p >= T * (1 - e) - d * p], q * p >= T * (1 - 2 * e)),
             ('the rounded product', dom + [r >= q * p * (1 - e) - d, q * p >= T * (1 - 2 * e)], r >= low)]
    R = fp.fmul(x, fp.fdiv(T, p))
    return Lemma('scaling the peak reaches the target', FA([x, T, p], Implies(And(*dom, Or(x == p, x == -p)), Or(R >= low, R <= -low)), [R]), steps)


def _target(c, h):
    return fp.powf(rv(10), fp.div(fp.sub(rv(0), h), rv(20)))


def _mag(x):
    return If(x >= 0, x, -x)


def _quiet(v):
    return all_el(v, lambda x: And(x <= rv('1e-10'), x >= -rv('1e-10')))


def _headroom(c):
    T = _target(c, c[1])
    lim = T * FULL + z3.RealVal(str(fp.Fraction(1, 10**20)))
    f, o = c.final(0), c[0]
    i = bvar()
    pats = [t for t in (f.get(i), o.get(i)) if z3.is_select(t)]
    return Implies(And(c.ok, c[1] >= 0, c[1] <= 200, Not(_quiet(o))), And(all_el(f, lambda x: And(x <= lim, x >= -lim)),
        z3.Exists([i], And(i >= 0, i < f.n, _mag(f.get(i)) >= T * z3.RealVal('999999/1000000')), patterns=pats)))


_quiet_same = ('P05', 'audio no louder than 1e-10 is left as it is', lambda c: Implies(_quiet(c[0]), _scaled(c.final(0), c[0], rv(1))))

con('preprocessing::normalization::normalize_peak', panics='P05', elem=[_gain_templates], lem=[_peak_lemma(), _reach_lemma()], opts={'fpx': True, 'ax': 2, 'rlits': [-10, -200]},
    req=_norm_req + [('headroom is a finite number', lambda c: fin(c[1]))], ens=[_one, _empty_err, _noclip, _quiet_same,
         ('P05', 'only empty audio is an error', lambda c: c.ok == (c[0].n > 0)),
         ('P05', 'the largest sample is brought to the peak the headroom asks for', _headroom)])
con('preprocessing::normalization::normalize_rms', panics='P05', elem=[_gain_templates], lem=[_peak_lemma(), _mean_lemma()], opts={'fpx': True, 'ax': 2, 'rlits': [2**61], 'fwd': True},
    req=_norm_req + [('target between -300 and 200 dB', lambda c: And(c[1] >= -300, c[1] <= 200)), ('headroom between -100 and 200 dB', lambda c: And(c[2] >= -100, c[2] <= 200))], ens=[_one, _empty_err, _noclip, ('P05', 'only empty audio is an error', lambda c: c.ok == (c[0].n > 0))])

con('preprocessing::normalization::calculate_lufs', panics='P05',
    req=[('sample rate is a number', lambda c: notnan(c[1]))],
    ens=[('P05', 'loudness is minus infinity (all gated) or at least -125, never NaN', lambda c: c.okval(lambda v: Or(v == -INF, And(v >= -125, v <= INF)))),
         ('P05', 'empty audio or a non-positive sample rate is an error', lambda c: Implies(Or(c[0].n == 0, c[1] <= 0), c.err))])


def _tiny_lemma():
    """a tiny value times a bounded gain stays tiny"""
    e, d = z3.RealVal('1/16777216'), z3.RealVal(str(fp.Fraction(1, 2**149)))
    x, g, r = z3.Reals('lt?x lt?g lt?r')
    lo, hi = z3.RealVal(str(fp.Fraction(1, 2**77))), z3.RealVal(str(fp.Fraction(1, 2**35)))
    pre = [x >= 0, x < lo, g >= 0, g <= BIG40]
    steps = [('product', pre, x * g <= lo * BIG40), ('rounded product', [x * g <= lo * BIG40, x * g >= 0, r <= x * g * (1 + e) + d], r <= hi)]
    return Lemma('tiny times bounded is tiny', FA([x, g], Implies(And(*pre), fp.fmul(x, g) <= hi), [fp.fmul(x, g)]), steps)


_head_req = lambda i: ('headroom between 0 and 200 dB', lambda c: And(c[i] >= 0, c[i] <= 200))
con('preprocessing::normalization::normalize_lufs', panics='P05', elem=[_gain_templates], lem=[_peak_lemma(), _tiny_lemma()], opts={'fpx': True, 'ax': 2, 'rlits': [-10, -200, 225, 240, 12]},
    req=_norm_req + [('target between -300 and 100 LUFS', lambda c: And(c[1] >= -300, c[1] <= 100)), _head_req(2), ('sample rate is a number', lambda c: notnan(c[3]))],
    ens=[_one, _empty_err, _noclip])


def _cfg(c, name):
    return fld(c, c[1], ('adt', 'preprocessing::normalization::NormalizationConfig', ()), name)


con('preprocessing::normalization::normalize', panics='P05', opts={'ax': 2, 'rlits': [-297, 103]},
    req=_norm_req + [('target between -300 and 100', lambda c: And(_cfg(c, 'target_loudness_lufs') >= -300, _cfg(c, 'target_loudness_lufs') <= 100)),
                     ('headroom between 0 and 200 dB', lambda c: And(_cfg(c, 'max_headroom_db') >= 0, _cfg(c, 'max_headroom_db') <= 200)),
                     ('sample rate is a number', lambda c: notnan(c[2]))],
    ens=[_one, _empty_err, _noclip, ('P05', 'silence stays silent', lambda c: Implies(And(c.ok, all_el(c[0], lambda x: x == 0)), all_el(c.final(0), lambda x: x == 0))),
         ('P05', 'peak method: the largest sample is brought to the peak the headroom asks for', lambda c: Implies(_cfg(c, 'method').d == 0, _cfg_peak(c)))])


def _cfg_peak(c):
    T = _target(c, _cfg(c, 'max_headroom_db'))
    lim = T * FULL + z3.RealVal(str(fp.Fraction(1, 10**20)))
    f, o = c.final(0), c[0]
    i = bvar()
    pats = [t for t in (f.get(i), o.get(i)) if z3.is_select(t)]
    return Implies(And(c.ok, Not(_quiet(o))), And(all_el(f, lambda x: And(x <= lim, x >= -lim)),
        z3.Exists([i], And(i >= 0, i < f.n, _mag(f.get(i)) >= T * z3.RealVal('999999/1000000')), patterns=pats)))


# ------------------------------------------------------------------ P08 onset consensus
def _oc(c, name):
    return fld(c, c[0], ('adt', 'features::onset::consensus::OnsetConsensus', ()), name)


_LISTS = ('energy_flux', 'spectral_flux', 'hfc', 'hpss')


def leaves(eng, ty, path=()):
    """scalar leaves of a struct or tuple type: (path, 'i'|'f'|'b')"""
    ty = eng.strip(ty)
    if ty is None:
        return
    if ty[0] in ('int', 'float', 'bool'):
        yield path, ty[0][0]
    elif ty[0] == 'tuple':
        for k, t in enumerate(ty[1]):
            yield from leaves(eng, t, path + (k,))
    elif ty[0] == 'adt':
        try:
            fs = eng.P.struct_fields(ty)
        except Exception:
            fs = None
        for k, (n, t) in enumerate(fs or ()):
            yield from leaves(eng, t, path + (k,))


def leaf(v, path):
    for k in path:
        v = v.items[k]
    return v


def leaf_templates(ipreds=(), fpreds=(), depth=(1, 2), inner=True):
    """candidates over every scalar leaf of the elements of growing sequences (and sequences of sequences)"""
    def t(eng, A, base, h, entry):
        its = [a for a in A if a.kind == 'it' and a.changed]
        for s in A:
            if s.kind != 'sq' or not s.changed or s.ety is None:
                continue
            ety = eng.strip(s.ety)
            nested = ety[0] in ('vec', 'slice')
            if nested and 2 not in depth or not nested and 1 not in depth:
                continue
            for path, k in leaves(eng, ety[1] if nested else ety):
                for j, p in enumerate(ipreds if k == 'i' else fpreds if k == 'f' else ()):
                    def f(st, s=s, path=path, p=p, nested=nested):
                        if nested:
                            return all2(s(st), lambda e: p(eng.cx0, leaf(e, path)))
                        return forall_el(s(st), lambda i, e: p(eng.cx0, leaf(e, path)))
                    yield '%s[]%s leaf%d' % (s.name, path, j), f, [s]
            if nested and inner:
                yield '%s[] not empty' % s.name, (lambda st, s=s: forall_el(s(st), lambda i, e: e.n >= 1)), [s]
                for a in its:
                    yield '%s[] len<=%s' % (s.name, a.name), (lambda st, s=s, a=a: forall_el(s(st), lambda i, e: e.n <= a(st).pos)), [s, a]
                for a in A:
                    if a.kind == 'it' and not a.changed:
                        yield '%s[] len<=%s' % (s.name, a.name), (lambda st, s=s, a=a: forall_el(s(st), lambda i, e: e.n <= a(st).pos)), [s, a]
                        yield '%s[] len<%s' % (s.name, a.name), (lambda st, s=s, a=a: forall_el(s(st), lambda i, e: e.n < a(st).pos)), [s, a]
                yield '%s[] len<=2^30' % s.name, (lambda st, s=s: forall_el(s(st), lambda i, e: e.n <= 2**30)), [s]
    return t


def _span(c):
    """ghost bounds of all positions given (any bounds that hold)"""
    e = c.eng
    if not hasattr(e, 'spec_span'):
        lo, hi = e.fresh('earliest', z3.IntSort()), e.fresh('latest', z3.IntSort())
        for n in _LISTS:
            e.fact0(all_el(_oc(c, n), lambda x: And(x >= lo, x <= hi)))
        e.fact0(hi <= 2**32)
        e.spec_span = (lo, hi)
    return e.spec_span


def mul_cap(K):
    def f(c):
        a, b = z3.Ints('mc?a mc?b')
        return [FA([a, b], Implies(And(a >= 0, a <= K, b >= 0), engine.IMUL(a, b) <= K * b), [engine.IMUL(a, b)])]
    return f


OCAND = ('adt', 'features::onset::OnsetCandidate', ())


def _cand(c, pred):
    return c.okval(lambda v: all_el(v, lambda e: pred(lambda n: fld(c, e, OCAND, n))))


def _once_templates(eng, A, base, h, entry):
    """what holds once at least one item was processed"""
    its = [a for a in A if a.kind == 'it' and a.changed]
    for s in A:
        if s.kind == 'sq' and s.changed:
            n = ival(s(h).n)
            for it in its:
                if n is not None and n <= 16 and shape(eng, s.ety) == 'b':
                    yield '%s has a true once %s' % (s.name, it.name), (lambda st, s=s, it=it, n=n: Implies(it(st).pos >= 1, Or(*[s(st).get(IntVal(k)) for k in range(n)]))), [s, it]
                elif n is None:
                    yield '%s not empty once %s' % (s.name, it.name), (lambda st, s=s, it=it: Implies(it(st).pos >= 1, s(st).n >= 1)), [s, it]


_secs = lambda c, e: fld(c, e, OCAND, 'time_seconds') == fp.div(fp.from_int(fld(c, e, OCAND, 'time_samples')), fp.from_int(c[3]))
_w = lambda c: [c[1].get(IntVal(i)) for i in range(4)]
_tot = lambda c: sum(_oc(c, n).n for n in _LISTS)
def _below(c):
    """what callers use: candidates stay below a bound that all onsets stay below"""
    B = c.eng.opts.get('onset_bound')
    return TRUE if B is None else Implies(And(*[all_el(_oc(c, n), lambda x: x < B) for n in _LISTS]), _cand(c, lambda f: f('time_samples') < B))


con('features::onset::consensus::vote_onsets', panics='P08', opts={'rl_inv': 500000}, lemmas=[mul_cap(2**30)],
    elem=[leaf_templates([lambda c, x: And(x >= _span(c)[0], x <= _span(c)[1]), lambda c, x: x < 4, lambda c, x: And(x >= 1, x <= 4)], [lambda c, x: And(x >= 0, x <= BIG), lambda c, x: And(x >= 0, x <= 1)]), _once_templates, each('OnsetCandidate', _secs)],
    req=[('at most 2^28 onsets per method, at positions up to 2^32', lambda c: And(*[And(_oc(c, n).n <= 2**28, all_el(_oc(c, n), lambda x: x <= 2**32)) for n in _LISTS])),
         ('weights are numbers up to 2^100', lambda c: And(*[x <= BIG for x in _w(c)]))],
    ens=[('P08', 'error exactly on zero rate, zero tolerance or a negative weight', lambda c: c.ok == And(c[3] != 0, c[2] != 0, *[x >= 0 for x in _w(c)])),
         ('P08', 'no more candidates than onsets, and none only without onsets', lambda c: c.okval(lambda v: And(v.n <= _tot(c), (v.n == 0) == (_tot(c) == 0)))),
         ('P08', 'every candidate lies between the earliest and the latest onset given', lambda c: _below(c) if c.applied else _cand(c, lambda f: And(f('time_samples') >= _span(c)[0], f('time_samples') <= _span(c)[1]))),
         ('P08', 'time in seconds is the position over the sample rate', lambda c: c.okval(lambda v: all_el(v, lambda e: _secs(c, e)))),
         ('P08', 'one to four methods support each candidate', lambda c: _cand(c, lambda f: And(f('voted_by') >= 1, f('voted_by') <= 4))),
         ('P08', 'confidence is between 0 and 1', lambda c: _cand(c, lambda f: And(f('confidence') >= 0, f('confidence') <= 1))),
         ('P08', 'candidates come in falling order of confidence', lambda c: c.okval(lambda v: desc_by(v, ([n for n, _ in c.eng.P.struct_fields(OCAND)].index('confidence'),)))),
    ])


# ------------------------------------------------------------------ P10 novelty curves
M30 = fp.rv(2**30)
S120 = fp.rv(2**120)
_nov_caps = [('mul', 2**30, 2**30), ('mul', 2**32, 2**30), ('mul', 2**62, 2**30), ('mul', 256, 256), ('add', 2**120, 2**95)]
_nov_req = [('magnitudes between 0 and 2^30', lambda c: all2(c[0], lambda t: And(t >= 0, t <= M30))),
            ('at most 2^32 bins', lambda c: forall_el(c[0], lambda i, e: e.n <= 2**32))]


def _nov_bad(c):
    s = c[0]
    return And(s.n >= 2, Not(_is_rect(s)))


def _nov_ok(c, v):
    return And(all_el(v, unit), Or(_nov_low(v), _nov_one(v)))


def _nov_low(v):
    return all_el(v, lambda x: x <= rv('1e-10'))


def _nov_one(v):
    i = bvar()
    return z3.Exists([i], And(i >= 0, i < v.n, v.get(i) == 1))


def _div_templates(eng, A, base, h, entry):
    """values below the scan position are divided by a fixed number, the rest is as on entry"""
    gs = {}
    for a in A:
        if a.kind == 'float' and not a.changed and not a.guards:
            t = a(h)
            if fp.numeral(t) is None:
                gs.setdefault(t.get_id(), (a.name, t))
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == 'f':
            o = entry(s)
            for it in A:
                if it.kind == 'it' and it.changed:
                    yield '%s as on entry from %s' % (s.name, it.name), (lambda st, s=s, it=it, o=o: _scaled(s(st), o, rv(1), it(st).pos)), [s, it]
                    for n, g in gs.values():
                        def f(st, s=s, it=it, g=g, o=o):
                            i = bvar()
                            x = s(st).get(i)
                            return FA([i], Implies(And(i >= 0, i < it(st).pos), x == fp.div(o.get(i), g)), [t for t in (x, o.get(i)) if z3.is_select(t)])
                        yield '%s divided by %s below %s' % (s.name, n, it.name), f, [s, it]


def fscalar(*preds):
    """candidates about changing f32 scalars"""
    def t(eng, A, base, h, entry):
        for a in A:
            if a.kind == 'float' and a.changed:
                for k, p in enumerate(preds):
                    yield '%s fs%d' % (a.name, k), (lambda st, a=a, p=p: p(eng.cx0, a(st))), [a]
    return t


_nov_el = [fscalar(lambda c, x: And(x >= 0, x <= S120), lambda c, x: And(x >= 0, x <= 256)), _div_templates, leaf_templates((), [lambda c, x: And(x >= 0, x <= S120), lambda c, x: And(x >= 0, x <= 256), lambda c, x: And(x >= 0, x <= 1)])]


def _nov(fn, err=None, ln=None, req=(), opts=None, **kw):
    err = err or _nov_bad
    ln = ln or (lambda c: If(c[0].n >= 2, c[0].n - 1, 0))
    con('features::period::novelty::' + fn, panics='P10', req=_nov_req + list(req), elem=_nov_el + kw.pop('elem', []), opts=dict({'caps': _nov_caps, 'rlits': [2**30, 2**120, 256, 2**32]}, **(opts or {})), ens=[
        ('P10', 'error exactly on a ragged or empty-framed spectrogram (or zero rate)', lambda c: c.err == err(c)),
        ('P10', 'one value per frame transition', lambda c: c.okval(lambda v: v.n == ln(c))),
        ('P10', 'every value is between 0 and 1', lambda c: c.okval(lambda v: all_el(v, unit))),
        ('P10', 'the largest value is 1, unless none exceeds 1e-10', lambda c: c.okval(lambda v: Or(_nov_low(v), _nov_one(v)))),
    ], **kw)


_nov('spectral_flux_novelty')
_nov('superflux_novelty')
_nov('energy_flux_novelty')
_nov('hfc_novelty', err=lambda c: Or(And(c[0].n >= 1, c[1] == 0), _nov_bad(c)))


def _band(a, b):
    def f(c):
        nb = c[0].get(IntVal(0)).n
        m = lambda x: If(x <= nb, x, nb)
        return If(And(c[0].n >= 2, m(c[b]) > m(c[a]) + 1), c[0].n - 1, 0)
    return f


_nov('superflux_novelty_band', ln=_band(2, 3))
_nov('energy_flux_novelty_band', ln=_band(1, 2))
_nov('hfc_novelty_band', ln=_band(1, 2))


def _mel_err(c):
    s = c[0]
    return Or(_nov_bad(c), And(s.n >= 2, Or(c[1] == 0, s.get(IntVal(0)).n < 2)))


MELFB = ('adt', 'features::period::novelty::MelFilterbank', ())
_melf = lambda c, v, n: fld(c, v, MELFB, n)


def _mel_valid(c, v):
    nm = _melf(c, v, 'n_mels')
    return all2(_melf(c, v, 'bin_contribs'), lambda e: And(e.items[0] >= 0, e.items[0] < nm, e.items[1] >= 0, e.items[1] <= 1))


con('features::period::novelty::MelFilterbank::new', panics='P10', req=[('at most 2^32 bins and bands', lambda c: And(c[1] <= 2**32, c[2] <= 2**32))],
    elem=[leaf_templates([lambda c, x: x < If(c[2] >= 4, c[2], 4)], [lambda c, x: And(x >= 0, x <= 1)], inner=False)],
    ens=[('P10', 'filterbank: error exactly on zero rate or fewer than 2 bins', lambda c: c.err == Or(c[0] == 0, c[1] < 2)),
         ('P10', 'filterbank: at least 4 bands, one list per bin', lambda c: c.okval(lambda v: And(_melf(c, v, 'n_mels') == If(c[2] >= 4, c[2], 4), _melf(c, v, 'bin_contribs').n == c[1]))),
         ('P10', 'filterbank: weights between 0 and 1 on existing bands', lambda c: c.okval(lambda v: _mel_valid(c, v)))])
con('features::period::novelty::MelFilterbank::apply_logmag', panics='P10', req=[('valid filterbank', lambda c: _mel_valid(c, c[0])), ('magnitudes between 0 and 2^30', lambda c: all_el(c[1], lambda t: And(t >= 0, t <= M30)))],
    elem=[leaf_templates([], [lambda c, x: And(x >= 0, x <= fp.rv(2**40))])], opts={'caps': [('add', 2**40, 2**15)], 'rlits': [2**40, 2**30]},
    ens=[('P10', 'mel frame: one value per band, between 0 and 2^40', lambda c: And(c.ret.n == _melf(c, c[0], 'n_mels'), all_el(c.ret, lambda x: And(x >= 0, x <= fp.rv(2**40)))))])

_nov('mel_superflux_novelty', err=_mel_err, req=[('at most 2^32 mel bands', lambda c: c[2] <= 2**32)],
     elem=[leaf_templates([], [lambda c, x: And(x >= 0, x <= fp.rv(2**40))])],
     opts={'caps': _nov_caps + [('add', 2**40, 2**15), ('mul', 2**40, 2**40)], 'rlits': [2**30, 2**120, 256, 2**32, 2**40]})

_comb_ens = [
    ('P10', 'combining keeps the length of the shortest curve', lambda c: And(c.ret.n <= c[0].n, c.ret.n <= c[1].n, c.ret.n <= c[2].n, Or(*[c.ret.n == c[i].n for i in range(3)]))),
    ('P10', 'every combined value is between 0 and 1', lambda c: all_el(c.ret, unit)),
    ('P10', 'the largest combined value is 1, unless none exceeds 1e-10', lambda c: Or(_nov_low(c.ret), _nov_one(c.ret))),
]
_comb_req = [('curves with values between 0 and 1', lambda c: And(*[all_el(c[i], unit) for i in range(3)]))]
_comb_el = [_div_templates, leaf_templates((), [lambda c, x: And(x >= 0, x <= 1), lambda c, x: And(x >= 0, x <= fp.rv(2**30))]), fscalar(lambda c, x: And(x >= 0, x <= fp.rv(2**30)))]
con('features::period::novelty::combined_novelty_with_params', panics='P10', req=_comb_req + [('weights are at most 2^100', lambda c: And(*[Or(c[i] <= BIG, c[i] == NAN) for i in (3, 4, 5)]))],
    elem=_comb_el, opts={'caps': [('add', 2**30, 1)], 'rlits': [2**30]}, ens=_comb_ens)
con('features::period::novelty::combined_novelty', panics='P10', req=_comb_req, ens=_comb_ens)


# ------------------------------------------------------------------ P20 key templates
KT = ('adt', 'features::key::templates::KeyTemplates', ())
_KK = ([6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88], [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17])
_TE = ([5.0, 2.0, 3.5, 2.0, 4.5, 4.0, 2.0, 4.5, 2.0, 3.5, 1.5, 4.0], [5.0, 2.0, 3.5, 5.0, 2.0, 3.5, 2.0, 4.5, 3.5, 2.0, 4.0, 3.5])


def _profile(v, k):
    """12 entries: the unit-norm form of profile v, rotated by k, exactly and to within 1e-6"""
    import math
    n = math.sqrt(sum(x * x for x in v))
    return [fp.Fraction(v[(j + 12 - k) % 12] / n) for j in range(12)]


def _templates(prof, which):
    def f(c, T):
        m = fld(c, T, KT, which)
        out = [m.n == 12]
        for k in range(12):
            row = m.get(IntVal(k))
            out.append(row.n == 12)
            for j, w in enumerate(_profile(prof[0 if which == 'major' else 1], k)):
                x = row.get(IntVal(j))
                out.append(And(x >= fp.rv(w - fp.Fraction(1, 10**6)), x <= fp.rv(w + fp.Fraction(1, 10**6))))
        return z3.simplify(And(*out))
    return f


def _tset(c, T, kk):
    """kk: the set is Krumhansl-Kessler (else Temperley)"""
    return And(*[If(kk, _templates(_KK, w)(c, T), _templates(_TE, w)(c, T)) for w in ('major', 'minor')])


con('features::key::templates::KeyTemplates::new_with_template_set', panics='P20', ens=[('P20', 'the 24 templates are the unit-norm rotations of the two profiles of the chosen set', lambda c: _tset(c, c.ret, c[0].d == 0))])
con('features::key::templates::KeyTemplates::new', panics='P20', ens=[('P20', 'the default set is Krumhansl-Kessler', lambda c: _tset(c, c.ret, TRUE))])
con('features::key::templates::KeyTemplates@Default::default', panics='P20', ens=[('P20', 'the default set is Krumhansl-Kessler', lambda c: _tset(c, c.ret, TRUE))])


def _same_row(r, m, k):
    i = bvar()
    row = m.get(k)
    return And(r.n == row.n, FA([i], Implies(And(i >= 0, i < r.n), r.get(i) == row.get(i))))


for _mm in ('major', 'minor'):
    con('features::key::templates::KeyTemplates::get_%s_template' % _mm, panics='P20', ens=[('P20', 'the %s template of the key, counted modulo 12' % _mm, lambda c, w=_mm: _same_row(c.ret, fld(c, c[0], KT, w), c[1] % 12))])
con('features::key::templates::KeyTemplates::get_template', panics='P20', req=[('key index below 24', lambda c: c[1] < 24)],
    ens=[('P20', 'index 0-11 gives the major, 12-23 the minor templates', lambda c: If(c[1] < 12, _same_row(c.ret, fld(c, c[0], KT, 'major'), c[1]), _same_row(c.ret, fld(c, c[0], KT, 'minor'), c[1] - 12)))])


# ------------------------------------------------------------------ P18 chroma
from stdm import FSUM, RARR


def array_of(c, f, name='ghost'):
    """ghost array with entries f(k)"""
    A = c.eng.fresh(name, RARR)
    k = bvar()
    c.eng.fact0(FA([k], z3.Select(A, k) == f(k), [z3.Select(A, k)]))
    return A


def ghost_arrs(eng):
    if not hasattr(eng, 'spec_arrs'):
        eng.spec_arrs = []
    return eng.spec_arrs


def _unit_form(c, f):
    """result = f(x_i) divided by the Euclidean norm of all f(x_i), or uniform when that is negligible"""
    x, r = c[0], c.ret
    key = 'spec_sq'
    if not hasattr(c.eng, key) or c.applied:
        A = array_of(c, lambda k: fp.mul(f(x.get(k)), f(x.get(k))), 'squares')
        ghost_arrs(c.eng).append(A)
        setattr(c.eng, key, A)
    A = getattr(c.eng, key)
    norm = fp.sqrt(FSUM(A, x.n))
    i = bvar()
    return And(r.n == x.n, FA([i], Implies(And(i >= 0, i < x.n), r.get(i) == If(fp.gt(norm, rv('1e-10')), fp.div(f(x.get(i)), norm), fp.div(rv(1), fp.sqrt(fp.from_int(x.n))))), [r.get(i)] if z3.is_select(r.get(i)) else []))


def _sum_templates(eng, A, base, h, entry):
    """a running f32 sum equals the partial sum of a ghost array"""
    its = [a for a in A if a.kind == 'it' and a.changed]
    for a in A:
        if a.kind == 'float' and a.changed:
            for g in ghost_arrs(eng):
                for it in its:
                    yield '%s sums to %s' % (a.name, it.name), (lambda st, a=a, it=it, g=g: a(st) == FSUM(g, it(st).pos)), [a, it]


for _f, _fn in (('l2_normalize_chroma', lambda c: (lambda x: x)), ('sharpen_chroma', lambda c: (lambda x: fp.powf(x, c[1])))):
    con('features::chroma::normalization::' + _f, panics='P18', opts={'sums': True}, elem=[_sum_templates, lambda *a: _div_templates(*a)],
        ens=[('P18', 'every entry is scaled by the same Euclidean norm (uniform when it is negligible)', lambda c, fn=_fn: _unit_form(c, fn(c)))])


def _win(c):
    """ghost frame f, pitch class s, and what the window around them holds"""
    e = c.eng
    if not hasattr(e, 'spec_win'):
        f, s = e.fresh('anyframe', z3.IntSort()), e.fresh('anyclass', z3.IntSort())
        X = c[0]
        half = c[1] / 2
        lo = If(f - half >= 0, f - half, 0)
        W = array_of(c, lambda k: X.get(lo + k).get(s), 'window')
        ghost_arrs(e).append(W)
        e.fact0(Or(f == -1, And(f >= 0, f < X.n, s >= 0, s < X.get(f).n)))
        e.spec_win = (f, s, half, lo, W)
    return e.spec_win


def _cnt(c, pos):
    f, s, half, lo, W = _win(c)
    n = c[0].n
    hi = If(f + pos - half <= n, f + pos - half, n)
    return If(hi > lo, hi - lo, 0)


def _smooth_result(c, med):
    f, s, half, lo, W = _win(c)
    w = If(c[1] % 2 == 0, c[1] + 1, c[1]) if med else c[1]
    n = _cnt(c, w)
    return OS(W, n, n / 2) if med else fp.div(FSUM(W, n), fp.from_int(n))


def _smooth_templates(med):
    def t(eng, A, base, h, entry):
        c = eng.cx0
        f, s, half, lo, W = _win(c)
        R = _smooth_result(c, med)
        its = [a for a in A if a.kind == 'it' and a.changed]
        ints = {}
        for a in A:
            if a.kind == 'int' and not a.changed and not a.guards and ival(a(h)) is None:
                ints.setdefault(a(h).get_id(), a)
        ints = list(ints.values())
        for it in its:
            for x in A:
                if x.kind == 'sq' and x.changed and shape(eng, x.ety) == ('v', 'f'):
                    yield '%s result below %s' % (x.name, it.name), (lambda st, x=x, it=it: Implies(And(f >= 0, it(st).pos > f), at2(x(st), f, s) == R)), [x, it]
                if x.kind == 'sq' and x.changed and shape(eng, x.ety) == 'f':
                    for a in ints:
                        yield '%s result at %s below %s' % (x.name, a.name, it.name), (lambda st, x=x, it=it, a=a: Implies(And(f >= 0, a(st) == f, it(st).pos > s), x(st).get(s) == R)), [x, it, a]
                        for b in ints:
                            if b is not a:
                                def g(st, x=x, it=it, a=a, b=b):
                                    j = bvar()
                                    v = x(st)
                                    return Implies(And(f >= 0, a(st) == f, b(st) == s), And(v.n == _cnt(c, it(st).pos), FA([j], Implies(And(j >= 0, j < v.n), v.get(j) == z3.Select(W, j)), [v.get(j)] if z3.is_select(v.get(j)) else [])))
                                yield '%s window at %s,%s by %s' % (x.name, a.name, b.name, it.name), g, [x, it, a, b]
            if not med:
                for x in A:
                    if x.kind == 'float' and x.changed:
                        for y in A:
                            if y.kind == 'int' and y.changed:
                                for a in ints:
                                    for b in ints:
                                        if b is not a:
                                            yield '%s,%s average at %s,%s by %s' % (x.name, y.name, a.name, b.name, it.name), (lambda st, x=x, y=y, it=it, a=a, b=b: Implies(And(f >= 0, a(st) == f, b(st) == s), And(y(st) == _cnt(c, it(st).pos), x(st) == FSUM(W, y(st))))), [x, y, it, a, b]
    return t


for _f, _med in (('smooth_chroma', True), ('smooth_chroma_average', False)):
    con('features::chroma::smoothing::' + _f, panics='P18', opts={'os': True, 'sums': True}, elem=[_smooth_templates(_med)],
        req=[('rectangular', lambda c: rect(c[0], c[0].get(IntVal(0)).n)), ('values are numbers', lambda c: all2(c[0], notnan)), ('at most 2^30 frames, window up to 2^30', lambda c: And(c[0].n <= 2**30, c[1] <= 2**30))],
        ens=[('P18', 'smoothing keeps the frame count and width', lambda c: same_shape(c.ret, c[0])),
             ('P18', 'each value is the %s of its pitch class over the window' % ('median' if _med else 'mean'), lambda c, m=_med: TRUE if c.applied else Implies(And(_win(c)[0] >= 0, c[1] >= 2), at2(c.ret, _win(c)[0], _win(c)[1]) == _smooth_result(c, m))),
             ('P18', 'a window of 0 or 1 leaves the values as they are', lambda c: Implies(c[1] <= 1, (lambda i, j: FA([i, j], Implies(And(i >= 0, i < c[0].n, j >= 0, j < c[0].get(i).n), at2(c.ret, i, j) == at2(c[0], i, j))))(bvar(), bvar())))])


# ------------------------------------------------------------------ P21 key clarity
B80 = fp.rv(2**80)


def extremes(c, v, get, name):
    """ghost smallest and largest of get(element), defined when the sequence is not empty"""
    e = c.eng
    store = e.__dict__.setdefault('spec_ext', {})
    if name not in store or c.applied:
        mn, mx = e.fresh('smallest', z3.RealSort()), e.fresh('largest', z3.RealSort())
        i1, i2 = e.fresh('at', z3.IntSort()), e.fresh('at', z3.IntSort())
        e.fact0(all_el(v, lambda t: And(get(t) >= mn, get(t) <= mx)))
        e.fact0(Implies(v.n > 0, And(i1 >= 0, i1 < v.n, get(v.get(i1)) == mn, i2 >= 0, i2 < v.n, get(v.get(i2)) == mx)))
        store[name] = (mn, mx)
    return store[name]


def _clarity(c):
    v = c[0]
    sc = lambda t: t.items[1]
    e = c.eng
    if not hasattr(e, 'spec_scores') or c.applied:
        e.spec_scores = array_of(c, lambda k: sc(v.get(k)), 'scores')
        ghost_arrs(e).append(e.spec_scores)
    mn, mx = extremes(c, v, sc, 'scores')
    rng = fp.sub(mx, mn)
    avg = fp.div(FSUM(e.spec_scores, v.n), fp.from_int(v.n))
    return c.ret == If(And(v.n >= 2, rng > rv('1e-10')), fp.clampv(fp.div(fp.sub(sc(v.get(IntVal(0))), avg), rng), rv(0), rv(1)), 0)


con('features::key::key_clarity::compute_key_clarity', panics='P21', opts={'sums': True, 'caps': [('sadd', 2**120, 2**80)], 'rlits': [2**120, 2**121, 2**80]}, elem=[_sum_templates],
    req=[('scores are numbers of magnitude up to 2^80', lambda c: all_el(c[0], lambda t: And(t.items[1] >= -B80, t.items[1] <= B80)))],
    ens=[('P21', 'clarity is between 0 and 1', lambda c: unit(c.ret)),
         ('P21', 'clarity is how far the first score stands above the mean, relative to the spread; 0 for fewer than 2 scores or no spread', _clarity)])


# ------------------------------------------------------------------ P19 key detection
KDR = ('adt', 'features::key::KeyDetectionResult', ())
B20 = fp.rv(2**20)
small = lambda x: And(x >= -B20, x <= B20)


def kcode(k):
    """0-11 major, 12-23 minor, for a valid key"""
    t0, t1 = (k.pay[v][0] if v in k.pay and k.pay[v] else IntVal(0) for v in (0, 1))
    return If(k.d == 0, t0, 12 + t1)


def kvalid(k):
    return And(k.d >= 0, k.d <= 1, *[Implies(k.d == v, And(k.pay[v][0] >= 0, k.pay[v][0] < 12)) for v in (0, 1) if v in k.pay])


def keq(a, b):
    return And(a.d == b.d, *[Implies(a.d == v, a.pay[v][0] == b.pay[v][0]) for v in (0, 1) if v in a.pay and v in b.pay])


def tmpl_in(T):
    def f(c):
        t = c[T] if isinstance(T, int) else T(c)
        return And(*[And(fld(c, t, KT, w).n == 12, rect(fld(c, t, KT, w), 12), all2(fld(c, t, KT, w), small)) for w in ('major', 'minor')])
    return f


def _bad_chroma(c):
    v = c[0]
    i = bvar()
    bad = Or(v.n == 0, Exists([i], And(i >= 0, i < v.n, v.get(i).n != 12)))
    return bad


def wts(c, i=2):
    """(present, slice) of an Option<&[f32]> argument"""
    o = c[i]
    p = o.pay.get(1)
    return (o.d == 1, p[0]) if p else (FALSE, None)


def ranked(v):
    """24 valid, distinct keys"""
    i, j = bvar(), bvar()
    k1, k2 = v.get(i).items[0], v.get(j).items[0]
    return And(v.n == 24, all_el(v, lambda t: kvalid(t.items[0])), FA([i, j], Implies(And(i >= 0, i < j, j < 24), Not(keq(k1, k2)))))


def falling(v):
    return desc_by(v, (1,))


def kd(c, name, r=None):
    return fld(c, (c.ret.pay[0][0] if r is None else r), KDR, name)


def _top3(c):
    a, t = kd(c, 'all_scores'), kd(c, 'top_keys')
    return And(t.n == 3, *[And(keq(t.get(IntVal(i)).items[0], a.get(IntVal(i)).items[0]), t.get(IntVal(i)).items[1] == a.get(IntVal(i)).items[1]) for i in range(3)])


def _kconf(c):
    a = kd(c, 'all_scores')
    s0, s1 = a.get(IntVal(0)).items[1], a.get(IntVal(1)).items[1]
    return kd(c, 'confidence') == If(s0 > 0, fp.clampv(fp.div(fp.sub(s0, s1), s0), rv(0), rv(1)), 0)


def kok(f):
    return lambda c: Implies(c.ret.d == 0, f(c)) if c.ret.pay.get(0) else TRUE


def _weights_ok(i=2):
    def f(c):
        p, w = wts(c, i)
        return TRUE if w is None else Implies(p, all_el(w, small))
    return f


def _wlen(c):
    p, w = wts(c)
    return FALSE if w is None else And(p, w.n != c[0].n)


B112 = fp.rv(2**112)
_kcaps = [('mul', 2**20, 2**20), ('sadd', 2**66, 2**40), ('mul', 2**66, 2**20), ('sadd', 2**112, 2**86)]


def ghost_if(c, key, cond):
    """in the function's own proof a ghost Boolean that implies cond (so that it can appear in loop invariants); at call sites cond itself.
    A postcondition of the form Implies(ghost_if(..), P) proved for an arbitrary such Boolean holds for cond."""
    if c.applied:
        return cond
    st = c.eng.__dict__.setdefault('spec_bools', {})
    if key not in st:
        st[key] = c.eng.fresh('if_' + key, z3.BoolSort())
        c.eng.fact0(Implies(st[key], cond))
    return st[key]


def _nn_dot(c):
    return ghost_if(c, 'nonneg', And(all2(c[0], lambda x: x >= 0), all_el(c[2], lambda x: x >= 0)))


def _nn_key(c):
    return ghost_if(c, 'nonneg', And(all2(c[0], lambda x: x >= 0), *[all2(fld(c, c[1], KT, w), lambda x: x >= 0) for w in ('major', 'minor')]))


con('features::key::detector::weighted_sum_dot', panics='P19', opts={'caps': _kcaps, 'rlits': [2**112, 2**66, 2**86]}, elem=[fscalar(lambda c, x: And(x <= B112, x >= -B112), lambda c, x: Implies(_nn_dot(c), x >= 0))],
    req=[('chroma of magnitude up to 2^20', lambda c: all2(c[0], small)), ('template of magnitude up to 2^20', lambda c: all_el(c[2], small)),
         ('weights of magnitude up to 2^20', _weights_ok(1))],
    ens=[('P19', 'the sum over the frames is finite', lambda c: And(c.ret <= B112, c.ret >= -B112)),
         ('P19', 'the sum over the frames of non-negative chroma is not negative', lambda c: Implies(_nn_dot(c), c.ret >= 0))])
_kreq = [('12 bounded templates per mode', tmpl_in(1)), ('chroma of magnitude up to 2^20', lambda c: all2(c[0], small)), ('weights of magnitude up to 2^20', _weights_ok())]
_kens_core = [('P19', 'each of the 24 keys is scored exactly once', kok(lambda c: ranked(kd(c, 'all_scores')))),
         ('P19', 'scores are listed in falling order', kok(lambda c: falling(kd(c, 'all_scores')))),
         ('P19', 'scores are bounded, and not negative for non-negative chroma', kok(lambda c: all_el(kd(c, 'all_scores'), lambda t: And(t.items[1] <= 2 * B112, Implies(_nn_key(c), t.items[1] >= 0)))))]
_kens_best = [('P19', 'the reported key is the best-scored one', kok(lambda c: keq(kd(c, 'key'), kd(c, 'all_scores').get(IntVal(0)).items[0]))),
         ('P19', 'the first two keys differ', kok(lambda c: Not(keq(kd(c, 'all_scores').get(IntVal(0)).items[0], kd(c, 'all_scores').get(IntVal(1)).items[0])))),
         ('P19', 'the top keys are the first three of the ranking', kok(_top3)),
         ('P19', 'confidence is the relative lead of the best over the second score', kok(_kconf)),
         ('P19', 'confidence lies in [0,1]', kok(lambda c: unit(kd(c, 'confidence'))))]
_kel = [each(('t', 'Key', 'f'), lambda c, t: kvalid(t.items[0]), lambda c, t: t.items[1] <= B112, lambda c, t: t.items[1] <= 2 * B112, lambda c, t: Implies(_nn_key(c), t.items[1] >= 0))]
con('features::key::detector::detect_key_weighted', panics='P19', opts={'caps': _kcaps + [('mul', 2**112, 1), ('uadd', 2**112)], 'rlits': [2**112], 'chain': True, 'inv_retry': 1},
    elem=_kel, req=_kreq,
    ens=[('P19', 'malformed chroma or weights are an error, anything else a result', lambda c: (c.ret.d == 1) == Or(_bad_chroma(c), _wlen(c)))] + _kens_core + _kens_best)
con('features::key::detector::detect_key', panics='P19', opts={'chain': True}, req=_kreq[:2],
    ens=[('P19', 'malformed chroma is an error, anything else a result', lambda c: (c.ret.d == 1) == _bad_chroma(c))] + _kens_core + _kens_best)


# ------------------------------------------------------------------ P21 key changes
KCR = ('adt', 'features::key::key_changes::KeyChangeResult', ())
KCH = ('adt', 'features::key::key_changes::KeyChange', ())


def kc(c, name):
    return fld(c, c.ret.pay[0][0], KCR, name)


def recur(eng, key, base, step, sort=None, init=0):
    """a fresh function defined by recursion: f(base) = init, f(k+1) = step(k, f(k)) for k >= base (definitional, hence conservative)"""
    st = eng.__dict__.setdefault('spec_rec', {})
    if key not in st:
        f = z3.Function('rec!%d' % next(eng.cnt), z3.IntSort(), z3.IntSort() if sort is None else sort)
        k = bvar()
        eng.fact0(f(IntVal(base)) == init)
        eng.fact0(FA([k], Implies(k >= base, f(k + 1) == step(k, f(k))), [f(k + 1)]))
        eng.fact0(FA([k], Implies(k >= base, f(k + 1) == step(k, f(k))), [f(k)]))
        st[key] = f
    return st[key]


def _change_conf(S, i):
    return fp.div(fp.add(S.get(i - 1).items[2], S.get(i).items[2]), rv(2))


def _is_change(S, i):
    return And(Not(keq(S.get(i - 1).items[1], S.get(i).items[1])), fp.gt(_change_conf(S, i), rv('0.2')))


def _seqkey(S):
    return tuple(x.get_id() for x in S.el.arrs) if hasattr(S.el, 'arrs') else id(S.el)


def _chg(c, S):
    f = recur(c.eng, ('changes', _seqkey(S)), 1, lambda k, v: v + If(_is_change(S, k), 1, 0))
    st = c.eng.__dict__.setdefault('spec_ghosts', {})
    if 'chg' not in st:
        st['chg'] = c.eng.fresh('anychange', z3.IntSort())
    return f, st['chg']


def _change_at(c, S, V, upto):
    """V lists exactly the changes between neighbours below upto, in order (i: an arbitrary one)"""
    f, i = _chg(c, S)
    e = V.get(f(i))
    g = lambda n: fld(c, e, KCH, n)
    hit = And(f(i) >= 0, f(i) < V.n, g('timestamp') == S.get(i).items[0], keq(g('from_key'), S.get(i - 1).items[1]), keq(g('to_key'), S.get(i).items[1]), g('confidence') == _change_conf(S, i))
    return And(V.n == f(upto), Implies(And(i >= 1, i < upto, _is_change(S, i)), hit))


def _change_templates(eng, A, base, h, entry):
    c = eng.cx0
    for V in A:
        if V.kind == 'sq' and V.changed and shape(eng, V.ety) == 'KeyChange':
            for S in A:
                if S.kind == 'sq' and not S.changed and shape(eng, S.ety) == ('t', 'f', 'Key', 'f'):
                    for it in A:
                        if it.kind == 'it' and it.changed:
                            yield '%s changes of %s by %s' % (V.name, S.name, it.name), (lambda st, V=V, S=S, it=it: _change_at(c, S(st), V(st), it(st).pos)), [V, S, it]
                            yield '%s changes counted by %s' % (V.name, it.name), (lambda st, V=V, S=S, it=it: V(st).n == _chg(c, S(st))[0](it(st).pos)), [V, S, it]


def _segs(c, S):
    return And(all_el(S, lambda t: And(t.items[0] >= 0, t.items[0] <= INF, kvalid(t.items[1]), unit(t.items[2]))), nondec(S, (0,)))


def _seg_err(c):
    fps = fp.div(fp.from_int(c[1]), fp.from_int(c[2]))
    seg, ov = fp.to_int(fp.mul(c[4], fps), 64, False), fp.to_int(fp.mul(c[5], fps), 64, False)
    return Implies(Or(c[0].n == 0, seg == 0, ov >= seg, seg > c[0].n), c.ret.d == 1)


def _primary(c):
    S = kc(c, 'segment_keys')
    i = bvar()
    return And(S.n > 0, Exists([i], And(i >= 0, i < S.n, keq(S.get(i).items[1], kc(c, 'primary_key')))))


def prod_templates(eng, A, base, h, entry):
    """a counter times a fixed step stays within an unchanged length; float column bounded by its scaled position"""
    ints = {}
    for b in A:
        if b.kind == 'int' and not b.changed and not b.guards and ival(b(h)) is None:
            ints.setdefault(b(h).get_id(), b)
    fls = {}
    for x in A:
        if x.kind == 'float' and not x.changed and not x.guards and fp.numeral(x(h)) is None:
            fls.setdefault(x(h).get_id(), x)
    for a in A:
        if a.kind == 'int' and a.changed:
            for b in ints.values():
                for i, s in enumerate(eng.args0):
                    if isinstance(s, Sq):
                        yield '%s*%s<=arg%d.len' % (a.name, b.name, i), (lambda st, a=a, b=b, s=s: engine.IMUL(a(st), b(st)) <= s.n), [a, b]
                        yield '%s>0: %s<=arg%d.len' % (a.name, b.name, i), (lambda st, a=a, b=b, s=s: Implies(a(st) > 0, b(st) <= s.n)), [a, b]
                for s in A:
                    if s.kind == 'sq' and s.changed and shape(eng, s.ety) == ('t', 'f', 'Key', 'f'):
                        for x in fls.values():
                            yield '%s[].0<=%s*%s/%s' % (s.name, a.name, b.name, x.name), (lambda st, a=a, b=b, s=s, x=x: forall_el(s(st), lambda i, e: e.items[0] <= fp.div(fp.from_int(engine.IMUL(a(st), b(st))), x(st)))), [a, b, s, x]


def _count_templates(eng, A, base, h, entry):
    """counted keys: each occurs among the entries seen so far, its total is at most its count"""
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == ('t', 'Key', ('t', 'i', 'f')):
            yield '%s[] total<=count' % s.name, (lambda st, s=s: forall_el(s(st), lambda i, e: And(e.items[1].items[1] >= 0, e.items[1].items[0] >= 1, e.items[1].items[1] <= fp.from_int(e.items[1].items[0])))), [s]
            for it in A:
                if it.kind == 'it' and it.changed:
                    yield '%s not empty after %s' % (s.name, it.name), (lambda st, s=s, it=it: Implies(it(st).pos > 0, s(st).n >= 1)), [s, it]
                    for S in A:
                        if S.kind == 'sq' and not S.changed and shape(eng, S.ety) == ('t', 'f', 'Key', 'f'):
                            def g(st, s=s, S=S, it=it):
                                k = bvar()
                                return forall_el(s(st), lambda i, e: Exists([k], And(k >= 0, k < it(st).pos, keq(S(st).get(k).items[1], e.items[0]))))
                            yield '%s[] seen in %s by %s' % (s.name, S.name, it.name), g, [s, S, it]


con('features::key::key_changes::detect_key_changes', panics='P21', opts={'chain': True, 'ax': 2, 'caps': [('count',)]},
    elem=[_change_templates, prod_templates, _count_templates, whole(('t', 'f', 'Key', 'f'), lambda c, v: nondec(v, (0,))), each(('t', 'f', 'Key', 'f'), lambda c, t: And(t.items[0] >= 0, t.items[0] <= INF), lambda c, t: And(kvalid(t.items[1]), unit(t.items[2])))],
    req=[('12 bounded templates per mode', tmpl_in(3)), ('chroma of magnitude up to 2^20', lambda c: all2(c[0], small))],
    ens=[('P21', 'no chroma, empty segments, an overlap of at least the segment, or no whole segment are errors', _seg_err),
         ('P21', 'segments are in time order with valid keys and confidences in [0,1]', kok(lambda c: _segs(c, kc(c, 'segment_keys')))),
         ('P21', 'the changes are exactly the neighbouring segments of different key whose mean confidence exceeds 0.2', kok(lambda c: TRUE if c.applied else _change_at(c, kc(c, 'segment_keys'), kc(c, 'key_changes'), kc(c, 'segment_keys').n))),
         ('P21', 'the primary key occurs among the segments', kok(_primary)),
         ('P21', 'primary confidence lies in [0,1]', kok(lambda c: unit(kc(c, 'primary_confidence'))))])


# ------------------------------------------------------------------ P17 Bayesian tempo tracking
BAY = ('adt', 'features::beat_tracking::bayesian::BayesianBeatTracker', ())
EPS = rv('1e-10')


def bay(c, which, v=None):
    v = c[0] if v is None else v
    return fld(c, v, BAY, which)


def _bay_bad(c):
    b = bay(c, 'current_bpm')
    return Or(c[1].n == 0, fp.le(b, EPS), fp.gt(b, rv(300)))


def _bay_same(c):
    o, n = c[0], c.final(0)
    i = bvar()
    ho, hn = bay(c, 'history', o), bay(c, 'history', n)
    return And(bay(c, 'current_bpm', o) == bay(c, 'current_bpm', n), bay(c, 'current_confidence', o) == bay(c, 'current_confidence', n), ho.n == hn.n,
               FA([i], Implies(And(i >= 0, i < ho.n), hn.get(i) == ho.get(i)), [hn.get(i)]))


def _bay_hist(c):
    o, n = c[0], c.final(0)
    i = bvar()
    ho, hn = bay(c, 'history', o), bay(c, 'history', n)
    return And(hn.n == ho.n + 1, hn.get(ho.n) == bay(c, 'current_bpm', n), FA([i], Implies(And(i >= 0, i < ho.n), hn.get(i) == ho.get(i)), [hn.get(i)]))


def _bay_near(c, n, lo=True, hi=True):
    b = bay(c, 'current_bpm')
    return And(n >= 60, n <= INF, Implies(b <= INF, n >= fp.sub(b, rv(5))), *([n <= 180, Implies(b <= INF, n <= fp.add(b, rv(5)))] if hi else []))


def _bay_range(c):
    n = bay(c, 'current_bpm', c.final(0))
    return Or(n == bay(c, 'current_bpm'), _bay_near(c, n))


_bB = fp.rv(2**60)
con('features::beat_tracking::bayesian::BayesianBeatTracker::new', panics='P17',
    ens=[('P17', 'a new tracker holds the initial tempo, its confidence brought into [0,1], and a history of that tempo alone',
          lambda c: And(bay(c, 'current_bpm', c.ret) == c[0], bay(c, 'history', c.ret).n == 1, bay(c, 'history', c.ret).get(IntVal(0)) == c[0], bay(c, 'current_confidence', c.ret) == fp.clampv(c[1], rv(0), rv(1)),
                        Implies(c[1] <= INF, unit(bay(c, 'current_confidence', c.ret)))))])
con('features::beat_tracking::bayesian::BayesianBeatTracker::update_with_onsets', panics='P17', opts={'chain': True},
    elem=[each('f', _bay_near), fscalar(lambda c, x: _bay_near(c, x, hi=False), lambda c, x: Or(x == bay(c, 'current_bpm'), _bay_near(c, x)))],
    req=[('fewer than 2^31 onsets', lambda c: c[1].n < 2**31), ('onsets of magnitude up to 2^60', lambda c: all_el(c[1], lambda x: And(x >= -_bB, x <= _bB)))],
    ens=[('P17', 'an update is rejected exactly for no onsets or a tempo outside (0,300]', lambda c: c.err == _bay_bad(c)),
         ('P17', 'a rejected update leaves the state unchanged', lambda c: imp(c.err, _bay_same(c))),
         ('P17', 'an accepted update appends exactly the new tempo to the history', lambda c: imp(c.ok, _bay_hist(c))),
         ('P17', 'the new tempo is the old one or within 5 BPM of it and inside 60-180', lambda c: imp(c.ok, _bay_range(c))),
         ('P17', 'confidence stays in [0,1]', lambda c: imp(c.ok, unit(bay(c, 'current_confidence', c.final(0))))),
         ('P17', 'the answer is the new state', lambda c: c.okval(lambda v: And(v.items[0] == bay(c, 'current_bpm', c.final(0)), v.items[1] == bay(c, 'current_confidence', c.final(0)))))])
for _g, _fd in (('get_bpm', 'current_bpm'), ('get_confidence', 'current_confidence')):
    con('features::beat_tracking::bayesian::BayesianBeatTracker::' + _g, panics='P17', ens=[('P17', 'reads the state', lambda c, f=_fd: c.ret == bay(c, f))])
con('features::beat_tracking::bayesian::BayesianBeatTracker::get_history', panics='P17', ens=[('P17', 'reads the state', lambda c: _same_seq(c.ret, bay(c, 'history')))])


def _same_seq(a, b):
    i = bvar()
    return And(a.n == b.n, FA([i], Implies(And(i >= 0, i < a.n), a.get(i) == b.get(i)), [a.get(i)] if z3.is_select(a.get(i)) else []))


# ------------------------------------------------------------------ P16 tempo segments, time signature
TSEG = ('adt', 'features::beat_tracking::tempo_variation::TempoSegment', ())
TINY44 = fp.Fraction(1, 2**44)
T20 = fp.rv(fp.Fraction(1, 2**20))


def tm(x):
    """a time: 0, or between 2^-20 and 2^21 seconds"""
    return Or(x == 0, And(x >= T20, x <= 2 * B20))


def gaps_ok(v):
    return all_el(v, tm)


def gap(c, x):
    return And(x >= fp.rv(TINY44), x <= 2 * B20)


_gcaps = [('gap', fp.Fraction(1, 2**20)), ('divlo', TINY44, 2**64), ('add', 2**46, 2**21), ('count',), ('divhi', 2**21, fp.Fraction(1, 2**75)), ('mul', 2**46, 2**46), ('add', 2**120, 2**92)]
con('features::beat_tracking::time_signature::detect_time_signature', panics='P16', opts={'caps': _gcaps, 'chain': True},
    elem=[each('f', gap), fscalar(lambda c, x: x >= 0)],
    req=[('beats at 0 or 2^-20 to 2^21 s', lambda c: gaps_ok(c[0]))],
    ens=[('P16', 'an invalid tempo is an error when there are 8 beats or more; anything else has an answer', lambda c: c.err == And(c[0].n >= 8, fp.le(c[1], EPS))),
         ('P16', 'fewer than 8 beats give 4/4 with confidence 0.5', lambda c: c.okval(lambda v: Implies(c[0].n < 8, And(v.items[0].d == 0, v.items[1] == rv('0.5'))))),
         ('P16', 'the signature is a supported one, confidence lies in [0,1]', lambda c: c.okval(lambda v: And(v.items[0].d >= 0, v.items[0].d <= 2, unit(v.items[1]))))])
con('features::beat_tracking::time_signature::TimeSignature::beats_per_bar', panics='P16', ens=[('P16', '4/4, 3/4 and 6/8 have 4, 3 and 6 beats per bar', lambda c: c.ret == If(c[0].d == 0, 4, If(c[0].d == 1, 3, 6)))])


def tsg(c, s, n):
    return fld(c, s, TSEG, n)


_seg_parts = [lambda c, s: And(tsg(c, s, 'start_time') >= c[0].get(IntVal(0)), tsg(c, s, 'start_time') <= tsg(c, s, 'end_time'), tsg(c, s, 'end_time') <= c[0].get(c[0].n - 1)),
              lambda c, s: unit(tsg(c, s, 'confidence')), lambda c, s: Implies(c[1] > 0, tsg(c, s, 'bpm') > 0)]


def _seg_ok(c, s):
    return And(*[p(c, s) for p in _seg_parts])


def _seg_sorted(c, v):
    i, j = bvar(), bvar()
    return FA([i, j], Implies(And(i >= 0, i < j, j < v.n), tsg(c, v.get(i), 'start_time') < tsg(c, v.get(j), 'start_time')))


def _before_templates(eng, A, base, h, entry):
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == 'TempoSegment':
            for x in A:
                if x.kind == 'float' and x.changed:
                    yield '%s start before %s' % (s.name, x.name), (lambda st, s=s, x=x: forall_el(s(st), lambda i, e: tsg(eng.cx0, e, 'start_time') < x(st))), [s, x]


con('features::beat_tracking::tempo_variation::detect_tempo_variations', panics='P16', opts={'caps': _gcaps + [('grow', 2**21, 1), ('divlo', 32, 2**46), ('divhi', 2**46, 1)], 'chain': True},
    elem=[each('f', gap), _before_templates, each('TempoSegment', *_seg_parts), fscalar(lambda c, x: x >= c[0].get(IntVal(0)), lambda c, x: x <= 2 * B20), whole('TempoSegment', _seg_sorted)],
    req=[('beats at 0 or 2^-20 to 2^21 s, in order', lambda c: And(gaps_ok(c[0]), nondec(c[0]))), ('fewer than 2^31 beats', lambda c: c[0].n < 2**31)],
    ens=[('P16', 'an invalid tempo is an error when there are 4 beats or more; anything else has an answer', lambda c: c.err == And(c[0].n >= 4, fp.le(c[1], EPS))),
         ('P16', 'there is at least one segment', lambda c: c.okval(lambda v: v.n >= 1)),
         ('P16', 'segments lie within the beats, with confidence in [0,1] and a positive tempo', lambda c: c.okval(lambda v: Implies(c[0].n >= 1, all_el(v, lambda s: _seg_ok(c, s))))),
         ('P16', 'segments start one after another', lambda c: c.okval(lambda v: _seg_sorted(c, v)))])


def _any_var(c):
    i = bvar()
    return c.ret == Exists([i], And(i >= 0, i < c[0].n, tsg(c, c[0].get(i), 'is_variable')))


con('features::beat_tracking::tempo_variation::has_tempo_variation', panics='P16', ens=[('P16', 'there is variation exactly when some segment varies', _any_var)])


# ------------------------------------------------------------------ P15 HMM beat tracking
HMM = ('adt', 'features::beat_tracking::hmm::HmmBeatTracker', ())
BP = ('adt', 'features::beat_tracking::BeatPosition', ())
_H = 'features::beat_tracking::hmm::HmmBeatTracker::'


def hm(c, n):
    return fld(c, c[0], HMM, n)


def _interval(c):
    return fp.div(rv(60), hm(c, 'bpm_estimate'))


def _frames(c):
    o = hm(c, 'onsets')
    return fp.to_int(fp.ceil(fp.div(fp.sub(o.get(o.n - 1), o.get(IntVal(0))), _interval(c))), 64, False) + 1


_hreq = [('onset times up to 2^20 s', lambda c: all_el(hm(c, 'onsets'), small))]
_hbpm = ('a tempo of 0-300', lambda c: And(hm(c, 'bpm_estimate') > EPS, hm(c, 'bpm_estimate') <= 300))
_hon = ('some onset', lambda c: hm(c, 'onsets').n > 0)
_hcaps = [('divhi', 2**21, fp.Fraction(1, 16)), ('divlo', 32, 512), ('mul', 2**26, 2**40), ('divhi', 64, fp.Fraction(1, 2**34)), ('badd', 2**20)]
_hcaps += [('sq', fp.Fraction('0.0537')), ('sq', fp.Fraction('0.0536')), ('divk', fp.Fraction('0.0537')**2 * (1 - fp.Fraction(1, 2**22)), fp.Fraction('0.00125')), ('divk', fp.Fraction('0.0536')**2 * (1 + fp.Fraction(1, 2**22)), fp.Fraction('0.00125'))]
K_FAR, K_NEAR = rv('0.0537'), rv('0.0536')


def grid_t(c, t):
    return fp.add(hm(c, 'onsets').get(IntVal(0)), fp.mul(fp.from_int(t), _interval(c)))


def _dist(c, i, t):
    return fp.fabs(fp.sub(hm(c, 'onsets').get(i), grid_t(c, t)))


def _far(c, t):
    """no onset within K_FAR of grid time t"""
    i = bvar()
    o = hm(c, 'onsets')
    return FA([i], Implies(And(i >= 0, i < o.n), _dist(c, i, t) > K_FAR), [o.get(i)])


def _spot(c):
    """ghost grid time f, ghost onset q, and whether f is far from all onsets / near q"""
    e = c.eng
    if not hasattr(e, 'spec_spot'):
        f, q = e.fresh('anyframe', z3.IntSort()), e.fresh('anyonset', z3.IntSort())
        far, near = e.fresh('far', z3.BoolSort()), e.fresh('near', z3.BoolSort())
        e.fact0(And(f >= 0, Implies(far, _far(c, f)), Implies(near, And(q >= 0, q < hm(c, 'onsets').n, _dist(c, q, f) <= K_NEAR))))
        e.spec_spot = (f, q, far, near)
    return e.spec_spot


def _em_ok(c, v, own=False):
    """emissions exceed 0.1 near an onset and only there"""
    if own and not c.applied:
        f, q, far, near = _spot(c)
        s = bvar()
        return FA([s], Implies(And(f < v.n, s >= 0, s < 5), And(Implies(far, at2(v, f, s) <= rv('0.1')), Implies(near, at2(v, f, s) > rv('0.1')))))
    t, s, i = bvar(), bvar(), bvar()
    o = hm(c, 'onsets')
    x = at2(v, t, s)
    r = And(t >= 0, t < v.n, s >= 0, s < 5)
    return And(FA([t, s], Implies(And(r, x > rv('0.1')), z3.Exists([i], And(i >= 0, i < o.n, _dist(c, i, t) <= K_FAR))), [x] if z3.is_select(x) else []),
               FA([t, s, i], Implies(And(r, i >= 0, i < o.n, _dist(c, i, t) <= K_NEAR), x > rv('0.1')), [(x, o.get(i))] if z3.is_select(x) else []))


def _spot_templates(eng, A, base, h, entry):
    c = eng.cx0
    f, q, far, near = _spot(c)
    its = [a for a in A if a.kind == 'it' and a.changed]
    ints = list(named_ints(A, h))
    lim = rv('0.1')
    for x in A:
        if x.kind == 'float' and x.changed:
            for n, t in ints:
                yield '%s far at %s' % (x.name, n), (lambda st, x=x, t=t: Implies(And(far, t == f), x(st) > K_FAR)), [x]
                for it in its:
                    yield '%s near at %s by %s' % (x.name, n, it.name), (lambda st, x=x, t=t, it=it: Implies(And(near, t == f, it(st).pos > q), x(st) <= K_NEAR)), [x, it]
        if x.kind == 'sq' and x.changed and shape(eng, x.ety) in (('v', 'f'), 'f'):
            row = shape(eng, x.ety) == 'f'
            for it in its:
                def body(st, x, lo, cond):
                    s = bvar()
                    e = at2(x(st), f, s)
                    return FA([s], Implies(And(cond, s >= 0, s < lo), And(Implies(far, e <= lim), Implies(near, e > lim))), [e] if z3.is_select(e) else [])
                if row:
                    continue
                yield '%s spot below %s' % (x.name, it.name), (lambda st, x=x, it=it: body(st, x, IntVal(5), it(st).pos > f)), [x, it]
                for n, t in ints:
                    yield '%s spot at %s by %s' % (x.name, n, it.name), (lambda st, x=x, it=it, t=t: body(st, x, it(st).pos, t == f)), [x, it]
                    yield '%s spot before %s' % (x.name, n), (lambda st, x=x, t=t: body(st, x, IntVal(5), t > f)), [x]


con(_H + 'build_state_space', panics='P15', opts={'unroll': 8}, ens=[('P15', 'five tempo states', lambda c: c.ret.n == 5)])
con(_H + 'build_transition_matrix', panics='P15', ens=[('P15', 'transitions between the five states', lambda c: And(c.ret.n == 5, rect(c.ret, 5)))])
con(_H + 'compute_emission_probabilities', panics='P15', opts={'caps': _hcaps, 'chain': True}, req=_hreq + [_hbpm, _hon, ('five states', lambda c: c[1].n == 5)],
    elem=[leaf_templates((), [lambda c, x: unit(x)], depth=(2,)), _spot_templates],
    ens=[('P15', 'one row of five probabilities per beat of the span', lambda c: And(c.ok, c.okval(lambda v: And(v.n == _frames(c), v.n >= 1, rect(v, 5), all2(v, unit))))), ('P15', 'at most 2^26 frames', lambda c: c.okval(lambda v: v.n <= 2**26)),
         ('P15', 'a grid time is likely to be a beat when an onset lies within 0.0536 s, and unlikely when none lies within 0.0537 s', lambda c: c.okval(lambda v: _em_ok(c, v, True)))])
con(_H + 'viterbi_forward_pass', panics='P15', opts={'chain': True},
    req=[('five states', lambda c: And(c[1].n == 5, rect(c[1], 5), c[2].n >= 1, rect(c[2], 5)))],
    elem=[leaf_templates([lambda c, x: x < 5], (), depth=(1, 2))],
    ens=[('P15', 'one valid state per frame', lambda c: And(c.ok, c.okval(lambda v: And(v.n == c[2].n, all_el(v, lambda s: And(s >= 0, s < 5))))))])


def bp(c, b, n):
    return fld(c, b, BP, n)


def _on_grid(c, b, n):
    k = bvar()
    return Exists([k], And(k >= 0, k < n, bp(c, b, 'time_seconds') == fp.add(hm(c, 'onsets').get(IntVal(0)), fp.mul(fp.from_int(k), _interval(c)))))


def _beats_sorted(c, v):
    i, j = bvar(), bvar()
    return FA([i, j], Implies(And(i >= 0, i < j, j < v.n), bp(c, v.get(i), 'time_seconds') <= bp(c, v.get(j), 'time_seconds')))


_bt_small = lambda c, b: And(bp(c, b, 'time_seconds') >= -fp.rv(2**45), bp(c, b, 'time_seconds') <= fp.rv(2**45))
def _near_onset(c, b):
    i = bvar()
    o = hm(c, 'onsets')
    return z3.Exists([i], And(i >= 0, i < o.n, fp.fabs(fp.sub(o.get(i), bp(c, b, 'time_seconds'))) <= K_FAR), patterns=[o.get(i)])


def _has_beat(c, v, t):
    k = bvar()
    x = bp(c, v.get(k), 'time_seconds')
    return z3.Exists([k], And(k >= 0, k < v.n, x == grid_t(c, t)), patterns=[x] if z3.is_select(x) else [])


def _beat_for(c, v, n):
    """every grid time close to an onset is a beat"""
    if not c.applied:
        f, q, far, near = _spot(c)
        return Implies(And(near, f < n), _has_beat(c, v, f))
    t, i = bvar(), bvar()
    o = hm(c, 'onsets')
    return FA([t, i], Implies(And(t >= 0, t < n, i >= 0, i < o.n, _dist(c, i, t) <= K_NEAR), _has_beat(c, v, t)), [_dist(c, i, t)])


def _spot_beat(eng, A, base, h, entry):
    c = eng.cx0
    f, q, far, near = _spot(c)
    for v in A:
        if v.kind == 'sq' and v.changed and shape(eng, v.ety) == 'BeatPosition':
            for it in A:
                if it.kind == 'it' and it.changed:
                    yield '%s beat for spot by %s' % (v.name, it.name), (lambda st, v=v, it=it: Implies(And(near, it(st).pos > f), _has_beat(c, v(st), f))), [v, it]
            yield '%s times' % v.name, (lambda st, v=v: forall_el(v(st), lambda i, b: Implies(_sane(c), tm(bp(c, b, 'time_seconds'))))), [v]


def _sane(c):
    """onset times 0 or 2^-20 to 2^20 s, in order"""
    o = hm(c, 'onsets')
    return ghost_if(c, 'sane', And(all_el(o, lambda x: Or(x == 0, And(x >= T20, x <= B20)))))


_hens = lambda n: [('P15', 'confidence of every beat lies in [0,1]', lambda c: c.okval(lambda v: all_el(v, lambda b: unit(bp(c, b, 'confidence'))))),
        ('P15', 'every beat lies a whole number of beat intervals after the first onset, within the span', lambda c: c.okval(lambda v: all_el(v, lambda b: _on_grid(c, b, n(c))))),
        ('P15', 'beats are in time order', lambda c: c.okval(lambda v: _beats_sorted(c, v))),
        ('P15', 'no more beats than grid times', lambda c: c.okval(lambda v: And(v.n <= n(c), v.n <= 2**26))),
        ('P15', 'every beat has an onset within 0.0537 s', lambda c: c.okval(lambda v: all_el(v, lambda b: _near_onset(c, b)))),
        ('P15', 'every grid time with an onset within 0.0536 s is a beat', lambda c: c.okval(lambda v: _beat_for(c, v, n(c)))),
        ('P15', 'beat times are 0 or 2^-20 to 2^21 s when onset times are', lambda c: c.okval(lambda v: Implies(_sane(c), all_el(v, lambda b: tm(bp(c, b, 'time_seconds'))))))]
con(_H + 'extract_beats_from_path', panics='P15', opts={'chain': True, 'caps': _hcaps},
    req=_hreq + [_hbpm, _hon, ('a valid path through the emissions', lambda c: And(c[1].n == c[3].n, c[1].n >= 1, c[1].n <= 2**26, all_el(c[1], lambda s: And(s >= 0, s < 5)), rect(c[3], 5), all2(c[3], unit))), ('emissions tell beats', lambda c: _em_ok(c, c[3]))],
    elem=[_spot_beat, each('BeatPosition', lambda c, b: unit(bp(c, b, 'confidence')), lambda c, b: _on_grid(c, b, c[1].n), lambda c, b: bp(c, b, 'time_seconds') <= INF, _near_onset)],
    ens=[('P15', 'succeeds', lambda c: c.ok)] + _hens(lambda c: c[1].n))
con(_H + 'track_beats', panics='P15', opts={'chain': True, 'caps': _hcaps}, req=_hreq + [('the tempo is a number', lambda c: hm(c, 'bpm_estimate') <= INF)],
    ens=[('P15', 'an invalid tempo or no onsets is an error, anything else a result', lambda c: c.err == Or(fp.le(hm(c, 'bpm_estimate'), EPS), fp.gt(hm(c, 'bpm_estimate'), rv(300)), hm(c, 'onsets').n == 0))] + _hens(_frames) +
        [('P15', 'the first grid time is the first onset', lambda c: c.okval(lambda v: _dist(c, IntVal(0), IntVal(0)) == 0)),
         ('P15', 'the first onset is a beat', lambda c: c.okval(lambda v: And(v.n >= 1, v.n >= 1)))])


# ------------------------------------------------------------------ P14 beat grids
BG = ('adt', 'analysis::result::BeatGrid', ())
_M = 'features::beat_tracking::'


def bg(c, v, n):
    return fld(c, v, BG, n)


class _Sig:
    def __init__(self, d):
        self.d = IntVal(d) if isinstance(d, int) else d


def _bar(c, bpm, sig):
    return fp.mul(fp.div(rv(60), bpm), fp.from_int(If(sig.d == 0, 4, If(sig.d == 1, 3, 6))))


def _bar_apart(c, bpm, sig, a, b):
    """b lies within a tenth of a bar of one bar after a"""
    bar = _bar(c, bpm, sig)
    return fp.le(fp.fabs(fp.sub(b, fp.add(a, bar))), fp.mul(bar, rv('0.1')))


def _down_ok(c, B, D, bpm, sig):
    """downbeats D of beats B: the first beat, then beats each one bar after the one before"""
    return And(*_down_parts(c, B, D, bpm, sig))


def _down_parts(c, B, D, bpm, sig):
    k, i = bvar(), bvar()
    d = D.get(k)
    return (D.n >= 1, D.get(IntVal(0)) == B.get(IntVal(0)),
               FA([k], Implies(And(k >= 0, k < D.n), z3.Exists([i], And(i >= 0, i < B.n, B.get(i) == d), patterns=[B.get(i)] if z3.is_select(B.get(i)) else [])), [d] if z3.is_select(d) else []),
               FA([k], Implies(And(k >= 1, k < D.n), _bar_apart(c, bpm, sig, D.get(k - 1), d)), [d] if z3.is_select(d) else []))


def _last_down(c, B, bpm):
    """L(s, k): the latest downbeat among the first k beats (k >= 1) for time signature s; defined by recursion, hence conservative"""
    st = c.eng.__dict__.setdefault('spec_rec', {})
    key = ('down', _seqkey(B), bpm.get_id())
    if key not in st:
        f = z3.Function('rec!%d' % next(c.eng.cnt), z3.IntSort(), z3.IntSort(), z3.RealSort())
        k, d = bvar(), bvar()
        step = f(d, k + 1) == If(_bar_apart(c, bpm, _Sig(d), f(d, k), B.get(k)), B.get(k), f(d, k))
        c.eng.fact0(FA([d], f(d, IntVal(1)) == B.get(IntVal(0)), [f(d, IntVal(1))]))
        c.eng.fact0(FA([d, k], Implies(k >= 1, step), [f(d, k + 1)]))
        c.eng.fact0(FA([d, k], Implies(k >= 1, step), [f(d, k)]))
        st[key] = (f, B, bpm)
    return st[key][0]


def _down_all(c, B, D, bpm, sig, upto, own=True):
    """every beat (in a function's own proof: an arbitrary one) one bar after the latest downbeat before it is a downbeat"""
    L = _last_down(c, B, bpm)
    k = bvar()
    if own and not c.applied:
        st = c.eng.__dict__.setdefault('spec_ghosts', {})
        if 'down' not in st:
            st['down'] = c.eng.fresh('anybeat', z3.IntSort())
        g = st['down']
    else:
        g = bvar()
    r = Implies(And(g >= 1, g < upto, _bar_apart(c, bpm, sig, L(sig.d, g), B.get(g))), z3.Exists([k], And(k >= 0, k < D.n, D.get(k) == B.get(g)), patterns=[D.get(k)] if z3.is_select(D.get(k)) else []))
    return r if own and not c.applied else FA([g], r, [L(sig.d, g)])


def _down_templates(eng, A, base, h, entry):
    c = eng.cx0
    B, bpm, sig = c[0], c[1], c[2]
    for D in A:
        if D.kind == 'sq' and D.changed and shape(eng, D.ety) == 'f':
            for p in range(4):
                yield '%s downbeats%d' % (D.name, p), (lambda st, D=D, p=p: _down_parts(c, B, D(st), bpm, sig)[p]), [D]
            for it in A:
                if it.kind == 'it' and it.changed:
                    for off in (0, 1):
                        yield '%s last downbeat by %s+%d' % (D.name, it.name, off), (lambda st, D=D, it=it, off=off: Implies(it(st).pos + off >= 1, D(st).get(D(st).n - 1) == _last_down(c, B, bpm)(sig.d, it(st).pos + off))), [D, it]
                        yield '%s all downbeats by %s+%d' % (D.name, it.name, off), (lambda st, D=D, it=it, off=off: _down_all(c, B, D(st), bpm, sig, it(st).pos + off)), [D, it]


con(_M + 'detect_downbeats_with_time_sig', panics='P14', opts={'chain': True}, elem=[_down_templates],
    ens=[('P14', 'a tempo of 0 or less is an error when there are beats', lambda c: c.err == And(c[0].n > 0, fp.le(c[1], rv(0)))),
         ('P14', 'no beats, no downbeats', lambda c: c.okval(lambda v: Implies(c[0].n == 0, v.n == 0))),
         *[('P14', 'downbeats are beats, from the first one on, a bar apart (%d)' % p, lambda c, p=p: c.okval(lambda v: Implies(c[0].n > 0, _down_parts(c, c[0], v, c[1], c[2])[p]))) for p in range(4)],
         ('P14', 'every beat one bar after the latest downbeat is a downbeat', lambda c: c.okval(lambda v: Implies(c[0].n > 0, _down_all(c, c[0], v, c[1], c[2], c[0].n))))])


def _grid_ok(c, g, bpm, sig):
    B, D, R = bg(c, g, 'beats'), bg(c, g, 'downbeats'), bg(c, g, 'bars')
    return [B.n >= 1, strictly_inc(B)] + list(_down_parts(c, B, D, bpm, sig)) + [_same_seq(R, D)]


_grid_txt = ['there is a beat', 'beats are strictly increasing'] + ['downbeats are beats, from the first one on, a bar apart (%d)' % p for p in range(4)] + ['bars are the downbeats']


def _times_in(c, B, P):
    """every beat is the time of a position"""
    i = bvar()
    return all_el(B, lambda b: z3.Exists([i], And(i >= 0, i < P.n, bp(c, P.get(i), 'time_seconds') == b)))


def _times_all(c, B, P):
    """the time of the arbitrary position is a beat"""
    st = c.eng.__dict__.setdefault('spec_ghosts', {})
    if 'pos' not in st:
        st['pos'] = c.eng.fresh('anypos', z3.IntSort())
    g, i = st['pos'], bvar()
    return Implies(And(g >= 0, g < P.n), z3.Exists([i], And(i >= 0, i < B.n, B.get(i) == bp(c, P.get(g), 'time_seconds'))))


con(_M + 'generate_beat_grid_from_positions_with_time_sig', panics='P14', opts={'chain': True, 'fwd': True},
    req=[('times are numbers', lambda c: all_el(c[0], lambda b: bp(c, b, 'time_seconds') <= INF))],
    ens=[('P14', 'no beats, or a tempo of 0 or less, is an error', lambda c: _note_sig(c) and c.err == Or(c[0].n == 0, fp.le(c[1], rv(0))))] +
        [('P14', t, lambda c, k=k: c.okval(lambda v: _grid_ok(c, v, c[1], c[2])[k])) for k, t in enumerate(_grid_txt)] +
        [('P14', 'every beat one bar after the latest downbeat is a downbeat', lambda c: c.okval(lambda v: _down_all(c, bg(c, v, 'beats'), bg(c, v, 'downbeats'), c[1], c[2], bg(c, v, 'beats').n))),
         ('P14', 'every beat is one of the positions', lambda c: c.okval(lambda v: _times_in(c, bg(c, v, 'beats'), c[0]))),
         ('P14', 'every position is a beat', lambda c: TRUE if c.applied else c.okval(lambda v: _times_all(c, bg(c, v, 'beats'), c[0])))])
con(_M + 'calculate_grid_stability', panics='P14', opts={'chain': True, 'caps': _gcaps}, elem=[each('f', gap)],
    req=[('times at 0 or 2^-20 to 2^21 s', lambda c: all_el(c[0], lambda b: tm(bp(c, b, 'time_seconds'))))],
    ens=[('P14', 'a tempo of 0 or less is an error when there are 2 beats', lambda c: c.err == And(c[0].n >= 2, fp.le(c[1], rv(0)))),
         ('P14', 'stability lies in [0,1]', lambda c: c.okval(unit)),
         ('P14', 'fewer than 2 beats have no stability', lambda c: c.okval(lambda v: Implies(c[0].n < 2, v == 0)))])


def _grid_down(c, g):
    """the downbeats are right for some time signature (witness: the one a grid was built with, where known)"""
    B, D = bg(c, g, 'beats'), bg(c, g, 'downbeats')
    f = lambda d: And(d.d >= 0, d.d <= 2, *_down_parts(c, B, D, c[0], d), _down_all(c, B, D, c[0], d, B.n, False))
    w = c.eng.__dict__.get('spec_sigs', [])
    return f(_Sig(w[0])) if len(w) == 1 and not c.applied else Or(*[f(_Sig(d)) for d in range(3)])


def _note_sig(c):
    if c.applied:
        w = c.eng.__dict__.setdefault('spec_sigs', [])
        if not any(c[2].d.eq(x) for x in w):
            w.append(c[2].d)
    return TRUE


def _close(c, x):
    i = bvar()
    o = c[2]
    return z3.Exists([i], And(i >= 0, i < o.n, fp.fabs(fp.sub(o.get(i), x)) <= K_FAR), patterns=[o.get(i)])


con(_M + 'generate_beat_grid', panics='P14', opts={'chain': True, 'caps': [('badd', 2**20)]},
    elem=[each('BeatPosition', lambda c, b: tm(bp(c, b, 'time_seconds')), lambda c, b: _close(c, bp(c, b, 'time_seconds'))), fscalar(lambda c, x: And(x > EPS, x <= 300))],
    req=[('the tempo is a number, the confidence too', lambda c: And(c[0] <= INF, c[1] <= INF)), ('fewer than 2^31 onsets', lambda c: c[2].n < 2**31),
         ('onsets at 0 or 2^-20 to 2^20 s', lambda c: all_el(c[2], lambda x: Or(x == 0, And(x >= T20, x <= B20))))],
    ens=[('P14', 'an invalid tempo or no onsets is an error, anything else a result', lambda c: c.err == Or(fp.le(c[0], EPS), fp.gt(c[0], rv(300)), c[2].n == 0)),
         ('P14', 'stability lies in [0,1]', lambda c: c.okval(lambda v: unit(v.items[1]))),
         ('P14', 'beats are strictly increasing, at least one', lambda c: c.okval(lambda v: And(bg(c, v.items[0], 'beats').n >= 1, strictly_inc(bg(c, v.items[0], 'beats'))))),
         ('P14', 'beat times lie at an onset', lambda c: c.okval(lambda v: all_el(bg(c, v.items[0], 'beats'), lambda x: _close(c, x)))),
         ('P14', 'downbeats are beats, from the first one on, a bar apart', lambda c: c.okval(lambda v: _grid_down(c, v.items[0]))),
         ('P14', 'bars are the downbeats', lambda c: c.okval(lambda v: _same_seq(bg(c, v.items[0], 'bars'), bg(c, v.items[0], 'downbeats'))))])


# ------------------------------------------------------------------ P12 tempo candidates
CAND = ('adt', 'features::period::BpmCandidate', ())
_P = 'features::period::'


def cd(c, e, n):
    return fld(c, e, CAND, n)


def _falling(c, v, f):
    i, j = bvar(), bvar()
    return FA([i, j], Implies(And(i >= 0, i < j, j < v.n), f(v.get(i)) >= f(v.get(j))))


con(_P + 'autocorrelation::compute_autocorrelation_fft', panics='P12', req=[('a short signal', lambda c: And(c[0].n >= 1, c[0].n <= 2**31))],
    ens=[('P12', 'one value per lag', lambda c: c.okval(lambda v: v.n == c[0].n)), ('P12', 'never negative, always a number', lambda c: And(c.ok, c.okval(lambda v: all_el(v, lambda x: And(x >= 0, x <= INF)))))])
con(_P + 'autocorrelation::find_peaks_in_acf', panics='P12', opts={'chain': True}, req=[('lags below 2^31', lambda c: c[0].n + c[1] < 2**31), ('values never negative', lambda c: all_el(c[0], lambda x: And(x >= 0, x <= INF)))],
    elem=[each(('t', 'i', 'f'), lambda c, e: And(e.items[0] >= c[1] + 1, e.items[0] < c[1] + c[0].n - 1, e.items[1] == c[0].get(e.items[0] - c[1])))],
    ens=[('P12', 'always a result', lambda c: c.ok), ('P12', 'peaks are inner lags with the value there', lambda c: c.okval(lambda v: all_el(v, lambda e: And(e.items[0] >= c[1] + 1, e.items[0] < c[1] + c[0].n - 1, e.items[1] == c[0].get(e.items[0] - c[1]))))), ('P12', 'at most one peak per lag', lambda c: c.okval(lambda v: v.n <= c[0].n))])


def _range_bad(lo, hi):
    return Or(fp.le(lo, rv(0)), fp.le(hi, rv(0)), fp.ge(lo, hi))


def _cand_ok(c, e, lo, hi):
    return And(fp.ge(cd(c, e, 'bpm'), lo), fp.le(cd(c, e, 'bpm'), hi), unit(cd(c, e, 'confidence')))


_num2 = ('the tempo range is given in numbers', lambda c: And(c[3] <= INF, c[4] <= INF))
con(_P + 'autocorrelation::estimate_bpm_from_autocorrelation', panics='P12', opts={'chain': True},
    elem=[each('BpmCandidate', lambda c, e: _cand_ok(c, e, c[3], c[4]))],
    req=[('onsets within 2^30 hops', lambda c: all_el(c[0], lambda x: Implies(c[2] > 0, engine.idiv(x, c[2]) < 2**30)))],
    ens=[('P12', 'no onsets, zero rates or hops, empty or inverted ranges, and several onsets all in the first hop are errors, anything else a result',
          lambda c: c.err == Or(c[0].n == 0, c[1] == 0, c[2] == 0, _range_bad(c[3], c[4]), And(c[0].n >= 2, all_el(c[0], lambda x: engine.idiv(x, c[2]) == 0)))),
         ('P12', 'candidates lie in the tempo range, with confidence in [0,1]', lambda c: c.okval(lambda v: all_el(v, lambda e: _cand_ok(c, e, c[3], c[4])))),
         ('P12', 'at most one candidate per lag', lambda c: c.okval(lambda v: v.n <= 2**30)),
         ('P12', 'candidates come by falling confidence', lambda c: c.okval(lambda v: _falling(c, v, lambda e: cd(c, e, 'confidence'))))])
con(_P + 'comb_filter::score_bpm_candidate', panics='P12', opts={'chain': True}, req=[('onsets below 2^60', lambda c: all_el(c[0], lambda x: x < 2**60))],
    ens=[('P12', 'a score lies in [0,1]', lambda c: c.okval(unit)),
         ('P12', 'a period below one sample is an error, anything else has a score', lambda c: c.err == And(c[0].n > 0, fp.lt(fp.div(fp.mul(rv(60), fp.from_int(c[1])), c[2]), rv(1))))])


def _comb_bad(c):
    return Or(c[0].n == 0, c[1] == 0, _range_bad(c[3], c[4]), fp.le(c[5], rv(0)))


def _comb_hi(c):
    return fp.add(c[4], EPS)


_combf_req = [('onsets below 2^60', lambda c: all_el(c[0], lambda x: x < 2**60)), ('range and resolution are numbers, the tempo up to 2^20', lambda c: And(c[3] <= INF, c[4] <= B20))]
con(_P + 'comb_filter::estimate_bpm_from_comb_filter', panics='P12', opts={'chain': True, 'caps': [('badd', 2**20), ('divhi', 2**21, fp.Fraction(1, 2**20)), ('divlo', 2048, 1024), ('mul', 64, 2**32)]},
    elem=[each(('t', 'f', 'f'), lambda c, e: And(fp.ge(e.items[0], c[3]), fp.le(e.items[0], _comb_hi(c)), unit(e.items[1]))), fscalar(lambda c, x: fp.ge(x, c[3]), lambda c, x: unit(x)),
          lambda *a: _below_templates(*a)],
    req=_combf_req + [('a resolution of at least 2^-20', lambda c: Or(c[5] <= 0, And(c[5] >= T20, c[5] <= INF)))],
    ens=[('P12', 'no onsets, a zero rate, empty or inverted ranges and resolutions of 0 or less are errors', lambda c: Implies(_comb_bad(c), c.err)),
         ('P12', 'anything else has a result when every tempo has a period of some samples', lambda c: Implies(And(Not(_comb_bad(c)), c[1] >= 64, c[4] <= 1024), c.ok)),
         ('P12', 'candidates lie in the tempo range, with confidence in [0,1]', lambda c: c.okval(lambda v: all_el(v, lambda e: _cand_ok(c, e, c[3], _comb_hi(c))))),
         ('P12', 'confidence is at least 0.1', lambda c: c.okval(lambda v: all_el(v, lambda e: cd(c, e, 'confidence') >= rv('0.1')))),
         ('P12', 'candidates come by falling confidence', lambda c: c.okval(lambda v: _falling(c, v, lambda e: cd(c, e, 'confidence'))))])


def _below_templates(eng, A, base, h, entry):
    """second components stay below a running maximum"""
    for s in A:
        if s.kind == 'sq' and s.changed and shape(eng, s.ety) == ('t', 'f', 'f'):
            for x in A:
                if x.kind == 'float' and x.changed:
                    yield '%s below %s' % (s.name, x.name), (lambda st, s=s, x=x: forall_el(s(st), lambda i, e: e.items[1] <= x(st))), [s, x]


con(_P + 'comb_filter::coarse_to_fine_search', panics='P12', opts={'chain': True},
    req=_combf_req + [('the refinement range is a number', lambda c: c[5] <= INF)],
    ens=[('P12', 'no onsets, a zero rate, and empty or inverted ranges are errors', lambda c: Implies(Or(c[0].n == 0, c[1] == 0, _range_bad(c[3], c[4])), c.err)),
         ('P12', 'candidates lie in the tempo range, with confidence in [0,1]', lambda c: c.okval(lambda v: all_el(v, lambda e: _cand_ok(c, e, c[3], _comb_hi(c))))),
         ('P12', 'candidates come by falling confidence', lambda c: c.okval(lambda v: _falling(c, v, lambda e: cd(c, e, 'confidence'))))])


def _nov_in(c):
    return all_el(c[0], lambda x: And(x >= 0, x <= 1))


def _tg_bad(c):
    return Or(c[0].n == 0, c[1] == 0, c[2] == 0, fp.le(c[3], rv(0)), fp.le(c[4], c[3]))


_tg_req = [('novelty in [0, 1], up to 2^30 values', lambda c: And(_nov_in(c), c[0].n <= 2**30)), ('the range is given in numbers', lambda c: And(c[3] <= INF, c[4] <= INF))]
_tg_in = lambda c, e: And(fp.ge(e.items[0], c[3]), fp.le(e.items[0], c[4]))
_tg_ens = [('P12', 'tempi lie in the range, strengths are numbers and not negative', lambda c: c.okval(lambda v: all_el(v, lambda e: And(_tg_in(c, e), e.items[1] >= 0, e.items[1] <= fp.MAX)))),
           ('P12', 'tempi come by falling strength', lambda c: c.okval(lambda v: _falling(c, v, lambda e: e.items[1])))]
con(_P + 'tempogram_fft::fft_tempogram', panics='P12', opts={'chain': True, 'caps': [('add', 2**25, 1), ('divhi', 2**25, 1), ('badd', 2**25), ('mul', 2**26, 1), ('mul', fp.Fraction(1, 2), 2), ('badd', 1), ('mul', 2**62, 2**62), ('badd', 2**124)]},
    elem=[each(('t', 'f', 'f'), _tg_in, lambda c, e: And(e.items[1] >= 0, e.items[1] <= fp.rv(2**126))), each('Complex', lambda c, e: And(*[And(x >= -fp.rv(2**26), x <= fp.rv(2**26)) for x in e.items]))], req=_tg_req,
    ens=[('P12', 'no novelty, zero rates or hops, and empty or inverted ranges are errors, anything else a result', lambda c: c.err == _tg_bad(c))] + _tg_ens)
con(_P + 'tempogram_autocorr::autocorrelation_tempogram', panics='P12', opts={'chain': True, 'rlits': [2**32, 2**58], 'caps': [('mul', 1, 1), ('add', 2**32, 1), ('divhi', 2**32, 1), ('divlo', fp.Fraction(1, 2**20), 64), ('divhi', 2**32, 1), ('divhi', 2**32, fp.Fraction(1, 2**26))]},
    elem=[each(('t', 'f', 'f'), _tg_in, lambda c, e: And(e.items[1] >= 0, e.items[1] <= fp.rv(2**126))), fscalar(lambda c, x: x >= 0, lambda c, x: x >= c[3], lambda c, x: x <= fp.rv(2**32))], req=_tg_req + [('tempi of at least 2^-20', lambda c: Or(c[3] <= 0, c[3] >= T20))],
    ens=[('P12', 'no novelty, zero rates or hops, empty or inverted ranges and resolutions of 0 or less are errors, anything else a result', lambda c: c.err == Or(_tg_bad(c), fp.le(c[5], rv(0))))] + _tg_ens)


def someval(c, f, r=None):
    """Option results: Some(v) ==> f(v)"""
    r = c.ret if r is None else r
    p = r.pay.get(1)
    return TRUE if not p else imp(r.d == 1, f(p[0]))


for _f, _t, _s in (('tempogram_fft::find_best_bpm_fft', 'tempogram_fft::FftTempogramResult', 'power'), ('tempogram_autocorr::find_best_bpm_autocorr', 'tempogram_autocorr::AutocorrTempogramResult', 'strength')):
    _ty = ('adt', _P + _t, ())
    con(_P + _f, panics='P12', opts={'chain': True}, req=[('strengths are numbers', lambda c: all_el(c[0], lambda e: And(e.items[1] >= 0, e.items[1] <= fp.MAX)))],
        ens=[('P12', 'there is a best tempo exactly when there is any', lambda c: (c.ret.d == 1) == (c[0].n > 0)),
             ('P12', 'the best tempo is the first, with its strength', lambda c, ty=_ty, s=_s: someval(c, lambda v: And(fld(c, v, ty, 'bpm') == c[0].get(IntVal(0)).items[0], fld(c, v, ty, s) == c[0].get(IntVal(0)).items[1]))),
             ('P12', 'confidence lies in [0,1]', lambda c, ty=_ty: someval(c, lambda v: unit(fld(c, v, ty, 'confidence'))))])


# ------------------------------------------------------------------ P13 merging
EST = ('adt', 'features::period::BpmEstimate', ())


def es(c, e, n):
    return fld(c, e, EST, n)


_mreq = [('candidate tempi in (0, 2^10], confidences in [0,1]', lambda c: And(*[all_el(c[k], lambda e: And(cd(c, e, 'bpm') > 0, cd(c, e, 'bpm') <= 1024, unit(cd(c, e, 'confidence')))) for k in (0, 1)])),
         ('at most 2^30 autocorrelation candidates', lambda c: c[0].n <= 2**30)]
NEARBY = z3.RealVal('21/10')


def _mlemma():
    """a running mean, taken over by a new value at most 2 away, stays within 2.1 of that value"""
    e, d = z3.RealVal('1/16777216'), z3.RealVal(str(fp.Fraction(1, 2**149)))
    g, x, K, K1, s, r, A, B, T = z3.Reals('lw?g lw?x lw?K lw?K1 lw?s lw?r lw?A lw?B lw?T')
    q = lambda t: z3.RealVal(str(fp.Fraction(t)))
    absle = lambda v, b: And(v <= b, v >= -b)
    dom = [g >= 0, g <= 1100, x >= 0, x <= 1100, K >= 1, K <= K1, absle(K1 - K - 1, 4 * e * K1), absle(x - g, q('2.001'))]
    steps = [
        ('tempo difference times count', [K >= 1, absle(x - g, q('2.001'))], absle((g - x) * K, q('2.001') * K)),
        ('tempo times rounding of the count', [x >= 0, x <= 1100, absle(A, 4 * e * K1)], absle(x * A, 4400 * e * K1)),
        ('the exact total', [A == (g - x) * K, B == x * (K1 - K - 1)], g * K + x - x * K1 == A - B),
        ('the total is bounded', [g >= 0, g <= 1100, x >= 0, x <= 1100, K >= 1, K <= K1], And(g * K + x <= 2200 * K1, g * K + x >= 0)),
        ('the rounded total', [K1 >= 1, T >= 0, T <= 2200 * K1, absle(s - T, 3 * e * T + 3 * d), T - x * K1 == A - B, absle(A, q('2.001') * K1), absle(B, 4400 * e * K1)], absle(s - x * K1, q('2.01') * K1)),
        ('the rounded quotient', [K1 >= 1, x >= 0, x <= 1100, absle(B - x * K1, q('2.01') * K1), s == B, r * K1 - B <= e * 2300 * K1 + d * K1, r * K1 - B >= -(e * 2300 * K1 + d * K1), A == (r - x) * K1], absle(A, q('2.02') * K1)),
        ('dividing by the count', [K1 >= 1, absle((r - x) * K1, q('2.02') * K1)], absle(r - x, NEARBY)),
    ]
    k = z3.Int('lw?k')
    R = fp.fdiv(fp.fadd(fp.fmul(g, fp.from_int(k)), x), fp.from_int(k + 1))
    D = fp.fsub(x, g)
    fact = FA([g, x, k], Implies(And(g >= 0, g <= 1100, x >= 0, x <= 1100, k >= 1, k <= 2**32, D <= 2, D >= -2), And(R - x <= NEARBY, x - R <= NEARBY)), [R])
    return Lemma('a running mean stays near its latest value', fact, steps)


def _sets(c):
    """an arbitrary set S of tempi holding every candidate's, and an arbitrary set N holding all within 2.1 of S"""
    e = c.eng
    if not hasattr(e, 'spec_sets'):
        S, N = e.fresh_fn('S', z3.RealSort(), z3.BoolSort()), e.fresh_fn('N', z3.RealSort(), z3.BoolSort())
        x, y, i = z3.Real('sx?'), z3.Real('sy?'), bvar()
        for k in (0, 1):
            t = cd(c, c[k].get(i), 'bpm')
            e.fact0(FA([i], Implies(And(i >= 0, i < c[k].n), S(t)), [t]))
        e.fact0(FA([x, y], Implies(And(S(x), y - x <= NEARBY, x - y <= NEARBY), N(y)), [(S(x), N(y))]))
        e.spec_sets = (S, N)
    return e.spec_sets


def _in_range(b):
    return And(b >= 60, b <= 180)


def _eff(c, e):
    return If(_in_range(es(c, e, 'bpm')), es(c, e, 'confidence'), fp.mul(es(c, e, 'confidence'), rv('0.5')))


def _est_before(c, a, b):
    """a may stand before b: by effective confidence (halved outside 60-180), except that an estimate inside 60-180 yields to one outside only if that leads by 0.5; then by agreement"""
    ea, eb = _eff(c, a), _eff(c, b)
    ia, ib = _in_range(es(c, a, 'bpm')), _in_range(es(c, b, 'bpm'))
    d = fp.fabs(fp.sub(ea, eb))
    same = And(ea >= eb, Implies(ea == eb, es(c, a, 'method_agreement') >= es(c, b, 'method_agreement')))
    return If(ia == ib, same, If(fp.lt(d, rv('0.5')), ia, ea >= eb))


def _est_sorted(c, v):
    i, j = bvar(), bvar()
    return FA([i, j], Implies(And(i >= 0, i < j, j < v.n), _est_before(c, v.get(i), v.get(j))))


def _near_cand(c, x):
    i = bvar()
    return Or(*[z3.Exists([i], And(i >= 0, i < c[k].n, cd(c, c[k].get(i), 'bpm') - x <= NEARBY, x - cd(c, c[k].get(i), 'bpm') <= NEARBY)) for k in (0, 1)])


def _group_templates(eng, A, base, h, entry):
    c = eng.cx0
    S, N = _sets(c)
    sh = ('t', 'f', 'f', 'i', 'f')
    for g in A:
        if g.kind == 'sq' and g.changed and shape(eng, g.ety) == sh:
            yield '%s groups near' % g.name, (lambda st, g=g: forall_el(g(st), lambda i, e: N(e.items[0]))), [g]
            yield '%s groups sane' % g.name, (lambda st, g=g: forall_el(g(st), lambda i, e: And(e.items[0] >= 0, e.items[0] <= 1027, e.items[1] >= 0, e.items[1] <= INF, e.items[2] >= 1, unit(e.items[3])))), [g]
            for it in A:
                if it.kind == 'it':
                    o = entry(g)
                    yield '%s groups begun by %s' % (g.name, it.name), (lambda st, g=g, it=it, o=o: Implies(Or(it(st).pos > 0, o.n > 0), g(st).n > 0)), [g, it]
                    yield '%s groups only by %s' % (g.name, it.name), (lambda st, g=g, it=it, o=o: Implies(g(st).n > 0, Or(it(st).pos > 0, o.n > 0))), [g, it]
                    for off in (0, 1):
                        yield '%s groups counted by %s-%d' % (g.name, it.name, off), (lambda st, g=g, it=it, off=off: forall_el(g(st), lambda i, e: e.items[2] + off <= it(st).pos)), [g, it]
                        yield '%s groups counted after 2^31 by %s-%d' % (g.name, it.name, off), (lambda st, g=g, it=it, off=off: forall_el(g(st), lambda i, e: e.items[2] + off <= it(st).pos + 2**31)), [g, it]


_boosted = lambda c, e: And(es(c, e, 'confidence') >= 0, es(c, e, 'confidence') <= rv('2.1001'))


def _boost_frame(c, v, o, f=lambda a, b: True):
    i = bvar()
    a, b = v.get(i), o.get(i)
    return And(v.n == o.n, FA([i], Implies(And(i >= 0, i < v.n), And(es(c, a, 'bpm') == es(c, b, 'bpm'), es(c, a, 'method_agreement') == es(c, b, 'method_agreement'), f(a, b))), [es(c, a, 'bpm')] if z3.is_select(es(c, a, 'bpm')) else []))


con(_P + 'candidate_filter::boost_consensus_candidates', panics='P13', opts={'chain': True, 'caps': [('mulk', 1, '1.5'), ('mulk', 1, '1.3'), ('mulk', '1.5001', '1.4')]},
    req=[('confidences in [0,1]', lambda c: all_el(c[2], lambda e: unit(es(c, e, 'confidence'))))],
    elem=[each('BpmEstimate', lambda c, e: _boosted(c, e)), whole('BpmEstimate', lambda c, v: _boost_frame(c, v, c[2])),
          scanned('BpmEstimate', lambda c, v, p: (lambda i: FA([i], Implies(And(i >= p, i < v.n), unit(es(c, v.get(i), 'confidence'))), [es(c, v.get(i), 'confidence')]))(bvar()))],
    ens=[('P13', 'boosting keeps tempi and agreement', lambda c: _boost_frame(c, c.final(2), c[2])),
         ('P13', 'boosting keeps confidences in [0, 2.1]', lambda c: all_el(c.final(2), lambda e: _boosted(c, e)))])
con(_P + 'candidate_filter::merge_bpm_candidates', panics='P13', opts={'chain': True, 'caps': [('subcmp', fp.Fraction(1, 2)), ('mulk', 1, '1.2'), ('mulk', '2.1001', 2), ('mul', 1, 1)]}, req=_mreq, lem=[_mlemma()],
    elem=[_group_templates, each('BpmCandidate', lambda c, e: And(_sets(c)[0](cd(c, e, 'bpm')), cd(c, e, 'bpm') > 0, cd(c, e, 'bpm') <= 1024, unit(cd(c, e, 'confidence'))))],
    ens=[('P13', 'always a result', lambda c: c.ok),
         ('P13', 'there are estimates exactly when there are candidates', lambda c: c.okval(lambda v: (v.n > 0) == Or(c[0].n > 0, c[1].n > 0))),
         ('P13', 'confidences are never negative and at most 4.21 after all boosts', lambda c: c.okval(lambda v: all_el(v, lambda e: And(es(c, e, 'confidence') >= 0, es(c, e, 'confidence') <= rv('4.2103'), es(c, e, 'method_agreement') >= 1)))),
         ('P13', 'every estimated tempo lies within 2.1 of a candidate tempo', lambda c: c.okval(lambda v: all_el(v, lambda e: _near_cand(c, es(c, e, 'bpm')) if c.applied else _sets(c)[1](es(c, e, 'bpm'))))),
         ('P13', 'estimates come in the documented order', lambda c: c.okval(lambda v: _est_sorted(c, v)))])


GUARD = ('adt', 'features::period::LegacyBpmGuardrails', ())


def gr(c, e, n):
    return fld(c, e, GUARD, n)


def _inside(x, lo, hi):
    return And(fp.ge(x, lo), fp.le(x, hi))


def _safe_mul(x):
    return And(x >= 0, x <= fp.MAX)


_guard_num = lambda c, g: And(*[gr(c, g, n) <= INF for n in ('preferred_min', 'preferred_max', 'soft_min', 'soft_max')])
con(_P + 'LegacyBpmGuardrails::mul_for', panics='P13',
    ens=[('P13', 'the multiplier of the preferred range, else of the soft range, else the extreme one', lambda c: Implies(fp.fin(c[1]), c.ret == If(_inside(c[1], gr(c, c[0], 'preferred_min'), gr(c, c[0], 'preferred_max')), gr(c, c[0], 'mul_preferred'), If(_inside(c[1], gr(c, c[0], 'soft_min'), gr(c, c[0], 'soft_max')), gr(c, c[0], 'mul_soft'), gr(c, c[0], 'mul_extreme'))))),
         ('P13', 'no multiplier for a tempo that is no finite number', lambda c: Implies(Not(fp.fin(c[1])), c.ret == 0))])
con(_P + 'LegacyBpmGuardrails::clamp_sane', panics='P13', req=[('range ends are numbers', lambda c: _guard_num(c, c[0]))],
    ens=[('P13', 'ranges are ordered and nested', lambda c: And(gr(c, c.ret, 'soft_min') <= gr(c, c.ret, 'preferred_min'), gr(c, c.ret, 'preferred_min') <= gr(c, c.ret, 'preferred_max'), gr(c, c.ret, 'preferred_max') <= gr(c, c.ret, 'soft_max'))),
         ('P13', 'range ends stay numbers', lambda c: _guard_num(c, c.ret)),
         ('P13', 'multipliers are finite and never negative', lambda c: And(*[_safe_mul(gr(c, c.ret, n)) for n in ('mul_preferred', 'mul_soft', 'mul_extreme')])),
         ('P13', 'sane guardrails are kept', lambda c: And(*[Implies(_safe_mul(gr(c, c[0], n)), gr(c, c.ret, n) == gr(c, c[0], n)) for n in ('mul_preferred', 'mul_soft', 'mul_extreme')]))])


def _est_bad(c):
    return Or(c[0].n == 0, c[1] == 0, c[2] == 0, _range_bad(c[3], c[4]), fp.le(c[5], rv(0)))


def _est_val(c, f):
    """Ok(Some(v)) ==> f(v)"""
    return c.okval(lambda o: someval(c, f, o))


_est_req = _combf_req + [('a resolution of at least 2^-20', lambda c: Or(c[5] <= 0, And(c[5] >= T20, c[5] <= INF))), ('tempi up to 1024', lambda c: Or(_range_bad(c[3], c[4]), c[4] <= 1000)),
                        ('onsets within 2^30 hops', lambda c: all_el(c[0], lambda x: Implies(c[2] > 0, engine.idiv(x, c[2]) < 2**30)))]
_est_ens = [('P13', 'no onsets, zero rates or hops, empty or inverted ranges and resolutions of 0 or less are errors', lambda c: Implies(_est_bad(c), c.err)),
            ('P13', 'anything else has a result when rates are at least 64 and onsets reach beyond the first hop', lambda c: Implies(And(Not(_est_bad(c)), c[1] >= 64, Not(And(c[0].n >= 2, all_el(c[0], lambda x: engine.idiv(x, c[2]) == 0)))), c.ok)),
            ('P13', 'an estimated tempo lies within 2.1 of the tempo range', lambda c: _est_val(c, lambda v: And(es(c, v, 'bpm') >= c[3] - NEARBY, es(c, v, 'bpm') <= _comb_hi(c) + NEARBY))),
            ('P13', 'confidence is never negative, agreement at least 1', lambda c: _est_val(c, lambda v: And(es(c, v, 'confidence') >= 0, es(c, v, 'confidence') <= INF, es(c, v, 'method_agreement') >= 1)))]
_est_plain = [('P13', 'confidence without guardrails is at most 4.21', lambda c: _est_val(c, lambda v: es(c, v, 'confidence') <= rv('4.2103')))]
con(_P + 'estimate_bpm_internal', panics='P13', opts={'chain': True}, req=_est_req + [('guardrail range ends are numbers', lambda c: someval(c, lambda g: _guard_num(c, g), c[6]))],
    elem=[each('BpmEstimate', lambda c, e: And(es(c, e, 'bpm') >= c[3] - NEARBY, es(c, e, 'bpm') <= _comb_hi(c) + NEARBY, es(c, e, 'confidence') >= 0, es(c, e, 'confidence') <= INF, es(c, e, 'method_agreement') >= 1))],
    ens=_est_ens + [(p, n, lambda c, f=f: Implies(c[6].d == 0, f(c))) for p, n, f in _est_plain])
con(_P + 'estimate_bpm', panics='P13', req=_est_req, ens=_est_ens + _est_plain)
con(_P + 'estimate_bpm_with_guardrails', panics='P13', req=_est_req + [('guardrail range ends are numbers', lambda c: _guard_num(c, c[6]))], ens=_est_ens)


# ------------------------------------------------------------------ P13 tempogram estimates (partial correctness: what a returned estimate satisfies)
_TG = _P + 'tempogram::'
TGC = ('adt', _TG + 'TempogramCandidateDebug', ())


def partial(*havoc):
    """partial correctness: what holds when the function returns; nothing is used of the functions named (any result, anything written)"""
    return {'partial': True, 'panic': 'assume', 'chain': True, 'havoc': havoc}


_NOV = tuple(_P + 'novelty::' + n for n in ('combined_novelty', 'combined_novelty_with_params', 'energy_flux_novelty', 'energy_flux_novelty_band', 'hfc_novelty', 'hfc_novelty_band', 'mel_superflux_novelty', 'superflux_novelty', 'superflux_novelty_band', 'spectral_flux_novelty'))
_TGF = tuple(_P + n for n in ('tempogram_autocorr::autocorrelation_tempogram', 'tempogram_autocorr::find_best_bpm_autocorr', 'tempogram_fft::fft_tempogram', 'tempogram_fft::find_best_bpm_fft'))


def in_range(c, x, lo=3, hi=4):
    return And(fp.ge(x, c[lo]), fp.le(x, c[hi]))


def _tg_ens(idx, cands=False):
    """idx: tuple index of the estimate in the result, None for the estimate itself"""
    g = lambda v: v if idx is None else v.items[idx]
    return [('P13', 'a tempogram estimate lies in the tempo range', lambda c: c.okval(lambda v: in_range(c, es(c, g(v), 'bpm')))),
            ('P13', 'its confidence lies in [0,1], its agreement is at most 2', lambda c: c.okval(lambda v: And(unit(es(c, g(v), 'confidence')), es(c, g(v), 'method_agreement') <= 2)))]


def _bnd(x, b):
    return Or(And(x <= b, x >= -b), fp.isnan(x))


def _tg_cands(c, v):
    return all_el(v, lambda e: And(in_range(c, fld(c, e, TGC, 'bpm')), _bnd(fld(c, e, TGC, 'score'), 2**55)))


_tg_cand_ens = ('P13', 'tempogram candidates lie in the tempo range', lambda c: c.okval(lambda v: _tg_cands(c, v.items[1])))
_bonus = ('the consensus bonus is at most 2^20', lambda c: someval(c, lambda g: Or(fld(c, g, ('adt', _TG + 'TempogramBandFusionConfig', ()), 'consensus_bonus') <= 2**20, fp.isnan(fld(c, g, ('adt', _TG + 'TempogramBandFusionConfig', ()), 'consensus_bonus'))), c[6]))
con(_TG + 'estimate_bpm_tempogram_impl', panics='P13', opts=dict(partial(*_NOV, *_TGF), inv_retry=1, rl_inv=4000000, rlits=[2**32], caps=[('mul', 1, 1), ('badd', 1), ('badd', 2**32), ('mul', 2**20, 2**33), ('badd', 2**53), ('mul', 2, 2**54), ('mul', 1, 2**55)]),
    elem=[leaf_templates((), [lambda c, x: in_range(c, x), lambda c, x: _bnd(x, 2**55)], depth=(1,))], req=[_bonus], ens=_tg_ens(0) + [_tg_cand_ens])

_bonus_of = lambda c, g: (lambda x: Or(x <= 2**20, fp.isnan(x)))(fld(c, g, ('adt', _TG + 'TempogramBandFusionConfig', ()), 'consensus_bonus'))
con(_TG + 'estimate_bpm_tempogram', panics='P13', opts=partial(), ens=_tg_ens(None))
con(_TG + 'estimate_bpm_tempogram_band_fusion', panics='P13', opts=partial(), req=[('the consensus bonus is at most 2^20', lambda c: _bonus_of(c, c[6]))], ens=_tg_ens(None))
_topn = ('P13', 'at most the number of candidates asked for', lambda c: c.okval(lambda v: v.items[1].n <= c[6]))
con(_TG + 'estimate_bpm_tempogram_with_candidates', panics='P13', opts=partial(), ens=_tg_ens(0) + [_topn, _tg_cand_ens])
con(_TG + 'estimate_bpm_tempogram_with_candidates_band_fusion', panics='P13', opts=partial(), req=[('the consensus bonus is at most 2^20', lambda c: _bonus_of(c, c[7]))], ens=_tg_ens(0) + [_topn, _tg_cand_ens])

_MR = _P + 'multi_resolution::multi_resolution_tempogram_from_samples'
_STFT = 'features::chroma::extractor::compute_stft'
_scored = lambda c, v: all_el(v, lambda e: _bnd(fld(c, e, TGC, 'score'), 2**55))


def _supported(c, v, bpm, tol):
    i = bvar()
    b = fld(c, v.get(i), TGC, 'bpm')
    return z3.Exists([i], And(i >= 0, i < v.n, fp.le(fp.fabs(fp.sub(b, bpm)), tol)))


con(_MR + '::lookup_nearest', panics='P13', opts=partial(), req=[('scores of magnitude up to 2^55', lambda c: _scored(c, c[0]))],
    elem=[fscalar(lambda c, x: And(_bnd(x, 2**55), Or(x == 0, _supported(c, c[0], c[1], c[2]))))],
    ens=[('P13', 'a looked-up score is the score of a candidate near the tempo, or 0', lambda c: And(_bnd(c.ret, 2**55), Or(c.ret == 0, _supported(c, c[0], c[1], c[2]))))])
con(_MR + '::total_support', panics='P13', opts=dict(partial(), caps=[('badd', 2**55), ('badd', 2**56)]), req=[('scores of magnitude up to 2^55', lambda c: And(*[_scored(c, c[k]) for k in range(3)]))],
    ens=[('P13', 'support is bounded, and agreement comes from candidates near the tempo', lambda c: And(_bnd(c.ret.items[0], 2**57), c.ret.items[1] <= 3, Implies(c.ret.items[1] > 0, Or(*[_supported(c, c[k], c[3], c[4]) for k in range(3)]))))])


def _near_range(c, x):
    tol = fp.fmax(rv(2), c[5])
    return And(fp.ge(x, c[3] - tol * MRTOL), fp.le(x, c[4] + tol * MRTOL))


MRTOL = z3.RealVal('1001/1000')
con(_MR, panics='P13', opts=dict(partial(_STFT, _MR + '::beat_contrast_score', _MR + '::print_top', *_NOV), inv_retry=1, caps=[('mul', 2**20, 2**55), ('badd', 2**20), ('mul', 2**21, 2**55), ('badd', 2**76), ('mul', 2**20, 2**77), ('badd', 2**97), ('badd', 2**98), ('mul', 1, 2**99), ('badd', 2**99)]),
    elem=[leaf_templates((), [lambda c, x: _bnd(x, 2**99), lambda c, x: _bnd(x, 2**100), lambda c, x: in_range(c, x)], depth=(1,)), fscalar(lambda c, x: _bnd(x, 2**57), lambda c, x: in_range(c, x))],
    req=[('weights of magnitude up to 2^20', lambda c: And(*[And(c[i] <= 2**20, c[i] >= -2**20) for i in range(7, 13)])),
         ('tempo range and resolution are numbers up to 2^20', lambda c: And(c[3] >= 0, c[4] <= 2**20, c[5] <= 2**20)),
         ('the consensus bonus is at most 2^20', lambda c: someval(c, lambda g: _bonus_of(c, g), c[14]))],
    ens=[('P13', 'a multi-resolution estimate lies in the tempo range or within 2 (or the resolution) of it', lambda c: c.okval(lambda v: _near_range(c, es(c, v.items[0], 'bpm')))),
         ('P13', 'a multi-resolution confidence lies in [0,1], its agreement is at most 3', lambda c: c.okval(lambda v: And(unit(es(c, v.items[0], 'confidence')), es(c, v.items[0], 'method_agreement') <= 3)))])


# ------------------------------------------------------------------ P22 the whole analysis
ACF = ('adt', 'config::AnalysisConfig', ())
cf = lambda c, n: fld(c, c[2], ACF, n)
_AE = 'features::chroma::extractor::'
_KY = 'features::key::'
_A22 = tuple(['features::onset::hpss::hpss_decompose', 'features::onset::hpss::detect_hpss_onsets', 'features::onset::spectral_flux::detect_spectral_flux_onsets', 'features::onset::hfc::detect_hfc_onsets', _STFT,
    'features::chroma::normalization::sharpen_chroma', 'features::chroma::smoothing::smooth_chroma', 'analysis::confidence::compute_confidence', 'analyze_audio::cand_support', 'analyze_audio::chroma_tonalness']
    + [_AE + n for n in ('convert_linear_to_log_frequency_spectrogram', 'estimate_tuning_offset_semitones_from_spectrogram', 'extract_beat_synchronous_chroma', 'extract_chroma_from_log_frequency_spectrogram',
       'extract_chroma_from_spectrogram_with_options_and_energy', 'extract_chroma_from_spectrogram_with_options_and_energy_tuned', 'extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned',
       'extract_hpcp_from_spectrogram_with_options_and_energy_tuned', 'harmonic_spectrogram_hpss_median_mask', 'harmonic_spectrogram_time_mask', 'smooth_spectrogram_time')]
    + [_KY + n for n in ('key_clarity::compute_key_clarity', 'detector::detect_key_ensemble', 'detector::detect_key_multi_scale', 'detector::detect_key_weighted', 'detector::detect_key_weighted_mode_heuristic', 'templates::KeyTemplates::new_with_template_set')])
md = lambda c, v, n: fld(c, fld(c, v, AR, 'metadata'), AM, n)
rs = lambda c, v, n: fld(c, v, AR, n)


def _rep(f):
    return lambda c: c.okval(lambda v: f(c, v))


def _loud22(eng):
    a = eng.args0
    i = [n for n, _ in eng.P.struct_fields(ACF)].index('enable_silence_trimming')
    k = [n for n, _ in eng.P.struct_fields(ACF)].index('min_amplitude_db')
    return Not(And(all_el(a[0], lambda x: x == 0), a[2].items[i], notnan(a[2].items[k])))


def _duration(c, v):
    d, full = md(c, v, 'duration_seconds'), fp.div(fp.from_int(c[0].n), fp.from_int(c[1]))
    return And(d > 0, d <= full, Implies(Not(cf(c, 'enable_silence_trimming')), d == full))


def _tempo22(c, v):
    b, tol = rs(c, v, 'bpm'), fp.fmax(rv('2.1'), cf(c, 'bpm_resolution')) * MRTOL
    return Or(b == 0, And(b >= cf(c, 'min_bpm') - tol, b <= cf(c, 'max_bpm') + tol))


def _grid22(c, g):
    d, b, r = bg(c, g, 'downbeats'), bg(c, g, 'beats'), bg(c, g, 'bars')
    i, j, k = bvar(), bvar(), bvar()
    return And(forall_el(d, lambda i, e: z3.Exists([j], And(j >= 0, j < b.n, b.get(j) == e))), r.n == d.n, forall_el(r, lambda i, e: e == d.get(i)))


_bounded = lambda c, k, *ns: And(*[And(cf(c, n) >= -k, cf(c, n) <= k) for n in ns])
con('analyze_audio', panics='P22', opts=dict(partial(*_A22), ghost={'features::onset::energy_flux::detect_energy_flux_onsets': [('trimmed silence does not get here', _loud22)]}, pigeon=True, onset_bound=2**28, rlits=[2**28], caps=[('divhi', 2**28, 512), ('divlo', 1, 2**20)]),
    req=[('fewer than 2^28 samples of magnitude up to 2^40', lambda c: And(c[0].n < 2**28, all_el(c[0], lambda x: And(x >= -BIG40, x <= BIG40)))), ('a sample rate of 0 or from 512 to 2^20', lambda c: Or(c[1] == 0, And(c[1] >= 512, c[1] <= 2**20))),
         ('tempo range within 4 to 1000, a resolution from 2^-20 to 3', lambda c: And(*[And(cf(c, n) >= lo, cf(c, n) <= hi) for n, lo, hi in (('min_bpm', 4, 1000), ('max_bpm', 4, 1000), ('bpm_resolution', T20, 3))])),
         ('a hop size', lambda c: cf(c, 'hop_size') < 2**32),
         ('guardrail range ends are numbers', lambda c: _bounded(c, INF, *['legacy_bpm_' + n for n in ('preferred_min', 'preferred_max', 'soft_min', 'soft_max')])),
         ('tempogram weights of magnitude up to 2^20', lambda c: _bounded(c, rv(2**20), *['tempogram_multi_res_' + n for n in ('w512', 'w256', 'w1024', 'structural_discount', 'double_time_512_factor', 'margin_threshold')], 'tempogram_band_consensus_bonus')),
         ('onset weights are numbers up to 2^100', lambda c: And(*[cf(c, 'onset_consensus_weights').get(IntVal(i)) <= BIG for i in range(4)])),
         ],
    ens=[('P22', 'an empty buffer or a zero rate is an error', lambda c: Implies(Or(c[0].n == 0, c[1] == 0), c.err)),
         ('P22', 'the report names the given sample rate', _rep(lambda c, v: md(c, v, 'sample_rate') == c[1])),
         ('P22', 'onset consensus is 0 or 1', _rep(lambda c, v: Or(md(c, v, 'onset_method_consensus') == 0, md(c, v, 'onset_method_consensus') == 1))),
         ('P22', 'grid stability lies in [0,1]', _rep(lambda c, v: unit(rs(c, v, 'grid_stability')))),
         ('P22', 'beats are strictly increasing', _rep(lambda c, v: strictly_inc(bg(c, rs(c, v, 'beat_grid'), 'beats')))),
         ('P22', 'silence is an error when silence is trimmed', lambda c: Implies(And(all_el(c[0], lambda x: x == 0), cf(c, 'enable_silence_trimming'), notnan(cf(c, 'min_amplitude_db'))), c.err)),
         ('P22', 'duration is positive, and that of the whole buffer or, trimmed, no longer', _rep(_duration)),
         ('P22', 'tempo is 0 or lies within 2.1 (or the resolution) of the tempo range', _rep(_tempo22)),
         ('P22', 'no tempo: no confidence, no beats, no stability', _rep(lambda c, v: Implies(Not(rs(c, v, 'bpm') > 0), And(rs(c, v, 'bpm') == 0, rs(c, v, 'bpm_confidence') == 0, bg(c, rs(c, v, 'beat_grid'), 'beats').n == 0, rs(c, v, 'grid_stability') == 0)))),
         ('P22', 'downbeats are beats and bars are downbeats', _rep(lambda c, v: _grid22(c, rs(c, v, 'beat_grid')))),
         ('P22', 'the weak tonality flag is set exactly below a clarity of 0.2', _rep(lambda c, v: md(c, v, 'flags').n == If(fp.lt(rs(c, v, 'key_clarity'), rv('0.2')), 1, 0))),
         ('P22', 'one warning each for no tempo, low stability, low key confidence and low clarity', _rep(lambda c, v: md(c, v, 'confidence_warnings').n == sum(If(x, 1, 0) for x in (rs(c, v, 'bpm') == 0, fp.lt(rs(c, v, 'grid_stability'), rv('0.5')), fp.lt(rs(c, v, 'key_confidence'), rv('0.3')), fp.lt(rs(c, v, 'key_clarity'), rv('0.2')))))),
         ('P22', 'tempogram candidates appear only when asked for', _rep(lambda c, v: Implies(md(c, v, 'tempogram_candidates').d == 1, And(cf(c, 'emit_tempogram_candidates'), Not(cf(c, 'force_legacy_bpm')))))),
         ('P22', 'tempo confidence lies in [0,1]', _rep(lambda c, v: unit(rs(c, v, 'bpm_confidence')))),
         ])
