"""Candidate loop invariants (Houdini).  A candidate that is wrong is dropped by the solver, so this
file only affects completeness, never soundness."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, IntVal, BoolVal, Select, Int
import fp
from vals import *

IMUL = z3.Function('int!mul', z3.IntSort(), z3.IntSort(), z3.IntSort())


def nav(v, path):
    for p in path:
        if v is None:
            raise Unsupported('nav')
        if isinstance(v, (Tup, Clo)):
            if not isinstance(p, int) or p >= len(v.items):
                raise Unsupported('nav')
            v = v.items[p]
        elif isinstance(v, En):
            if p == 'd':
                return v.d
            # ('v',k) followed by int
            v = ('pay', v.pay.get(p[1]))
        elif isinstance(v, tuple) and v and v[0] == 'pay':
            if v[1] is None or p >= len(v[1]):
                raise Unsupported('nav')
            v = v[1][p]
        elif isinstance(v, Sq):
            if p == 'n':
                return v.n
            raise Unsupported('nav')
        elif isinstance(v, It):
            return {'n': v.n, 'pos': v.pos}[p]
        else:
            raise Unsupported('nav %s' % type(v).__name__)
    if isinstance(v, (Poison, Opq)) or v is None:
        raise Unsupported('nav')
    return v


class Acc:
    """accessor of a scalar/sequence inside a state"""
    def __init__(self, key, path, kind, changed, guards, name, ety=None):
        self.key, self.path, self.kind, self.changed, self.guards, self.name, self.ety = key, path, kind, changed, guards, name, ety

    def __call__(self, st):
        v = st.store.get(self.key)
        if v is None:
            raise Unsupported('gone')
        r = nav(v, self.path)
        if isinstance(r, RefM):
            raise Unsupported('ref')
        return r

    def guard(self, st):
        g = []
        for path, k in self.guards:
            d = nav(st.store[self.key], path)
            g.append(d == k)
        return g


def kind_of(v):
    if z3.is_expr(v):
        if z3.is_int(v):
            return 'int'
        if z3.is_real(v):
            return 'float'
        if z3.is_bool(v):
            return 'bool'
        return None
    if isinstance(v, Sq):
        return 'sq'
    if isinstance(v, It):
        return 'it'
    return None


def enum_accs(v, key, path, guards, name, changed, out, eng):
    """changed(path)->bool"""
    k = kind_of(v)
    if k in ('int', 'float', 'bool'):
        out.append(Acc(key, path, k, changed(path), guards, name))
    elif isinstance(v, (Tup, Clo)):
        for i, x in enumerate(v.items):
            enum_accs(x, key, path + (i,), guards, '%s.%d' % (name, i), changed, out, eng)
    elif isinstance(v, En):
        if v.pay and any(v.pay.values()):
            out.append(Acc(key, path + ('d',), 'discr', changed(path + ('d',)), guards, name + '.d'))
            for kk, p in v.pay.items():
                for i, x in enumerate(p):
                    enum_accs(x, key, path + (('v', kk), i), guards + ((path + ('d',), kk),), '%s#%d.%d' % (name, kk, i), changed, out, eng)
        else:
            out.append(Acc(key, path + ('d',), 'discr', changed(path + ('d',)), guards, name + '.d'))
    elif k == 'sq':
        ch = changed(path + ('n',)) or changed(path + ('el',))
        if isinstance(v.el, ArrE):
            ch = ch or any(changed(path + (('a', i),)) for i in range(len(v.el.arrs)))
        a = Acc(key, path, 'sq', ch, guards, name, v.ety)
        a.nchanged = changed(path + ('n',))
        out.append(a)
    elif k == 'it':
        a = Acc(key, path, 'it', changed(path + ('pos',)) or changed(path + ('n',)), guards, name)
        out.append(a)


def accs_of(eng, h, changed, keys, names):
    out = []
    for key in keys:
        v = h.store.get(key)
        if v is None or isinstance(v, (Poison, Opq)):
            continue
        ch = changed.get(key, 0)
        if ch is None:
            f = lambda p: True
        elif ch == 0:
            f = lambda p: False
        else:
            f = lambda p, ch=ch: eng.path_changed(p, ch)
        enum_accs(v, key, (), (), names(key), f, out, eng)
    return out


def generate(eng, body, fid, base, h, changed, key, header):
    dbg = getattr(body, 'debug', {}) or {}
    rev = {}
    for n, ls in dbg.items():
        for l in ls:
            if l.startswith('_') and l[1:].isdigit():
                rev.setdefault(int(l[1:]), n)

    def names(k):
        if k[0] == fid and k[1] in rev:
            return rev[k[1]]
        return '_%s' % (k[1],)
    return gen(eng, base, h, changed, names, fid)


def generate_keys(eng, base, h, changed, pk):
    return gen(eng, base, h, changed, lambda k: '%s%s' % (k[0], k[1]), None)


def iff_guard(accs, st, body):
    g = []
    for a in accs:
        g += a.guard(st)
    if not g:
        return body
    return Implies(And(*g), body)


def opts_len(eng):
    return eng.opts.get('lens', 16)


def gen(eng, base, h, changed, names, fid):
    keys = list(h.store.keys())
    A = accs_of(eng, h, changed, keys, names)
    # de-duplicate unchanged ints that are the same term
    ch_int = [a for a in A if a.kind == 'int' and a.changed]
    un_int, seen = [], set()
    for a in A:
        if a.kind == 'int' and not a.changed and not a.guards:
            try:
                t = a(h)
            except Unsupported:
                continue
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            un_int.append(a)
    its = [a for a in A if a.kind == 'it' and a.changed]
    sqs = [a for a in A if a.kind == 'sq' and a.changed]
    usq = [a for a in A if a.kind == 'sq' and not a.changed]
    chf = [a for a in A if a.kind == 'float' and a.changed]
    chd = [a for a in A if a.kind == 'discr' and a.changed]
    out = []

    def add(desc, fn, *accs):
        def pred(st, fn=fn, accs=accs):
            return iff_guard(accs, st, fn(st))
        out.append((desc, pred))

    def entry(a):
        try:
            return a(base)
        except Unsupported:
            return None
    # length terms of unchanged sequences (unique)
    lens = []
    seenl = set()
    for a in usq:
        if a.guards:
            continue
        try:
            t = a(h).n
        except Unsupported:
            continue
        if t.get_id() in seenl:
            continue
        seenl.add(t.get_id())
        lens.append((a.name + '.len', (lambda st, t=t: t)))
    for a in un_int:
        t = a(h)
        if t.get_id() in seenl:
            continue
        seenl.add(t.get_id())
        lens.append((a.name, (lambda st, t=t: t)))
    for a in its:
        # iterator ranges
        v0 = entry(a)
        if v0 is None:
            continue
        n = a(h).n
        if n.get_id() not in seenl:
            seenl.add(n.get_id())
            lens.append((a.name + '.end', (lambda st, t=n: t)))
    for i, v in enumerate(getattr(eng, 'args0', [])):
        t = v.n if isinstance(v, Sq) else v if z3.is_expr(v) and z3.is_int(v) else None
        if t is not None and t.get_id() not in seenl:
            seenl.add(t.get_id())
            lens.append(('arg%d' % i + ('.len' if isinstance(v, Sq) else ''), (lambda st, t=t: t)))
    lens.sort(key=lambda x: 0 if not x[0].startswith('_') else 1)
    lens = lens[:opts_len(eng)]

    # ---- ints
    for a in ch_int:
        e0 = entry(a)
        if e0 is not None and not a.guards:
            add('%s>=entry' % a.name, lambda st, a=a, e0=e0: a(st) >= e0, a)
            add('%s<=entry' % a.name, lambda st, a=a, e0=e0: a(st) <= e0, a)
        add('%s>=0' % a.name, lambda st, a=a: a(st) >= 0, a)
        add('%s>=1' % a.name, lambda st, a=a: a(st) >= 1, a)
        for ln, lf in lens:
            add('%s<=%s' % (a.name, ln), lambda st, a=a, lf=lf: a(st) <= lf(st), a)
            add('%s<%s' % (a.name, ln), lambda st, a=a, lf=lf: a(st) < lf(st), a)
            add('%s>=%s' % (a.name, ln), lambda st, a=a, lf=lf: a(st) >= lf(st), a)
        for i in its:
            add('%s<=%s.pos' % (a.name, i.name), lambda st, a=a, i=i: a(st) <= i(st).pos, a, i)
            add('%s<%s.pos' % (a.name, i.name), lambda st, a=a, i=i: a(st) < i(st).pos, a, i)
            i0 = entry(i)
            if e0 is not None and i0 is not None and not a.guards:
                add('%s steps with %s' % (a.name, i.name), lambda st, a=a, i=i, e0=e0, i0=i0: a(st) - e0 == i(st).pos - i0.pos, a, i)
                add('%s steps at most %s' % (a.name, i.name), lambda st, a=a, i=i, e0=e0, i0=i0: a(st) - e0 <= i(st).pos - i0.pos, a, i)
        for s in sqs:
            add('%s<=%s.len' % (a.name, s.name), lambda st, a=a, s=s: a(st) <= s(st).n, a, s)
            add('%s<%s.len' % (a.name, s.name), lambda st, a=a, s=s: a(st) < s(st).n, a, s)
        for b in ch_int:
            if a is not b:
                add('%s<=%s' % (a.name, b.name), lambda st, a=a, b=b: a(st) <= b(st), a, b)
                add('%s<%s' % (a.name, b.name), lambda st, a=a, b=b: a(st) < b(st), a, b)
    # ---- floats
    for a in chf:
        e0 = entry(a)
        add('%s not nan' % a.name, lambda st, a=a: a(st) <= fp.INF, a)
        add('%s>=0' % a.name, lambda st, a=a: a(st) >= 0, a)
        add('%s>0' % a.name, lambda st, a=a: a(st) > 0, a)
        add('%s<=1' % a.name, lambda st, a=a: a(st) <= 1, a)
        add('%s finite' % a.name, lambda st, a=a: fp.fin(a(st)), a)
        if e0 is not None and z3.is_expr(e0) and not a.guards:
            add('%s>=entry' % a.name, lambda st, a=a, e0=e0: a(st) >= e0, a)
            add('%s<=entry' % a.name, lambda st, a=a, e0=e0: a(st) <= e0, a)
    if len(chf) <= 6:
        for a in chf:
            for b in chf:
                if a is not b:
                    add('%s<=%s' % (a.name, b.name), lambda st, a=a, b=b: a(st) <= b(st), a, b)
    ufl, seenf = [], set()
    for a in A:
        if a.kind == 'float' and not a.changed and not a.guards:
            t = a(h)
            if t.get_id() not in seenf:
                seenf.add(t.get_id())
                ufl.append((a.name, t))
    for a in chf:
        for nm, t in ufl[:6]:
            add('%s<=%s' % (a.name, nm), lambda st, a=a, t=t: a(st) <= t, a)
            add('%s>=%s' % (a.name, nm), lambda st, a=a, t=t: a(st) >= t, a)
    # ---- flags
    chb = [a for a in A if a.kind == 'bool' and a.changed]
    for b in chb[:4]:
        add('not %s' % b.name, lambda st, b=b: Not(b(st)), b)
        add('%s' % b.name, lambda st, b=b: b(st), b)
        for a in ch_int:
            for i in its:
                add('%s -> %s<%s.pos' % (b.name, a.name, i.name), lambda st, b=b, a=a, i=i: Implies(b(st), a(st) < i(st).pos), a, b, i)
    # ---- discriminants
    for a in chd:
        e0 = entry(a)
        if e0 is not None:
            add('%s unchanged' % a.name, lambda st, a=a, e0=e0: a(st) == e0, a)
    # ---- sequences
    for s in sqs:
        e0 = entry(s)
        n0 = e0.n if isinstance(e0, Sq) else None
        ty = eng.strip(s.ety) if s.ety is not None else None
        if s.nchanged:
            add('%s.len>=1' % s.name, lambda st, s=s: s(st).n >= 1, s)
            add('%s.len>=2' % s.name, lambda st, s=s: s(st).n >= 2, s)
            if n0 is not None:
                add('%s.len>=entry' % s.name, lambda st, s=s, n0=n0: s(st).n >= n0, s)
            for i in its:
                i0 = entry(i)
                if i0 is None or n0 is None:
                    continue
                add('%s.len steps with %s' % (s.name, i.name), lambda st, s=s, i=i, n0=n0, i0=i0: s(st).n - n0 == i(st).pos - i0.pos, s, i)
                add('%s.len steps at most %s' % (s.name, i.name), lambda st, s=s, i=i, n0=n0, i0=i0: s(st).n - n0 <= i(st).pos - i0.pos, s, i)
            for a in ch_int:
                a0 = entry(a)
                if a0 is not None and n0 is not None and not a.guards:
                    add('%s.len steps with %s' % (s.name, a.name), lambda st, s=s, a=a, n0=n0, a0=a0: s(st).n - n0 == a(st) - a0, s, a)
                    add('%s.len steps at most %s' % (s.name, a.name), lambda st, s=s, a=a, n0=n0, a0=a0: s(st).n - n0 <= a(st) - a0, s, a)
            for ln, lf in lens:
                add('%s.len<=%s' % (s.name, ln), lambda st, s=s, lf=lf: s(st).n <= lf(st), s)
        for s2 in sqs:
            if s2 is not s and s.nchanged and s2.nchanged and s.key <= s2.key if type(s.key) == type(s2.key) and all(type(x) == type(y) for x, y in zip(s.key, s2.key)) else False:
                add('%s.len==%s.len' % (s.name, s2.name), lambda st, s=s, s2=s2: s(st).n == s2(st).n, s, s2)
            if s2 is not s and s.nchanged and s2.nchanged:
                add('%s.len<=%s.len' % (s.name, s2.name), lambda st, s=s, s2=s2: s(st).n <= s2(st).n, s, s2)
        if ty is None:
            continue
        elem_cands(eng, s, ty, its, lens, ch_int, e0, entry, add, usq, h)
    # last-element relations
    for s in sqs:
        ty = eng.strip(s.ety) if s.ety is not None else None
        if ty is not None and ty[0] == 'int':
            for a in ch_int + its:
                f = (lambda st, a=a: a(st)) if a.kind == 'int' else (lambda st, a=a: a(st).pos)
                nm = a.name + ('' if a.kind == 'int' else '.pos')
                if a.kind == 'it':
                    def nxt(st, s=s, a=a, strict=True):
                        it, v = a(st), s(st)
                        e = it.get(it.pos)
                        if not (z3.is_expr(e) and z3.is_int(e)):
                            raise Unsupported('nxt')
                        l = v.get(v.n - 1)
                        return Implies(And(v.n > 0, it.pos < it.n), l < e if strict else l <= e)
                    try:
                        nxt(h)
                        add('last(%s)<next(%s)' % (s.name, a.name), nxt, s, a)
                        add('last(%s)<=next(%s)' % (s.name, a.name), lambda st, f=nxt: f(st, strict=False), s, a)
                    except Unsupported:
                        pass
                add('last(%s)<%s' % (s.name, nm), lambda st, s=s, f=f: Implies(s(st).n > 0, s(st).get(s(st).n - 1) < f(st)), s, a)
    # what a scan over an unchanged sequence has checked so far
    useen = set()
    for u in sorted(usq, key=lambda u: u.name.startswith('_')):
        ty = eng.strip(u.ety) if u.ety is not None else None
        if ty is None or u.guards:
            continue
        v = u(h)
        if isinstance(v.el, ArrE):
            uk = tuple(x.get_id() for x in v.el.arrs)
            if uk in useen:
                continue
            useen.add(uk)
        if ty[0] in ('vec', 'slice') and isinstance(v.el, ArrE):
            ts = [(ln, lf(h)) for ln, lf in lens] + [(u.name + '[0].len', v.get(IntVal(0)).n)]
            for i in its:
                for ln, t in ts:
                    def pr(st, v=v, i=i, t=t):
                        k = bvar()
                        x = v.get(k).n
                        return FA([k], Implies(And(k >= 0, k < i(st).pos, k < v.n), x == t), [x])
                    add('%s[..%s.pos].len==%s' % (u.name, i.name, ln), pr, i)
    if eng.opts.get('extrema'):
        extrema(eng, chf + [a for a in ch_int if not a.guards], usq, its, entry, add, h)
    # contract-provided templates
    for tmpl in eng.elem_preds:
        for desc, pred, accs in tmpl(eng, A, base, h, entry):
            add('*' + desc, pred, *accs)
    return out


def extrema(eng, sc, usq, its, entry, add, h):
    """running extrema: a scalar bounds the scanned part of a sequence, and is its entry value or one of the scanned elements"""
    src, seen = [], set()
    for u in sorted(usq, key=lambda u: u.name.startswith('_')):
        ty = eng.strip(u.ety) if u.ety is not None else None
        if ty is None or u.guards or ty[0] not in ('int', 'float'):
            continue
        v = u(h)
        if isinstance(v.el, ArrE):
            k = v.el.arrs[0].get_id()
            if k in seen:
                continue
            seen.add(k)
            src.append((u.name, ty[0], (lambda st, v=v: v)))
    for i in its:
        try:
            e = i(h).get(i(h).pos)
        except Exception:
            continue
        if z3.is_expr(e) and not z3.is_bool(e):
            src.append((i.name + '[]', 'float' if z3.is_real(e) else 'int', (lambda st, i=i: i(st))))
    for a in sc[:6]:
        x = a(h)
        ty = 'float' if z3.is_real(x) else 'int'
        e0 = entry(a)
        for nm, t, f in src[:5]:
            if t != ty:
                continue
            for i in its[:3]:
                def part(st, cmp, a=a, f=f, i=i):
                    k, v = bvar(), f(st)
                    e = v.get(k)
                    return FA([k], Implies(And(k >= 0, k < i(st).pos, k < v.n), cmp(e, a(st))), [e] if z3.is_select(e) else [])
                add('%s[..%s.pos]<=%s' % (nm, i.name, a.name), lambda st, g=part: g(st, lambda e, y: e <= y), a, i)
                add('%s[..%s.pos]>=%s' % (nm, i.name, a.name), lambda st, g=part: g(st, lambda e, y: e >= y), a, i)
                if e0 is not None and z3.is_expr(e0):
                    def att(st, a=a, f=f, i=i, e0=e0):
                        k, v = bvar(), f(st)
                        e = v.get(k)
                        return Or(a(st) == e0, z3.Exists([k], And(k >= 0, k < i(st).pos, k < v.n, e == a(st)), patterns=[e] if z3.is_select(e) else []))
                    add('%s is one of %s[..%s.pos]' % (a.name, nm, i.name), att, a, i)


_bv = [0]


def bvar(n='q'):
    _bv[0] += 1
    return Int('%s?%d' % (n, _bv[0]))


def forall_el(v, body, lo=None):
    """forall i in [lo,n): body(i, v[i]) with a pattern on the element when it is array backed"""
    i = bvar()
    g = And(i >= (0 if lo is None else lo), i < v.n)
    b = Implies(g, body(i, v.get(i)))
    if isinstance(v.el, ArrE) and v.el.arrs:
        return FA([i], b, patterns=[Select(a, i) for a in v.el.arrs])
    return FA([i], b)


def leaf_paths(eng, ty, path=()):
    ty = eng.strip(ty)
    if ty is None:
        return []
    if ty[0] in ('int', 'float'):
        return [(path, ty[0])]
    if ty[0] == 'tuple':
        return [l for i, t in enumerate(ty[1]) for l in leaf_paths(eng, t, path + (i,))]
    if ty[0] == 'adt' and eng.P.enum_variants(ty) is None:
        fs = eng.P.struct_fields(ty)
        if fs:
            return [l for i, (_, t) in enumerate(fs) if t is not None for l in leaf_paths(eng, t, path + (i,))]
    if ty[0] in ('vec', 'slice'):
        return [(path, 'sq')]
    return []


def getp(v, path):
    for p in path:
        if not isinstance(v, Tup):
            raise Unsupported('getp')
        v = v.items[p]
    return v


def elem_cands(eng, s, ty, its, lens, ch_int, e0, entry, add, usq, h):
    lp = leaf_paths(eng, ty)
    for path, k in lp[:8]:
        nm = s.name + '[].' + '.'.join(map(str, path))
        if k == 'int':
            for ln, lf in lens:
                add('%s<%s' % (nm, ln), lambda st, s=s, lf=lf, path=path: forall_el(s(st), lambda i, e: getp(e, path) < lf(st)), s)
                add('%s<=%s' % (nm, ln), lambda st, s=s, lf=lf, path=path: forall_el(s(st), lambda i, e: getp(e, path) <= lf(st)), s)
                if '.' not in ln:
                    add('%s>=%s' % (nm, ln), lambda st, s=s, lf=lf, path=path: forall_el(s(st), lambda i, e: getp(e, path) >= lf(st)), s)
            for a in its:
                add('%s<%s.pos' % (nm, a.name), lambda st, s=s, a=a, path=path: forall_el(s(st), lambda i, e: getp(e, path) < a(st).pos), s, a)
                add('%s<=%s.pos' % (nm, a.name), lambda st, s=s, a=a, path=path: forall_el(s(st), lambda i, e: getp(e, path) <= a(st).pos), s, a)
            for a in ch_int:
                add('%s<%s' % (nm, a.name), lambda st, s=s, a=a, path=path: forall_el(s(st), lambda i, e: getp(e, path) < a(st)), s, a)
            if not path:
                for ln, lf in lens:
                    if '.' not in ln:
                        add('%s==k*%s' % (nm, ln), lambda st, s=s, lf=lf: forall_el(s(st), lambda i, e: e == IMUL(i, lf(st))), s)
            add('%s>=1' % nm, lambda st, s=s, path=path: forall_el(s(st), lambda i, e: getp(e, path) >= 1), s)
            add('%s strictly increasing' % nm, lambda st, s=s, path=path: sorted_pred(s(st), path, True), s)
            add('%s non-decreasing' % nm, lambda st, s=s, path=path: sorted_pred(s(st), path, False), s)
        elif k == 'float':
            add('%s not nan' % nm, lambda st, s=s, path=path: forall_el(s(st), lambda i, e: getp(e, path) <= fp.INF), s)
            add('%s finite' % nm, lambda st, s=s, path=path: forall_el(s(st), lambda i, e: fp.fin(getp(e, path))), s)
            add('%s>=0' % nm, lambda st, s=s, path=path: forall_el(s(st), lambda i, e: getp(e, path) >= 0), s)
            add('%s>0' % nm, lambda st, s=s, path=path: forall_el(s(st), lambda i, e: getp(e, path) > 0), s)
            add('%s<=1' % nm, lambda st, s=s, path=path: forall_el(s(st), lambda i, e: getp(e, path) <= 1), s)
        elif k == 'sq':
            rows = set()
            srcs = [(u.name, u(h)) for u in usq if not u.guards] + [('arg%d' % i, v) for i, v in enumerate(getattr(eng, 'args0', []))]
            for un, v in srcs if not path else ():
                if not isinstance(v, Sq) or v.ety is None or eng.strip(v.ety)[0] not in ('vec', 'slice') or not isinstance(v.el, ArrE):
                    continue
                t = v.get(IntVal(0)).n
                if t.get_id() in rows:
                    continue
                rows.add(t.get_id())
                add('%s.len==%s[0].len' % (nm, un), lambda st, s=s, t=t: forall_el(s(st), lambda i, e: e.n == t), s)
                add('%s.len==%s[same].len' % (nm, un), lambda st, s=s, v=v: forall_el(s(st), lambda i, e: Implies(i < v.n, e.n == v.get(i).n)), s)
            for ln, lf in lens:
                add('%s.len==%s' % (nm, ln), lambda st, s=s, lf=lf, path=path: forall_el(s(st), lambda i, e: getp(e, path).n == lf(st)), s)
            inner = eng.strip(ty)
            if not path and eng.strip(inner[1]) == ('float', 'f32'):
                for d, f in (('>=0', lambda x: x >= 0), ('<=1', lambda x: x <= 1), (' not nan', lambda x: x <= fp.INF), (' finite', fp.fin)):
                    def pr(st, s=s, f=f):
                        v = s(st)
                        i, j = bvar(), bvar()
                        e = v.get(i)
                        t = e.get(j)
                        return FA([i, j], Implies(And(i >= 0, i < v.n, j >= 0, j < e.n), f(t)), patterns=[t] if not z3.is_quantifier(t) and isinstance(v.el, ArrE) else [])
                    add('%s[]%s' % (nm, d), pr, s)
    # frame of in-place updates: the tail is untouched, the head was processed
    if isinstance(e0, Sq) and not s.nchanged:
        for a in its:
            def fr(st, s=s, a=a, e0=e0):
                v = s(st)
                it = a(st)
                i = bvar()
                x, y = v.get(i), e0.get(i)
                eqs = leaf_eqs(eng, x, y)
                b = Implies(And(i >= it.pos, i < v.n), And(*eqs))
                return FA([i], b, patterns=[Select(z, i) for z in v.el.arrs[:1]]) if isinstance(v.el, ArrE) else FA([i], b)
            add('%s tail untouched from %s.pos' % (s.name, a.name), fr, s, a)


def leaf_eqs(eng, x, y):
    lx, ly = eng.pyleaves(x), eng.pyleaves(y)
    out = []
    for (p, a), (q, b) in zip(lx, ly):
        if p != q or not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('leaf_eqs')
        out.append(a == b)
    return out


def sorted_pred(v, path, strict, rel=None):
    i, j = bvar(), bvar()
    x, y = getp(v.get(i), path), getp(v.get(j), path)
    if rel is None:
        r = x < y if strict else x <= y
    else:
        r = rel(x, y)
    b = Implies(And(i >= 0, i < j, j < v.n), r)
    if isinstance(v.el, ArrE) and z3.is_select(x) and z3.is_select(y):
        return FA([i, j], b, patterns=[(x, y)])
    return FA([i, j], b)
