"""Symbolic values."""
import z3
from mir import INTS


class Unsupported(Exception):
    pass


class Tup:
    __slots__ = ('items', 'name')

    def __init__(self, items, name=None):
        self.items = list(items)
        self.name = name

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Clo:
    __slots__ = ('ty', 'items')

    def __init__(self, ty, items):
        self.ty = ty
        self.items = list(items)


class En:
    """enum value: discriminant (Int term) and payload per variant index (missing = never that variant)"""
    __slots__ = ('d', 'pay', 'ty')

    def __init__(self, d, pay, ty):
        self.d = d
        self.pay = pay
        self.ty = ty

    def __repr__(self):
        return 'En(%r,%r)' % (self.d, self.pay)


def sel(a, i):
    """a[i], resolved through stores at literal indices"""
    if z3.is_int_value(i):
        x = i.as_long()
        while z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE and z3.is_int_value(a.arg(1)):
                if a.arg(1).as_long() == x:
                    return a.arg(2)
                a = a.arg(0)
            elif k == z3.Z3_OP_CONST_ARRAY:
                return a.arg(0)
            elif k == z3.Z3_OP_SELECT:
                b = sel(a.arg(0), a.arg(1))
                if b.eq(a):
                    break
                a = b
            else:
                break
    return z3.Select(a, i)


class ArrE:
    __slots__ = ('arrs', 'ety', 'w')

    def __init__(self, arrs, ety, w):
        self.arrs = arrs
        self.ety = ety
        self.w = w

    def get(self, i):
        return self.w.build(self.ety, [sel(a, i) for a in self.arrs])


class FunE:
    __slots__ = ('fn', 'ety', 'cache')

    def __init__(self, fn, ety):
        self.fn = fn
        self.ety = ety
        self.cache = {}

    def get(self, i):
        k = i.get_id() if hasattr(i, 'get_id') else i
        c = self.cache.get(k)
        if c is not None and (c[0] is i or c[0].eq(i)):
            return c[1]
        v = self.fn(i)
        self.cache[k] = (i, v)
        return v


class Sq:
    __slots__ = ('n', 'el', 'ety')

    def __init__(self, n, el, ety):
        self.n = n if z3.is_expr(n) else z3.IntVal(n)
        self.el = el
        self.ety = ety

    def get(self, i):
        if not z3.is_expr(i):
            i = z3.IntVal(i)
        return self.el.get(i)

    def __repr__(self):
        return 'Sq(%r)' % (self.n,)


class RefM:
    """&mut: a path to a place. root is a store key."""
    __slots__ = ('root', 'proj')

    def __init__(self, root, proj=()):
        self.root = root
        self.proj = tuple(proj)

    def ext(self, *p):
        return RefM(self.root, self.proj + tuple(p))

    def same(self, o):
        if not isinstance(o, RefM) or self.root != o.root or len(self.proj) != len(o.proj):
            return False
        for a, b in zip(self.proj, o.proj):
            if a[0] != b[0] or len(a) != len(b):
                return False
            for x, y in zip(a[1:], b[1:]):
                if z3.is_expr(x) and z3.is_expr(y):
                    if not x.eq(y):
                        return False
                elif x is not y and x != y:
                    return False
        return True

    def __repr__(self):
        return 'RefM(%r,%r)' % (self.root, self.proj)


class It:
    """an iterator over items get(pos), get(pos+1), .. get(n-1).  inf=True: n ignored."""
    __slots__ = ('n', 'get', 'pos', 'ity', 'kind')

    def __init__(self, n, get, pos, ity=None, kind=''):
        self.n = n if z3.is_expr(n) else z3.IntVal(n)
        self.get = get
        self.pos = pos if z3.is_expr(pos) else z3.IntVal(pos)
        self.ity = ity
        self.kind = kind


class FnItem:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Opq:
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def __repr__(self):
        return 'Opq(%s)' % self.tag[:40]


class MapV:
    """abstract hash map value (content unknown beyond what models assume)"""
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data


class Poison:
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why


UNINIT = Poison('uninitialised')


def is_scalar(v):
    return z3.is_expr(v)


# ---- map a function over all z3 leaves of a python value (used for substitution)
def map_leaves(v, f, fel=None):
    if z3.is_expr(v):
        return f(v)
    if isinstance(v, Tup):
        return Tup([map_leaves(x, f, fel) for x in v.items], v.name)
    if isinstance(v, Clo):
        return Clo(v.ty, [map_leaves(x, f, fel) for x in v.items])
    if isinstance(v, En):
        return En(f(v.d), {k: [map_leaves(x, f, fel) for x in p] for k, p in v.pay.items()}, v.ty)
    if isinstance(v, Sq):
        el = v.el
        if isinstance(el, ArrE):
            el2 = ArrE([f(a) for a in el.arrs], el.ety, el.w)
        else:
            el2 = FunE(lambda i, el=el: map_leaves(el.get(i), f), el.ety)
        return Sq(f(v.n), el2, v.ety)
    if isinstance(v, It):
        g = v.get
        return It(f(v.n), (lambda i: map_leaves(g(i), f)), f(v.pos), v.ity, v.kind)
    if isinstance(v, RefM):
        return RefM(v.root, tuple(tuple(f(x) if z3.is_expr(x) else x for x in p) for p in v.proj))
    return v


def fold(t, memo=None):
    """evaluate selects at literal indices and float operations on literals"""
    import fp
    memo = {} if memo is None else memo
    r = memo.get(t.get_id())
    if r is not None:
        return r
    if not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
        r = t
    else:
        ch = t.children()
        nc = [fold(c, memo) for c in ch]
        d = t.decl()
        nm = d.name() if d.kind() == z3.Z3_OP_UNINTERPRETED else ''
        op = {'fp!add': fp.add, 'fp!sub': fp.sub, 'fp!mul': fp.mul, 'fp!div': fp.div, 'fp!sqrt': fp.sqrt}.get(nm)
        if d.kind() == z3.Z3_OP_SELECT:
            r = sel(nc[0], nc[1])
        elif op is not None and all(fp.numeral(c) is not None for c in nc):
            r = op(*nc)
        elif any(not a.eq(b) for a, b in zip(ch, nc)):
            r = d(*nc)
        else:
            r = t
    memo[t.get_id()] = r
    return r


def subst(v, frm, to):
    if frm.eq(to):
        return v
    if z3.is_int_value(to):
        return map_leaves(v, lambda t: fold(z3.substitute(t, (frm, to))))
    return map_leaves(v, lambda t: z3.substitute(t, (frm, to)))


# ---- quantifiers with validated triggers
_OKK = {z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_TO_REAL}


def _pat_ok(t, vids, found):
    if not z3.is_app(t):
        return False
    if t.get_id() in vids:
        found.add(t.get_id())
        return True
    k = t.decl().kind()
    if t.num_args() and k not in _OKK:
        return False
    return all(_pat_ok(c, vids, found) for c in t.children())


def FA(vs, body, patterns=()):
    vids = {v.get_id() for v in vs}
    good = []
    for p in patterns:
        terms = list(p) if isinstance(p, tuple) else [p]
        if isinstance(p, z3.PatternRef):
            good.append(p)
            continue
        found = set()
        ok = all(t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and _pat_ok(t, vids, found) for t in terms)
        if ok and found == vids:
            good.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
    if good:
        return z3.ForAll(vs, body, patterns=good)
    return z3.ForAll(vs, body)
