import os
"""Symbolic execution of MIR bodies into verification conditions."""
import re, os, itertools
import z3
from z3 import And, Or, Not, Implies, If, ForAll, IntVal, BoolVal, Select, Store, Int
import mir, fp
from mir import parse_type, parse_place, finish_block, successors, INTS
from vals import *

TRUE, FALSE = BoolVal(True), BoolVal(False)
z3.set_param('warning', False)


# ------------------------------------------------------------------ smart constructors
def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def and_(*xs):
    out = []
    for x in xs:
        if is_true(x):
            continue
        if is_false(x):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if is_false(x):
            continue
        if is_true(x):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Or(*out)


def not_(x):
    if is_true(x):
        return FALSE
    if is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return Not(x)


def imp(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return TRUE
    return Implies(a, b)


def ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return not_(c)
    return If(c, a, b)


def ival(e):
    return e.as_long() if z3.is_int_value(e) else None


def icmp(op, a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return BoolVal({'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y}[op])
    if a.eq(b):
        return BoolVal(op in ('<=', '=='))
    return {'<': lambda: a < b, '<=': lambda: a <= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()


def iadd(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return IntVal(x + y)
    if y == 0:
        return a
    if x == 0:
        return b
    # fold (e + c1) + c2
    if y is not None and z3.is_add(a) and a.num_args() == 2 and ival(a.arg(1)) is not None:
        return iadd(a.arg(0), IntVal(ival(a.arg(1)) + y))
    return a + b


def isub(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return IntVal(x - y)
    if y == 0:
        return a
    if a.eq(b):
        return IntVal(0)
    if y is not None:
        return iadd(a, IntVal(-y))
    return a - b


IMUL = z3.Function('int!mul', z3.IntSort(), z3.IntSort(), z3.IntSort())
IDIV = z3.Function('int!div', z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function('int!mod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def imul(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return IntVal(x * y)
    if x == 1:
        return b
    if y == 1:
        return a
    if x is not None or y is not None:
        return a * b
    return IMUL(a, b)


def idiv(a, b):
    """floor division for non-negative operands (unsigned)"""
    x, y = ival(a), ival(b)
    if x is not None and y:
        return IntVal(x // y)
    if y is not None and y > 0:
        if y == 1:
            return a
        return a / b
    return IDIV(a, b)


def imod(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y:
        return IntVal(x % y)
    if y is not None and y > 0:
        return a % b
    return IMOD(a, b)


def int_axioms(names):
    a, b, c, d = z3.Ints('int?a int?b int?c int?d')
    A = []
    P = z3.MultiPattern
    if 'int!mul' in names or 'int!div' in names or 'int!mod' in names:
        A.append(ForAll([a, b], And(Implies(And(a >= 0, b >= 0), IMUL(a, b) >= 0), Implies(Or(a == 0, b == 0), IMUL(a, b) == 0),
                                    Implies(a == 1, IMUL(a, b) == b), Implies(b == 1, IMUL(a, b) == a),
                                    Implies(And(a >= 1, b >= 0), IMUL(a, b) >= b), Implies(And(b >= 1, a >= 0), IMUL(a, b) >= a),
                                    Implies(a == 2, IMUL(a, b) == 2 * b), Implies(And(a >= 2, b >= 0), IMUL(a, b) >= 2 * b),
                                    IMUL(a, b) == IMUL(b, a)), patterns=[IMUL(a, b)]))
        A.append(ForAll([a, b, c], And(Implies(And(a <= c, b >= 0), IMUL(a, b) <= IMUL(c, b)),
                                       Implies(And(a < c, b >= 0), IMUL(a, b) + b <= IMUL(c, b)),
                                       Implies(a + 1 == c, IMUL(a, b) + b == IMUL(c, b))), patterns=[P(IMUL(a, b), IMUL(c, b))]))
        A.append(ForAll([a, b, c, d], Implies(And(a - c >= d, d >= 0, b >= 0), IMUL(a, b) >= IMUL(c, b) + IMUL(d, b)), patterns=[P(IMUL(a, b), IMUL(c, b), IMUL(d, b))]))
    if 'int!div' in names:
        A.append(ForAll([a, b], Implies(And(a >= 0, b > 0), And(IDIV(a, b) >= 0, IDIV(a, b) <= a, IMUL(IDIV(a, b), b) <= a, a < IMUL(IDIV(a, b), b) + b,
                                                               IMUL(IDIV(a, b) + 1, b) == IMUL(IDIV(a, b), b) + b,
                                                               Implies(a < b, IDIV(a, b) == 0), Implies(a >= b, IDIV(a, b) >= 1))), patterns=[IDIV(a, b)]))
    if 'int!mod' in names:
        A.append(ForAll([a, b], Implies(And(a >= 0, b > 0), And(IMOD(a, b) >= 0, IMOD(a, b) < b, IMOD(a, b) <= a, IMOD(a, b) == a - IMUL(IDIV(a, b), b),
                                                               Implies(a < b, IMOD(a, b) == a))), patterns=[IMOD(a, b)]))
        if 'int!div' not in names:
            A.append(ForAll([a, b], Implies(And(a >= 0, b > 0), And(IDIV(a, b) >= 0, IDIV(a, b) <= a, IMUL(IDIV(a, b), b) <= a, a < IMUL(IDIV(a, b), b) + b)), patterns=[IDIV(a, b)]))
    return A


# ------------------------------------------------------------------ program / type information
STD_ENUMS = {
    'std::option::Option': lambda a: [('None', (), 0), ('Some', (a[0],), 1)],
    'std::result::Result': lambda a: [('Ok', (a[0],), 0), ('Err', (a[1],), 1)],
    'std::ops::ControlFlow': lambda a: [('Continue', (a[1] if len(a) > 1 else ('tuple', ()),), 0), ('Break', (a[0],), 1)],
    'std::cmp::Ordering': lambda a: [('Less', (), -1), ('Equal', (), 0), ('Greater', (), 1)],
    'std::convert::Infallible': lambda a: [],
}
STD_STRUCTS = {
    'std::ops::Range': lambda a: [('start', a[0]), ('end', a[0])],
    'std::ops::RangeFrom': lambda a: [('start', a[0])],
    'std::ops::RangeTo': lambda a: [('end', a[0])],
    'std::ops::RangeToInclusive': lambda a: [('end', a[0])],
    'std::ops::RangeInclusive': lambda a: [('start', a[0]), ('end', a[0]), ('exhausted', ('bool',))],
    'std::ops::RangeFull': lambda a: [],
    'rustfft::num_complex::Complex': lambda a: [('re', a[0]), ('im', a[0])],
    'num_complex::Complex': lambda a: [('re', a[0]), ('im', a[0])],
    'std::cmp::Reverse': lambda a: [('0', a[0])],
}


def strip_comments(src):
    src = re.sub(r'//[^\n]*', '', src)
    return re.sub(r'/\*.*?\*/', '', src, flags=re.S)


class Program:
    """All MIR bodies of the crate plus type layouts recovered from MIR and source."""

    def __init__(self, mirtext, repo):
        self.repo = repo
        fns, self.consts0 = mir.parse_mir(mirtext)
        self.src = {}
        self.fns = {}
        self.raw_name = {}
        self.closures = {}
        for name, b in fns.items():
            nn = self.norm_name(name)
            self.fns.setdefault(nn, b)
            self.raw_name[id(b)] = nn
            if b.args:
                t = b.locals[b.args[0]]
                m = re.search(r'\{closure@[^}]*\}', t)
                if m and '{closure#' in name.rsplit('::', 1)[-1]:
                    self.closures.setdefault(m.group(0), b)
        self.consts = {}
        for name, b in self.consts0.items():
            self.consts.setdefault(self.norm_name(name), b)
        self.structs = {}
        self.enums = {}
        self.field_names = {}
        self._scan_enums()
        self._scan_types()

    def file_lines(self, f):
        if f not in self.src:
            try:
                self.src[f] = open(os.path.join(self.repo, f)).read().split('\n')
            except OSError:
                self.src[f] = []
        return self.src[f]

    def norm_name(self, name):
        def rep(m):
            f, l = m.group(1), int(m.group(2))
            lines = self.file_lines(f)
            line = lines[l - 1] if l - 1 < len(lines) else ''
            mm = re.match(r'\s*(?:unsafe )?impl(?:<[^>]*>)?\s+(?:(.*?)\s+for\s+)?([A-Za-z_:0-9]+)', line)
            if mm:
                return mm.group(2).split('::')[-1] + ('' if not mm.group(1) else '@' + mm.group(1).split('::')[-1].split('<')[0])
            # derive
            c = m.group(3)
            mc = re.match(r'(\d+): (\d+):(\d+)', c)
            tr = line[int(mc.group(1)) - 1:int(mc.group(3)) - 1] if mc else '?'
            # struct name: next 'struct X' or 'enum X'
            for k in range(l, min(l + 12, len(lines))):
                q = re.search(r'\b(?:struct|enum)\s+(\w+)', lines[k])
                if q:
                    return q.group(1) + '@' + tr
            return '?@' + tr
        return re.sub(r'<impl at ([^:>]+):(\d+):(\d+: \d+:\d+)>', rep, name)

    def _scan_enums(self):
        srcdir = os.path.join(self.repo, 'src')
        self.enum_src = {}
        self.struct_src = {}
        for root, _, files in os.walk(srcdir):
            for f in files:
                if not f.endswith('.rs'):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, srcdir)
                mod = rel[:-3].replace(os.sep, '::')
                mod = re.sub(r'(^|::)(mod|lib|main)$', '', mod)
                s = strip_comments(open(p).read())
                for m in re.finditer(r'\benum\s+(\w+)\s*(?:<[^>]*>)?\s*\{', s):
                    k = mir.match_close(s, m.end() - 1)
                    body = s[m.end():k]
                    vs = []
                    d = 0
                    for v in mir.split_top(body):
                        v = re.sub(r'#\[[^\]]*\]', '', v).strip()
                        if not v:
                            continue
                        mm = re.match(r'(\w+)\s*(?:=\s*(-?\d+))?', v)
                        if mm.group(2):
                            d = int(mm.group(2))
                        vs.append((mm.group(1), d))
                        d += 1
                    self.enum_src[m.group(1)] = vs
                for m in re.finditer(r'\bstruct\s+(\w+)\s*(?:<[^>]*>)?\s*\{', s):
                    k = mir.match_close(s, m.end() - 1)
                    body = re.sub(r'#\[[^\]]*\]', '', s[m.end():k])
                    fs = []
                    for v in mir.split_top(body):
                        mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', v.strip())
                        if mm:
                            fs.append(mm.group(1))
                    self.struct_src[m.group(1)] = fs

    def _scan_types(self):
        """field types from place projections in every body"""
        sf, ef = {}, {}

        def note(body, place):
            loc, projs = place
            t = parse_type(body.locals.get(loc, '()'))
            var = None
            for p in projs:
                if p[0] == 'deref':
                    if t and t[0] in ('ref',):
                        t = t[2]
                    elif t and t[0] == 'box':
                        t = t[1]
                    else:
                        t = None
                elif p[0] == 'variant':
                    var = p[1]
                    continue
                elif p[0] == 'field':
                    ft = parse_type(p[2])
                    if t and t[0] == 'adt':
                        if var is not None:
                            ef.setdefault(t[1], {}).setdefault(var, {})[p[1]] = ft
                        else:
                            sf.setdefault(t[1], {})[p[1]] = ft
                    t = ft
                elif p[0] in ('index', 'cindex'):
                    t = t[1] if t and t[0] in ('slice', 'array', 'vec') else None
                elif p[0] == 'subslice':
                    pass
                var = None

        def op(body, o):
            if o[0] in ('copy', 'move'):
                note(body, o[1])
        bodies = list(self.fns.values()) + [b for b in self.consts0.values() if not isinstance(b, tuple)]
        for b in bodies:
            for blk in b.blocks.values():
                if blk.cleanup:
                    continue
                try:
                    finish_block(blk)
                except Exception as e:
                    blk.term = ('bad', str(e))
                    blk.stmts = []
                    continue
                for s in blk.stmts:
                    if s[0] != 'assign':
                        continue
                    note(b, s[1])
                    rv = s[2]
                    for x in rv[1:]:
                        if isinstance(x, tuple) and x and x[0] in ('copy', 'move'):
                            op(b, x)
                        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int):
                            note(b, x)
                        elif isinstance(x, tuple):
                            for y in x:
                                if isinstance(y, tuple) and y and y[0] in ('copy', 'move'):
                                    op(b, y)
                                elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple) and y[1] and y[1][0] in ('copy', 'move'):
                                    op(b, y[1])
                    if rv[0] == 'adt' and rv[2] == 'named':
                        t = parse_type(rv[1])
                        if t[0] == 'adt':
                            self.field_names.setdefault(t[1], [f for f, _ in rv[3]])
                            for k, (f, o) in enumerate(rv[3]):
                                ot = self.op_type(b, o)
                                if ot is not None:
                                    sf.setdefault(t[1], {}).setdefault(k, ot)
                t = blk.term
                if t[0] == 'call':
                    for a in t[3]:
                        op(b, a)
                    note(b, t[1])
                elif t[0] in ('switch', 'assert'):
                    op(b, t[1])
        self.sf, self.ef = sf, ef

    def op_type(self, body, o):
        if o[0] in ('copy', 'move'):
            loc, projs = o[1]
            if not projs:
                return parse_type(body.locals[loc])
            if projs[-1][0] == 'field':
                return parse_type(projs[-1][2])
            return None
        c = o[1]
        m = re.match(r'^-?[\d.]+(?:[eE][-+]?\d+)?_?(f32|usize|u32|u64|i32|isize|i64|u8)$', c)
        if m:
            return parse_type(m.group(1))
        if c in ('true', 'false'):
            return ('bool',)
        if c.startswith('"'):
            return ('ref', False, ('str',))
        return None

    def struct_fields(self, ty):
        """[(name, type|None)] or None when ty is not a known struct"""
        path = ty[1]
        if path in STD_STRUCTS:
            return STD_STRUCTS[path](ty[2])
        short = path.split('::')[-1]
        if short in self.enum_src and path not in self.field_names and short not in self.struct_src:
            return None
        names = self.struct_src.get(short) or self.field_names.get(path)
        known = self.sf.get(path)
        if names is None and known is None:
            return None
        if path.startswith('std::') or path.startswith('core::') or path.startswith('rustfft::') or path.startswith('log::'):
            return None
        if names is None:
            names = [str(i) for i in range(max(known) + 1)]
        return [(n, (known or {}).get(i)) for i, n in enumerate(names)]

    def enum_variants(self, ty):
        path = ty[1]
        if path in STD_ENUMS:
            return STD_ENUMS[path](ty[2])
        short = path.split('::')[-1]
        vs = self.enum_src.get(short)
        if vs is None or path.startswith('std::'):
            return None
        out = []
        e = self.ef.get(path, {})
        for v, d in vs:
            fs = e.get(v, {})
            out.append((v, tuple(fs.get(i, ('other', '?')) for i in range(max(fs) + 1)) if fs else (), d))
        return out


# ------------------------------------------------------------------ states
class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)

    def assume(self, c):
        if is_true(c):
            return self
        self.pc = self.pc + (c,)
        return self


class Obl:
    __slots__ = ('name', 'kind', 'nf', 'pc', 'goal', 'loc', 'cand', 'status', 'time', 'backend', 'model')

    def __init__(self, name, kind, nf, pc, goal, loc, cand=None):
        self.name, self.kind, self.nf, self.pc, self.goal, self.loc, self.cand = name, kind, nf, pc, goal, loc, cand
        self.status = None
        self.time = 0.0
        self.backend = ''
        self.model = None


class Cand:
    __slots__ = ('lit', 'desc', 'alive', 'loop')

    def __init__(self, lit, desc, loop):
        self.lit, self.desc, self.alive, self.loop = lit, desc, True, loop


class Engine:
    def __init__(self, prog, contracts, opts=None):
        self.P = prog
        self.contracts = contracts
        self.opts = opts or {}
        self.facts = []
        self.obls = []
        self.cands = []
        self.binders = []          # [(const, guard)]
        self.cnt = itertools.count()
        self.fid = itertools.count(1)
        self.stack = []
        self.dry = 0
        self.loopcache = {}
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.cur = None            # contract being verified
        self.elem_preds = []       # candidate invariant templates from the contract
        self.strs = {}
        self.maxdepth = 24
        self.panic_mode = 'check'
        self.partial = bool(opts.get('partial')) if opts else False
        self.havoc_fns = set((opts or {}).get('havoc', ()))
        self.havocked = {}
        self.models_used = set()
        self.notes = []
        import stdm
        self.std = stdm.Std(self)

    # ---------------------------------------------------------------- basics
    def fresh(self, name, sort):
        n = '%s!%d' % (name, next(self.cnt))
        if not self.binders:
            return z3.Const(n, sort)
        bs = [b for b, _ in self.binders]
        f = z3.Function(n, *([b.sort() for b in bs] + [sort]))
        return f(*bs)

    def fresh_int(self, name):
        return self.fresh(name, z3.IntSort())

    def fresh_bool(self, name):
        return self.fresh(name, z3.BoolSort())

    def fresh_fn(self, name, *sorts):
        """fresh function (extra leading binder args hidden)"""
        n = '%s!%d' % (name, next(self.cnt))
        bs = [b for b, _ in self.binders]
        f = z3.Function(n, *([b.sort() for b in bs] + list(sorts)))
        return lambda *a: f(*(bs + [x if z3.is_expr(x) else IntVal(x) for x in a]))

    def fact(self, st, f):
        """f holds in every execution reaching st"""
        if is_true(f):
            return
        pc = and_(*st.pc) if st is not None else TRUE
        self.facts.append(imp(pc, f))

    def fact0(self, f):
        if not is_true(f):
            self.facts.append(f)

    def oblige(self, st, goal, name, kind, loc=None, cand=None, assume=True):
        if is_true(goal):
            # still counted: discharged by construction (constant folding of the symbolic executor)
            if not self.dry:
                o = Obl(name, kind, len(self.facts), (), goal, loc or self.where(), cand)
                o.status = 'proved'
                o.backend = 'const'
                self.obls.append(o)
            return
        if kind in ('overflow', 'bounds', 'div0', 'unwrap', 'panic', 'slice', 'sortord') and self.panic_mode == 'assume':
            if assume:
                self.fact(st, goal)
            return
        if not self.dry:
            self.obls.append(Obl(name, kind, len(self.facts), st.pc, goal, loc or self.where(), cand))
        if assume:
            self.fact(st, goal)

    def where(self):
        return ' > '.join(self.stack[-3:])

    def str_id(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs) + 1
        return IntVal(self.strs[s])

    # ---------------------------------------------------------------- types <-> leaves
    def strip(self, ty):
        while ty is not None and ty[0] in ('ref', 'box'):
            ty = ty[2] if ty[0] == 'ref' else ty[1]
        return ty

    def leafsorts(self, ty):
        ty = self.strip(ty)
        if ty is None:
            return []
        k = ty[0]
        if k == 'int' or k == 'str':
            return [z3.IntSort()]
        if k == 'float':
            return [z3.RealSort()]
        if k == 'bool':
            return [z3.BoolSort()]
        if k == 'tuple':
            return [s for t in ty[1] for s in self.leafsorts(t)]
        if k in ('vec', 'slice'):
            return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.leafsorts(ty[1])]
        if k == 'array':
            return [z3.ArraySort(z3.IntSort(), s) for s in self.leafsorts(ty[1])]
        if k == 'adt':
            vs = self.P.enum_variants(ty)
            if vs is not None:
                return [z3.IntSort()] + [s for v in vs for t in v[1] for s in self.leafsorts(t)]
            fs = self.P.struct_fields(ty)
            if fs is not None:
                return [s for _, t in fs for s in self.leafsorts(t)]
        return []

    def build(self, ty, leaves):
        it = iter(leaves)
        return self._build(ty, it)

    def _build(self, ty, it):
        ty = self.strip(ty)
        if ty is None:
            return Opq('?')
        k = ty[0]
        if k in ('int', 'float', 'bool', 'str'):
            return next(it)
        if k == 'tuple':
            return Tup([self._build(t, it) for t in ty[1]])
        if k in ('vec', 'slice'):
            n = next(it)
            ls = self.leafsorts(ty[1])
            return Sq(n, ArrE([next(it) for _ in ls], ty[1], self), ty[1])
        if k == 'array':
            ls = self.leafsorts(ty[1])
            if not isinstance(ty[2], int):
                raise Unsupported('array length %s' % ty[2])
            return Sq(IntVal(ty[2]), ArrE([next(it) for _ in ls], ty[1], self), ty[1])
        if k == 'adt':
            vs = self.P.enum_variants(ty)
            if vs is not None:
                d = next(it)
                return En(d, {v[2]: [self._build(t, it) for t in v[1]] for v in vs}, ty)
            fs = self.P.struct_fields(ty)
            if fs is not None:
                return Tup([self._build(t, it) for _, t in fs], ty[1])
        return Opq(str(ty))

    def flatten(self, v, ty, st=None):
        """leaves of v in the order of leafsorts(ty)"""
        ty = self.strip(ty)
        if ty is None:
            return []
        k = ty[0]
        if isinstance(v, (Poison, Opq)) or v is None:
            return [self.fresh('junk', s) for s in self.leafsorts(ty)]
        if isinstance(v, RefM):
            if st is None:
                raise Unsupported('flatten of &mut')
            v = self.read_ref(st, v)
        if k in ('int', 'float', 'bool', 'str'):
            return [v]
        if k == 'tuple':
            if not isinstance(v, Tup):
                raise Unsupported('flatten tuple %r' % type(v))
            return [x for i, t in enumerate(ty[1]) for x in self.flatten(v.items[i], t, st)]
        if k in ('vec', 'slice', 'array'):
            if not isinstance(v, Sq):
                raise Unsupported('flatten seq %r' % type(v))
            v = self.materialize(v, ty[1], st)
            return ([] if k == 'array' else [v.n]) + list(v.el.arrs)
        if k == 'adt':
            vs = self.P.enum_variants(ty)
            if vs is not None:
                out = [v.d]
                for var in vs:
                    p = v.pay.get(var[2])
                    for i, t in enumerate(var[1]):
                        out += self.flatten(p[i] if p is not None and i < len(p) else None, t, st)
                return out
            fs = self.P.struct_fields(ty)
            if fs is not None:
                return [x for i, (_, t) in enumerate(fs) for x in self.flatten(v.items[i], t, st)]
        return []

    def materialize(self, v, ety=None, st=None):
        ety = ety or v.ety
        if isinstance(v.el, ArrE):
            return v
        ls = self.leafsorts(ety)
        arrs = [self.fresh('seq', z3.ArraySort(z3.IntSort(), s)) for s in ls]
        if ls:
            k = Int('m!%d' % next(self.cnt))
            n = ival(v.n)
            if n is not None and n <= 16:
                # exact stores
                for i in range(n):
                    lv = self.flatten(v.get(IntVal(i)), ety, st)
                    for j in range(len(ls)):
                        arrs[j] = Store(arrs[j], i, lv[j])
            else:
                guard = and_(k >= 0, k < v.n)
                nf = len(self.facts)
                self.binders.append((k, guard))
                lv = self.flatten(v.get(k), ety, st)
                self.binders.pop()
                self._close_binder(nf, k)
                for a, l in zip(arrs, lv):
                    pats = [Select(a, k)]
                    if self.opts.get('fwd'):
                        pats += self.selects_at(l, k)
                    self.fact0(FA([k], imp(guard, Select(a, k) == l), patterns=pats))
        return Sq(v.n, ArrE(arrs, ety, self), ety)

    def selects_at(self, e, k):
        """array reads exactly at k inside e: alternative triggers, so that reading the source reads the image"""
        out, seen, stack = [], set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.arg(1).eq(k) and z3.is_const(x.arg(0)):
                out.append(x)
            stack.extend(x.children())
        return out

    def _close_binder(self, nf, k):
        new = self.facts[nf:]
        for f in new:
            if self.mentions(f, k):
                self.facts.append(FA([k], f))

    def mentions(self, e, k):
        seen = set()
        stack = [e]
        kid = k.get_id()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i == kid:
                return True
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        return False

    def min_size(self, ty):
        ty = self.strip(ty)
        if ty is None:
            return 1
        if ty[0] == 'int':
            return INTS[ty[1]][0] // 8
        if ty[0] == 'float':
            return 4
        if ty[0] in ('vec', 'str', 'slice'):
            return 16
        if ty[0] == 'tuple':
            return max(1, sum(self.min_size(t) for t in ty[1]))
        if ty[0] == 'adt':
            fs = self.P.struct_fields(ty) if self.P.enum_variants(ty) is None else None
            if fs:
                return max(1, sum(self.min_size(t) for _, t in fs if t is not None))
        return 1

    def inv(self, v, ty, deep=True):
        """type validity facts"""
        ty = self.strip(ty)
        out = []
        if ty is None or isinstance(v, (Opq, Poison, RefM)):
            return out
        k = ty[0]
        if k == 'int':
            if ival(v) is None:
                bits, sg = INTS[ty[1]]
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                out += [v >= lo, v <= hi]
        elif k == 'float':
            if fp.numeral(v) is None:
                out += [v >= -fp.INF, v <= fp.NAN, imp(v > fp.INF, v == fp.NAN), imp(v < fp.INF, v <= fp.MAX), imp(v > -fp.INF, v >= -fp.MAX)]
        elif k == 'tuple':
            for x, t in zip(v.items, ty[1]):
                out += self.inv(x, t)
        elif k in ('vec', 'slice', 'array'):
            if k != 'array':
                out += [v.n >= 0, v.n <= (2**63 - 1) // self.min_size(ty[1])]
            i = Int('iv!%d' % next(self.cnt))
            if self.leafsorts(ty[1]):
                e = v.get(i)
                f = self.inv(e, ty[1])
                if f:
                    pats = []
                    if isinstance(v.el, ArrE):
                        pats = [Select(a, i) for a in v.el.arrs]
                    body = imp(And(i >= 0, i < v.n), and_(*f))
                    for p in pats[:1] if len(pats) == 1 else pats:
                        out.append(FA([i], body, patterns=[p]))
        elif k == 'adt':
            vs = self.P.enum_variants(ty)
            if vs is not None and isinstance(v, En):
                if ival(v.d) is None:
                    out.append(or_(*[v.d == x[2] for x in vs]))
                for x in vs:
                    for t, p in zip(x[1], v.pay.get(x[2], [])):
                        out += self.inv(p, t)   # payload junk of other variants is unconstrained junk: harmless
            else:
                fs = self.P.struct_fields(ty)
                if fs is not None and isinstance(v, Tup):
                    for (_, t), x in zip(fs, v.items):
                        out += self.inv(x, t)
        return out

    def fresh_val(self, ty, name, st=None):
        t = self.strip(ty)
        leaves = [self.fresh(name, s) for s in self.leafsorts(t)]
        v = self.build(t, leaves)
        for f in self.inv(v, t):
            self.fact(st, f)
        return v

    # ---------------------------------------------------------------- merge
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if is_true(c):
            return a
        if is_false(c):
            return b
        if isinstance(a, Poison):
            return b if not isinstance(b, Poison) else a
        if isinstance(b, Poison):
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort():
                return Poison('sort mismatch')
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return Poison('tuple merge')
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.name or b.name)
        if isinstance(a, En) and isinstance(b, En):
            pay = {}
            for k in set(a.pay) | set(b.pay):
                pa, pb = a.pay.get(k), b.pay.get(k)
                if pa is None:
                    pay[k] = pb
                elif pb is None:
                    pay[k] = pa
                elif len(pa) == len(pb):
                    # a payload is only meaningful where its side has that variant
                    da, db = ival(a.d), ival(b.d)
                    if da is not None and da != k:
                        pay[k] = pb
                    elif db is not None and db != k:
                        pay[k] = pa
                    else:
                        pay[k] = [self.merge_val(c, x, y) for x, y in zip(pa, pb)]
                else:
                    pay[k] = pa if len(pa) > len(pb) else pb
            return En(ite(c, a.d, b.d), pay, a.ty)
        if isinstance(a, Sq) and isinstance(b, Sq):
            n = ite(c, a.n, b.n)
            if a.el is b.el:
                return Sq(n, a.el, a.ety)
            if isinstance(a.el, ArrE) and isinstance(b.el, ArrE) and len(a.el.arrs) == len(b.el.arrs):
                return Sq(n, ArrE([self.named(ite(c, x, y)) for x, y in zip(a.el.arrs, b.el.arrs)], a.el.ety, self), a.ety)
            if ival(a.n) == 0:
                return Sq(n, b.el, b.ety)
            if ival(b.n) == 0:
                return Sq(n, a.el, a.ety)
            return Sq(n, FunE(lambda i: self.merge_val(c, a.get(i), b.get(i)), a.ety), a.ety)
        if isinstance(a, It) and isinstance(b, It):
            if a.get is b.get:
                return It(ite(c, a.n, b.n), a.get, ite(c, a.pos, b.pos), a.ity, a.kind)
            return It(ite(c, a.n, b.n), lambda i: self.merge_val(c, a.get(i), b.get(i)), ite(c, a.pos, b.pos), a.ity, a.kind)
        if isinstance(a, RefM) and isinstance(b, RefM):
            if a.same(b):
                return a
            if a.root == b.root and len(a.proj) == len(b.proj) and all(p[0] == q[0] and len(p) == len(q) for p, q in zip(a.proj, b.proj)):
                pr = []
                for p, q in zip(a.proj, b.proj):
                    el = [p[0]]
                    for x, y in zip(p[1:], q[1:]):
                        if z3.is_expr(x) and z3.is_expr(y):
                            el.append(ite(c, x, y))
                        elif x == y:
                            el.append(x)
                        else:
                            return Poison('ref merge')
                    pr.append(tuple(el))
                return RefM(a.root, tuple(pr))
            return Poison('ref merge')
        if isinstance(a, Clo) and isinstance(b, Clo) and a.ty == b.ty:
            return Clo(a.ty, [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('merge')
        if isinstance(a, MapV) and isinstance(b, MapV):
            return self.std.merge_map(c, a, b)
        return Poison('merge %s %s' % (type(a).__name__, type(b).__name__))

    def named(self, t):
        """a definitional name for a merged array (keeps triggers simple)"""
        if t.num_args() == 0 or not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            return t
        c = self.fresh('mrg', t.sort())
        self.facts.append(c == t)
        return c

    def merge_states(self, sts):
        sts = [s for s in sts if not any(is_false(c) for c in s.pc)]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        # common prefix
        k = 0
        m = min(len(s.pc) for s in sts)
        while k < m and all(s.pc[k] is sts[0].pc[k] or s.pc[k].eq(sts[0].pc[k]) for s in sts):
            k += 1
        pre = sts[0].pc[:k]
        suff = [and_(*s.pc[k:]) for s in sts]
        if len(sts) == 2 and (not_(suff[0]).eq(suff[1]) or not_(suff[1]).eq(suff[0])):
            disj = TRUE
        else:
            disj = or_(*suff)
            # try cheap simplification
            if len(sts) <= 3:
                d2 = z3.simplify(disj)
                if is_true(d2):
                    disj = TRUE
        pc = pre if is_true(disj) else pre + (disj,)
        base = sts[-1]
        keys = set()
        for s in sts:
            keys.update(s.store.keys())
        store = {}
        for key in keys:
            v = base.store.get(key, UNINIT)
            for s, c in zip(reversed(sts[:-1]), reversed(suff[:-1])):
                w = s.store.get(key, UNINIT)
                if w is not v:
                    v = self.merge_val(c, w, v)
            store[key] = v
        return State(store, pc)

    def with_cond(self, st, cond, fn):
        """run fn(st') under cond; merge effects back into st; returns fn's value"""
        if is_false(cond):
            return None
        s2 = st.copy()
        s2.assume(cond)
        r = fn(s2)
        for key, v in s2.store.items():
            o = st.store.get(key, UNINIT)
            if o is not v:
                st.store[key] = self.merge_val(cond, v, o) if not isinstance(o, Poison) else v
        return r

    # ---------------------------------------------------------------- places
    def resolve(self, st, fid, place):
        loc, projs = place
        cur = RefM((fid, loc), ())
        i = 0
        while i < len(projs):
            p = projs[i]
            if p[0] == 'deref':
                v = self.read_ref(st, cur)
                if isinstance(v, RefM):
                    cur = v
                elif isinstance(v, Poison):
                    raise Unsupported('deref of ' + v.why)
            elif p[0] == 'field':
                cur = cur.ext(('f', p[1], p[2]))
            elif p[0] == 'variant':
                v = self.read_ref(st, cur)
                if i + 1 < len(projs) and projs[i + 1][0] == 'field':
                    f = projs[i + 1]
                    if isinstance(v, En):
                        vi = self.variant_discr(v.ty, p[1])
                        cur = cur.ext(('vf', vi, f[1], f[2]))
                    elif isinstance(v, Opq):
                        cur = cur.ext(('f', f[1], f[2]))
                    else:
                        raise Unsupported('variant of %s' % type(v).__name__)
                    i += 1
            elif p[0] == 'index':
                idx = st.store[(fid, p[1])]
                cur = cur.ext(('i', idx))
            elif p[0] == 'cindex':
                if p[3]:
                    v = self.read_ref(st, cur)
                    cur = cur.ext(('i', isub(v.n, IntVal(p[1]))))
                else:
                    cur = cur.ext(('i', IntVal(p[1])))
            elif p[0] == 'subslice':
                v = self.read_ref(st, cur)
                hi = isub(v.n, IntVal(p[2])) if p[3] else IntVal(p[2])
                cur = cur.ext(('sl', IntVal(p[1]), hi))
            i += 1
        return cur

    def variant_discr(self, ty, name):
        vs = self.P.enum_variants(ty)
        for v in vs or []:
            if v[0] == name:
                return v[2]
        raise Unsupported('variant %s of %s' % (name, ty))

    def proj_read(self, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, (Tup, Clo)):
                if p[1] < len(v.items):
                    return v.items[p[1]]
                raise Unsupported('field %d of %d-tuple' % (p[1], len(v.items)))
            if isinstance(v, Opq):
                return self.opaque_field(v, p)
            if isinstance(v, Poison):
                return v
            if len(p) > 2 and ('MaybeUninit' in p[2] or 'ManuallyDrop' in p[2] or p[2].startswith('std::boxed::BoxRaw') or p[2].startswith('[')):
                return v
            raise Unsupported('field of %s (%s)' % (type(v).__name__, p))
        if k == 'vf':
            if isinstance(v, En):
                pl = v.pay.get(p[1])
                if pl is None or p[2] >= len(pl):
                    return Poison('absent variant')
                return pl[p[2]]
            raise Unsupported('variant field of %s' % type(v).__name__)
        if k == 'i':
            if isinstance(v, Sq):
                return v.get(p[1])
            raise Unsupported('index of %s' % type(v).__name__)
        if k == 'sl':
            return self.subslice(v, p[1], p[2])
        raise Unsupported(k)

    def opaque_field(self, v, p):
        ty = parse_type(p[2]) if len(p) > 2 else None
        return self.fresh_val(ty, 'opq') if ty is not None else Opq('field')

    def subslice(self, v, lo, hi):
        if ival(lo) == 0:
            return Sq(hi, v.el, v.ety)
        return Sq(isub(hi, lo), FunE(lambda i: v.get(iadd(i, lo)), v.ety), v.ety)

    def read_ref(self, st, ref):
        v = st.store.get(ref.root, UNINIT)
        for p in ref.proj:
            if isinstance(v, RefM):
                v = self.read_ref(st, v)
            v = self.proj_read(v, p)
        return v

    def write_ref(self, st, ref, val):
        old = st.store.get(ref.root, UNINIT)
        st.store[ref.root] = self.upd(st, old, ref.proj, val)

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        rest = proj[1:]
        if isinstance(v, RefM):
            self.write_ref(st, RefM(v.root, v.proj + proj), val)
            return v
        k = p[0]
        if k == 'f':
            if isinstance(v, (Tup, Clo)):
                items = list(v.items)
                items[p[1]] = self.upd(st, items[p[1]], rest, val)
                return Tup(items, v.name) if isinstance(v, Tup) else Clo(v.ty, items)
            if len(p) > 2 and ('MaybeUninit' in p[2] or 'ManuallyDrop' in p[2] or p[2].startswith('[')):
                return self.upd(st, v, rest, val)
            if isinstance(v, Poison):
                # building an aggregate field by field
                return v if rest else Poison('partial init')
            if isinstance(v, Opq):
                return v
            raise Unsupported('write field of %s' % type(v).__name__)
        if k == 'vf':
            pay = dict(v.pay)
            pl = list(pay.get(p[1], []))
            if p[2] >= len(pl):
                raise Unsupported('write absent variant')
            pl[p[2]] = self.upd(st, pl[p[2]], rest, val)
            pay[p[1]] = pl
            return En(v.d, pay, v.ty)
        if k == 'i':
            ety = v.ety
            if not self.leafsorts(ety):
                return v
            v = self.materialize(v, None, st)
            new = self.upd(st, v.get(p[1]), rest, val)
            lv = self.flatten(new, ety, st)
            arrs = []
            for a, l in zip(v.el.arrs, lv):
                s = sel(a, p[1])
                arrs.append(a if l.eq(s) else Store(a, p[1], l))
            return Sq(v.n, ArrE(arrs, v.el.ety, self), v.ety)
        if k == 'sl':
            lo, hi = p[1], p[2]
            sub = self.subslice(v, lo, hi)
            new = self.upd(st, sub, rest, val)
            return Sq(v.n, FunE(lambda i: self.merge_val(and_(icmp('<=', lo, i), icmp('<', i, hi)), new.get(isub(i, lo)), v.get(i)), v.ety), v.ety)
        raise Unsupported('upd ' + k)

    def read_place(self, st, fid, place):
        if not place[1]:
            v = st.store.get((fid, place[0]), UNINIT)
        else:
            v = self.read_ref(st, self.resolve(st, fid, place))
        return v

    # ---------------------------------------------------------------- operands
    def operand(self, st, fid, body, op):
        if op[0] in ('copy', 'move'):
            v = self.read_place(st, fid, op[1])
            if isinstance(v, Poison):
                raise Unsupported('read of %s value' % (v.why or 'poison'))
            return v
        return self.const(body, op[1])

    def const(self, body, c):
        c = c.strip()
        if c.startswith('const '):
            c = c[6:]
        if c == 'true':
            return TRUE
        if c == 'false':
            return FALSE
        if c == '()':
            return Tup([])
        m = re.match(r'^(-?\d+)_(\w+)$', c)
        if m and m.group(2) in INTS:
            return IntVal(int(m.group(1)))
        m = re.match(r'^(-?[\d.]+(?:[eE][-+]?\d+)?)f32$', c)
        if m:
            return fp.lit(m.group(1))
        m = re.match(r'^\+?(-?inf|NaN)_?f32$', c)
        if m:
            return fp.lit(m.group(1))
        if c.startswith('"'):
            return self.str_id(c)
        if c.startswith('b"') or c.startswith("b'"):
            return Opq('bytes:' + c)
        if c.startswith("'"):
            return IntVal(ord(c[1]) if len(c) == 3 else 0)
        m = re.match(r'^ZeroSized: (.*)$', c)
        if m:
            t = m.group(1)
            if t.startswith('{closure@'):
                return Clo(t, [])
            return FnItem(t)
        m = re.match(r'^(?:core|std)::f32::(?:<impl f32>::|consts::)?(\w+)$', c) or re.match(r'^f32::(\w+)$', c)
        if m:
            from fractions import Fraction
            n = m.group(1)
            tab = {'MAX': fp.MAX, 'MIN': fp.rv(-fp.MAXV), 'INFINITY': fp.INF, 'NEG_INFINITY': -fp.INF, 'NAN': fp.NAN,
                   'EPSILON': fp.rv(Fraction(1, 2**23)), 'PI': fp.lit('3.14159265358979'), 'MIN_POSITIVE': fp.rv(Fraction(1, 2**126)),
                   'TAU': fp.lit('6.28318530717958'), 'E': fp.lit('2.71828182845904'), 'SQRT_2': fp.lit('1.41421356237309'),
                   'FRAC_PI_2': fp.lit('1.57079632679489'), 'LN_2': fp.lit('0.693147180559945'), 'LN_10': fp.lit('2.302585092994046'), 'FRAC_1_SQRT_2': fp.lit('0.70710678118654752')}
            if n in tab:
                return tab[n]
        m = re.match(r'^(?:core|std)::num::<impl (\w+)>::(MAX|MIN|BITS)$', c) or re.match(r'^(\w+)::(MAX|MIN|BITS)$', c)
        if m and m.group(1) in INTS:
            bits, sg = INTS[m.group(1)]
            return IntVal({'MAX': (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1, 'MIN': -(1 << (bits - 1)) if sg else 0, 'BITS': bits}[m.group(2)])
        if c == 'std::ops::RangeFull':
            return Tup([], 'RangeFull')
        # crate consts / promoteds
        nm = self.P.norm_name(c)
        b = self.P.consts.get(nm)
        if b is None:
            # promoted of impl methods are printed with the type path
            b = self._find_const(nm)
        if b is not None:
            key = ('const', nm)
            if key in self.loopcache:
                return self.loopcache[key]
            if isinstance(b, tuple):
                v = self.const(None, b[2])
            else:
                try:
                    v = self.eval_const_body(b)
                except Unsupported:
                    v = Opq('const ' + nm)
            self.loopcache[key] = v
            return v
        m = re.match(r'^std::option::Option::<(.*)>::None$', c)
        if m:
            return En(IntVal(0), {0: []}, parse_type('std::option::Option<%s>' % m.group(1)))
        # unit enum variant or fn item
        if '::' in c or re.match(r'^\w+$', c):
            v = self.adt_aggregate(c, None, ())
            if v is not None:
                return v
            return FnItem(c)
        return Opq(c)

    def _find_const(self, nm):
        # `a::b::Type::method::promoted[0]` vs normalised `a::b::Type::method::promoted[0]` (trait impls carry @Trait)
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', nm)
        if m:
            for k, v in self.P.consts.items():
                if k.endswith('promoted[%s]' % m.group(2)):
                    k2 = re.sub(r'@\w+', '', k)
                    if k2 == nm:
                        return v
        return None

    def eval_const_body(self, b):
        st = State({}, ())
        save = (self.panic_mode,)
        self.panic_mode = 'assume'
        try:
            outs = self.run_body(b, [], st)
        finally:
            self.panic_mode = save[0]
        if not outs:
            raise Unsupported('const diverges')
        s, v = outs[0]
        if isinstance(v, RefM):
            v = self.read_ref(s, v)
        return v

    # ---------------------------------------------------------------- rvalues
    def adt_aggregate(self, path, kind, ops):
        """ops already evaluated; returns value or None if path is not a type"""
        t = parse_type(path) if not path.startswith('<') else ('other', path)
        if t[0] == 'adt' and kind == 'named':
            fs = self.P.struct_fields(t)
            if fs is not None:
                names = [n for n, _ in fs]
                d = dict(ops)
                if set(d) <= set(names):
                    return Tup([d.get(n, Opq('unset')) for n in names], t[1])
                return Tup([v for _, v in ops], t[1])
        # enum variant: strip last segment
        m = re.match(r'^(.*)::(\w+)$', path)
        if m:
            base, var = m.group(1), m.group(2)
            bt = parse_type(base) if not base.startswith('<') else ('other',)
            if bt[0] == 'adt':
                vs = self.P.enum_variants(bt)
                if vs is not None:
                    for v in vs:
                        if v[0] == var:
                            return En(IntVal(v[2]), {v[2]: [o[1] if kind == 'named' else o for o in ops]}, bt)
        if t[0] == 'adt':
            fs = self.P.struct_fields(t)
            if fs is not None and kind in ('pos',):
                return Tup(list(ops), t[1])
            if kind == 'named':
                return Tup([v for _, v in ops], t[1])
            if kind is None and t[1] in ('std::ops::RangeFull',):
                return Tup([], t[1])
        return None

    def binop(self, st, op, a, b, ty):
        if ty is not None and ty[0] == 'float' or (z3.is_expr(a) and z3.is_real(a)):
            f = {'Add': fp.add, 'Sub': fp.sub, 'Mul': fp.mul, 'Div': fp.div, 'Rem': fp.rem, 'Eq': fp.eq, 'Lt': fp.lt, 'Le': fp.le,
                 'Gt': fp.gt, 'Ge': fp.ge}.get(op)
            if f:
                return f(a, b)
            if op == 'Ne':
                return not_(fp.eq(a, b))
            raise Unsupported('float ' + op)
        if z3.is_expr(a) and z3.is_bool(a):
            if op == 'Eq':
                return z3.simplify(a == b) if (is_true(a) or is_false(a) or is_true(b) or is_false(b)) else a == b
            if op == 'Ne':
                return not_(a == b)
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            if op == 'BitXor':
                return z3.Xor(a, b)
            raise Unsupported('bool ' + op)
        if isinstance(a, Tup) and isinstance(b, Tup) and not a.items and not b.items:
            return BoolVal(op in ('Eq', 'Le', 'Ge'))
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('binop on %s' % type(a).__name__)
        if op == 'Eq':
            return icmp('==', a, b)
        if op == 'Ne':
            return icmp('!=', a, b)
        if op == 'Lt':
            return icmp('<', a, b)
        if op == 'Le':
            return icmp('<=', a, b)
        if op == 'Gt':
            return icmp('<', b, a)
        if op == 'Ge':
            return icmp('<=', b, a)
        it = ty[1] if ty is not None and ty[0] == 'int' else 'i128'
        bits, sg = INTS[it]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
            n = ival(r)
            if n is not None:
                return Tup([r, BoolVal(not (lo <= n <= hi))])
            return Tup([r, or_(r < lo, r > hi) if sg else (r < 0 if op[0] == 'S' else r > hi)])
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
            return self.wrap(r, bits, sg)
        if op in ('Div', 'Rem'):
            if not sg:
                return idiv(a, b) if op == 'Div' else imod(a, b)
            # signed truncating
            x, y = ival(a), ival(b)
            if x is not None and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return IntVal(q if op == 'Div' else x - q * y)
            absd = If(b >= 0, b, -b) if y is None else IntVal(abs(y))
            absn = If(a >= 0, a, -a)
            q0 = idiv(absn, absd)
            if op == 'Div':
                return If((a >= 0) == (b >= 0), q0, -q0) if y is None else (If(a >= 0, q0, -q0) if y > 0 else If(a >= 0, -q0, q0))
            r0 = imod(absn, absd)
            return If(a >= 0, r0, -r0)
        if op in ('Shl', 'Shr'):
            y = ival(b)
            if y is not None:
                return self.wrap(imul(a, IntVal(1 << y)), bits, sg) if op == 'Shl' else a / IntVal(1 << y)
        if op == 'BitAnd' and not sg:
            y = ival(b)
            if y is not None and (y & (y + 1)) == 0:
                return imod(a, IntVal(y + 1))
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            x, y = ival(a), ival(b)
            if x is not None and y is not None:
                return IntVal({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(op, 0))
            r = self.fresh_int('bits')
            self.fact(st, and_(r >= lo, r <= hi))
            return r
        raise Unsupported('int op ' + op)

    def wrap(self, r, bits, sg):
        n = ival(r)
        m = 1 << bits
        if n is not None:
            n %= m
            if sg and n >= m // 2:
                n -= m
            return IntVal(n)
        lo, hi = (-(m // 2), m // 2 - 1) if sg else (0, m - 1)
        w = r % m
        if sg:
            w = If(r % m >= m // 2, r % m - m, r % m)
        return If(And(r >= lo, r <= hi), r, w)

    def int_cast(self, v, to):
        if z3.is_bool(v):
            return ite(v, IntVal(1), IntVal(0))
        bits, sg = INTS[to]
        return self.wrap(v, bits, sg)

    def place_type(self, body, place):
        loc, projs = place
        t = parse_type(body.locals[loc])
        for p in projs:
            if p[0] == 'field':
                t = parse_type(p[2])
            elif p[0] == 'deref':
                t = t[2] if t and t[0] == 'ref' else (t[1] if t and t[0] == 'box' else None)
            elif p[0] in ('index', 'cindex'):
                t = t[1] if t and t[0] in ('slice', 'array', 'vec') else None
            elif p[0] == 'variant':
                continue
        return t

    def operand_type(self, body, op):
        if op[0] in ('copy', 'move'):
            return self.place_type(body, op[1])
        return self.P.op_type(body, op)

    def rvalue(self, st, fid, body, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fid, body, rv[1])
        if k == 'ref':
            _, mut, place = rv
            if mut:
                return self.resolve(st, fid, place)
            v = self.read_place(st, fid, place)
            return v
        if k == 'addr':
            return self.read_place(st, fid, rv[1])
        if k == 'bin':
            a = self.operand(st, fid, body, rv[2])
            b = self.operand(st, fid, body, rv[3])
            return self.binop(st, rv[1], a, b, self.operand_type(body, rv[2]) or self.operand_type(body, rv[3]))
        if k == 'un':
            if rv[1] == 'PtrMetadata':
                a = self.operand(st, fid, body, rv[2])
                if isinstance(a, RefM):
                    a = self.read_ref(st, a)
                if isinstance(a, Sq):
                    return a.n
                if z3.is_expr(a):
                    return self.std.str_len(st, a)
                raise Unsupported('PtrMetadata of %s' % type(a).__name__)
            a = self.operand(st, fid, body, rv[2])
            if rv[1] == 'Not':
                if z3.is_bool(a):
                    return not_(a)
                raise Unsupported('bitwise not')
            if z3.is_real(a):
                return fp.neg(a)
            return IntVal(-ival(a)) if ival(a) is not None else -a
        if k == 'len':
            return self.read_place(st, fid, rv[1]).n
        if k == 'discr':
            v = self.read_place(st, fid, rv[1])
            if isinstance(v, En):
                return v.d
            if isinstance(v, Opq):
                return self.fresh_int('discr')
            raise Unsupported('discriminant of %s' % type(v).__name__)
        if k == 'cast':
            _, kind, op, ty = rv
            v = None
            if kind == 'BoxDerefTransmute':
                return self.resolve(st, fid, (op[1][0], ()))
            v = self.operand(st, fid, body, op)
            t = parse_type(ty)
            if kind == 'IntToInt':
                if isinstance(v, En):
                    v = v.d
                if not z3.is_expr(v):
                    raise Unsupported('cast of %s' % type(v).__name__)
                return self.int_cast(v, t[1])
            if kind == 'IntToFloat':
                if z3.is_bool(v):
                    v = ite(v, IntVal(1), IntVal(0))
                return fp.from_int(v)
            if kind == 'FloatToInt':
                bits, sg = INTS[t[1]]
                return fp.to_int(v, bits, sg)
            if kind == 'FloatToFloat':
                return v
            if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Subtype'):
                return v
            if kind == 'Transmute':
                return self.fresh_val(t, 'transmute', st)
            raise Unsupported('cast ' + kind)
        if k == 'array':
            items = [self.operand(st, fid, body, o) for o in rv[1]]
            ety = dty[1] if dty and dty[0] in ('array', 'slice') else None
            return self.seq_of(items, ety, st)
        if k == 'repeat':
            v = self.operand(st, fid, body, rv[1])
            m = re.match(r'^(?:const )?(\d+)(_usize)?$', rv[2])
            n = IntVal(int(m.group(1))) if m else self.const(body, rv[2])
            ety = dty[1] if dty and dty[0] == 'array' else None
            return self.repeat(v, n, ety)
        if k == 'tuple':
            return Tup([self.operand(st, fid, body, o) for o in rv[1]])
        if k == 'closure':
            return Clo(rv[1], [self.operand(st, fid, body, o) for _, o in rv[2]])
        if k == 'adt':
            _, path, kind, ops = rv
            if kind == 'named':
                vals = [(f, self.operand(st, fid, body, o)) for f, o in ops]
            else:
                vals = [self.operand(st, fid, body, o) for o in ops]
            v = self.adt_aggregate(path, kind, vals)
            if v is None:
                return Opq(path)
            return v
        raise Unsupported('rvalue ' + k)

    def seq_of(self, items, ety, st=None):
        if ety is None:
            return Sq(IntVal(len(items)), FunE(lambda i: self._pick(items, i), None), None)
        ls = self.leafsorts(ety)
        if not ls:
            return Sq(IntVal(len(items)), FunE(lambda i: items[0] if items else Opq(''), ety), ety)
        if any(isinstance(x, (RefM, Clo, FnItem, MapV)) for x in items):
            return Sq(IntVal(len(items)), FunE(lambda i: self._pick(items, i), ety), ety)
        arrs = [self.default_array(s) for s in ls]
        for i, x in enumerate(items):
            lv = self.flatten(x, ety, st)
            arrs = [Store(a, i, l) for a, l in zip(arrs, lv)]
        return Sq(IntVal(len(items)), ArrE(arrs, ety, self), ety)

    def _pick(self, items, i):
        n = ival(i)
        if n is not None and 0 <= n < len(items):
            return items[n]
        v = items[-1]
        for j in range(len(items) - 2, -1, -1):
            v = self.merge_val(i == j, items[j], v)
        return v

    def default_array(self, s):
        return self.fresh('arr', z3.ArraySort(z3.IntSort(), s))

    def repeat(self, v, n, ety):
        return Sq(n, FunE(lambda i: v, ety), ety)

    # ---------------------------------------------------------------- bodies
    def cfg(self, body):
        c = getattr(self.P, '_cfg', None)
        if c is None:
            c = self.P._cfg = {}
        r = c.get(id(body))
        if r is None:
            r = c[id(body)] = CFG(body)
        return r

    def run_body(self, body, args, st):
        """execute; returns list of (state, retval) at returns (states share no merging)."""
        if len(self.stack) > self.maxdepth:
            raise Unsupported('inline depth')
        fid = next(self.fid)
        for loc, v in zip(body.args, args):
            st.store[(fid, loc)] = v
        if len(args) != len(body.args):
            raise Unsupported('arity of ' + body.name)
        for loc, ty in body.locals.items():
            # closures without captures are zero-sized: MIR never assigns them
            if ty.startswith('{closure@') and (fid, loc) not in st.store:
                st.store[(fid, loc)] = Clo(ty, [])
        cfg = self.cfg(body)
        rets = []
        self.region(body, fid, cfg, cfg.order, 0, st, None, rets)
        out = []
        for s in rets:
            v = s.store.get((fid, 0), UNINIT)
            if body.ret == '()' and isinstance(v, Poison):
                v = Tup([])
            out.append((s, v))
        return out

    def call_body(self, body, args, st, name):
        """inline: returns value, updating st in place; None if it never returns"""
        self.stack.append(name)
        try:
            outs = self.run_body(body, args, st.copy())
        finally:
            self.stack.pop()
        if not outs:
            st.pc = st.pc + (FALSE,)
            return Poison('diverges')
        key = ('ret', next(self.cnt))
        for s, v in outs:
            s.store[key] = v
        m = self.merge_states([s for s, _ in outs])
        if m is None:
            st.pc = st.pc + (FALSE,)
            return Poison('diverges')
        v = m.store.pop(key)
        keep = set(st.store.keys())
        # drop callee locals unless reachable through returned references
        roots = set()
        self.collect_roots(v, roots)
        frontier = list(roots)
        while frontier:
            r = frontier.pop()
            if r in m.store:
                s2 = set()
                self.collect_roots(m.store[r], s2)
                for q in s2 - roots:
                    roots.add(q)
                    frontier.append(q)
        st.store = {k: x for k, x in m.store.items() if k in keep or k in roots}
        st.pc = m.pc
        return v

    def collect_roots(self, v, out):
        if isinstance(v, RefM):
            out.add(v.root)
        elif isinstance(v, (Tup, Clo)):
            for x in v.items:
                self.collect_roots(x, out)
        elif isinstance(v, En):
            for p in v.pay.values():
                for x in p:
                    self.collect_roots(x, out)
        elif isinstance(v, It):
            try:
                self.collect_roots(v.get(Int('probe!root')), out)
            except Unsupported:
                pass
        elif isinstance(v, Sq) and isinstance(v.el, FunE) and v.ety is not None and v.ety[0] == 'ref' and v.ety[1]:
            self.collect_roots(v.get(Int('probe!root')), out)

    def region(self, body, fid, cfg, blocks, entry, st, header, rets):
        """execute an acyclic region (inner loops cut). returns (backs, exits)"""
        blkset = cfg.regions[header]
        incoming = {entry: [st]}
        backs = []
        exits = {}

        def send(t, s):
            if any(is_false(c) for c in s.pc[-2:]):
                return
            if t == header:
                backs.append(s)
            elif t not in blkset:
                exits.setdefault(t, []).append(s)
            else:
                incoming.setdefault(t, []).append(s)
        done_loops = set()
        for b in blocks:
            if b not in blkset:
                continue
            lp = cfg.inner_loop(b, header)
            if lp is not None:
                if b != lp or lp in done_loops:
                    continue
                done_loops.add(lp)
                ins = incoming.pop(b, None)
                if not ins:
                    continue
                s = self.merge_states(ins)
                if s is None:
                    continue
                ex = self.loop(body, fid, cfg, lp, s, rets)
                for t, ss in ex.items():
                    for x in ss:
                        send(t, x)
                continue
            ins = incoming.pop(b, None)
            if not ins:
                continue
            if b in cfg.tail and len(ins) > 1:
                # trivially returning block: keep the paths apart
                for s in ins:
                    if any(is_false(c) for c in s.pc):
                        continue
                    self.block(body, fid, body.blocks[b], s.copy(), send, rets, b)
                continue
            s = self.merge_states(ins)
            if s is None:
                continue
            if len(ins) == 1:
                s = s.copy()
            self.block(body, fid, body.blocks[b], s, send, rets, b)
        return backs, exits

    def block(self, body, fid, blk, st, send, rets, bno):
        if blk.term is None:
            finish_block(blk)
        for s in blk.stmts:
            if s[0] == 'assign':
                place, rv = s[1], s[2]
                dty = self.place_type(body, place) if rv[0] in ('array', 'repeat') else None
                try:
                    v = self.rvalue(st, fid, body, rv, dty)
                except Unsupported as e:
                    if rv[0] == 'use' or rv[0] == 'ref':
                        v = Poison(str(e))
                    else:
                        raise
                if not place[1]:
                    st.store[(fid, place[0])] = v
                else:
                    self.write_ref(st, self.resolve(st, fid, place), v)
            elif s[0] == 'setdiscr':
                raise Unsupported('set discriminant')
        t = blk.term
        k = t[0]
        if k == 'goto':
            send(t[1], st)
        elif k == 'return':
            rets.append(st)
        elif k == 'switch':
            v = self.operand(st, fid, body, t[1])
            cases, other = t[2], t[3]
            if z3.is_bool(v):
                for val, tgt in cases:
                    c = not_(v) if val == 0 else v
                    s2 = st.copy()
                    s2.assume(c)
                    if not is_false(c):
                        send(tgt, s2)
                if other is not None:
                    vals = {val for val, _ in cases}
                    c = v if vals == {0} else (not_(v) if vals == {1} else FALSE)
                    if not is_false(c):
                        s2 = st.copy()
                        s2.assume(c)
                        send(other, s2)
                return
            if not z3.is_expr(v):
                raise Unsupported('switch on %s' % type(v).__name__)
            oc = []
            signed_d = t[1][0] in ('copy', 'move')
            for val, tgt in cases:
                # discriminants of Ordering are printed as 255 for -1
                val2 = val
                if val >= 128 and val in (255, 65535, 2**32 - 1, 2**64 - 1):
                    dt = self.operand_type(body, t[1])
                    if dt and dt[0] == 'int' and INTS[dt[1]][1]:
                        val2 = val - (1 << INTS[dt[1]][0])
                c = icmp('==', v, IntVal(val2))
                oc.append(not_(c))
                if not is_false(c):
                    s2 = st.copy()
                    s2.assume(c)
                    send(tgt, s2)
            if other is not None:
                c = and_(*oc)
                if not is_false(c):
                    ob = body.blocks[other]
                    if ob.term is None:
                        finish_block(ob)
                    if ob.term[0] == 'unreachable' and not ob.stmts:
                        return
                    s2 = st.copy()
                    s2.assume(c)
                    send(other, s2)
        elif k == 'assert':
            v = self.operand(st, fid, body, t[1])
            goal = not_(v) if t[2] else v
            msg = t[3].strip('"')
            kind = 'bounds' if 'index out of bounds' in msg else 'div0' if 'divisor of zero' in msg or 'divide' in msg else 'overflow'
            self.oblige(st, goal, msg[:60], kind)
            st.assume(goal) if not is_true(goal) else None
            # the fact is recorded already; keep pc small
            if not is_true(goal):
                st.pc = st.pc[:-1]
            send(t[4], st)
        elif k == 'call':
            self.call(body, fid, st, t, send)
        elif k == 'unreachable':
            return
        elif k == 'resume':
            return
        else:
            raise Unsupported('terminator ' + k)

    # ---------------------------------------------------------------- calls
    def call(self, body, fid, st, t, send):
        _, dest, callee, ops, tgt = t
        args = []
        for o in ops:
            v = self.read_place(st, fid, o[1]) if o[0] in ('copy', 'move') else self.const(body, o[1])
            args.append(v)
        dty = self.place_type(body, dest)
        atys = [self.operand_type(body, o) for o in ops]
        v = self.do_call(st, callee, args, atys, dty, body, fid)
        if any(is_false(c) for c in st.pc):
            return
        if tgt is None:
            return
        if not dest[1]:
            st.store[(fid, dest[0])] = v
        else:
            self.write_ref(st, self.resolve(st, fid, dest), v)
        send(tgt, st)

    def do_call(self, st, callee, args, atys, dty, body=None, fid=None):
        # indirect through closure/fn values held in locals
        if callee.startswith('move ') or callee.startswith('copy '):
            f = self.read_place(st, fid, parse_place(callee[5:]))
            return self.call_value(st, f, args)
        nm = self.P.norm_name(callee)
        b = self.lookup(nm)
        if b is not None:
            if b[0] in self.havoc_fns:
                return self.havoc_call(st, b[0], args, atys, dty)
            return self.call_crate(st, b[0], b[1], args, atys)
        if self.partial:
            try:
                return self.std.call(st, callee, args, atys, dty)
            except Unsupported as e:
                return self.havoc_call(st, callee, args, atys, dty, str(e))
        return self.std.call(st, callee, args, atys, dty)

    def havoc_call(self, st, name, args, atys, dty, why=''):
        """a call about which nothing is known: any result of its type, anything in what it may write to"""
        self.havocked.setdefault(name, why)
        for v in args:
            self.havoc_reach(st, v)
        return Tup([]) if dty == ('tuple', ()) or dty is None else self.fresh_val(dty, 'h_' + name.split('::')[-1], st)

    def havoc_reach(self, st, v):
        if isinstance(v, RefM):
            x = self.read_ref(st, v)
            if isinstance(x, RefM):
                return self.havoc_reach(st, x)
            ty = getattr(v, 'ty', None)
            self.write_ref(st, v, self.rehavoc(st, x))
        elif isinstance(v, (Tup, Clo)):
            for x in v.items:
                self.havoc_reach(st, x)
        elif isinstance(v, En):
            for k in v.pay:
                for x in v.pay[k]:
                    self.havoc_reach(st, x)

    def rehavoc(self, st, x):
        raise Unsupported('havoc through a reference')

    def lookup(self, nm):
        P = self.P
        if nm in P.fns:
            return nm, P.fns[nm]
        m = re.match(r'^<(.+) as (.+)>::(\w+)$', nm)
        if m:
            t = parse_type(m.group(1))
            if t[0] == 'adt' and not t[1].startswith('std::'):
                tr = m.group(2).split('<')[0].split('::')[-1]
                mod, _, short = t[1].rpartition('::')
                k = '%s%s@%s::%s' % (mod + '::' if mod else '', short, tr, m.group(3))
                if k in P.fns:
                    if tr in ('Clone', 'PartialEq', 'Debug', 'Hash', 'Eq'):
                        return None
                    return k, P.fns[k]
        return None

    def call_crate(self, st, name, body, args, atys):
        c = self.contracts.get(name)
        if c is not None and self.cur is not None and name != self.cur.fn and not getattr(c, 'inline', False):
            self.used_contracts.add(name)
            for nm, f in self.opts.get('ghost', {}).get(name, ()):
                self.oblige(st, f(self), 'assertion: ' + nm, 'assert')
            return c.apply(self, st, args, body)
        self.inlined.add(name)
        return self.call_body(body, args, st, name.split('::')[-1])

    def call_value(self, st, f, args):
        if isinstance(f, RefM):
            f2 = self.read_ref(st, f)
            if isinstance(f2, Clo):
                b = self.P.closures.get(f2.ty)
                if b is None:
                    raise Unsupported('closure body missing')
                return self.call_body(b, [f] + list(args), st, 'closure')
            f = f2
        if isinstance(f, Clo):
            b = self.P.closures.get(f.ty)
            if b is None:
                raise Unsupported('closure body missing')
            return self.call_body(b, [f] + list(args), st, 'closure')
        if isinstance(f, FnItem):
            b = self.lookup(self.P.norm_name(f.name))
            if b is not None:
                return self.call_crate(st, b[0], b[1], list(args), None)
            v = self.adt_aggregate(f.name, 'pos', list(args))
            if v is not None:
                return v
            return self.std.call(st, f.name, list(args), [None] * len(args), None)
        raise Unsupported('call of %s' % type(f).__name__)

    # evaluate fn(k) for a generic index k in [0,n): returns python function index -> value
    def generic(self, st, n, fn, name='k', lo=None):
        k = Int('%s!%d' % (name, next(self.cnt)))
        guard = and_(icmp('<=', lo, k) if lo is not None else k >= 0, icmp('<', k, n)) if n is not None else (k >= 0)
        nf = len(self.facts)
        s2 = st.copy()
        s2.assume(guard)
        before = dict(s2.store)
        self.binders.append((k, guard))
        try:
            v = fn(s2, k)
        finally:
            self.binders.pop()
        for key, x in s2.store.items():
            if key in before and before[key] is not x:
                if not self.same_val(before[key], x):
                    raise Unsupported('closure with side effects in lazy iterator')
        self._close_binder(nf, k)
        return (lambda i: subst(v, k, i)), k, v

    def same_val(self, a, b):
        try:
            la, lb = self.pyleaves(a), self.pyleaves(b)
        except Unsupported:
            return False
        if len(la) != len(lb):
            return False
        for (p, x), (q, y) in zip(la, lb):
            if p != q:
                return False
            if x is y:
                continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                continue
            if isinstance(x, RefM) and isinstance(y, RefM) and x.same(y):
                continue
            return False
        return True

    # python-level leaves: list of (path, leaf)
    def pyleaves(self, v, path=()):
        if z3.is_expr(v):
            return [(path, v)]
        if isinstance(v, (Tup, Clo)):
            return [l for i, x in enumerate(v.items) for l in self.pyleaves(x, path + (i,))]
        if isinstance(v, En):
            out = [(path + ('d',), v.d)]
            for k in sorted(v.pay):
                for i, x in enumerate(v.pay[k]):
                    out += self.pyleaves(x, path + (('v', k), i))
            return out
        if isinstance(v, Sq):
            out = [(path + ('n',), v.n)]
            if isinstance(v.el, ArrE):
                for i, a in enumerate(v.el.arrs):
                    out.append((path + (('a', i),), a))
            else:
                out.append((path + ('el',), v.el))
            return out
        if isinstance(v, It):
            return [(path + ('n',), v.n), (path + ('pos',), v.pos), (path + ('get',), v.get)]
        return [(path, v)]

    # ---------------------------------------------------------------- loops
    def havoc_val(self, v, ty, st, keep=None, path=(), name='h'):
        """fresh copy of v; keep(path)->bool tells which leaves stay"""
        def kp(p):
            return keep is not None and keep(p)
        if z3.is_expr(v):
            return v if kp(path) else self.fresh(name, v.sort())
        if isinstance(v, Tup):
            return Tup([self.havoc_val(x, None, st, keep, path + (i,), name) for i, x in enumerate(v.items)], v.name)
        if isinstance(v, Clo):
            return Clo(v.ty, [self.havoc_val(x, None, st, keep, path + (i,), name) for i, x in enumerate(v.items)])
        if isinstance(v, En):
            if kp(path + ('d',)) and all(kp(p) for p, _ in self.pyleaves(v, path)):
                return v
            # complete payloads from the type
            pay = {}
            vs = self.P.enum_variants(v.ty) if v.ty else None
            for var in vs or []:
                d = var[2]
                pl = []
                for i, t in enumerate(var[1]):
                    if d in v.pay and i < len(v.pay[d]):
                        pl.append(self.havoc_val(v.pay[d][i], t, st, keep, path + (('v', d), i), name))
                    else:
                        pl.append(self.fresh_val(t, name, None))
                pay[d] = pl
            return En(v.d if kp(path + ('d',)) else self.fresh(name, z3.IntSort()), pay, v.ty)
        if isinstance(v, Sq):
            n = v.n if kp(path + ('n',)) else self.fresh(name + 'n', z3.IntSort())
            if isinstance(v.el, ArrE):
                arrs = [a if kp(path + (('a', i),)) else self.fresh(name + 'a', a.sort()) for i, a in enumerate(v.el.arrs)]
                el = ArrE(arrs, v.el.ety, self)
            elif kp(path + ('el',)):
                el = v.el
            else:
                if v.ety is None:
                    raise Unsupported('havoc of untyped sequence')
                el = ArrE([self.fresh(name + 'a', z3.ArraySort(z3.IntSort(), s)) for s in self.leafsorts(v.ety)], v.ety, self)
            return Sq(n, el, v.ety)
        if isinstance(v, It):
            if not kp(path + ('get',)) and keep is not None:
                return Poison('iterator replaced in loop')
            return It(v.n if kp(path + ('n',)) or keep is None else self.fresh(name + 'n', z3.IntSort()), v.get, v.pos if kp(path + ('pos',)) else self.fresh(name + 'p', z3.IntSort()), v.ity, v.kind)
        if isinstance(v, RefM):
            return v if keep is None or kp(path) else Poison('reference assigned in loop')
        if isinstance(v, MapV):
            return v if kp(path) else self.std.havoc_map(st, v)
        return v

    def loop(self, body, fid, cfg, header, st, rets):
        blocks = cfg.loops[header]
        key = (tuple(self.stack), self.P.raw_name.get(id(body), body.name), header)
        # locals live at the header
        live = cfg.live_in(header)
        assigned = cfg.assigned(header)
        # concrete unrolling of short constant loops
        un = self.try_unroll(body, fid, cfg, header, st, rets)
        if un is not None:
            return un
        # keys that may matter: everything except this frame's dead locals
        for (f, l) in list(st.store.keys()):
            pass
        keys_live = set()
        roots = set()
        for k2, v in st.store.items():
            if isinstance(k2, tuple) and len(k2) == 2 and k2[0] == fid and isinstance(k2[1], int):
                if k2[1] in live:
                    keys_live.add(k2)
            else:
                keys_live.add(k2)
        frontier = list(keys_live)
        while frontier:
            k2 = frontier.pop()
            rs = set()
            self.collect_roots(st.store.get(k2), rs)
            for r in rs:
                if r not in keys_live and r in st.store:
                    keys_live.add(r)
                    frontier.append(r)
        base = State({k2: st.store[k2] for k2 in keys_live}, st.pc)
        # discovery of modified leaves
        def rel(ch):
            return {(('F', k2[1]) if k2[0] == fid else k2): (None if v is None else frozenset(v)) for k2, v in ch.items()}

        def unrel(ch):
            return {((fid, k2[1]) if k2[0] == 'F' else k2): (None if v is None else set(v)) for k2, v in ch.items()}

        def diff(h, backs):
            newch = {}
            for k2 in keys_live:
                hv = h.store[k2]
                hl = None
                for b in backs:
                    bv = b.store.get(k2, UNINIT)
                    if bv is hv:
                        continue
                    if hl is None:
                        hl = dict(self.pyleaves(hv))
                    bd = dict(self.pyleaves(bv))
                    for p, x in hl.items():
                        y = bd.get(p)
                        same = y is x or (z3.is_expr(x) and y is not None and z3.is_expr(y) and x.eq(y)) or (isinstance(x, RefM) and isinstance(y, RefM) and x.same(y))
                        if not same:
                            newch.setdefault(k2, set()).add(p)
                    for p in bd:
                        if p not in hl:
                            newch.setdefault(k2, set()).add(p)
            return newch

        def grow(changed, newch):
            grew = False
            for k2, ps in newch.items():
                if k2 not in changed:
                    changed[k2] = set(ps)
                    grew = True
                elif changed[k2] is not None:
                    extra = {p for p in ps if not self.path_changed(p, changed[k2])}
                    if extra:
                        changed[k2] |= extra
                        grew = True
            return grew
        cached = self.loopcache.get(key)
        if cached is not None:
            changed = unrel(cached)
        else:
            changed = {}
            for k2 in keys_live:
                if k2[0] == fid and k2[1] in assigned:
                    changed[k2] = None      # None: all leaves
            shrunk = False
            for _ in range(16):
                snap = (len(self.facts), len(self.obls), len(self.cands))
                self.dry += 1
                try:
                    h = self.havoc_state(base, changed, body, fid)
                    rr = []
                    backs, exits = self.region(body, fid, cfg, cfg.order, header, h.copy(), header, rr)
                finally:
                    self.dry -= 1
                    del self.facts[snap[0]:]
                    del self.obls[snap[1]:]
                    del self.cands[snap[2]:]
                newch = diff(h, backs)
                if grow(changed, newch):
                    continue
                if not shrunk:
                    shrunk = True
                    changed = newch
                    continue
                break
            else:
                raise Unsupported('loop footprint did not converge')
        for attempt in range(6):
            snap = (len(self.facts), len(self.obls), len(self.cands), len(rets))
            h = self.havoc_state(base, changed, body, fid)
            # type facts for fresh leaves
            for k2 in changed:
                if k2 in base.store:
                    self.type_facts(h, k2, body, fid, base.store.get(k2))
            # candidate invariants
            mine = []
            if not self.dry:
                import cands
                cl = cands.generate(self, body, fid, base, h, changed, key, header)
                if self.opts.get('extrema') and not self.partial:
                    cl = list(cl) + self.scan_cands(body, fid, cfg, header, base, h, changed)
                for desc, pred in cl:
                    if self.partial and not desc.startswith('*'):
                        continue
                    try:
                        e0 = pred(base)
                        e1 = pred(h)
                    except Unsupported:
                        continue
                    if is_true(e1) or is_true(z3.simplify(e1)) or is_false(e0):
                        continue
                    lit = z3.Bool('c!%d' % next(self.cnt))
                    c = Cand(lit, desc, key)
                    self.cands.append(c)
                    mine.append((c, pred))
                    self.obls.append(Obl('init ' + desc, 'inv', len(self.facts), base.pc, e0, self.where(), c))
                    self.facts.append(imp(lit, imp(and_(*h.pc), e1)))
            backs, exits = self.region(body, fid, cfg, cfg.order, header, h.copy(), header, rets)
            if grow(changed, diff(h, backs)):
                del self.facts[snap[0]:]
                del self.obls[snap[1]:]
                del self.cands[snap[2]:]
                del rets[snap[3]:]
                continue
            break
        else:
            raise Unsupported('loop footprint did not converge')
        self.loopcache[key] = rel(changed)
        if not self.dry:
            for b in backs:
                for c, pred in mine:
                    try:
                        e = pred(b)
                    except Unsupported:
                        e = FALSE
                    self.obls.append(Obl('keep ' + c.desc, 'inv', len(self.facts), b.pc, e, self.where(), c))
        return exits

    def scan_cands(self, body, fid, cfg, header, base, h, changed):
        """candidates 'every position passed so far met the condition to go round again', read off a dry run of the loop body"""
        import cands
        from cands import accs_of, bvar
        cnt0 = next(self.cnt)
        snap = (len(self.facts), len(self.obls), len(self.cands))
        self.dry += 1
        try:
            backs, _ = self.region(body, fid, cfg, cfg.order, header, h.copy(), header, [])
        finally:
            self.dry -= 1
            # names given to arrays in the body
            defs = []
            for f in self.facts[snap[0]:]:
                while z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
                    f = f.arg(1)
                if z3.is_eq(f) and z3.is_const(f.arg(0)) and z3.is_array(f.arg(0)) and z3.is_app_of(f.arg(1), z3.Z3_OP_STORE):
                    defs.append((f.arg(0), f.arg(1)))
            del self.facts[snap[0]:]
            del self.obls[snap[1]:]
            del self.cands[snap[2]:]
        if not backs:
            return []
        npc = len(h.pc)
        fresh = {}

        def consts(t, out, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                return consts(t.body(), out, seen)
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                    out[t.get_id()] = t
                elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and is_new(t.decl().name()):
                    out[t.get_id()] = t
                for x in t.children():
                    consts(x, out, seen)
        hc = {}
        for k2, ps in changed.items():
            if k2 in h.store:
                for pth, x in self.pyleaves(h.store[k2]):
                    if z3.is_expr(x) and self.path_changed(pth, ps if ps is not None else [pth]):
                        consts(x, hc, set())

        def is_new(nm):
            m = re.search(r'!(\d+)$', nm)
            return bool(m) and int(m.group(1)) >= cnt0

        def flat(t):
            if z3.is_and(t):
                return [y for x in t.children() for y in flat(x)]
            return [t]
        keys = list(h.store.keys())
        out = []
        for a in accs_of(self, h, changed, keys, lambda k: '_%s' % (k[1],)):
            if not a.changed or a.kind not in ('it', 'int') or a.guards:
                continue
            try:
                p = a(h).pos if a.kind == 'it' else a(h)
                p0 = a(base).pos if a.kind == 'it' else a(base)
            except Exception:
                continue
            if not (z3.is_expr(p) and z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED) or not z3.is_expr(p0) and not isinstance(p0, int):
                continue
            def okc(y, need=True):
                d = {}
                consts(y, d, set())
                return (not need or p.get_id() in d) and all(c.get_id() == p.get_id() or (c.get_id() not in hc and not is_new(c.decl().name())) for c in d.values())
            if len(backs) == 1:
                out += self.map_cands(a, p, p0, base, h, backs[0], changed, okc, defs)
            alts = []
            for b in backs:
                cs = []
                for t in b.pc[npc:]:
                    for y in flat(t):
                        if okc(y):
                            cs.append(y)
                alts.append(cs)
            if not all(alts):
                continue

            def mk(cs):
                C = Or(*[And(*x) for x in cs]) if len(cs) > 1 else And(*cs[0])

                def pred(st, C=C, a=a, p=p, p0=p0):
                    k = bvar()
                    q = a(st).pos if a.kind == 'it' else a(st)
                    return FA([k], Implies(And(k >= p0, k < q), z3.substitute(C, (p, k))), [])
                return pred
            if len(alts) == 1:
                for n, y in enumerate(alts[0][:8]):
                    out.append(('scanned %s: condition %d' % (a.name, n), mk([[y]])))
            out.append(('scanned %s: conditions' % a.name, mk(alts)))
        return out

    def map_cands(self, a, p, p0, base, h, b, changed, okc, defs):
        """candidates 'what was written at each position passed so far': a sequence filled by pushing or by index"""
        import cands
        from cands import accs_of, bvar, leaf_paths, getp
        out = []
        for s in accs_of(self, h, changed, list(h.store.keys()), lambda k: '_%s' % (k[1],)):
            if s.kind != 'sq' or not s.changed or s.guards or s.ety is None:
                continue
            try:
                hv, bv, sv = s(h), s(b), s(base)
                push = z3.simplify(bv.n - hv.n)
                paths = [x for x, k in leaf_paths(self, s.ety) if k != 'sq']
            except Exception:
                continue
            if z3.is_int_value(push) and push.as_long() == 1:
                t, at = hv.n, (lambda k, p0=p0, sv=sv: sv.n + (k - p0))
            elif z3.is_int_value(push) and push.as_long() == 0:
                t, at = p, (lambda k: k)
            else:
                continue
            for pt in paths:
                try:
                    e = getp(bv.get(t), pt)
                    for _ in range(4):
                        e = z3.substitute(e, *defs) if defs else e
                    e = z3.simplify(e)
                    old = z3.simplify(getp(hv.get(t), pt))
                except Exception:
                    continue
                if not z3.is_expr(e) or e.eq(old):
                    continue
                # an element rewritten in place: what it was on entry
                try:
                    ent = getp(sv.get(t), pt)
                    e = z3.substitute(e, (old, ent))
                except Exception:
                    pass
                if not okc(e, False):
                    continue

                def pred(st, s=s, e=e, a=a, at=at, pt=pt):
                    k = bvar()
                    q = a(st).pos if a.kind == 'it' else a(st)
                    x = getp(s(st).get(at(k)), pt)
                    ee = z3.substitute(e, (p, k))
                    if z3.is_select(x) and z3.is_const(x.arg(1)) and x.arg(1).eq(k):
                        return FA([k], Implies(And(k >= p0, k < q), x == ee), [x])
                    j = k
                    # index by position in the sequence, so that reading an element triggers it
                    x = getp(s(st).get(j), pt)
                    off = z3.simplify(at(z3.IntVal(0)))
                    ee = z3.substitute(e, (p, j - off))
                    return FA([j], Implies(And(j - off >= p0, j - off < q), x == ee), [x] if z3.is_select(x) else [])
                out.append(('%s filled along %s%s' % (s.name, a.name, pt or ''), pred))
                if push.as_long() == 0:
                    # what lies ahead is as it was
                    def ahead(st, s=s, a=a, pt=pt):
                        k = bvar()
                        q = a(st).pos if a.kind == 'it' else a(st)
                        x = getp(s(st).get(k), pt)
                        return FA([k], Implies(And(k >= q, k < s(st).n), x == getp(s(base).get(k), pt)), [x] if z3.is_select(x) else [])
                    out.append(('%s as on entry beyond %s%s' % (s.name, a.name, pt or ''), ahead))
        return out

    def havoc_state(self, base, changed, body, fid):
        h = base.copy()
        for k2, ps in changed.items():
            if k2 not in base.store:
                continue
            v = base.store[k2]
            if isinstance(v, Poison):
                continue
            ty = parse_type(body.locals[k2[1]]) if k2[0] == fid and k2[1] in body.locals else None
            nm = 'h%s' % k2[1]
            if ps is None:
                h.store[k2] = self.havoc_val(v, ty, h, None, (), nm)
            else:
                h.store[k2] = self.havoc_val(v, ty, h, (lambda p, ps=ps: not self.path_changed(p, ps)), (), nm)
        return h

    def path_changed(self, p, ps):
        if p in ps:
            return True
        # element representation may switch between 'el' and arrays
        last = p[-1] if p else None
        if last == 'el':
            return any(q[:-1] == p[:-1] and q and isinstance(q[-1], tuple) and q[-1][0] == 'a' for q in ps)
        if isinstance(last, tuple) and last[0] == 'a':
            return p[:-1] + ('el',) in ps
        return False

    def type_facts(self, st, k2, body, fid, v0=None):
        v = st.store[k2]
        if k2[0] == fid and k2[1] in body.locals:
            ty = parse_type(body.locals[k2[1]])
            try:
                for f in self.inv(v, ty):
                    self.fact(st, f)
            except (AttributeError, IndexError, TypeError):
                pass
        else:
            for f in self.inv_untyped(v):
                self.fact(st, f)
        self.it_facts(st, v, v0)

    def it_facts(self, st, v, v0):
        """an iterator only ever moves forward, up to its end (every model of next/nth/.. keeps this)"""
        if isinstance(v, It) and isinstance(v0, It):
            self.fact(st, and_(v.pos >= v0.pos, imp(v0.pos <= v0.n, v.pos <= v.n), v.n <= v0.n))
        elif isinstance(v, (Tup, Clo)) and isinstance(v0, (Tup, Clo)):
            for x, y in zip(v.items, v0.items):
                self.it_facts(st, x, y)

    def inv_untyped(self, v):
        out = []
        if isinstance(v, Sq):
            out += [v.n >= 0]
            if v.ety is not None:
                out = self.inv(v, ('vec', v.ety))
        elif isinstance(v, (Tup, Clo)):
            for x in v.items:
                out += self.inv_untyped(x)
        elif z3.is_expr(v) and z3.is_real(v) and fp.numeral(v) is None:
            out += [v >= -fp.INF, v <= fp.NAN, imp(v < fp.INF, v <= fp.MAX), imp(v > -fp.INF, v >= -fp.MAX)]
        return out

    def try_unroll(self, body, fid, cfg, header, st, rets):
        lim = self.opts.get('unroll', 12)
        # only when some live iterator over a literal number of items drives the loop
        ok = False
        blk_locals = cfg.used(header)
        for (f, l), v in list(st.store.items()):
            if f == fid and isinstance(v, It) and l in blk_locals:
                n, p = ival(z3.simplify(v.n)), ival(z3.simplify(v.pos))
                if n is not None and p is not None and n - p <= lim:
                    ok = True
            if f == fid and isinstance(v, Tup) and l in blk_locals and parse_type(body.locals.get(l, '()'))[:2] == ('adt', 'std::ops::Range'):
                a, b = (ival(x) if z3.is_expr(x) and z3.is_int(x) else None for x in v.items[:2])
                if a is not None and b is not None and b - a <= lim:
                    ok = True
        if not ok:
            return None
        if self.opts.get('nounroll'):
            return None
        exits_all = {}
        cur = st
        snap = (len(self.facts), len(self.obls), len(self.cands), len(rets))
        for it in range(lim + 2):
            backs, exits = self.region(body, fid, cfg, cfg.order, header, cur.copy(), header, rets)
            for t, ss in exits.items():
                exits_all.setdefault(t, []).extend(ss)
            backs = [b for b in backs if not any(is_false(c) for c in b.pc)]
            if not backs:
                return exits_all
            cur = self.merge_states(backs)
            if cur is None:
                return exits_all
        # not concrete after all
        del self.facts[snap[0]:]
        del self.obls[snap[1]:]
        del self.cands[snap[2]:]
        del rets[snap[3]:]
        return None


class CFG:
    def __init__(self, body):
        self.body = body
        for b in body.blocks.values():
            if not b.cleanup and b.term is None:
                finish_block(b)
        succ = {i: [s for s in successors(b.term) if s in body.blocks and not body.blocks[s].cleanup] for i, b in body.blocks.items() if not b.cleanup}
        # dfs postorder
        order, seen, onstack = [], set(), set()
        back = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstack.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(succ[s])))
                    break
                elif s in onstack:
                    back.add((n, s))
            else:
                stack.pop()
                onstack.discard(n)
                order.append(n)
        self.succ = {k: v for k, v in succ.items() if k in seen}
        self.order = order[::-1]
        pred = {k: [] for k in self.succ}
        for k, v in self.succ.items():
            for s in v:
                pred[s].append(k)
        self.pred = pred
        self.loops = {}
        for (u, h) in back:
            L = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in L:
                    continue
                L.add(x)
                st.extend(pred[x])
        # unreachable-from-header checks: reducible CFGs only
        self.regions = {None: set(self.succ)}
        for h, L in self.loops.items():
            # blocks of the loop proper; exits leave the region
            self.regions[h] = set(L)
        # RPO must list loop bodies contiguously enough: order is a valid topological order of the acyclic graph
        self._live = None
        # tail blocks: no calls, straight to return
        self.tail = set()
        for b in reversed(self.order):
            t = body.blocks[b].term
            if t[0] == 'return' and not body.blocks[b].stmts:
                self.tail.add(b)
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b in self.tail:
                    continue
                t = body.blocks[b].term
                if t[0] == 'goto' and t[1] in self.tail and len(body.blocks[b].stmts) <= 2 and not any(b in L for L in self.loops.values()):
                    self.tail.add(b)
                    ch = True

    def inner_loop(self, b, header):
        """header of the outermost loop strictly inside region `header` that contains b, else None"""
        best = None
        for h, L in self.loops.items():
            if b in L and h != header and (header is None or h in self.loops[header]):
                if header is not None and header in L:
                    continue  # encloses us
                if best is None or len(L) > len(self.loops[best]):
                    best = h
        return best

    @staticmethod
    def place_uses(place, out):
        out.add(place[0])
        for p in place[1]:
            if p[0] == 'index':
                out.add(p[1])

    def uses_defs(self, b):
        """ordered list of (uses, def or None)"""
        blk = self.body.blocks[b]
        seq = []

        def opu(o, u):
            if o[0] in ('copy', 'move'):
                self.place_uses(o[1], u)

        def walk(x, u):
            if isinstance(x, tuple):
                if x and x[0] in ('copy', 'move') and len(x) == 2 and isinstance(x[1], tuple):
                    self.place_uses(x[1], u)
                    return
                if len(x) == 2 and type(x[0]) is int and isinstance(x[1], tuple) and all(isinstance(q, tuple) for q in x[1]):
                    self.place_uses(x, u)
                    return
                for y in x:
                    walk(y, u)
        for s in blk.stmts:
            u = set()
            d = None
            if s[0] == 'assign':
                walk(s[2][1:], u)
                if s[1][1]:
                    self.place_uses(s[1], u)
                else:
                    d = s[1][0]
            seq.append((u, d))
        t = blk.term
        u = set()
        d = None
        if t[0] == 'call':
            for a in t[3]:
                opu(a, u)
            if t[2].startswith(('move ', 'copy ')):
                self.place_uses(parse_place(t[2][5:]), u)
            if t[1][1]:
                self.place_uses(t[1], u)
            else:
                d = t[1][0]
        elif t[0] in ('switch', 'assert'):
            opu(t[1], u)
        elif t[0] == 'return':
            u.add(0)
        seq.append((u, d))
        return seq

    def live_in(self, b):
        if self._live is None:
            gen, kill = {}, {}
            for x in self.succ:
                g, k = set(), set()
                for u, d in self.uses_defs(x):
                    g |= (u - k)
                    if d is not None:
                        k.add(d)
                gen[x], kill[x] = g, k
            live = {x: set() for x in self.succ}
            ch = True
            while ch:
                ch = False
                for x in reversed(self.order):
                    o = set()
                    for s in self.succ[x]:
                        o |= live[s]
                    n = gen[x] | (o - kill[x])
                    if n != live[x]:
                        live[x] = n
                        ch = True
            self._live = live
        return self._live[b]

    def assigned(self, header):
        out = set()
        for b in self.loops[header]:
            blk = self.body.blocks[b]
            for s in blk.stmts:
                if s[0] == 'assign':
                    if not (s[1][1] and s[1][1][0][0] == 'deref'):
                        out.add(s[1][0])
                    if s[2][0] == 'ref' and s[2][1] and not (s[2][2][1] and s[2][2][1][0][0] == 'deref'):
                        out.add(s[2][2][0])
            t = blk.term
            if t[0] == 'call':
                out.add(t[1][0])
        return out

    def used(self, header):
        out = set()
        for b in self.loops[header]:
            for u, d in self.uses_defs(b):
                out |= u
        return out
