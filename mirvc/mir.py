"""Parser for rustc's textual MIR (-Zunpretty=mir -Ztrim-diagnostic-paths=no).

Everything the verifier reasons about comes from here: the text rustc prints for /repo's
current source.  Nothing is dropped except cleanup (unwind) blocks, storage markers and
debug-scope information, none of which affects values on non-panicking executions.
"""
import re
from functools import lru_cache

class MirError(Exception):
    pass

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = set(OPEN.values())


def skip_str(s, i):
    """s[i] == '"': index after the closing quote."""
    i += 1
    while s[i] != '"':
        if s[i] == '\\':
            i += 1
        i += 1
    return i + 1


def char_lit_end(s, i):
    """s[i]=="'": end index if this is a char literal, else None (lifetime)."""
    m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", s[i:])
    return i + m.end() if m else None


def scan_depth0(s, start, stop):
    """Index of first char in `stop` at nesting depth 0 from start, or -1."""
    d = 0
    i = start
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c == "'":
            e = char_lit_end(s, i)
            if e:
                i = e
                continue
        if c == '-' and s[i:i + 2] == '->':
            i += 2
            continue
        if c == '=' and s[i:i + 2] == '=>':
            i += 2
            continue
        if d == 0 and c in stop:
            return i
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
        i += 1
    return -1


def split_top(s, sep=','):
    out = []
    i = 0
    s = s.strip()
    if not s:
        return out
    while True:
        j = scan_depth0(s, i, sep)
        if j < 0:
            t = s[i:].strip()
            if t:
                out.append(t)
            return out
        out.append(s[i:j].strip())
        i = j + 1


# ---------------------------------------------------------------- types
INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'u128': (128, False),
        'usize': (64, False), 'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True),
        'i128': (128, True), 'isize': (64, True)}


@lru_cache(maxsize=None)
def parse_type(t):
    t = t.strip()
    if t in INTS:
        return ('int', t)
    if t in ('f32', 'f64'):
        return ('float', t)
    if t == 'bool':
        return ('bool',)
    if t == 'char':
        return ('int', 'u32')
    if t in ('str', 'std::string::String'):
        return ('str',)
    if t == '()':
        return ('tuple', ())
    if t == '!':
        return ('never',)
    if t.startswith('&'):
        r = t[1:].strip()
        r = re.sub(r"^'\w+\s*", '', r)
        mut = False
        if r.startswith('mut '):
            mut = True
            r = r[4:]
        return ('ref', mut, parse_type(r))
    if t.startswith('*const ') or t.startswith('*mut '):
        return ('other', t)
    if t.startswith('('):
        return ('tuple', tuple(parse_type(x) for x in split_top(t[1:-1])))
    if t.startswith('['):
        inner = t[1:-1]
        j = scan_depth0(inner, 0, ';')
        if j < 0:
            return ('slice', parse_type(inner))
        n = inner[j + 1:].strip()
        m = re.match(r'^(\d+)(_?usize)?$', n)
        return ('array', parse_type(inner[:j]), int(m.group(1)) if m else n)
    if t.startswith('{closure@'):
        return ('closure', t)
    if t.startswith('fn(') or t.startswith('for<') or t.startswith('dyn ') or t.startswith('impl ') or t.startswith('unsafe '):
        return ('other', t)
    if t.startswith('<'):
        return ('other', t)
    j = scan_depth0(t, 0, '<')
    # `a::b::<T>` or `a::b<T>`
    if j < 0:
        return ('adt', t, ())
    path = t[:j]
    if path.endswith('::'):
        path = path[:-2]
    k = match_close(t, j)
    args = tuple(parse_type(x) for x in split_top(t[j + 1:k]) if not x.startswith("'"))
    if k + 1 < len(t):
        return ('other', t)
    if path == 'std::vec::Vec':
        return ('vec', args[0])
    if path == 'std::boxed::Box':
        return ('box', args[0])
    return ('adt', path, args)


def match_close(s, i):
    """s[i] is an opener; index of the matching closer."""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c == "'":
            e = char_lit_end(s, i)
            if e:
                i = e
                continue
        if c == '-' and s[i:i + 2] == '->':
            i += 2
            continue
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:80])


# ---------------------------------------------------------------- places
# ('place', local, projections); projections: ('deref',) ('field', n, ty) ('variant', name) ('index', local)
# ('cindex', k, minlen, from_end) ('subslice', a, b, from_end)

@lru_cache(maxsize=None)
def parse_place(s):
    p, i = _place(s, 0)
    if i != len(s):
        raise MirError('place? ' + s)
    return p


def _place(s, i):
    # primary
    if s[i] == '_':
        m = re.match(r'_(\d+)', s[i:])
        base = (int(m.group(1)), ())
        i += m.end()
    elif s[i] == '(':
        if s[i + 1] == '*':
            base, j = _place(s, i + 2)
            if s[j] != ')':
                raise MirError('deref? ' + s)
            base = (base[0], base[1] + (('deref',),))
            i = j + 1
        else:
            base, j = _place(s, i + 1)
            if s[j] == '.':
                m = re.match(r'\.(\d+): ', s[j:])
                k = match_close(s, i)
                ty = s[j + m.end():k]
                base = (base[0], base[1] + (('field', int(m.group(1)), ty),))
                i = k + 1
            elif s[j:j + 4] == ' as ':
                k = match_close(s, i)
                base = (base[0], base[1] + (('variant', s[j + 4:k]),))
                i = k + 1
            else:
                raise MirError('place paren? ' + s)
    else:
        raise MirError('place? ' + s)
    while i < len(s) and s[i] == '[':
        k = match_close(s, i)
        inner = s[i + 1:k]
        m = re.match(r'^_(\d+)$', inner)
        if m:
            pr = ('index', int(m.group(1)))
        else:
            m = re.match(r'^(-?)(\d+) of (\d+)$', inner)
            if m:
                pr = ('cindex', int(m.group(2)), int(m.group(3)), bool(m.group(1)))
            else:
                m = re.match(r'^(\d*):(-?)(\d*)$', inner)
                if not m:
                    raise MirError('index? ' + s)
                pr = ('subslice', int(m.group(1) or 0), int(m.group(3) or 0), bool(m.group(2)))
        base = (base[0], base[1] + (pr,))
        i = k + 1
    return base, i


# ---------------------------------------------------------------- operands
@lru_cache(maxsize=None)
def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r'^[<\w]', s):
        return ('const', s)
    raise MirError('operand? ' + s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'BitOr', 'BitXor',
          'Shl', 'Shr', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Offset', 'Cmp',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata', 'Len'}


@lru_cache(maxsize=None)
def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    m = re.match(r'^(copy|move|const) ', s)
    if m:
        # maybe a cast
        if s.endswith(')'):
            m2 = re.search(r' \((IntToInt|FloatToInt|IntToFloat|FloatToFloat|Transmute|PtrToPtr|BoxDerefTransmute|PointerExposeProvenance|PointerCoercion\(.*\)|Subtype)\)$', s)
            if m2:
                body = s[:m2.start()]
                # operand ' as ' type : find ' as ' at depth 0
                i = 0
                while True:
                    j = scan_depth0(body, i, ' ')
                    if j < 0:
                        raise MirError('cast? ' + s)
                    if body[j:j + 4] == ' as ':
                        break
                    i = j + 1
                return ('cast', m2.group(1), parse_operand(body[:j]), body[j + 4:])
        return ('use', parse_operand(s))
    if s.startswith('&raw '):
        r = re.sub(r'^&raw (const|mut) (\(fake\) )?', '', s)
        return ('addr', parse_place(r))
    if s.startswith('&'):
        r = s[1:]
        mut = False
        if r.startswith('mut '):
            mut = True
            r = r[4:]
        r = re.sub(r'^(fake shallow |fake |two_phase )', '', r)
        return ('ref', mut, parse_place(r))
    m = re.match(r'^discriminant\((.*)\)$', s)
    if m:
        return ('discr', parse_place(m.group(1)))
    m = re.match(r'^(\w+)\((.*)\)$', s, re.S)
    if m and m.group(1) in BINOPS:
        a = split_top(m.group(2))
        return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in UNOPS:
        if m.group(1) == 'Len':
            return ('len', parse_place(m.group(2)))
        return ('un', m.group(1), parse_operand(m.group(2)))
    if m and m.group(1) == 'CopyForDeref':
        return ('use', ('copy', parse_place(m.group(2))))
    if s.startswith('['):
        inner = s[1:-1]
        j = scan_depth0(inner, 0, ';')
        if j >= 0:
            return ('repeat', parse_operand(inner[:j]), inner[j + 1:].strip())
        return ('array', tuple(parse_operand(x) for x in split_top(inner)))
    if s.startswith('('):
        return ('tuple', tuple(parse_operand(x) for x in split_top(s[1:-1])))
    if s.startswith('{closure@'):
        k = match_close(s, 0)
        ty = s[:k + 1]
        rest = s[k + 1:].strip()
        ops = []
        if rest:
            for f in split_top(rest[1:-1]):
                j = f.index(': ')
                ops.append((f[:j], parse_operand(f[j + 2:])))
        return ('closure', ty, tuple(ops))
    # ADT aggregate: Path { f: op, .. } | Path(op, ..) | Path
    j = scan_depth0(s, 0, '{(')
    if j < 0:
        return ('adt', s, None, ())
    path = s[:j].strip()
    inner = s[j + 1:match_close(s, j)]
    if s[j] == '{':
        fs = []
        for f in split_top(inner):
            q = f.index(': ')
            fs.append((f[:q].strip(), parse_operand(f[q + 2:])))
        return ('adt', path, 'named', tuple(fs))
    return ('adt', path, 'pos', tuple(parse_operand(x) for x in split_top(inner)))


# ---------------------------------------------------------------- bodies
class Body:
    __slots__ = ('name', 'args', 'ret', 'locals', 'blocks', 'const', 'debug', 'nargs')

    def __init__(self, name):
        self.name = name
        self.args = []
        self.ret = None
        self.locals = {}
        self.blocks = {}
        self.const = False
        self.debug = {}


class Block:
    __slots__ = ('stmts', 'term', 'cleanup')

    def __init__(self):
        self.stmts = []
        self.term = None
        self.cleanup = False


def parse_term(s):
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s == 'resume' or s.startswith('terminate'):
        return ('resume',)
    m = re.match(r'^goto -> bb(\d+)$', s)
    if m:
        return ('goto', int(m.group(1)))
    if s.startswith('switchInt('):
        k = match_close(s, 9)
        op = parse_operand(s[10:k])
        rest = s[k + 1:].strip()
        m = re.match(r'^-> \[(.*)\]$', rest)
        cases = []
        other = None
        for c in split_top(m.group(1)):
            a, b = c.rsplit(': bb', 1)
            if a == 'otherwise':
                other = int(b)
            else:
                cases.append((int(a), int(b)))
        return ('switch', op, tuple(cases), other)
    if s.startswith('assert('):
        k = match_close(s, 6)
        parts = split_top(s[7:k])
        neg = parts[0].startswith('!')
        op = parse_operand(parts[0][1:] if neg else parts[0])
        m = re.search(r'success: bb(\d+)', s[k:])
        return ('assert', op, neg, parts[1], int(m.group(1)))
    if s.startswith('drop('):
        k = match_close(s, 4)
        m = re.search(r'return: bb(\d+)', s[k:])
        return ('goto', int(m.group(1)))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', s)
        return ('goto', int(m.group(1)))
    # call
    j = scan_depth0(s, 0, '=')
    if j < 0:
        raise MirError('term? ' + s)
    dest = parse_place(s[:j].strip())
    rest = s[j + 1:].strip()
    if rest.startswith('no_retag '):
        rest = rest[9:]
    k = scan_depth0(rest, 0, '(')
    # closures/fn pointers are called as `move _5(..)`, functions with paths; a path may start with '<'
    while k >= 0:
        e = match_close(rest, k)
        tail = rest[e + 1:].strip()
        if tail.startswith('->') and ('[return' in tail or tail.startswith('-> unwind') or tail.startswith('-> bb') or '[unwind' in tail):
            break
        k = scan_depth0(rest, e + 1, '(')
    if k < 0:
        raise MirError('call? ' + s)
    callee = rest[:k].strip()
    args = []
    for a in split_top(rest[k + 1:e]):
        args.append(parse_operand(a))
    m = re.search(r'return: bb(\d+)', tail)
    return ('call', dest, callee, tuple(args), int(m.group(1)) if m else None)


HEADER = re.compile(r'^(fn|const|static|static mut) (.*)$')


def parse_mir(text):
    """dict name -> Body (functions), dict name -> Body (consts/promoteds)."""
    fns, consts = {}, {}
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('fn ') and l.endswith('{'):
            b, i = _parse_fn(lines, i)
            if b is not None:
                fns.setdefault(b.name, b)
            continue
        if (l.startswith('const ') or l.startswith('static ')):
            m = re.match(r'^(?:const|static(?: mut)?) (.*)$', l)
            rest = m.group(1)
            if l.endswith('= {'):
                rest = rest[:-3].strip()
                # name: type   (first ': ' at depth 0; names contain '::' and <impl at a:b: c>)
                j = _name_colon(rest)
                name, ty = rest[:j], rest[j + 2:]
                b, i = _parse_body(lines, i + 1, Body(name))
                b.const = True
                b.ret = ty
                b.locals.setdefault(0, ty)
                consts.setdefault(name, b)
                continue
            j = _name_colon(rest)
            if j > 0 and ' = ' in rest:
                name = rest[:j]
                ty, val = rest[j + 2:].split(' = ', 1)
                consts.setdefault(name, ('lit', ty, val.rstrip(';')))
        i += 1
    return fns, consts


def _name_colon(s):
    i = 0
    while True:
        j = scan_depth0(s, i, ':')
        if j < 0:
            return -1
        if s[j:j + 2] == '::':
            i = j + 2
            continue
        return j


def _parse_fn(lines, i):
    l = lines[i]
    head = l[3:-1].strip()
    j = scan_depth0(head, 0, '(')
    # name may contain '<impl at ...>' (nested, skipped by depth) -- fine
    name = head[:j]
    k = match_close(head, j)
    b = Body(name)
    for a in split_top(head[j + 1:k]):
        m = re.match(r'^_(\d+): (.*)$', a, re.S)
        b.locals[int(m.group(1))] = m.group(2)
        b.args.append(int(m.group(1)))
    r = head[k + 1:].strip()
    b.ret = r[2:].strip() if r.startswith('->') else '()'
    b.locals[0] = b.ret
    return _parse_body(lines, i + 1, b)


def _parse_body(lines, i, b):
    cur = None
    while True:
        l = lines[i]
        if l == '}':
            return b, i + 1
        s = l.strip()
        i += 1
        if not s or s.startswith('//') or s == '}' or s.startswith('scope ') :
            continue
        m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', s)
        if m:
            cur = Block()
            cur.cleanup = bool(m.group(2))
            b.blocks[int(m.group(1))] = cur
            continue
        if cur is None:
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
            if m:
                b.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'^debug (\S+) => (.*);$', s)
            if m:
                b.debug.setdefault(m.group(1), []).append(m.group(2))
            continue
        # statements may span several lines only inside string constants; rustc escapes newlines
        if cur.cleanup:
            continue
        s = re.sub(r'\s*//.*$', '', s) if not '"' in s else s
        if s.endswith(';'):
            s = s[:-1]
        if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Coverage', 'Retag', 'ConstEvalCounter', 'BackwardIncompatibleDropHint')):
            continue
        cur.stmts.append(s)


def finish_block(blk):
    """Lazily parse statement strings of a block into tuples."""
    if blk.term is not None:
        return
    out = []
    raw = blk.stmts
    for s in raw[:-1]:
        m = re.match(r'^discriminant\((.*)\) = (\d+)$', s)
        if m:
            out.append(('setdiscr', parse_place(m.group(1)), int(m.group(2))))
            continue
        if s.startswith('assume('):
            out.append(('assume', parse_operand(s[7:-1])))
            continue
        j = scan_depth0(s, 0, '=')
        if j < 0:
            raise MirError('stmt? ' + s)
        out.append(('assign', parse_place(s[:j].strip()), parse_rvalue(s[j + 1:].strip())))
    blk.term = parse_term(raw[-1])
    blk.stmts = out


def successors(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        r = [c[1] for c in term[2]]
        if term[3] is not None:
            r.append(term[3])
        return r
    if k == 'assert':
        return [term[4]]
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    return []


if __name__ == '__main__':
    import sys, collections
    fns, consts = parse_mir(open(sys.argv[1]).read())
    bad = collections.Counter()
    nb = 0
    for f in fns.values():
        for b in f.blocks.values():
            if b.cleanup:
                continue
            nb += 1
            try:
                finish_block(b)
            except Exception as e:
                bad[str(e)[:140]] += 1
    print(len(fns), len(consts), nb, 'bad', sum(bad.values()))
    for k, v in bad.most_common(30):
        print(v, k)
