"""Contracts and the per-function verification driver."""
import re, time, traceback
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, IntVal, BoolVal, Select, Int
import fp
from mir import parse_type
from vals import *
import engine
from engine import Engine, State, and_, or_, imp, not_, TRUE, FALSE, ival, is_true, is_false
from cands import bvar, forall_el


class Ctx:
    """what a contract sees: argument values at entry (shared references read through), result, final values of &mut args"""

    def __init__(self, eng, st, args, body, ret=None, old=None, fin=None):
        self.eng, self.st, self.args, self.body, self.ret = eng, st, args, body, ret
        self.old = old      # entry values of &mut args
        self.fin = fin      # final values
        self.applied = False

    def __getitem__(self, i):
        v = self.args[i]
        if isinstance(v, RefM):
            v = self.old[i]
        return v

    def final(self, i):
        return self.fin[i]

    # Result / Option helpers
    @property
    def ok(self):
        return self.ret.d == 0 if ival(self.ret.d) is None else BoolVal(ival(self.ret.d) == 0)

    @property
    def err(self):
        return not_(self.ok)

    @property
    def val(self):
        return self.payload(0)

    def payload(self, k, i=0):
        p = self.ret.pay.get(k)
        if p is None or i >= len(p):
            return None
        return p[i]

    def okval(self, f):
        """ok ==> f(value); trivially true when this path never returns Ok"""
        v = self.val
        if v is None or is_false(self.ok):
            return TRUE
        return imp(self.ok, f(v))

    def field(self, v, ty, name):
        return self.eng.field(v, ty, name)


class Lemma:
    """a fact about rounded arithmetic, stated once with a trigger and proved from the rounding bounds by its steps
    (quantifier-free real arithmetic: list of (name, hypotheses, goal)) on every run"""

    def __init__(self, name, fact, steps):
        self.name, self.fact, self.steps = name, fact, steps

    def prove(self):
        out = []
        for name, hyp, goal in self.steps:
            t = time.time()
            S = z3.Solver()
            S.set('timeout', 60000)
            S.add(*hyp)
            vac = S.check()
            S.add(Not(goal))
            r = S.check()
            out.append(dict(name='lemma %s: %s' % (self.name, name), kind='lemma', where=self.name, status='proved' if r == z3.unsat and vac != z3.unsat else 'failed', time=round(time.time() - t, 3), backend='z3'))
        return out


class Contract:
    def __init__(self, fn, req=(), ens=(), panics=(), elem=(), inline=False, opts=None, lemmas=(), note='', pure=True, trusted=None, lem=()):
        self.lem = list(lem)
        self.fn = fn
        self.req = list(req)        # (name, lambda ctx)
        self.ens = list(ens)        # (props, name, lambda ctx)
        self.panics = tuple(panics) if not isinstance(panics, str) else (panics,)
        self.elem = list(elem)
        self.inline = inline
        self.opts = opts or {}
        self.lemmas = list(lemmas)
        self.note = note
        self.trusted = trusted      # reason, when the body is not verified (assumed contract)

    def props(self):
        s = set(self.panics)
        for p, _, _ in self.ens:
            s |= set([p] if isinstance(p, str) else p)
        return s

    def apply(self, eng, st, args, body):
        """call site: check requires, havoc &mut arguments and result, assume ensures"""
        old, fin = {}, {}
        vals = []
        for i, v in enumerate(args):
            if isinstance(v, RefM):
                x = eng.read_ref(st, v)
                while isinstance(x, RefM):
                    v = x
                    x = eng.read_ref(st, v)
                old[i] = x
                ty = eng.strip(parse_type(body.locals[body.args[i]]))
                declared = parse_type(body.locals[body.args[i]])
                if declared[0] == 'ref' and declared[1]:
                    fin[i] = eng.fresh_val(ty, 'out', st)
                    if ty[0] == 'slice':
                        eng.fact(st, fin[i].n == x.n)      # a slice cannot change its length
            vals.append(v)
        cx = Ctx(eng, st, vals, body, None, old, fin)
        cx.applied = True
        for name, f in self.req:
            eng.oblige(st, f(cx), 'requires %s of %s' % (name, self.fn.split('::')[-1]), 'requires')
        ret = eng.fresh_val(parse_type(body.ret), 'r_' + self.fn.split('::')[-1], st) if body.ret != '()' else Tup([])
        for i, v in fin.items():
            eng.write_ref(st, vals[i], v)
        cx.ret = ret
        for props, name, f in self.ens:
            eng.fact(st, f(cx))
        return ret


def mk_args(eng, body, st):
    args, old = [], {}
    for i, loc in enumerate(body.args):
        ty = parse_type(body.locals[loc])
        v = eng.fresh_val(ty, 'a%d' % i, None)
        if ty[0] == 'ref' and ty[1]:
            key = ('arg', i)
            st.store[key] = v
            old[i] = v
            v = RefM(key, ())
        args.append(v)
    return args, old


class Result:
    def __init__(self, fn):
        self.fn = fn
        self.status = None      # proved / failed / unsupported / missing
        self.obls = []          # dicts
        self.invs = []
        self.assumptions = []
        self.models = []
        self.inlined = []
        self.used = []
        self.time = 0.0
        self.error = ''
        self.vacuous = False
        self.ncand = 0


def verify(prog, contracts, con, opts=None):
    opts = dict(opts or {})
    opts.update(con.opts)
    res = Result(con.fn)
    t0 = time.time()
    body = prog.fns.get(con.fn)
    if body is None:
        res.status = 'missing'
        return res
    eng = Engine(prog, contracts, opts)
    eng.cur = con
    eng.elem_preds = con.elem
    eng.panic_mode = opts.get('panic', 'check')
    if eng.partial:
        eng.assumptions.add('partial correctness of %s: what holds whenever it returns; that it never panics is not claimed here' % con.fn)
    try:
        st = State({}, ())
        args, old = mk_args(eng, body, st)
        cx = Ctx(eng, st, args, body, None, old, {})
        for name, f in con.req:
            eng.fact0(f(cx))
        for f in con.lemmas:
            for x in f(cx):
                eng.fact0(x)
        for L in con.lem:
            eng.fact0(L.fact)
            for d in L.prove():
                d['props'] = list(con.panics)
                res.obls.append(d)
        eng.cx0 = cx
        eng.args0 = [old.get(i, a) for i, a in enumerate(args)]
        nreq = len(eng.facts)
        eng.stack.append(con.fn.split('::')[-1])
        outs = eng.run_body(body, args, st)
        rets = []
        for s, v in outs:
            fin = {i: eng.read_ref(s, args[i]) for i in old}
            c2 = Ctx(eng, s, args, body, v, old, fin)
            rets.append(s.pc)
            for props, name, f in con.ens:
                try:
                    g = f(c2)
                except Unsupported as e:
                    raise Unsupported('postcondition %s: %s' % (name, e))
                eng.oblige(s, g, name, 'ensures', con.fn.split('::')[-1], assume=bool(con.opts.get('chain')))
                eng.obls[-1].cand = ('props', (props,) if isinstance(props, str) else tuple(props)) if eng.obls else None
        res.gen_time = time.time() - t0
        if opts.get('nosolve'):
            res.status = 'gen'
            res.obls = list(eng.obls)
            res.ncand = len(eng.cands)
            return res
        solve(eng, res, con, rets, nreq, opts)
    except Unsupported as e:
        res.status = 'unsupported'
        res.error = str(e) + ' @ ' + eng.where()
        if opts.get('tb'):
            traceback.print_exc()
    except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError) as e:
        res.status = 'unsupported'
        res.error = 'internal: %s: %s @ %s' % (type(e).__name__, e, eng.where())
        if opts.get('tb'):
            traceback.print_exc()
    res.time = time.time() - t0
    res.models = sorted(eng.models_used)
    res.inlined = sorted(eng.inlined)
    res.used = sorted(eng.used_contracts)
    res.assumptions = sorted(eng.assumptions)
    return res


VARIANT = 0


def mk_solver(mbqi=False, seed=0, rl=0, tmo=0):
    s = z3.SimpleSolver() if True else z3.Solver()
    s.set('auto_config', False)
    s.set('mbqi', mbqi)
    s.set('random_seed', seed + 101 * VARIANT)
    s.set('qi.eager_threshold', (20.0, 20.0, 7.0, 50.0, 20.0, 10.0, 100.0, 20.0)[VARIANT])
    if rl:
        s.set('rlimit', rl)
    if tmo:
        s.set('timeout', tmo)
    return s


def solve(eng, res, con, rets, nreq, opts):
    global VARIANT
    VARIANT = opts.get('variant', 0)
    facts, obls = eng.facts, eng.obls
    allx = facts + [o.goal for o in obls] + [c for o in obls for c in o.pc]
    names, nums = fp.collect(allx)
    if opts.get('sums'):
        names.add('fp!add')
    nums = set(nums) | {('lit', 0, fp.Fraction(q)) for q in opts.get('rlits', ())}
    inames = int_names(allx)
    ax1 = fp.axioms(names, nums, 1, opts.get('fpx'), opts.get('caps')) + engine.int_axioms(inames)
    ax2 = fp.axioms(names, nums, 2, opts.get('fpx'), opts.get('caps')) + engine.int_axioms(inames)
    if opts.get('os'):
        import stdm
        ax1 += stdm.os_axioms()
        ax2 += stdm.os_axioms()
    if opts.get('sums'):
        import stdm
        ax1 += stdm.sum_axioms()
        ax2 += stdm.sum_axioms()
    if opts.get('ax') == 2:
        ax1 = ax2
    rl_inv = opts.get('rl_inv', 3000000) * (2 if VARIANT else 1)
    if VARIANT in (3, 5, 7):
        ax1 = ax2
    rl_obl = opts.get('rl_obl', 6000000) * opts.get('rl_scale', 1)
    verbose = opts.get('verbose')
    # ---------------- Houdini
    alive = {c.lit.get_id(): c for c in eng.cands}
    bylit = {str(c.lit): c for c in eng.cands}
    invobl = [o for o in obls if o.kind == 'inv']
    cores = {}
    tH = time.time()
    rounds = 0
    if invobl:
        while True:
            rounds += 1
            killed = False
            S = mk_solver(False, 0, rl_inv)
            S.add(*ax1)
            pos = 0
            for o in invobl:
                c = o.cand
                if not c.alive:
                    continue
                core = cores.get(id(o))
                if core is not None and all(bylit[l].alive for l in core):
                    continue
                if pos < o.nf:
                    S.add(*facts[pos:o.nf])
                    pos = o.nf
                S.push()
                S.add(*o.pc)
                S.add(Not(o.goal))
                lits = [d.lit for d in eng.cands if d.alive]
                t1 = time.time()
                r = S.check(*lits)
                SS = S
                if r != z3.unsat and c.desc.startswith('*'):
                    for seed, thr in ((0, 20.0), (5, 7.0), (11, 60.0))[:3 if VARIANT else opts.get('inv_retry', 3)]:
                        SS = mk_solver(False, seed, rl_inv * 3)
                        SS.set('qi.eager_threshold', thr)
                        SS.add(*ax1)
                        SS.add(*facts[:o.nf])
                        SS.add(*o.pc)
                        SS.add(Not(o.goal))
                        SS.add(*lits)
                        r = SS.check()
                        if r == z3.unsat:
                            break
                o.time += time.time() - t1
                if r == z3.unsat:
                    cores[id(o)] = [str(l) for l in (S.unsat_core() if SS is S else lits) if str(l) in bylit]
                    o.status = 'proved'
                    o.backend = 'z3'
                else:
                    c.alive = False
                    killed = True
                    cores.pop(id(o), None)
                    if verbose and verbose > 2:
                        print('   kill', o.name, '%.2fs' % (time.time() - t1), r, o.loc)
                S.pop()
            if not killed:
                break
    res.ncand = len(eng.cands)
    live = [c for c in eng.cands if c.alive]
    res.invs = [(str(c.loop[1]) if len(c.loop) > 2 else str(c.loop[0]), c.desc) for c in live]
    res.houdini_time = time.time() - tH
    if verbose:
        print('  houdini: %d rounds, %d/%d candidates, %.1fs' % (rounds, len(live), len(eng.cands), res.houdini_time))
        if verbose > 1:
            for c in live:
                print('     inv', c.desc)
    lits = [c.lit for c in live]
    # ---------------- vacuity: the assumptions must not be contradictory
    S = mk_solver(False, 0, rl_inv)
    S.add(*ax1)
    S.add(*facts[:nreq])
    if S.check() == z3.unsat:
        res.vacuous = True
    S.add(*facts)
    S.add(*lits)
    if rets:
        S.add(or_(*[and_(*pc) for pc in rets]))
    if S.check() == z3.unsat:
        res.vacuous = True
    # ---------------- obligations
    S = mk_solver(False, 0, rl_obl)
    S.add(*ax1)
    S.add(*lits)
    pos = 0
    failed = []
    for o in obls:
        if o.kind == 'inv' or o.status == 'proved':
            continue
        if pos < o.nf:
            S.add(*facts[pos:o.nf])
            pos = o.nf
        S.push()
        S.add(*o.pc)
        S.add(Not(o.goal))
        t1 = time.time()
        r = S.check()
        o.time += time.time() - t1
        S.pop()
        if verbose and verbose > 1:
            print('   obl', o.kind, o.name, o.loc, r, '%.2f' % o.time, flush=True)
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'
        else:
            failed.append(o)
    for o in failed:
        t1 = time.time()
        for (ax, mb, seed, thr) in ((ax2, False, 0, 20.0), (ax1, False, 7, 100.0), (ax2, False, 3, 7.0), (ax2, True, 0, 20.0)):
            S = mk_solver(mb, seed, rl_obl * 2, 60000)
            S.set('qi.eager_threshold', thr)
            S.add(*ax)
            S.add(*lits)
            S.add(*facts[:o.nf])
            S.add(*o.pc)
            S.add(Not(o.goal))
            r = S.check()
            if r == z3.unsat:
                o.status, o.backend = 'proved', 'z3'
                break
            if r == z3.sat:
                o.status = 'failed'
                break
        else:
            o.status = 'failed'
        o.time += time.time() - t1
        if o.status == 'failed' and opts.get('cvc5', True):
            pass
    for o in obls:
        if o.kind == 'inv':
            continue
        props = o.cand[1] if isinstance(o.cand, tuple) and o.cand and o.cand[0] == 'props' else con.panics
        res.obls.append(dict(name=o.name, kind=o.kind, where=o.loc, status=o.status, time=round(o.time, 3), backend=o.backend, props=list(props)))
    res.ninv = sum(1 for o in invobl if o.cand.alive)
    res.inv_time = sum(o.time for o in invobl)
    res.status = 'proved' if all(x['status'] == 'proved' for x in res.obls) else 'failed'


def int_names(exprs):
    seen, names, stack = set(), set(), list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('int!'):
            names.add(e.decl().name())
        stack.extend(e.children())
    return names
