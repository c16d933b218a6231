#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree.

1. extract the MIR of /repo's crate with rustc (the code that runs, after type checking and desugaring),
2. generate the proof obligations of every function under a contract that carries the property, and of the
   helper functions whose contracts those proofs used, and discharge them with Z3 (and cvc5 on a retry),
3. run the executable twins of the contracts on the compiled crate: a short smoke run when the proof holds,
   a longer search for a failing input when an obligation fails,
4. write evidence/<property>.json; exit 0 (held) or 1 (VIOLATION line)."""
import fcntl, hashlib, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
T0 = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '780'))


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for root in ('src',):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                h.update(open(p, 'rb').read())
    for f in ('Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


MIR_CMD = ['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=mir', '-Ztrim-diagnostic-paths=no',
           '-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums']


def extract():
    """MIR of the current tree; cached only under the hash of the sources it was made from"""
    l = lock()
    try:
        th = tree_hash()
        out = os.path.join(BUILD, 'crate.mir')
        tag = os.path.join(BUILD, 'crate.mir.sha')
        if os.path.exists(out) and os.path.exists(tag) and open(tag).read() == th:
            return open(out).read(), th, 0.0
        t = time.time()
        e = env()
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'mir')
        tmp = os.path.join(BUILD, 'crate.%d.mir' % os.getpid())
        # a cfg that changes with the tree keeps cargo from calling the unit fresh and skipping rustc
        cmd = MIR_CMD + ['--cfg', 'vp_%s' % th[:16], '-o', tmp]
        r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            sys.stderr.write(r.stderr[-4000:])
            raise SystemExit(2)
        txt = open(tmp).read()
        os.replace(tmp, out)
        open(tag, 'w').write(th)
        return txt, th, time.time() - t
    finally:
        l.close()


def build_hunt():
    l = lock()
    try:
        e = env()
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'hunt')
        src = os.path.join(HERE, 'hunt')
        if REPO != '/repo':
            src = os.path.join(BUILD, 'huntsrc')
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(os.path.join(HERE, 'hunt'), src)
            p = os.path.join(src, 'Cargo.toml')
            t = open(p).read().replace('"/repo"', '"%s"' % REPO)
            open(p, 'w').write(t)
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=src, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            return None, r.stderr[-3000:]
        return os.path.join(BUILD, 'hunt', 'debug', 'hunt'), ''
    finally:
        l.close()


def hunt(binary, prop, seed, secs, threads=8):
    try:
        r = subprocess.run([binary, prop, '--seed', str(seed), '--secs', str(secs), '--threads', str(threads)],
                           capture_output=True, text=True, timeout=secs * 4 + 120)
        line = [x for x in r.stdout.splitlines() if x.startswith('{')]
        return json.loads(line[-1]) if line else dict(cases=0, nontrivial=0, fail=None, samples=[], error='no output rc=%d' % r.returncode)
    except subprocess.TimeoutExpired:
        return dict(cases=0, nontrivial=0, fail=dict(case=-1, seed=seed, what='a call did not return (search run exceeded its time limit)', input={}), samples=[], hang=True)


# ------------------------------------------------------------------ proof workers
def worker(fn, mirtext, tier, q, variant=0):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    import z3
    z3.set_param('memory_max_size', 8000)
    import engine, contracts, spec
    P = engine.Program(mirtext, REPO)
    opts = {}
    if tier == 'thorough':
        opts = {'rl_scale': 4}
    if variant:
        opts['variant'] = variant
        if variant <= 4:
            opts['extrema'] = True      # a richer set of candidate invariants
    r = spec.verify(P, contracts.C, contracts.C[fn], opts)
    q.put((fn, r.__dict__))


def run_proofs(fns, mirtext, tier, deadline):
    """verify contracts in parallel, following the contracts used; {fn: result}"""
    ctx = mp.get_context('fork')
    todo, done, running = list(fns), {}, {}
    seen = set(fns)
    per = 420 if tier == 'quick' else 1500
    while todo or running:
        while todo and len(running) < 8:
            fn = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(fn, mirtext, tier, q))
            p.start()
            running[fn] = (p, q, time.time())
        for fn, (p, q, t) in list(running.items()):
            res = None
            try:
                res = q.get(timeout=0.05)[1]
            except Exception:
                if not p.is_alive():
                    try:
                        res = q.get(timeout=0.5)[1]
                    except Exception:
                        res = dict(fn=fn, status='unsupported', error='verifier process ended (memory?)', obls=[], used=[], models=[], inlined=[], assumptions=[], invs=[], ncand=0, vacuous=False, time=time.time() - t)
                elif time.time() - t > per or time.time() > deadline:
                    p.kill()
                    res = dict(fn=fn, status='unsupported', error='time limit', obls=[], used=[], models=[], inlined=[], assumptions=[], invs=[], ncand=0, vacuous=False, time=time.time() - t)
            if res is not None:
                p.join(1)
                if p.is_alive():
                    p.kill()
                del running[fn]
                done[fn] = res
                for u in res.get('used', []):
                    if u not in seen:
                        seen.add(u)
                        todo.append(u)
    return done


def portfolio(fn, mirtext, tier, secs):
    """another proof attempt of a function with other solver seeds and limits; a result with every obligation proved, or None"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(fn, mirtext, tier, q, k)) for k in range(1, 8)]
    for p in ps:
        p.start()
    t0, got, win = time.time(), 0, None
    while got < len(ps) and time.time() - t0 < secs and win is None:
        try:
            r = q.get(timeout=0.3)[1]
            got += 1
            if r['status'] == 'proved' and not r.get('vacuous'):
                win = r
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
    for p in ps:
        p.kill()
        p.join(1)
    return win


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)$', line)
            if m and m[1] == prop:
                out.append((m[2], m[3]))
    return out


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        extract()
        b, err = build_hunt()
        log('setup done' if b else err[-2000:])
        raise SystemExit(0 if b else 2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import engine, contracts, fp
    budget = BUDGET if tier == 'quick' else 4 * 3600
    deadline = T0 + budget - 150
    mir, th, textract = extract()
    log('MIR of %s (%d kB, tree %s)' % (REPO, len(mir) // 1024, th[:12]))
    mine = [f for f, c in contracts.C.items() if prop in c.props() and not c.trusted]
    if not mine:
        print('no contracts for', prop)
        raise SystemExit(2)
    res = run_proofs(mine, mir, tier, deadline)
    failed, undec, obls, tsolve, ninv = [], [], 0, 0.0, 0
    ndis, vac, fns_proved = 0, [], []
    for fn, r in sorted(res.items()):
        con = contracts.C[fn]
        if con.trusted:
            continue
        if r.get('vacuous'):
            vac.append(fn)
        mineobl = [o for o in r['obls'] if prop in o['props']]
        if fn not in mine:
            mineobl = r['obls']
        obls += len(mineobl) + r.get('ninv', 0)
        ndis += sum(o['status'] == 'proved' for o in mineobl) + r.get('ninv', 0)
        ninv += r.get('ninv', 0)
        tsolve += sum(o['time'] for o in mineobl) + r.get('inv_time', 0)
        bad = [o for o in mineobl if o['status'] != 'proved']
        log('%-70s %-11s %3d obligations, %3d invariants, %.1fs %s' % (fn, r['status'], len(mineobl), r.get('ninv', 0), r['time'], r.get('error', '')[:90]))
        if r['status'] in ('unsupported', 'missing'):
            undec.append((fn, r['status'] + ': ' + r.get('error', '')))
        elif not bad:
            fns_proved.append(fn)
        for o in bad:
            failed.append((fn, o))
    for fn, o in failed:
        log('FAILED %s: %s obligation "%s" at %s' % (fn, o['kind'], o['name'], o['where']))
    # ---- executable twins
    b, err = build_hunt()
    secs = (8 if tier == 'quick' else 120)
    if failed:
        secs = 60 if tier == 'quick' else 600
    elif undec:
        secs = 30 if tier == 'quick' else 300
    secs = max(5, min(secs, budget - (time.time() - T0) - 90))
    if b:
        h = hunt(b, prop, seed, secs)
    else:
        log('hunt crate did not build against this tree:', err[-1500:])
        h = dict(cases=0, nontrivial=0, fail=None, samples=[], error='harness did not build')
    kf = known(prop)
    for m, text in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    log('executable contracts: %d cases, %d non-trivial, %s' % (h['cases'], h['nontrivial'], 'FAIL: ' + h['fail']['what'][:300] if h['fail'] else h.get('error', 'all hold')))
    if failed and not h['fail']:
        for fn in sorted({f for f, _ in failed}):
            left = budget - (time.time() - T0) - 60
            r = portfolio(fn, mir, tier, min(240, left)) if left > 20 else None
            if r:
                log('%s: every obligation proved on a further attempt' % fn)
                res[fn] = r
                ndis += sum(1 for f, _ in failed if f == fn)
                failed = [x for x in failed if x[0] != fn]
                fns_proved.append(fn)
    violation = None
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + '.txt')
    if os.path.exists(rp):
        os.remove(rp)
    if h['fail'] or failed:
        with open(rp, 'w') as f:
            f.write('property %s\ntree %s\n' % (prop, th))
            if h['fail']:
                f.write('\nfailing input on the compiled code: %s\n' % h['fail']['what'])
                for k, v in h['fail']['input'].items():
                    f.write('  %s = %s\n' % (k, v))
                f.write('reproduce: %s %s --seed %s --case %s\n' % (os.path.join(BUILD, 'hunt/debug/hunt'), prop, h['fail']['seed'], h['fail']['case']))
            for fn, o in failed:
                f.write('\nfailed obligation: function %s, %s "%s" at %s; solver: %s after %.1fs\n' % (fn, o['kind'], o['name'], o['where'], o.get('reason', 'unknown'), o['time']))
        violation = 'VIOLATION property=%s replay=%s%s' % (prop, rp, '' if h['fail'] else ' no-failing-input-found')
    cov = dict(obligations=obls, discharged=ndis,
               checker_cmd='python3-vt check.py %s %s' % (prop, tier),
               trusted_base=fp.TRUSTED + sorted({a for r in res.values() for a in r.get('assumptions', [])}) + sorted('assumed contract (body not verified): %s: %s' % (f, c.trusted) for f, c in contracts.C.items() if c.trusted and any(f in r.get('used', []) for r in res.values())),
               functions_under_contract=sorted(res), functions_proved=fns_proved,
               functions_inlined=sorted({x for r in res.values() for x in r.get('inlined', [])}),
               std_models_used=sorted({x for r in res.values() for x in r.get('models', [])}),
               loop_invariants_proved=ninv, backend='z3 %s' % __import__('z3').get_version_string(),
               solver_seconds=round(tsolve, 2), failed_obligations=['%s: %s' % (f, o['name']) for f, o in failed],
               bounded_standin=['%s (%s): only the generated cases below' % u for u in undec],
               vacuous=vac,
               evaluations=h['cases'], distinct_nontrivial=h['nontrivial'],
               rule='cases are drawn from (seed, case number); non-trivial as marked by the twin of the property in hunt/src/props.rs',
               samples=h.get('samples', [])[:3])
    con = [contracts.C[f] for f in mine]
    ass = sorted({'precondition of %s: %s' % (c.fn, n) for c in con for n, _ in c.req})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ass,
              wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if vac:
        log('vacuous assumptions in', vac)
        if not violation:
            raise SystemExit(3)
    if violation:
        print(violation)
        raise SystemExit(1)
    if undec:
        log('outside the verifier here (bounded stand-in only):', undec)
    log('held')


if __name__ == '__main__':
    main()
