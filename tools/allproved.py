"""development aid: verify every contract on /repo's tree and list what is not proved (expected: nothing)"""
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, H + '/mirvc')
sys.setrecursionlimit(20000)
import ast
import collections
from concurrent.futures import ProcessPoolExecutor
import check
import contracts
import engine
import spec

PROG = None


def one(f):
    global PROG
    if PROG is None:
        PROG = engine.Program(check.extract()[0], check.REPO)
    r = spec.verify(PROG, contracts.C, contracts.C[f], {})
    return f, r.status, r.error, r.vacuous, r.time, [o['name'] for o in r.obls if o['status'] != 'proved']


def clobbered():
    d = collections.defaultdict(list)
    for n in ast.parse(open(H + '/mirvc/contracts.py').read()).body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            d[n.name].append(n.lineno)
        for x in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.For) else []):
            for y in ast.walk(x):
                if isinstance(y, ast.Name):
                    d[y.id].append(n.lineno)
    return {k: v for k, v in d.items() if len(v) > 1}


if __name__ == '__main__':
    print('names defined twice:', clobbered())
    check.extract()
    bad = 0
    with ProcessPoolExecutor(6, max_tasks_per_child=1) as ex:
        for f, s, e, v, t, o in ex.map(one, [f for f in contracts.C if not sys.argv[1:] or contracts.C[f].props() & set(sys.argv[1:])]):
            if s != 'proved' or v:
                bad += 1
                print(f, s, e, 'VACUOUS' if v else '', '%.1fs' % t, o, flush=True)
    print(len(contracts.C), 'contracts,', bad, 'not proved')
