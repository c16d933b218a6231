#!/usr/bin/env python3
"""mkseed.py SPEC.py : plants one change in /repo, confirms build + stable tests + demo, keeps it under /verif/seeded/<id>, undoes it.
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs text)."""
import json, os, subprocess, sys, tempfile
S = {}
exec(open(sys.argv[1]).read(), S)
R = '/repo'
d = '/verif/seeded/' + S['ID']
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
os.makedirs(d, exist_ok=True)
open(d + '/demo.rs', 'w').write(S['DEMO'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stratum-dsp = { path = "$R" }
[profile.dev]
debug = 0
X
CARGO_TARGET_DIR="$T/target" cargo run --offline -q --manifest-path "$T/Cargo.toml"
''')
json.dump(dict(property=S['PROP'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
try:
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo on unchanged tree:', r0.returncode, (r0.stdout + r0.stderr)[-300:])
    for f, old, new in S['EDITS']:
        t = open(os.path.join(R, f)).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(os.path.join(R, f), 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    b = sh('bash /tmp/base.sh').stdout
    print('tests:', b.strip()[-300:])
    r1 = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo on changed tree:', r1.returncode, (r1.stdout + r1.stderr)[-300:])
    ok = r0.returncode == 0 and r1.returncode != 0 and 'missing [] 274' in b
    if ok and '--nocheck' not in sys.argv:
        c = sh('python3-vt check.py %s quick' % S['PROP'], cwd='/verif')
        print('check:', c.returncode, '\n'.join((c.stdout + c.stderr).splitlines()[-6:]))
finally:
    sh('git -C /repo checkout -- .')
print('KEPT' if ok else 'REJECTED', S['ID'])
if not ok:
    for f in ('demo.rs', 'demo.sh', 'meta.json', 'patch.diff'):
        p = os.path.join(d, f)
        if os.path.exists(p): os.remove(p)
    os.rmdir(d)
