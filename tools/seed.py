#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a list of edits, after checking them in a scratch clone.

usage: seed.py bugs.py [ids]   (bugs.py defines BUGS = [dict(id, property, edits, demo, needs, breaks)])
The scratch clone is /tmp/wk (git clone of /repo, with its Cargo.lock), which the caller makes and removes.
"""
import json, os, re, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
W = '/tmp/wk'
ENV = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
DEMO = '''#!/bin/bash
# Run in the root of the library: exit 0 if it behaves, 1 if not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:$PATH
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d)
trap 'rm -rf "${d:?}"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$d/Cargo.toml"
cd "$d" && cargo build --offline --quiet >build.log 2>&1 || { tail -20 build.log; echo "demo does not build"; exit 2; }
./target/debug/demo
rc=$?
[ $rc = 0 ] && { echo "as it should be"; exit 0; }
echo "misbehaves (exit $rc)"; exit 1
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
lfa = { path = "@REPO@"%s }
ndarray = "0.15"
spaces = "5.0"
%s'''
SERDE = 'serde = { version = "1.0", features = ["derive"] }\nserde_json = { version = "1.0", features = ["float_roundtrip"] }\nbincode = "1.3"\n'
PRE = '#![allow(unused)]\nuse lfa::{basis::*, optim::*, *};\nuse ndarray::{Array1, Array2};\nuse spaces::{Equipartition, ProductSpace, Space};\n\nfn near(a: f64, b: f64) -> bool {\n    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))\n}\n\n'

def sh(cmd, cwd=W, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    sh('git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD')
    ok = True
    for f, old, new in b['edits']:
        p = f'{W}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT matches', s.count(old), f, repr(old)); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        continue
    diff = subprocess.check_output(['git', 'diff'], cwd=W, text=True)
    # every removed line must be an original one
    bad = []
    for f in {e[0] for e in b['edits']}:
        blame = subprocess.check_output(['git', 'blame', '-l', '-s', 'HEAD', '--', f], cwd=W, text=True).splitlines()
        d = subprocess.check_output(['git', 'diff', '-U0', '--', f], cwd=W, text=True)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for l in range(a, a + n):
                if not blame[l - 1].lstrip('^').startswith(base[:38]):
                    bad.append((f, l))
    out = f"/verif/seeded/{b['id']}"
    tmp = f"/tmp/seed_{b['id']}"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
    ser = b.get('serde')
    open(tmp + '/demo.toml', 'w').write(TOML % (', features = ["serde"]' if ser else '', SERDE if ser else ''))
    open(tmp + '/main.rs', 'w').write(PRE + b['demo'].strip() + '\n')
    shutil.copy('/verif/harness/Cargo.lock', tmp + '/Cargo.lock')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
    rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8; cargo build --lib --features serde --offline')
    # parse results
    cur = None; passed = set(); failed = []
    for l in o.splitlines():
        m = re.match(r'test (.*?) \.\.\. (\w+)', l)
        if m:
            n = m[1]
            (passed.add(n) if m[2] == 'ok' else failed.append(n))
    res = open('/dev/null')
    fl = [x for x in failed if any(x.split(' (')[0].strip() in s for s in stable)]
    builds = 'could not compile' not in o and len(passed) >= 20
    rc1, o1 = sh(f'bash {tmp}/demo.sh')
    sh('git checkout -q -- .')
    rc0, o0 = sh(f'bash {tmp}/demo.sh')
    good = builds and not fl and rc1 == 1 and rc0 == 0
    print(b['id'], b['property'], 'OK' if good else 'BAD', dict(builds=builds, failed=failed, patched=(rc1, o1[-300:] if rc1 != 1 else ''), clean=(rc0, o0[-300:] if rc0 else ''), not_original=bad), flush=True)
    if not builds: print(o[-1500:])
    if good:
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
    shutil.rmtree(tmp)
