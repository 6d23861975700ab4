#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the bug descriptions in tools/seed/*.py (development tool; no check uses it).

usage: mkseed.py [--verify] [id ...]
--verify: in a scratch copy of /repo, confirm that the change builds, passes the stable tests, and that the
demonstration passes without it and fails with it."""
import sys, os, json, subprocess, shutil, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
SCRATCH = '/tmp/seedrepo%d' % os.getpid()

DEMO = r'''#!/bin/bash
# Runs in /repo after the build.  Exit 0: behaves as documented; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/ordinal-map-demo-%(id)s
rm -rf /tmp/ordinal-map-demo-%(id)s
trap 'rm -rf /tmp/ordinal-map-demo-%(id)s' EXIT
mkdir -p "$d/src" || exit 9
cp "$here"/*.rs "$d/src/" || exit 9
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ordinal-map = { path = "$repo/ordinal-map" }
[workspace]
[profile.dev]
opt-level = 1
overflow-checks = true
EOF
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" || exit 9
%(run)s
'''
RUN = 'timeout 250 cargo run -q --offline'
RUN_MIRI = 'timeout 280 cargo +nightly miri run -q --offline'
RUN_32 = 'timeout 290 cargo +nightly miri run -q --offline --target i686-unknown-linux-gnu'
RUN_REJECT = '''# good.rs must compile; bad.rs (over the limit) must not
cp src/good.rs src/main.rs
timeout 140 cargo build -q --offline || { echo "the program within the limits does not compile"; exit 2; }
cp src/bad.rs src/main.rs
if timeout 140 cargo build -q --offline 2>/dev/null; then echo "the program over the limits compiles"; exit 1; fi
exit 0'''

def load():
    bugs = {}
    for f in sorted(glob.glob(HERE + '/seed/*.py')):
        g = {'RUN': RUN, 'RUN_MIRI': RUN_MIRI, 'RUN_REJECT': RUN_REJECT, 'RUN_32': RUN_32}
        exec(compile(open(f).read(), f, 'exec'), g)
        for b in g['BUGS']:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs

def sh(cmd, cwd, t=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode(errors='replace')

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    verify = '--verify' in sys.argv
    bugs = load()
    ids = args or list(bugs)
    if os.path.exists(SCRATCH): shutil.rmtree(SCRATCH)
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    sh('git checkout -q -- . && git clean -fdq', SCRATCH)
    bad = []
    for i in ids:
        b = bugs[i]
        sh('git checkout -q -- .', SCRATCH)
        for f, old, new in b['edits']:
            p = f'{SCRATCH}/{f}'
            s = open(p).read()
            if s.count(old) != b.get('count', 1) and s.count(old) != 1:
                print(i, 'EDIT MATCHES', s.count(old), f, repr(old[:60])); bad.append(i); break
            s = s.replace(old, new)
            open(p, 'w').write(s)
        else:
            d = f'{OUT}/{i}'
            if os.path.exists(d): shutil.rmtree(d)
            os.makedirs(d)
            diff = subprocess.check_output('git diff', cwd=SCRATCH, shell=True).decode()
            open(d + '/patch.diff', 'w').write(diff)
            for n, src in b['files'].items(): open(f'{d}/{n}', 'w').write(src)
            shutil.copy('/verif/harness/Cargo.lock', d + '/Cargo.lock')
            open(d + '/demo.sh', 'w').write(DEMO % dict(id=i.lower(), run=b.get('run', RUN)))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            if verify:
                r, out = sh('bash -c ". /opt/vp/env.sh; cd %s; CARGO_TARGET_DIR=%s/target cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8"' % (SCRATCH, SCRATCH), SCRATCH)
                r2, out2 = sh(f'bash {d}/demo.sh', SCRATCH)
                sh('git checkout -q -- .', SCRATCH)
                r3, out3 = sh(f'bash {d}/demo.sh', SCRATCH)
                ok = r == 0 and r2 not in (0, 9) and r3 == 0
                print(i, 'ok' if ok else 'NOT OK', 'tests', r, 'demo with', r2, 'without', r3, '|', out2.strip().splitlines()[-1:][:1])
                if r: print('\n'.join(l for l in out.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[:1500])
                if r3: print(out3[-1500:])
                if not ok: bad.append(i)
                sys.stdout.flush()
    shutil.rmtree(SCRATCH)
    print('bad:', bad)

main()
