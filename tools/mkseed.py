#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make and validate planted bugs in the scratch copy /tmp/seedw/repo; writes /verif/seeded/<id>/.
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (rust source) and optionally DEMO (full demo.sh text)"""
import sys, os, subprocess, json, shutil, re
W = '/tmp/seedw/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds a small program against the repository in the current directory and runs it in a scratch folder
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
export HOME=/root PATH=/opt/vp/skip-dashboard:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$REPO/target RUSTC_WRAPPER=
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
mkdir -p $W/src dashboard/dist
cp "$HERE/main.rs" $W/src/main.rs; cp Cargo.lock $W/
cat > $W/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nexo = { path = "$REPO" }
tokio = { version = "1", features = ["full"] }
bytes = "1"
uuid = { version = "1", features = ["v4"] }
tempfile = "3.24.0"
rusqlite = { version = "0.38.0", features = ["bundled", "uuid", "time"] }
serde_json = "1.0"
T
(cd $W && cargo build --offline -q) || { echo "demo does not build"; exit 98; }
cp $REPO/target/debug/demo $W/demo
cd $W && timeout 120 ./demo
'''
def sh(c, cwd=W, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def clean(): sh('git checkout -q -- . && git clean -fdq')
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else [])
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['ID']); os.makedirs(d, exist_ok=True)
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD'); clean()
    if 'MAIN' in g: open(d + '/main.rs', 'w').write(g['MAIN'])
    for n, t in g.get('FILES', {}).items(): open(os.path.join(d, n), 'w').write(t)
    open(d + '/demo.sh', 'w').write(g.get('DEMO', DEMO)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    res = []
    r = sh('bash %s/demo.sh' % d); res.append(('clean demo', r.returncode == 0))
    if r.returncode: print(r.stdout[-1500:], r.stderr[-2500:])
    for f, o, n in g['EDITS']:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(o) != 1: print('EDIT', f, 'matches', s.count(o)); sys.exit(1)
        open(p, 'w').write(s.replace(o, n))
    df = sh('git diff').stdout; open(d + '/patch.diff', 'w').write(df)
    r = sh('bash %s/demo.sh' % d); res.append(('bug demo fails', r.returncode not in (0, 98)))
    tail = (r.stdout + r.stderr)[-400:]
    tst = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seedw/env.sh; sed 's#/opt/vp/env.sh#/tmp/seedw/env.sh#; s#/repo#%s#g' /opt/vp/test.sh > /tmp/seedw/test.sh; bash /tmp/seedw/test.sh /tmp/seedw/out.json" % (W, W))
    try:
        o = json.load(open('/tmp/seedw/out.json')); os.remove('/tmp/seedw/out.json')
        B = json.load(open('/opt/vp/BASELINE.json')); st = B.get('passed') or B.get('stable') or B.get('tests') or B
        miss = [t for t in st if t not in o['passed']]
        res.append(('tests', not miss))
        if miss: print('  failing', miss[:5])
    except Exception as e: res.append(('tests', False)); print(e, tst.stdout[-800:], tst.stderr[-800:])
    clean()
    print(g['ID'], 'OK' if all(x for _, x in res) else 'BAD', res, '|', tail.strip().splitlines()[-1:] )
