#!/usr/bin/env python3
"""plant.py SPEC.py [ID..]: turns bug specs into seeded/<id>/ after confirming them in a scratch copy.
A spec file defines BUGS = {id: dict(property, edits=[(file, old, new)], needs, breaks, demo=<body of main>, features='')}.
Confirms: patch applies, builds, stable tests pass, demo passes on /repo and fails with the patch."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant'
WT = W + '/wt'
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this input; non-zero: it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
halo2curves = { path = "$repo", features = [@FEATURES@] }
rand_core = { version = "0.6", default-features = false }
subtle = "2.5"
EOF
export RUSTUP_TOOLCHAIN=1.74.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo run --offline --release -q
'''


def sh(cmd, cwd=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def prepare():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(WT):
        sh('cp -a /repo %s' % WT)
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', WT)
    os.makedirs(W + '/vp', exist_ok=True)
    for f in os.listdir('/opt/vp'):
        p = '/opt/vp/' + f
        if os.path.isfile(p):
            s = open(p, errors='replace').read()
            if f.endswith('.sh'):
                s = s.replace('/repo', WT).replace('/opt/vp', W + '/vp')
            open(W + '/vp/' + f, 'w').write(s)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for bid, b in ns['BUGS'].items():
        if want and bid not in want:
            continue
        d = os.path.join(V, 'seeded', bid)
        if os.path.exists(d) and not want:
            continue
        prepare()
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'edit does not match once:', f, s.count(old), old[:60])
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        tmp = W + '/seed-' + bid
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(sh('git diff', WT)[1])
        open(tmp + '/demo.sh', 'w').write(DEMO.replace('@FEATURES@', ', '.join('"%s"' % x for x in ['derive_serde'] + b.get('features', []))))
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/main.rs', 'w').write(b['demo'].strip() + '\n')
        shutil.copy(V + '/harness/Cargo.lock', tmp + '/Cargo.lock')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        r, o = sh('bash %s/demo.sh' % tmp, '/repo')
        if r:
            print(bid, 'DEMO FAILS ON UNCHANGED', o[-1500:])
            continue
        r, o = sh('bash %s/demo.sh' % tmp, WT)
        if not r or 'error[' in o or 'could not compile' in o:
            print(bid, 'DEMO DOES NOT FAIL WITH PATCH' if not r else 'COMPILE ERROR', o[-1500:])
            continue
        print(bid, 'demo with patch:', o.strip()[-160:].replace('\n', ' | '))
        r, o = sh('bash %s/vp/build.sh' % W)
        if r:
            print(bid, 'BUILD FAILS', o[-1500:])
            continue
        r, o = sh('bash %s/vp/test.sh %s/out.json' % (W, W))
        res = json.load(open(W + '/out.json'))
        bad = stable - set(res['passed'])
        if bad:
            print(bid, 'TESTS FAIL', len(bad), sorted(bad)[:4])
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print(bid, 'PLANTED', flush=True)


main()
