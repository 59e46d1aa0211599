#!/usr/bin/env python3
"""plant.py make ID PROP 'needs' 'breaks' file <<< old\n====\nnew   create seeded/ID from a textual edit (+ demo main.rs given in $DEMO)
   plant.py verify ID...     in a scratch copy: builds, stable tests pass, demo passes on the clean tree and fails on the patched one
   plant.py detect ID...     apply to /repo, run the property's quick check, undo; prints caught/missed
   (helper for maintaining /verif/seeded; no check uses it)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SEED = V + '/seeded'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
DEMO = '''#!/bin/bash
# exit 0: behaviour is right; nonzero: broken. Run with cwd = the repository.
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$H/main.rs" "$T/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nhmath = { path = "%s" }\\n[profile.dev]\\nopt-level = 1\\n' "$R" > "$T/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$T" && cargo build --offline -q --target-dir "$T/t" || exit 3
timeout 60 "$T/t/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)
def make(id, prop, needs, breaks, edits, main):
    d = f'{SEED}/{id}'; os.makedirs(d, exist_ok=True); t = tempfile.mkdtemp(dir='/tmp')
    try:
        sh(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, a, b in edits:
            p = t + '/r/' + f; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a)); open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], cwd=t + '/r').stdout)
    finally: shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755); open(d + '/main.rs', 'w').write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
def verify(id, tests=True):
    d = f'{SEED}/{id}'; t = tempfile.mkdtemp(dir='/tmp'); r = t + '/r'
    try:
        sh(['cp', '-a', '/repo', r]); sh(['git', 'checkout', '-q', '--', '.'], cwd=r)
        a = sh(['bash', d + '/demo.sh'], cwd=r); ap = sh(['git', 'apply', d + '/patch.diff'], cwd=r)
        if ap.returncode: return 'patch does not apply ' + ap.stdout
        b = sh(['bash', d + '/demo.sh'], cwd=r)
        if a.returncode != 0: return 'DEMO FAILS ON CLEAN: ' + a.stdout[-500:]
        if b.returncode in (0, 3): return f'DEMO rc {b.returncode} ON PATCHED: ' + b.stdout[-500:]
        if not tests: return 'demo ok'
        os.makedirs(t + '/l')
        x = sh(f'cargo test --workspace --all-features --no-run --offline >{t}/l/b.txt 2>&1 || exit 9; T="timeout -k 10 780 cargo test --workspace --all-features --no-fail-fast --offline"; $T -- --test-threads 8 ratio:: > {t}/l/run-ratio.log 2>&1 & $T -- --test-threads 8 --skip ratio:: > {t}/l/run-rest.log 2>&1 & wait', shell=True, cwd=r, executable='/bin/bash') if False else subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {r}; cargo test --workspace --all-features --no-run --offline >{t}/l/b.txt 2>&1 || exit 9; T="timeout -k 10 780 cargo test --workspace --all-features --no-fail-fast --offline"; $T -- --test-threads 8 ratio:: > {t}/l/run-ratio.log 2>&1 & $T -- --test-threads 8 --skip ratio:: > {t}/l/run-rest.log 2>&1 & wait'])
        if x.returncode: return 'BUILD FAILS'
        sh(['python3', '/opt/vp/results.py', t + '/o.json', f'cargo:{t}/l/run-*.log'])
        o = json.load(open(t + '/o.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in st if x not in o['passed']]
        return 'OK' if not miss else f'TESTS FAIL {miss[:5]}'
    finally: shutil.rmtree(t)
def detect(id):
    d = f'{SEED}/{id}'; p = json.load(open(d + '/meta.json'))['property']
    a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode: return 'patch does not apply'
    try: r = sh(['python3', V + '/run.py', p, 'quick'])
    finally: sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    L = r.stdout.splitlines()
    return f"{p} {'CAUGHT' if r.returncode == 1 and any(l.startswith('VIOLATION property=' + p) for l in L) else 'MISSED rc %d' % r.returncode} | " + ' | '.join(l[:150] for l in L if ' -> ' in l or 'quick:' in l or 'undecided' in l)[:600]
if __name__ == '__main__':
    for id in sys.argv[2:] or sorted(os.listdir(SEED)):
        print(id, dict(verify=verify, detect=detect, demo=lambda i: verify(i, False))[sys.argv[1]](id), flush=True)
