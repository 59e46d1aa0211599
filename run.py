#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
   run.py --build                      build the engine, the IR and the replay programs
Every job = one harness function of /verif/harness executed symbolically by /verif/engine on the LLVM IR
compiled from /repo; every counterexample is replayed natively (dev and release) before it is reported."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); B = V + '/.build'; REPO = '/repo'
sys.path.insert(0, V)
import jobs as J
ENV = dict(os.environ, CARGO_BUILD_RUSTFLAGS='-Awarnings', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
for k in list(ENV):
    if k.startswith('CARGO_PROFILE') or k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'): del ENV[k]
ENGINE = B + '/engine/release/hsym'; LL = B + '/ir/release/deps/hh.ll'
BINS = {'dev': B + '/nat/natdev/replay', 'release': B + '/nat/natrel/replay'}

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + '/src', V + '/harness/src'):
        for d, ds, fs in sorted(os.walk(root)):
            for f in sorted(fs): h.update((d + '/' + f).encode()); h.update(open(d + '/' + f, 'rb').read())
    for f in (REPO + '/Cargo.toml', V + '/harness/Cargo.toml', V + '/build_ir.sh'): h.update(open(f, 'rb').read())
    return h.hexdigest()

def build():
    os.makedirs(B, exist_ok=True)
    with open(B + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash(); stamp = B + '/stamp'
        if os.path.exists(stamp) and open(stamp).read() == h and all(os.path.exists(p) for p in [ENGINE, LL] + list(BINS.values())): return
        if os.path.exists(stamp): os.remove(stamp)
        for t in ('ir/release', 'nat/natdev', 'nat/natrel'):  # never trust file times: always recompile the code under test
            fp = f'{B}/{t}/.fingerprint'
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(('hmath-', 'hh-')): shutil.rmtree(f'{fp}/{d}', ignore_errors=True)
        cmds = [(['cargo', 'build', '--release', '--offline', '--target-dir', B + '/engine'], V + '/engine'),
                (['bash', V + '/build_ir.sh', B + '/ir'], V),
                (['cargo', 'build', '--offline', '--profile', 'natdev', '--features', 'native', '--bin', 'replay', '--target-dir', B + '/nat'], V + '/harness'),
                (['cargo', 'build', '--offline', '--profile', 'natrel', '--features', 'native', '--bin', 'replay', '--target-dir', B + '/nat2'], V + '/harness')]
        with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda c: sh(c[0], cwd=c[1], env=ENV), cmds))
        for c, r in zip(cmds, rs):
            if r.returncode != 0: print('BUILD FAILED', ' '.join(c[0]), '\n', r.stdout[-6000:]); sys.exit(2)
        open(stamp, 'w').write(h)
BINS['release'] = B + '/nat2/natrel/replay'

def engine(job, out, tlimit):
    cmd = [ENGINE, '--ll', LL, '--fn', job.fn, '--args', ','.join(map(str, job.args)), '--tactics', job.tactics, '--time', str(tlimit), '--keep', str(job.keep), '--out', out] + job.extra
    if job.contracts: cmd += ['--replace', J.contracts(job.contracts)]
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tlimit + 60)
    except subprocess.TimeoutExpired: return dict(status='inconclusive', inconclusive=['engine time limit'])
    try: return json.load(open(out))
    except Exception: return dict(status='inconclusive', inconclusive=['engine error: ' + (p.stdout or '')[-300:]])

def native(prof, fn, args, inputs, tl=25):
    cmd = [BINS[prof], fn, ','.join(map(str, args)), ','.join(inputs)]
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl)
    except subprocess.TimeoutExpired: return 124, 'does not terminate within %d s' % tl
    return p.returncode, (p.stdout or '').strip()[-600:]

BAD = {42, 43, 44, 124, 134, -6, -11, 101}
def confirm(fn, args, inputs):
    for prof in ('release', 'dev'):
        rc, out = native(prof, fn, args, inputs)
        if rc in BAD: return prof, rc, out
    return None

def main():
    if sys.argv[1:2] == ['--build']: build(); return 0
    pid = sys.argv[1]; tier = (sys.argv[2:] + [os.environ.get('VERIF_TIER', 'quick')])[0]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); build(); tb = time.time() - t0
    prop = J.PROPS[pid]; js = [j for j in prop.jobs if tier == 'thorough' or j.tier == 'quick']
    js.sort(key=lambda j: -j.cost)
    budget = J.BUDGET[tier]; work = f'{B}/work/{pid}-{os.getpid()}'; os.makedirs(work, exist_ok=True)
    start = time.time()
    def one(k):
        j = js[k]; left = budget - (time.time() - start)
        if left < 3: return dict(status='inconclusive', inconclusive=['not started: time budget of the tier spent'])
        return engine(j, f'{work}/{k}.json', min(j.time, left))
    def done(k, r):
        j = js[k]; r['_cexes'] = []; r['_val'] = 0; r['_mis'] = []
        for c in r.get('cex', []):
            x = confirm(j.fn, j.args, c['inputs']); r['_cexes'].append((c, x))
        if j.validate:
            for inp in r.get('path_inputs', [])[:j.keep]:
                for prof in ('release', 'dev'):
                    rc, out = native(prof, j.fn, j.args, inp)
                    if rc == 0: r['_val'] += 1
                    elif rc in BAD: r['_cexes'].append((dict(kind='path-validation', id=0, msg='natively failing path witness', inputs=inp), (prof, rc, out))); break
                    else: r['_mis'].append((inp, rc, out))
        return r
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda k: done(k, one(k)), range(len(js))))
    shutil.rmtree(work, ignore_errors=True)
    viol, unrep, und = [], [], []
    for j, r in zip(js, res):
        for c, x in r['_cexes']:
            (viol if x else unrep).append((j, c, x))
        if r['status'] not in ('pass', 'cex'): und.append(dict(job=j.name(), why=(r.get('inconclusive') or [r['status']])[:4]))
        elif r['status'] == 'cex' and not any(x for _, x in r['_cexes']): und.append(dict(job=j.name(), why=['solver model not reproduced by the compiled code: %s' % [(c['kind'], c['id'], c['inputs']) for c, _ in r['_cexes']][:2]]))
    for f in J.findings(pid):
        x = confirm(f['harness'], f['args'], f['inputs'])
        if x: print(f"KNOWN-FINDING: property={pid} {f['what']}")
    tot = lambda k: sum(r.get(k, 0) for r in res)
    tac = {}
    for r in res:
        for k, v in r.get('tactics', {}).items(): a = tac.setdefault(k, [0, 0.0]); a[0] += v[0]; a[1] = round(a[1] + v[1], 3)
    funcs = sorted({f for r in res for f in r.get('functions', []) if 'hmath' in f}); repl = sorted({f for r in res for f in r.get('replaced', [])})
    cov = dict(states=tot('paths') + tot('panics_ok'), transitions=tot('steps'), traces_validated_against_impl=sum(r['_val'] for r in res),
        samples=[dict(job=j.name(), status=r['status'], bound=j.bound, paths=r.get('paths'), assertions=r.get('asserts'), queries=r.get('queries'), solver_s=r.get('solver_s'), witness=(r.get('path_inputs') or [None])[0]) for j, r in zip(js, res)],
        explanation='states = feasible symbolic paths explored to the end, transitions = IR instructions executed symbolically; each path stands for every input satisfying its path condition',
        jobs=len(js), decided=sum(r['status'] == 'pass' for r in res), undecided=und, queries=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), unknown=tot('unknown'), solver_s=round(tot('solver_s'), 2), tactics=tac,
        functions_encoded=funcs, contracts_used=repl, bounds=prop.bounds, outside_bounds=prop.outside, encoding_mismatches=[m for r in res for m in r['_mis']][:5],
        exhaustive=False, build_s=round(tb, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=J.ASSUMPTIONS + prop.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(V + '/evidence', exist_ok=True)
    tmp = f'{V}/evidence/.{pid}.{os.getpid()}'; json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, f'{V}/evidence/{pid}.json')
    print(f"{pid} {tier}: {len(js)} jobs, {cov['decided']} decided, {len(und)} undecided, {cov['states']} paths, {cov['queries']} queries ({cov['unsat']} unsat), {cov['traces_validated_against_impl']} native validations, {ev['wall_s']} s")
    for u in und[:12]: print('  undecided:', u['job'], '|', '; '.join(u['why'])[:220])
    if viol:
        os.makedirs(V + '/evidence/replays', exist_ok=True); seen = set()
        for j, c, x in viol:
            k = (j.fn, tuple(j.args))
            if k in seen: continue
            seen.add(k); path = f"{V}/evidence/replays/{pid}-{j.fn}-{'_'.join(map(str, j.args))}.sh"
            bin_ = BINS[x[0]]
            open(path, 'w').write(f"#!/bin/bash\n# {prop.title}\n# harness {j.name()}: {c['kind']} {c['id']} {c['msg']}\n# observed ({x[0]} build): exit {x[1]}: {x[2]}\npython3 {V}/run.py --build && {bin_} {j.fn} '{','.join(map(str, j.args))}' '{','.join(c['inputs'])}'\n")
            os.chmod(path, 0o755)
            print(f"  {j.name()} inputs {c['inputs']} -> {x[0]} exit {x[1]} {x[2][-200:]!r}")
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0
sys.exit(main())
