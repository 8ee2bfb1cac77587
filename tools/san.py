"""Drives C40: see san.sh."""
import json, os, re, shutil, subprocess, sys, tempfile, time
t0 = time.time()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier, seed = os.environ['VERIF_TIER'], int(os.environ['VERIF_SEED'])
bins = dict(l.split() for l in open(f'{root}/bins.txt') if not l.startswith('C40'))
# property: scale of its quick workload
QUICK = {'C06': 1.0, 'C38': 1.0, 'C22': 0.5}
jobs = QUICK if tier == 'quick' else {p: 1.0 for p in sorted(bins)}
target = os.environ['CARGO_TARGET_DIR']
need = sorted({bins[p] for p in jobs})
with open(f'{target}/build.log', 'w') as log:
    r = subprocess.run(['cargo', 'build', '--offline', '--locked'] + [a for b in need for a in ('--bin', b)], cwd=f'{root}/harness', stdout=log, stderr=log)
if r.returncode:
    print('the harness does not build against /repo with the sanitizer:')
    print(''.join(l for l in open(f'{target}/build.log') if l.startswith('error'))[:3000])
    sys.exit(3)
scratch = tempfile.mkdtemp(prefix='nyxsan')
shutil.copy(f'{root}/known_findings.txt', scratch)
env = dict(os.environ, VERIF_DIR=scratch, VERIF_TIER='quick', TMPDIR=scratch,
           ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:exitcode=99:abort_on_error=0:handle_segv=1:handle_abort=1:detect_odr_violation=0:color=never')
bad, samples, events, inconclusive = [], [], {}, []
evals = distinct = oracle = 0
try:
    for p, scale in jobs.items():
        for s in ([seed] if tier == 'quick' else [seed, seed + 1]):
            e = dict(env, MON_SCALE=str(scale), VERIF_SEED=str(s))
            r = subprocess.run([f'{target}/x86_64-unknown-linux-gnu/debug/{bins[p]}', p], env=e, capture_output=True, text=True, errors='replace')
            rep = re.search(r'ERROR: AddressSanitizer.*|unsafe precondition\(s\) violated.*', r.stderr)
            if rep or r.returncode in (99, -4, -6, -7, -8, -11):
                os.makedirs(f'{root}/evidence/replay', exist_ok=True)
                path = f'{root}/evidence/replay/C40-{p}-{s}.txt'
                open(path, 'w').write(f'MON_SCALE={scale} VERIF_SEED={s} {bins[p]} {p} built as san.sh does: status {r.returncode}\n{r.stderr[-20000:]}')
                bad.append((p, path, rep.group(0)[:300] if rep else f'ended with status {r.returncode}'))
                continue
            f = f'{scratch}/evidence/{p}.json'
            if not os.path.exists(f):
                inconclusive.append(f'{p}: status {r.returncode} {r.stderr[-300:]}')
                continue
            c = json.load(open(f))['coverage']
            os.remove(f)
            evals += c['evaluations']
            distinct += c['distinct_nontrivial']
            oracle += c['oracle_evaluations']
            for k, v in c['monitor_events'].items():
                events[f'{p}: {k}'] = events.get(f'{p}: {k}', 0) + v
            samples += [dict(x, workload=p) for x in c['samples'][:1]]
finally:
    shutil.rmtree(scratch, ignore_errors=True)
for p, path, what in bad:
    print(f'  workload of {p}: {what}')
    print(f'VIOLATION property=C40 replay={path}')
json.dump({
    'property': 'C40', 'tier': tier, 'seed': seed, 'level': 'exploration',
    'coverage': {'evaluations': evals, 'distinct_nontrivial': distinct,
                 'rule': 'cases of the workloads of the listed properties, run with AddressSanitizer and checked preconditions; non-trivial as there',
                 'workloads': jobs, 'monitor_events': events, 'sanitizer_reports': len(bad), 'samples': samples[:6]},
    'assumptions': ['only accesses which the explored executions make are judged'],
    'wall_s': time.time() - t0, 'violations': len(bad)}, open(f'{root}/evidence/C40.json', 'w'), indent=1)
print(f'C40: {evals} cases, {distinct} distinct non-trivial, {len(bad)} sanitizer reports, {time.time()-t0:.1f} s')
if bad:
    sys.exit(1)
if inconclusive or not distinct:
    print('INCONCLUSIVE:', *inconclusive)
    sys.exit(2)
