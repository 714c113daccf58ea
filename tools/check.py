#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree by symbolic execution (see DESIGN.md)."""
import os, sys, json, subprocess, tempfile, time, shutil, fcntl, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan
REPO = os.environ.get('REPO', '/repo')
CXX = ['clang++', '-std=c++17', '-O1', '-fno-builtin', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-pic', '-include', HERE + '/model/noextern.h', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE + '/harness', '-I' + HERE + '/model', '-emit-llvm', '-c', '-w']
SUPPORT = ['model/rt_stl', 'model/more', 'model/env', 'harness/common', 'harness/native', 'harness/generic']

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def engine():
    os.makedirs(HERE + '/engine/build', exist_ok=True)
    exe = HERE + '/engine/build/symx'
    with open(HERE + '/engine/build/lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        srcs = [os.path.join(HERE, 'engine', f) for f in os.listdir(HERE + '/engine') if f.endswith(('.cpp', '.h', '.inc', '.sh'))]
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
            sh(['bash', HERE + '/engine/build.sh'])
    return exe

def bc(tmp, run, s): return '%s/%s%s.bc' % (tmp, 'big.' if run.get('big') else '', os.path.basename(s))
def compile_all(tmp, runs):
    with cf.ThreadPoolExecutor(12) as ex:
        jobs = [ex.submit(engine), ex.submit(sh, ['bash', HERE + '/tools/mkbc.sh', tmp])]
        outs = {}
        for run in runs:
            for s in SUPPORT + ['harness/' + run['h']]: outs[bc(tmp, run, s)] = (s, ['-DBIG'] if run.get('big') else [])
        for o, (s, flags) in outs.items(): jobs.append(ex.submit(sh, CXX + flags + ['%s/%s.cpp' % (HERE, s), '-o', o]))
        return [j.result() for j in jobs][0]

def symx_args(exe, tmp, run, extra):
    a = [exe, '--repo', tmp + '/repo.bc']
    for s in SUPPORT + [run['h']]: a += ['--support', bc(tmp, run, s)]
    a += ['--entry', 'harness']
    for k, v in run.get('params', {}).items(): a += ['--param', '%s=%d' % (k, v)]
    if 'preempt' in run: a += ['--preempt', str(run['preempt'])]
    if run.get('race'): a += ['--race']
    if 'maxinstr' in run: a += ['--maxinstr', str(run['maxinstr'])]
    return a + extra

def run_name(run): return run['h'] + ''.join(' %s=%s' % kv for kv in sorted(run.get('params', {}).items())) + (' preempt=%d' % run['preempt'] if 'preempt' in run else '') + (' races' if run.get('race') else '') + (' large world' if run.get('big') else '')

def write_replay(path, prop, run, v):
    with open(path, 'w') as f:
        f.write('# property %s, run: %s\n# %s: %s %s\n# at %s\n' % (prop, run_name(run), v['kind'], v['label'], v['message'].replace('\n', ' '), v['where']))
        f.write('h %s %s\n' % (run['h'], json.dumps({k: run[k] for k in run if k in ('params', 'preempt', 'race', 'big', 'maxinstr')})))
        for l in v['stack'].split('\n'): f.write('#' + l + '\n')
        for n in v.get('notes', []): f.write('# note %s\n' % n)
        for n, val in v['inputs']: f.write('i %s %d\n' % (n, val))
        for t in v['schedule']: f.write('s %d\n' % t)

def engine_replay(exe, tmp, run, path):
    out = path + '.json'
    p = subprocess.run(symx_args(exe, tmp, run, ['--replay', path, '--out', out, '--tmp', tmp + '/w', '--timeout', '120']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        r = json.load(open(out)); os.unlink(out); return p.returncode, r
    except Exception: return p.returncode, {'violations': []}

def known():
    r = []; p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'): r.append(json.loads(l[6:]))
    return r
def is_known(prop, run, v):
    for k in known():
        if k['property'] == prop and k['harness'] == run['h'] and k['label'] == v['label'] and k.get('where', '') in v['where'] and k.get('kind', v['kind']) == v['kind'] and all([n, x] in v['inputs'] for n, x in k.get('inputs', [])): return k
    return None

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    P = plan.PLAN[prop]; runs = P['quick'] + (P.get('thorough', []) if tier == 'thorough' else [])
    budget = 820 if tier == 'quick' else 36000
    tmp = tempfile.mkdtemp(prefix='efswchk.'); rc = 0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage={}, assumptions=plan.ASSUMPTIONS + P.get('assumptions', []), wall_s=0, violations=0)
    tot = dict(paths=0, paths_completed=0, instructions=0, forks=0, queries=0, query_cache_hits=0, sat=0, unsat=0, unknown=0, checks=0, checks_symbolic=0, checks_proved_by_solver=0, sched_points=0, symbolic_variables=0); solver = 0.0
    funcs = set(); details = []; samples = []; validated = 0; diverged = 0; errors = []; nviol = 0; labels = {}
    rdir = HERE + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.unlink(os.path.join(rdir, f))
    try:
        exe = compile_all(tmp, runs)
        for run in runs:
            left = budget - ( time.time() - t0 )
            if left < 5: errors.append('time budget used up before run ' + run_name(run)); break
            out = tmp + '/out.json'
            if os.path.exists(out): os.unlink(out)
            p = subprocess.run(symx_args(exe, tmp, run, ['--out', out, '--tmp', tmp + '/w', '--timeout', str(int(left)), '--grace', '0' if any(k['property'] == prop for k in known()) else '40', '--workers', str(os.cpu_count() or 8)]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode not in (0, 1, 2) or not os.path.exists(out): errors.append('%s: engine failed (%d): %s' % (run_name(run), p.returncode, p.stdout[-600:])); continue
            r = json.load(open(out))
            for k in tot: tot[k] += r.get(k, 0)
            solver += r['solver_time_s']; funcs |= set(r['functions'])
            for k, n in r['check_labels'].items(): labels[k] = labels.get(k, 0) + n
            details.append(dict(run=run_name(run), bounds=run.get('bounds', ''), paths=r['paths_completed'], pruned=r['paths_assumed_away'], instructions=r['instructions'], queries=r['queries'] + r['query_cache_hits'], solver_queries=r['queries'], solver_time_s=r['solver_time_s'], wall_s=r['wall_s'], covers=r['covers'], threads=r['max_threads']))
            here = 0
            for i, v in enumerate(r['violations']):
                if P.get('only') and v['label'] and v['label'] not in P['only'] and v['kind'] == 'check': continue
                path = '%s/%s-%d.txt' % (rdir, prop, nviol + i); write_replay(path, prop, run, v)
                how, msg = confirm(exe, tmp, run, path, v)
                if not how: errors.append('%s: counterexample not reproduced (%s %s): %s' % (run_name(run), v['kind'], v['label'] or v['message'], msg)); continue
                k = is_known(prop, run, v)
                if k: print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); continue
                here += 1
                print('VIOLATION property=%s replay=%s' % (prop, path)); print('  run %s: %s: %s %s\n  at %s\n  reproduced: %s' % (run_name(run), v['kind'], v['label'], v['message'], v['where'], how)); print(v['stack'][:1500]); sys.stdout.flush()
                for n in v.get('notes', [])[-40:]: print('    ' + n)
            nviol += here
            for m in r['error_messages']: errors.append(run_name(run) + ': ' + m)
            if r['timeout']: errors.append(run_name(run) + ': time limit')
            if not r['violations']:
                for c in run.get('covers', []):
                    if not r['covers'].get(c): errors.append('%s: vacuous, nothing reached "%s"' % (run_name(run), c))
                val, div, smp = validate(exe, tmp, run, r['samples'], rdir, prop)
                validated += val; diverged += len(div); samples += smp
                for d in div: errors.append('%s: %s' % (run_name(run), d))
            if nviol: break
    except Exception as e:
        errors.append('driver: ' + str(e)[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev['violations'] = nviol; ev['wall_s'] = round(time.time() - t0, 2)
    ev['coverage'] = dict(states=tot['paths'], transitions=tot['instructions'], traces_validated_against_impl=validated, samples=samples[:6] or [dict(run=d['run'], covers=d['covers']) for d in details[:3]], exhaustive=not errors and not nviol,
        explanation='states: execution paths (each stands for every value of its symbolic inputs); transitions: LLVM instructions executed symbolically; traces_validated_against_impl: explored paths whose concrete inputs and schedule were re-executed and ended alike', functions_encoded=sorted(funcs), functions_encoded_count=len(funcs), bounds=P['bounds'], outside_bounds=P.get('outside', ''), assertions=labels, solver='z3', solver_time_s=round(solver, 3), queries_discharged=tot['queries'] + tot['query_cache_hits'], runs=details, totals=tot, errors=errors)
    with open('%s/evidence/%s.json' % (HERE, prop), 'w') as f: json.dump(ev, f, indent=1)
    for e in errors: print('ERROR: ' + e)
    if nviol: rc = 1
    elif errors: rc = 2
    print('%s %s: %d paths, %d instructions, %d queries (%.1f s in z3), %d assertions decided, %.1f s: %s' % (prop, tier, tot['paths'], tot['instructions'], tot['queries'] + tot['query_cache_hits'], solver, tot['checks'], time.time() - t0, 'holds within the bounds' if rc == 0 else 'VIOLATED' if rc == 1 else 'no answer'))
    sys.exit(rc)

def same(v, vs): return any(x['kind'] == v['kind'] and x['label'] == v['label'] for x in vs)
def confirm(exe, tmp, run, path, v):
    rc, r = engine_replay(exe, tmp, run, path)
    if same(v, r['violations']): return 'concrete re-execution', ''
    return None, 'engine replay ended with %d %s' % (rc, [(x['kind'], x['label'], x['message']) for x in r['violations']])
def validate(exe, tmp, run, samples, rdir, prop):
    ok = 0; div = []; out = []
    for i, s in enumerate(samples[:3]):
        path = '%s/%s-sample.txt' % (rdir, prop)
        write_replay(path, prop, run, dict(kind='sample', label='', message='', where='', stack='', **s))
        rc, r = engine_replay(exe, tmp, run, path); os.unlink(path)
        if rc == 0: ok += 1; out.append(dict(run=run_name(run), inputs=s['inputs'][:40], schedule=s['schedule'][:60]))
        else: div.append('a passing path did not pass when re-executed: %s %s' % (rc, r.get('error_messages')))
    return ok, div, out
main()
