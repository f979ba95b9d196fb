#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree by symbolic execution.
Exit 0: held on everything explored. Exit 1: VIOLATION line, counterexample replayed natively.
Exit 2: the check could not be run (build failure of the code or harness, vacuous exploration)."""
import json, os, re, subprocess, sys, time, shutil, tempfile, traceback, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
from jobs import JOBS

def demangle(names):
    try:
        out = subprocess.run(['c++filt', '-p'], input='\n'.join(names), text=True, stdout=subprocess.PIPE).stdout.split('\n')
        return [x for x in out if x]
    except Exception:
        return names

def replay(binary, model, timeout=90, env=None):
    with tempfile.NamedTemporaryFile('w', suffix='.model', delete=False) as f:
        f.write(model)
    try:
        e = dict(os.environ); e.update(env or {})
        p = subprocess.run([binary, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace', env=e)
        return p.returncode, p.stdout[-3000:]
    except subprocess.TimeoutExpired:
        return -14, 'timeout'
    finally:
        os.unlink(f.name)

def known_findings(prop):
    out = []
    try:
        for k in json.load(open(V + '/known-findings.json'))['findings']:
            if k['property'] == prop:
                out.append(k)
    except FileNotFoundError:
        pass
    return out

def run_job(job, tier, outdir, jobs_par):
    os.makedirs(outdir, exist_ok=True)
    env = dict(os.environ)
    env['SX_JOBS'] = str(jobs_par)
    env['SX_SECONDS'] = str(job.get('seconds', 120))
    env['SX_WIT'] = str(job.get('wit', 40))
    env['SX_WIT_EVERY'] = str(job.get('wit_every', 7))
    if 'hang_ms' in job: env['SX_HANG_MS'] = str(job['hang_ms'])
    if tier == 'thorough':
        env['SX_DUMP_EVERY'] = str(job.get('dump_every', 97)); env['SX_DUMP_MAX'] = '40'
    t = time.time()
    p = subprocess.Popen([job['bin'], outdir], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        p.wait(timeout=job.get('seconds', 120) + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
    rd = lambda n: [l for l in open(outdir + '/' + n, errors='replace').read().split('\n') if l] if os.path.exists(outdir + '/' + n) else []
    s = json.loads(rd('summary.json')[0]) if rd('summary.json') else None
    return dict(summary=s, viol=rd('viol.txt'), wit=rd('wit.txt'), unknown=rd('unknown.txt'), lost=rd('lost.txt'), wall=time.time() - t)

def run_python(prop, tier, seconds):
    """the properties of wicked/utils.py: symbolic execution of the Python functions (pysx/dse.py)"""
    p = subprocess.run(['python3-vt', V + '/pysx/c22.py', prop, tier, str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds + 200)
    try:
        return json.loads(p.stdout.strip().split('\n')[-1])
    except Exception:
        raise B.BuildError('the Python functions could not be explored:\n' + p.stdout[-1500:] + p.stderr[-1500:])

def crosscheck(outdir):
    """re-decide dumped queries with cvc5; returns (agreed, disagreed, undecided)"""
    fs = sorted(glob.glob(outdir + '/q-*.smt2'))[:40]
    def one(f):
        try:
            p = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
            r = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
        except Exception:
            r = ''
        want = 'sat' if f.endswith('-sat.smt2') else 'unsat'
        return 2 if r not in ('sat', 'unsat') else (0 if r == want else 1)
    with ThreadPoolExecutor(8) as p:
        r = list(p.map(one, fs))
    return r.count(0), r.count(1), r.count(2)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    spec = JOBS[prop]
    jobs = [dict(j) for j in spec['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    for j in jobs:
        if tier == 'thorough' and 'deep' in j: j.update(j['deep'])
    scratch = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    rdir = V + '/evidence/replays'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (rdir, prop)): os.unlink(f)
    try:
        return go(prop, tier, spec, jobs, scratch, rdir, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def go(prop, tier, spec, jobs, scratch, rdir, t0):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    # build everything first (shared objects are cached by content)
    for j, b in zip(jobs, B.build_jobs(jobs)): j['bin'] = b
    tb = time.time() - t0
    results = []
    pyres = run_python(prop, tier, spec.get('python_seconds', 120) if tier == 'quick' else spec.get('python_deep', 600)) if spec.get('python') else []
    for k, j in enumerate(jobs):
        results.append(run_job(j, tier, '%s/%d' % (scratch, k), 8))
    tot = {}
    funcs = set(); pyfuncs = set(); reach = {}; per = []
    incomplete = False
    natives = {}
    def native(j, san=False):
        key = (j['name'], san)
        if key not in natives: natives[key] = B.native(j, san)
        return natives[key]
    real = []; unconfirmed = []; nviol = 0; validated = 0; witfail = []; samples = []; cc = [0, 0, 0]; vacuous = []
    for k, (j, r) in enumerate(zip(jobs, results)):
        s = r['summary']
        if s is None:
            print('check %s: job %s produced no summary' % (prop, j['name'])); incomplete = True; continue
        for a, b in s.items():
            if isinstance(b, (int, float)): tot[a] = tot.get(a, 0) + b
        funcs |= set(s['functions'])
        for a, b in s['reach'].items(): reach[j['name'] + ': ' + a] = b
        for lab in j.get('must_reach', []):
            if not s['reach'].get(lab): vacuous.append(j['name'] + ': ' + lab)
        if s['incomplete'] or s['lost'] or s['unknown_asserts']: incomplete = True
        per.append(dict(job=j['name'], bound=j.get('bound', ''), paths=s['paths'], decisions=s['branches'], queries=s['queries'], solver_ms=s['solver_ms'],
                        assertions=s['asserts'], incomplete=s['incomplete'], lost=s['lost'], unknown=s['unknown'], wall_s=round(r['wall'], 2)))
        if tier == 'thorough':
            a = crosscheck('%s/%d' % (scratch, k)); cc = [x + y for x, y in zip(cc, a)]
        # counterexamples: one per distinct message first
        seen = {}; todo = []
        for line in r['viol']:
            parts = line.split('|')
            if len(parts) < 3: continue
            kind, msg, model = parts[0], parts[1], parts[2]
            key = (kind, re.sub(r'\[.*', '', msg))
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 4: todo.append((kind, msg, model))
        nviol += s['violations']
        for kind, msg, model in todo[:24]:
            ok = False; out = ''
            if kind == 'race': # confirmed by running the threads under ThreadSanitizer
                nb = B.build_native(j['name'] + '-tsan', j['harness'], j.get('defs', []), only=j.get('only'), flags=('-O1', '-g'), san=('-fsanitize=thread',))
                for _ in range(20):
                    rc, out = replay(nb, model, env=dict(TSAN_OPTIONS='exitcode=66'))
                    if rc == 66: ok = True; break
            elif not j.get('no_native'):
                modes = [False, True] if kind in ('memory', 'crash', 'arithmetic') else [False]
                for san in modes:
                    rc, out = replay(native(j, san), model)
                    if rc == 1 and 'ASSERTION FAILED' in out: ok = True
                    elif rc < 0 or (san and rc not in (0, 3)) or (rc > 3): ok = True
                    if ok: break
            (real if ok else unconfirmed).append(dict(job=j, kind=kind, msg=msg, model=model, out=out))
        # witnesses: the same inputs, run natively, must satisfy every assertion too
        if r['wit'] and not r['viol'] and not j.get('no_native'):
            nb = B.build_native_bc(j['name'], j['harness'], j.get('defs', []), only=j.get('native_only', j.get('only')), shim=j.get('shim', False))
            wl = r['wit'][:j.get('wit_replay', 24)]
            with ThreadPoolExecutor(8) as p:
                rs = list(p.map(lambda m: replay(nb, m), wl))
            for m, (rc, out) in zip(wl, rs):
                if rc == 0: validated += 1
                else: witfail.append(dict(job=j, model=m, rc=rc, out=out))
        samples += [j['name'] + ': ' + w for w in r['wit'][:3]]
    for r in pyres:
        for a, b in (('paths', r['paths']), ('processes', r['paths']), ('branches', r['queries']), ('queries', r['queries']), ('solver_ms', r['solver_s'] * 1000), ('asserts', r['asserts']), ('asserts_symbolic', r['asserts']), ('unknown', r['unknown']), ('sat', r.get('sat', 0)), ('unsat', r.get('unsat', 0))):
            tot[a] = tot.get(a, 0) + b
        for a, b in r['reach'].items(): reach[r['job'] + ': ' + a] = b
        vacuous += [r['job'] + ': ' + x for x in r['missing']]
        if r['incomplete'] or r['unknown']: incomplete = True
        pyfuncs |= set(r.get('functions', []))
        per.append(dict(job=r['job'], bound=r['bound'], paths=r['paths'], queries=r['queries'], solver_ms=round(r['solver_s'] * 1000), assertions=r['asserts'], incomplete=r['incomplete'], unknown=r['unknown'], wall_s=r['wall_s']))
        validated += r.get('replayed', 0)
        samples += [r['job'] + ': ' + str(x) for x in r.get('samples', [])[:3]]
        for v in r['violations'][:8]:
            (real if v['confirmed'] else unconfirmed).append(dict(job=dict(name=r['job'], harness='pysx/c22.py', defs=[prop, tier]), kind='python', msg=v['msg'], model=str(v['model']), out=v.get('out', '')))
    # a witness that fails natively is a counterexample in its own right when the g++ build confirms it
    for w in witfail[:6]:
        rc, out = replay(native(w['job']), w['model'])
        if (rc == 1 and 'ASSERTION FAILED' in out) or rc < 0: real.append(dict(job=w['job'], kind='witness', msg=out.strip().split('\n')[-1][:200], model=w['model'], out=out))
    known = known_findings(prop)
    code = 0; nrep = 0; hit = set()
    for v in real:
        kf = None
        for i, k in enumerate(known):
            if re.search(k['match'], v['job']['name'] + '|' + v['kind'] + '|' + v['msg'] + '|' + v['model']): kf = i
        if kf is not None:
            hit.add(kf); continue
        nrep += 1
        if nrep > 5: continue
        p = '%s/%s-%d.txt' % (rdir, prop, nrep)
        with open(p, 'w') as f:
            f.write('property %s\njob %s\nharness %s defs %s\n%s: %s\ninputs: %s\nnative replay output:\n%s\n\nreplay: python3 build.py with NATIVE=1, then run the -native- binary on a file holding the inputs line\n' %
                    (prop, v['job']['name'], v['job']['harness'], v['job'].get('defs', []), v['kind'], v['msg'], v['model'], v['out']))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s: %s' % (v['kind'], v['msg'][:300])); print('  inputs: %s' % v['model'][:400])
        code = 1
    for i in hit: print('KNOWN-FINDING: property=%s %s' % (prop, known[i]['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=nrep,
        coverage=dict(states=int(tot.get('processes', 0)), transitions=int(tot.get('branches', 0)), traces_validated_against_impl=validated,
            samples=samples[:8] or ['(no path completed)'],
            paths_completed=int(tot.get('paths', 0)), queries=int(tot.get('queries', 0)), sat=int(tot.get('sat', 0)), unsat=int(tot.get('unsat', 0)), unknown=int(tot.get('unknown', 0)),
            solver_s=tot.get('solver_ms', 0) / 1000.0, assertions=int(tot.get('asserts', 0)), assertions_symbolic=int(tot.get('asserts_symbolic', 0)),
            exhaustive=not incomplete, jobs=per, reach=reach, functions_encoded=sorted(set(x.split('(')[0] for x in demangle(sorted(funcs)) if 'lambda' not in x) | pyfuncs)[:400],
            unconfirmed_counterexamples=[dict(job=u['job']['name'], kind=u['kind'], msg=u['msg'][:200], model=u['model'][:300]) for u in unconfirmed[:10]],
            witness_mismatches=[dict(job=w['job']['name'], model=w['model'][:300], rc=w['rc']) for w in witfail[:10]],
            cvc5_crosscheck=dict(agreed=cc[0], disagreed=cc[1], undecided=cc[2]) if tier == 'thorough' else None, build_s=round(tb, 1)),
        assumptions=spec.get('assumptions', []))
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %s; %d paths, %d solver queries (%.1f s), %d assertions, %d native replays, %d unconfirmed, %s, %.1f s' % (prop, tier,
        'VIOLATED' if code else 'held', tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_ms', 0) / 1000.0, tot.get('asserts', 0), validated, len(unconfirmed),
        'complete within bounds' if not incomplete else 'INCOMPLETE', time.time() - t0))
    for u in unconfirmed[:3]: print('  note: counterexample did not reproduce natively: %s %s %s' % (u['job']['name'], u['msg'][:150], u['model'][:200]))
    if code == 0 and vacuous:
        print('check %s: vacuous, never reached: %s' % (prop, vacuous)); return 2
    return code

if __name__ == '__main__':
    try:
        sys.exit(main())
    except B.BuildError as e:
        print('check: build failed\n%s' % e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
