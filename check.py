"""check.py <PROPERTY> [--tier quick|thorough]   decide one property
   check.py --replay FILE                        re-run a recorded violation against the real code"""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
CPY = os.environ.get('VC_CPYTHON', '/opt/venv/bin/python')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def sym_job(a):
    prop, name, fftw, limit = a
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = {}
    def go():
        try:
            from vc import registry, harness, engine
            scen = [s for s in registry.load(prop) if s.name == name][0]
            if hasattr(engine.STATS, 'clear'):
                for k in engine.STATS: engine.STATS[k] = 0
            r = harness.Runner(scen, fftw, time_limit=limit).run()
            out.update(name=name, fftw=fftw, obl=r.obl, paths=r.paths, unsupported=r.unsupported, assumed=sorted(r.assumed), files=sorted(r.files), wall=r.wall, stats=dict(engine.STATS), inv=r.inv)
        except BaseException as e:
            out.update(name=name, fftw=fftw, obl={}, paths=0, unsupported='engine error: %r' % e, assumed=[], files=[], wall=0, stats={}, tb=traceback.format_exc(), inv=[])
    t = threading.Thread(target=go); t.start(); t.join()
    return out

def run_concrete(prop, fftw, jobs, timeout):
    """-> {scenario name: result}; never raises"""
    req = json.dumps({'props': [prop], 'seed': SEED, 'fftw': fftw, 'jobs': jobs})
    res = {}
    err = ''
    p = subprocess.Popen([CPY, '-W', 'ignore', '-m', 'vc.concrete'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE,
                         env=dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
    try:
        o, err = p.communicate(req, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); o, err = p.communicate(); err += '\nTIMEOUT'
    for l in o.splitlines():
        if l.startswith('@@'):
            d = json.loads(l[2:]); res[d['k'].split('/', 1)[1]] = d['r']
    return res, (err[-2000:] if p.returncode else '')
def con_job(a):
    prop, fftw, jobs, timeout = a
    return fftw, jobs, run_concrete(prop, fftw, jobs, timeout)

def lean_job(a):
    """-> (file, {lemma: proved}, note): every lemma must be accepted without sorry or foreign axioms"""
    file, names = a
    import re, shutil
    exe = shutil.which('lean')
    if not exe: return file, {}, 'lean not found'
    t0 = time.time()
    try: p = subprocess.run([exe, file], cwd=os.path.join(HERE, 'lean'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except Exception as e: return file, {}, 'lean gave no answer: %r' % e
    ok = {}
    for n in names:
        m = re.search(r"'%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(n), p.stdout)
        ax = set() if m and not m.group(2) else {x.strip() for x in m.group(2).split(',')} if m else {'missing'}
        ok[n] = p.returncode == 0 and ax <= {'propext', 'Classical.choice', 'Quot.sound'}
    return file, ok, '' if all(ok.values()) else p.stdout[-300:]

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                # known: property=Cxx | scenario | obligation | description
                out.append([x.strip() for x in l.split('|')])
    return out

def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    thorough = tier == 'thorough'
    t0 = time.time()
    from vc import registry
    scens = [s for s in registry.load(prop) if thorough or not s.thorough_only]
    limit = 1500 if thorough else 300
    sjobs = [(prop, s.name, f, limit) for s in scens if s.sym for f in s.fftw]
    sjobs.sort(key=lambda j: -[s for s in scens if s.name == j[1]][0].opts.get('cost', 1))
    cjobs = []
    mult = 10 if thorough else 3
    for f in (False, True):
        js = []
        for s in scens:
            # scenarios without FFT configuration are sampled in the default configuration (pyfftw present)
            if (f in s.fftw) if len(s.fftw) > 1 else (f == s.opts.get('cfftw', True)):
                js.append({'prop': prop, 'name': s.name, 'samples': list(range(s.samples * mult)), 'limit': 400 if thorough else 60})
        k = 1 if len(js) <= 3 else 2 if len(js) < 8 else 3
        for i in range(k):
            if js[i::k]: cjobs.append((prop, f, js[i::k], 1500 if thorough else 400))
    nproc = min(8, os.cpu_count() or 4)
    sres = []; cres = []
    with mp.get_context('spawn').Pool(nproc, maxtasksperchild=1) as pool:
        ca = [pool.apply_async(con_job, (j,)) for j in cjobs]
        la = [pool.apply_async(lean_job, (l,)) for l in registry.LEMMAS.get(prop, [])]
        sa = [pool.apply_async(sym_job, (j,)) for j in sjobs]
        for j, r in zip(sjobs, sa):
            try: sres.append(r.get(timeout=max(10, limit + 200 - (time.time() - t0))))
            except mp.TimeoutError:
                sres.append(dict(name=j[1], fftw=j[2], obl={}, paths=0, unsupported='hard time limit', assumed=[], files=[], wall=0, stats={}, inv=[]))
            except Exception as e:
                sres.append(dict(name=j[1], fftw=j[2], obl={}, paths=0, unsupported='worker died %r' % e, assumed=[], files=[], wall=0, stats={}, inv=[]))
        for r in ca:
            try: cres.append(r.get(timeout=max(10, (1700 if thorough else 500) - (time.time() - t0))))
            except Exception as e: print('note: concrete batch gave no result: %r' % e)
        lres = []
        for l, r in zip(registry.LEMMAS.get(prop, []), la):
            try: lres.append(r.get(timeout=450))
            except Exception as e: lres.append((l[0], {}, repr(e)))
        pool.terminate()
    viol = []          # (scenario, obligation, replay-json, has_input)
    conc = {}
    runs = passed = 0
    samples_out = []
    for fftw, jobs, (res, err) in cres:
        for j in jobs:
            r = res.get(j['name'])
            if r is None:
                viol.append((j['name'], 'concrete run', {'kind': 'crash', 'stderr': err, 'fftw': fftw}, True, 'the real code did not run: ' + err.strip()[-300:]))
                continue
            runs += r['runs']; passed += r['passed']
            conc[(j['name'], fftw)] = r
            if r['fail']:
                for nm, det in r['fail']['fails'][:1]:
                    viol.append((j['name'], nm, {'kind': 'input', 'fftw': fftw, 'sample': r['fail']['sample'], 'inputs': r['fail']['inputs'], 'all': r['fail']['fails']}, True, det))
            elif not r['runs']:
                viol.append((j['name'], 'vacuous', {'kind': 'vacuous', 'fftw': fftw}, False, 'no admissible sample'))
    nob = ndis = 0
    byback = {}
    unsup = []
    failed_syms = []
    bounded = []
    for s in scens:
        if not s.sym: bounded.append('%s: %s' % (s.name, s.bounded or 'sampled'))
    for r in sres:
        if r['unsupported']:
            unsup.append(r)
        for nm, o in r['obl'].items():
            if r['unsupported'] and not o['fail']: continue
            nob += 1
            if not o['fail']: ndis += 1
            else: failed_syms.append((r, nm, o))
        if not r['unsupported'] and not r['obl']:
            viol.append((r['name'], 'vacuous', {'kind': 'vacuous'}, False, 'no obligation generated'))
    lemmas_ok = 0; lem = []
    for (file, names), (_, ok, note) in zip(registry.LEMMAS.get(prop, []), lres):
        nob += len(names); k = sum(1 for n in names if ok.get(n)); ndis += k; lemmas_ok += k
        lem.append({'file': 'lean/' + file, 'lemmas': list(names), 'proved': [n for n in names if ok.get(n)]})
        if k < len(names): print('note: lemmas of lean/%s not rechecked: %s' % (file, note))
    have = {(v[0]) for v in viol}
    # failed obligations: look for a failing input on the real code
    extra = []
    todo = {}
    for r, nm, o in failed_syms: todo.setdefault((r['name'], r['fftw']), []).append((nm, o))
    for r in unsup: todo.setdefault((r['name'], r['fftw']), [])
    jobs = {}
    for (name, fftw), fl in todo.items():
        if name in have: continue
        sc = [s for s in scens if s.name == name][0]
        f = fftw if len(sc.fftw) > 1 else sc.opts.get('cfftw', True)
        n = max(40, sc.samples * 6)
        js = [{'prop': prop, 'name': name, 'samples': list(range(100000, 100000 + n)), 'limit': 60}]
        for nm, o in fl[:3]:
            m = {k: v for k, v in (o.get('model') or {}).items() if isinstance(v, (int, float)) and '<' not in k}
            if m: js.append({'prop': prop, 'name': name, 'samples': list(range(200000, 200000 + 6)), 'limit': 20, 'over': m, 'model': True})
        jobs[(name, f)] = js
    found = {}
    if jobs:
        with mp.get_context('spawn').Pool(nproc) as pool:
            rs = []
            for (name, f), js in jobs.items():
                for j in js: rs.append((name, f, j, pool.apply_async(con_job, ((prop, f, [j], 120),))))
            for name, f, j, r in rs:
                try: _, _, (res, err) = r.get(timeout=200)
                except Exception: continue
                x = res.get(name)
                if x:
                    runs += x['runs']; passed += x['passed']
                    if x['fail'] and (name not in found) and not (j.get('model') and any(n == 'no exception' for n, _ in x['fail']['fails'][:1])):
                        found[name] = (f, j, x['fail'])
            pool.terminate()
    for name, (f, j, fl) in found.items():
        viol.append((name, fl['fails'][0][0], {'kind': 'input', 'fftw': f, 'sample': fl['sample'], 'over': j.get('over'), 'inputs': fl['inputs'], 'all': fl['fails']}, True, fl['fails'][0][1]))
        have.add(name)
    seen = set()
    for r, nm, o in failed_syms:
        if r['name'] in have or (r['name'], nm) in seen: continue
        seen.add((r['name'], nm))
        viol.append((r['name'], nm, {'kind': 'obligation', 'fftw': r['fftw'], 'detail': o['detail'], 'path_condition': o['pc'], 'model': o.get('model')}, False, 'obligation not discharged'))
    # report
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    kf = known(prop)
    nv = 0
    for r in unsup:
        print('note: %s [%s]: outside the verifier (%s); decided by the bounded stand-in (sampled contract)' % (r['name'], 'pyfftw' if r['fftw'] else 'numpy', r['unsupported']))
        if os.environ.get('VC_DEBUG') and r.get('tb'): print(r['tb'])
    for name, nm, rp, has, det in viol:
        hit = [k for k in kf if k[1] == name and k[2] == nm]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3])); continue
        nv += 1
        rp.update(property=prop, scenario=name, obligation=nm, seed=SEED, detail2=det)
        path = os.path.join('replays', '%s-%d.json' % (prop, nv))
        json.dump(rp, open(os.path.join(HERE, path), 'w'), indent=1, default=str)
        print('obligation failed: %s :: %s :: %s' % (name, nm, str(det).strip()[-400:]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if has else ' no-failing-input-found'))
    under = sorted({u for s in scens for u in s.under})
    files = sorted({f for r in sres for f in r['files']})
    assum = sorted({a for r in sres for a in r['assumed']})
    st = {}
    for r in sres:
        for k, x in (r['stats'] or {}).items(): st[k] = st.get(k, 0) + x
    boundedl = bounded + ['%s (%s): %s' % (r['name'], 'pyfftw' if r['fftw'] else 'numpy', r['unsupported']) for r in unsup]
    from vc.trusted import TRUSTED
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'proof', 'wall_s': round(time.time() - t0, 2), 'violations': nv,
          'assumptions': TRUSTED['assumptions'] + assum[:60],
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier), 'trusted_base': TRUSTED['base'],
                       'functions_under_contract': under, 'source_files_extracted': files, 'paths': sum(r['paths'] for r in sres),
                       'scenarios': [{'name': r['name'], 'pyfftw': r['fftw'], 'paths': r['paths'], 'obligations': len(r['obl']), 'discharged': sum(1 for o in r['obl'].values() if not o['fail']),
                                      'wall_s': round(r['wall'], 2), 'status': 'unsupported: ' + r['unsupported'] if r['unsupported'] else 'proved' if all(not o['fail'] for o in r['obl'].values()) else 'failed',
                                      'loop_invariants': r.get('inv', [])} for r in sres],
                       'backend': {'normal_form': st.get('nf', 0), 'z3_goals': st.get('z3', 0), 'z3_queries': st.get('z3_queries', 0), 'z3_seconds': round(st.get('z3_time', 0), 2), 'case_splits': st.get('split', 0), 'lean_lemmas': lemmas_ok},
                       'lemmas': lem,
                       'bounded_not_proved': boundedl,
                       'concrete_crosscheck_runs': runs, 'concrete_crosscheck_assertions': passed}}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %d cross-check runs, %d bounded, %.1fs' % (prop, nob, ndis, len(under), runs, len(boundedl), time.time() - t0))
    return 1 if nv else 0

def replay(path):
    d = json.load(open(path))
    if d['kind'] != 'input':
        print(json.dumps(d, indent=1)); return 1
    res, err = run_concrete(d['property'], d['fftw'], [{'prop': d['property'], 'name': d['scenario'], 'samples': [d['sample']], 'over': d.get('over')}], 300)
    print(json.dumps(res, indent=1), err)
    r = res.get(d['scenario'])
    return 1 if r is None or r['fail'] else 0

if __name__ == '__main__':
    sys.exit(main())
