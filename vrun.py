#!/opt/veriftools/pyvenv/bin/python3
"""python3-vt /verif/vrun.py <property> : runs every monitored workload of one property; see DESIGN.md"""
import sys, os, json, time, subprocess, tempfile, threading, queue, importlib, glob, re, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SPECS = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, 'specs', '*.py')) if not p.endswith('__init__.py'))

def load():
    for m in SPECS:
        importlib.import_module('specs.' + m)
    import harness
    return harness

# ------------------------------------------------------------------------------------------ worker
MODES = {'C15': 'memory', 'C16': 'split'}

def worker(nd, flavour, so, jobs, seed, logpath, mode=None):
    log = open(logpath, 'a', buffering=1)
    def out(**k):
        log.write(json.dumps(k) + '\n'); log.flush()
    import harness as H, traceback
    import numpy as np
    np.seterr(all='ignore')
    load()
    wso = None
    if '|' in so: so, wso = so.split('|')
    H.Arr.SAN = flavour == 'san'
    Gap = ()
    if wso:
        import ctypes, wd
        ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
        W = wd.World(wso, nd); Gap = (wd.Gap, wd.GlueMissing)
        tmp = tempfile.mkdtemp(prefix='vcase'); os.chdir(tmp)
    lib = H.Lib(nd, so)
    for (name, idx) in jobs:
        out(t='B', s=name, i=idx)
        c = H.Case(lib, name, seed, idx, flavour, mode)
        if wso: c.w = W
        try:
            H.REG[name]['f'](c)
            c.finish()
            out(t='D', s=name, i=idx, p=c.points, c=c.calls, n=bool(c.nontriv), d=c.digest, f=sorted(c.features), o=c.obs,
                l=c.log if idx < 2 and flavour == 'plain' else [])
        except H.Violation as v:
            out(t='V', s=name, i=idx, k=v.kind, m=v.msg, w=str(v.kw.get('what', '')))
        except H.Skip as v:
            out(t='S', s=name, i=idx, m=str(v))
        except Gap as v:
            out(t='S', s=name, i=idx, m='the stand-in lacks ' + str(v))
        except Exception as v:
            if wso and type(v).__name__ == 'Died':
                log.close(); sys.stderr.flush()
                if os.WIFSIGNALED(v.st):
                    import signal; signal.signal(os.WTERMSIG(v.st), signal.SIG_DFL) if os.WTERMSIG(v.st) not in (9, 19) else None
                    os.kill(os.getpid(), os.WTERMSIG(v.st))
                os._exit(os.WEXITSTATUS(v.st) or 98)
            elif wso and isinstance(v, wd.WorldError):
                out(t='V', s=name, i=idx, k='abort', m='%s: %s' % (getattr(c, 'ctx', ''), str(v)[:600]), w='abort')
            else: out(t='E', s=name, i=idx, m=traceback.format_exc()[-3000:])
    out(t='Z', used=sorted(lib.used))
    log.close()
    if wso:
        if not os.environ.get('VERIF_NOFREE'): W.glue('model_free', check=False) if hasattr(W.lib, 'model_free') else None
        os.chdir('/'); shutil.rmtree(tmp, ignore_errors=True)
        if flavour == 'cov': W.lib.verif_gcov_dump()
    os._exit(0)

def run_worker(nd, flavour, so, jobs, seed, tmo, mode=None):
    """runs jobs in a subprocess, restarting after a crash; returns list of records"""
    recs = []
    jobs = list(jobs)
    retried = {}
    while jobs:
        fd, logp = tempfile.mkstemp(prefix='vlog'); os.close(fd)
        fd, jobp = tempfile.mkstemp(prefix='vjob'); os.close(fd)
        errp = logp + '.err'
        with open(jobp, 'w') as f: json.dump(jobs, f)
        scr = tempfile.mkdtemp(prefix='vscr')
        env = dict(os.environ, TMPDIR=scr)
        env.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        if flavour == 'san':
            pre = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            pre2 = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
            env['LD_PRELOAD'] = os.path.realpath(pre) + ' ' + os.path.realpath(pre2)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=79'
            env['PYTHONMALLOC'] = 'malloc'
        with open(errp, 'w') as ef:
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--worker', str(nd), flavour, so, jobp, str(seed), logp, mode or ''],
                                 stdout=ef, stderr=ef, env=env, cwd='/')
            try:
                rc = p.wait(timeout=tmo)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = 'timeout'
        rs = [json.loads(l) for l in open(logp) if l.endswith('\n')]
        err = open(errp, errors='replace').read()
        for x in (logp, jobp, errp):
            os.unlink(x)
        shutil.rmtree(scr, ignore_errors=True)
        done = {}
        last = None; fin = False
        for r in rs:
            if r['t'] == 'B': last = (r['s'], r['i'])
            elif r['t'] in 'DVES': done[(r['s'], r['i'])] = r; last = None
            elif r['t'] == 'Z': fin = True
            if r['t'] != 'B': r['fl'] = flavour; r['nd'] = nd; recs.append(r)
        if fin: break
        if last is None:
            recs.append(dict(t='E', s='-', i=-1, nd=nd, fl=flavour, m='worker died outside a case rc=%s %s' % (rc, err[-1500:])))
            break
        r = dict(s=last[0], i=last[1], nd=nd, fl=flavour)
        if rc == 'timeout':
            if retried.get(last):
                r.update(t='V', k='hang', m='%s case %d does not terminate' % last, w='hang')
            else:
                retried[last] = 1
                jobs = [j for j in jobs if tuple(j) not in done and tuple(j) != last]
                jobs = [list(last)] + jobs
                continue
        elif rc == 77:
            m = re.findall(r'VERIF-STOP.*', err)
            r.update(t='V', k='stop', m='the kernel ends the run: %s' % (m[-1] if m else '?'), w='stop')
        elif 'AddressSanitizer' in err or rc == 78:
            m = re.findall(r'(ERROR: AddressSanitizer.*|#[0-6] 0x.*)', err)
            r.update(t='V', k='asan', m=' | '.join(m[:8])[:1500], w='asan')
        elif 'runtime error:' in err or rc == 79:
            m = re.findall(r'(.*runtime error:.*)', err)
            r.update(t='V', k='ubsan', m=(m[0] if m else err[-500:]), w='ubsan')
        elif 'symbol lookup error' in err or 'undefined symbol' in err:
            r.update(t='S', m='not available: ' + (re.findall(r'undefined symbol.*', err) or ['?'])[0])
        elif 'Fortran runtime error' in err:
            m = re.findall(r'(At line.*|Fortran runtime error.*)', err)
            r.update(t='V', k='fortran-check', m=' '.join(m[:2]), w='fortran')
        elif isinstance(rc, int) and rc < 0 and rc != -9:
            r.update(t='V', k='crash', m='killed by signal %d: %s' % (-rc, err[-800:]), w='crash')
        else:
            r.update(t='E', m='worker ended with %s: %s' % (rc, err[-1500:]))
        recs.append(r)
        # after a crash skip the other cases of this spec in this worker
        jobs = [j for j in jobs if tuple(j) not in done and (tuple(j) != last if '|' in so else j[0] != last[0])]
    return recs

def library(nd, fl, w):
    """kernel library, with the C++ layer appended where the workload needs it; '!...' when that layer cannot be observed"""
    import build
    k = build.kernels(nd, fl)
    if not w: return k
    import world
    try: so = world.world(nd, fl, ['glue_model'], k)
    except build.BuildError as e: return '!' + str(e)[:300]
    bad = json.load(open(os.path.join(os.path.dirname(so), 'missing.json')))['bad']
    if bad: return '!does not compile against the stand-ins: ' + ' '.join(sorted(bad))[:300]
    return k + '|' + so

# ------------------------------------------------------------------------------------------ main
def main(pid, tier, seed, only=None, nmul=1.0, flavours=None, verbose=False):
    t0 = time.time()
    H = load()
    import build
    mode = MODES.get(pid)
    specs = {n: r for n, r in H.REG.items() if (pid in r['props'] or (pid in MODES and not r.get('nogeneric'))) and (only is None or n in only)}
    if not specs:
        print('no workload for', pid); return 2
    cnt = {}
    jobs = {}
    for n, r in sorted(specs.items()):
        for nd in r['dims']:
            k = max(1, int(r['n'] * (1.3 if r.get('world') else 1.) * nmul * (r['thorough'] if tier == 'thorough' else 1)))
            fls = r.get('flavours', ('plain', 'san'))
            if mode == 'split':
                if 'plain' not in fls: continue
                fls = ('plain',)
            if mode: k = max(2, k // 2)
            for fl in fls:
                if flavours and fl not in flavours: continue
                kk = k if fl == 'plain' or len(fls) == 1 else max(2, k // 4)
                jobs.setdefault((nd, fl, 'w' if r.get('world') else ''), []).extend([[n, i] for i in range(kk)])
    from concurrent.futures import ThreadPoolExecutor
    try:
        with ThreadPoolExecutor(4) as ex:
            libs = dict(zip(jobs, ex.map(lambda k: library(*k), jobs)))
    except build.BuildError as e:
        print('BUILD-ERROR', e); return 3
    work = []
    recs = []
    for (nd, fl, w), js in jobs.items():
        so = libs[(nd, fl, w)]
        if so.startswith('!'):
            recs += [dict(t='S', s=n, i=i, nd=nd, fl=fl, m='not observable: ' + so[1:]) for n, i in js]
            continue
        nch = max(1, min(8, len(js) // (4 if w else 20)))
        # keep specs together but spread
        for k in range(nch):
            work.append((nd, fl, so, js[k::nch], seed, 600, mode))
    with ThreadPoolExecutor(8) as ex:
        recs += [r for rs in ex.map(lambda w: run_worker(*w), work) for r in rs]
    return verdict(pid, tier, seed, specs, recs, t0, verbose)

def verdict(pid, tier, seed, specs, recs, t0, verbose=False):
    kf = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        kf = [k for k in json.load(open(p))['findings'] if k['property'] == pid]
    errs = [r for r in recs if r['t'] == 'E']
    viol = [r for r in recs if r['t'] == 'V']
    done = [r for r in recs if r['t'] == 'D']
    rc = 0
    new, known = [], {}
    for r in viol:
        key = '%s/%dd/%s/%s' % (r['s'], r['nd'], r['k'], r['w'])
        r['key'] = key
        m = [k for k in kf if k.get('status') != 'fixed' and re.fullmatch(k['key'], key)]
        if m: known.setdefault(m[0]['key'], (m[0], r))
        else: new.append(r)
    for k, r in known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    seen = set()
    rdir = os.path.join(HERE, 'out', 'replay')
    for r in new:
        sk = (r['s'], r['nd'], r['k'])
        if os.environ.get('VERIF_ALL'): print('  V', r['key'], r['fl'], r['i'], r['m'][:200])
        if sk in seen: continue
        seen.add(sk)
        if len(seen) > 20: break
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, '%s-%s-%dd-%s-%d.json' % (pid, r['s'], r['nd'], r['fl'], r['i']))
        json.dump(dict(property=pid, spec=r['s'], nd=r['nd'], flavour=r['fl'], case=r['i'], seed=seed, kind=r['k'], message=r['m'],
                       replay='python3-vt /verif/vrun.py --replay %s' % f), open(f, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, f))
        print('   [%s %s] %s' % (r['key'], r['fl'], r['m'][:600]))
        rc = 1
    if errs:
        for r in errs[:6]:
            print('ERROR', r['s'], r.get('nd'), r['fl'], r['i'], r['m'][-1800:])
        print('%d harness errors' % len(errs))
        if rc == 0: rc = 2
    per = {}
    feats = {}
    digs = set()
    nt = 0
    for r in done:
        k = '%s/%dd/%s' % (r['s'], r['nd'], r['fl'])
        x = per.setdefault(k, [0, 0, 0]); x[0] += 1; x[1] += r['c']; x[2] += r['p']
        for f in r['f']: feats['%s:%s' % (r['s'], f)] = feats.get('%s:%s' % (r['s'], f), 0) + 1
        if r['n']:
            h = (r['s'], r['nd'], r['d'], r['fl'] == 'san')
            if h not in digs: digs.add(h); nt += 1
    used = sorted(set(u for r in recs if r['t'] == 'Z' for u in r.get('used', [])))
    samples = []
    ss = set()
    for r in done:
        if r['l'] and r['s'] not in ss:
            ss.add(r['s']); samples.append(dict(spec=r['s'], nd=r['nd'], case=r['i'], calls=r['l'], points=r['p']))
    skipped = sorted(set('%s: %s' % (r['s'], r['m']) for r in recs if r['t'] == 'S'))
    for m in skipped: print('SKIPPED', m)
    sk = set(r['s'] for r in recs if r['t'] == 'S')
    empty = [n for n in specs if n not in sk and pid not in MODES and not any(r['s'] == n and (r['p'] > 0) for r in done) and not any(r['s'] == n for r in viol)]
    if empty and rc == 0:
        print('ERROR nothing observed by', empty); rc = 2
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=dict(
        evaluations=len(done) + len(viol), distinct_nontrivial=nt,
        rule='a case = one seeded random input set (box, ghost widths, spacings, field data, parameters, option letters) for one workload and '
             'dimension, run through the compiled kernels and compared with the oracle; non-trivial = its oracle had at least one '
             'non-zero expected value or checked invariant, distinct = different bits in the kernels\' inputs',
        calls=sum(r['c'] for r in done), compared_values=sum(r['p'] for r in done),
        per_workload={k: dict(cases=v[0], calls=v[1], compared_values=v[2]) for k, v in sorted(per.items())},
        features=feats, routines=used, skipped=skipped, known_findings=[k['key'] for k, _ in known.values()],
        samples=samples[:12] or [dict(note='no case finished')]),
        assumptions=['gfortran/g++ 13 and their sanitizer runtimes', 'numpy double arithmetic of the reference', 'tolerances in DESIGN.md'],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d kernel calls, %d compared values, %d routines, %d violations (%d known), %.1fs' % (
        pid, tier, seed, len(done) + len(viol), ev['coverage']['calls'], ev['coverage']['compared_values'], len(used), len(new), len(known), time.time() - t0))
    return rc

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--worker':
        worker(int(a[1]), a[2], a[3], [tuple(x) for x in json.load(open(a[4]))], int(a[5]), a[6], a[7] or None); sys.exit(0)
    if a and a[0] == '--replay':
        r = json.load(open(a[1]))
        import build
        import harness; load()
        so = library(r['nd'], r['flavour'], 'w' if harness.REG[r['spec']].get('world') else '')
        for x in run_worker(r['nd'], r['flavour'], so, [[r['spec'], r['case']]], r['seed'], 600, MODES.get(r['property'])): print(json.dumps(x, indent=1))
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only, nmul, fls, pid = None, 1.0, None, None
    i = 0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--seed': seed = int(a[i + 1]); i += 2
        elif a[i] == '--only': only = a[i + 1].split(','); i += 2
        elif a[i] == '--nmul': nmul = float(a[i + 1]); i += 2
        elif a[i] == '--flavour': fls = a[i + 1].split(','); i += 2
        else: pid = a[i]; i += 1
    sys.exit(main(pid, tier, seed, only, nmul, fls))
