"""Builds the code under test from /repo's current working tree into a private scratch directory.

Nothing is taken from /repo/_build: every check compiles the m4/Fortran kernels and the SAMRAI-free C++ itself,
in the flavour it needs:  plain (-O2)  |  san (-O1, address+undefined sanitizers, Fortran bounds checks, signalling-NaN
initialisation of locals)  |  cov (gcov).
"""
import os, sys, subprocess, glob, hashlib, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

class BuildError(Exception):
    pass

FLAGS = {
    'plain': dict(f=['-O2', '-g1'], c=['-O2', '-g1'], l=[]),
    'san': dict(f=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                   '-fcheck=bounds', '-finit-real=snan', '-finit-integer=-1234567'],
                c=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                   '-D_GLIBCXX_ASSERTIONS', '-UNDEBUG'],
                l=['-fsanitize=address,undefined']),
    'cov': dict(f=['-O0', '-g', '--coverage'], c=['-O0', '-g', '--coverage'], l=['--coverage']),
}

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]

CXX = ['TiltingFolchPlapp2005.cc', 'TiltingMoelans2011.cc', 'computeWeights3Pairs.cc']

def kernels(nd, flavour='plain'):
    """shared object with all Fortran kernels of one dimension + functions.f + quat.f + the free C++ functions"""
    src = os.path.join(REPO, 'source')
    fdir = os.path.join(src, 'fortran')
    m4s = sorted(glob.glob('%s/%dd/*.m4' % (fdir, nd)))
    fs = sorted(glob.glob('%s/*.f' % fdir))
    incs = sorted(glob.glob('%s/*.i' % fdir) + glob.glob('%s/*.h' % fdir))
    ccs = [p for p in (os.path.join(src, c) for c in CXX) if os.path.exists(p)]
    shim = os.path.join(VERIF, 'native', 'shim.cc')
    api = os.path.join(VERIF, 'native', 'api.cc')
    hs = sorted(glob.glob('%s/*.h' % src))
    key = _hash(m4s + fs + incs + ccs + [shim, api, __file__] + hs, '%d %s' % (nd, flavour))
    d = os.path.join(BUILD, 'k%d-%s-%s' % (nd, flavour, key))
    so = os.path.join(d, 'libampe%dd.so' % nd)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock-%d-%s' % (nd, flavour)), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(so):
            return so
        for old in glob.glob(os.path.join(BUILD, 'k%d-%s-*' % (nd, flavour))):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        fl = FLAGS[flavour]
        jobs = []
        for m in m4s:
            b = os.path.basename(m)[:-3]
            f = os.path.join(d, b + '.f')
            with open(f, 'w') as o:
                p = subprocess.run(['m4', '-DSAMRAI_FORTDIR=' + fdir, m], stdout=o, stderr=subprocess.PIPE, text=True)
                if p.returncode:
                    raise BuildError('m4 %s: %s' % (m, p.stderr))
            jobs.append((['gfortran', '-c', '-fPIC', '-cpp', '-DNDIM=%d' % nd] + fl['f'] + [f, '-o', f[:-2] + '.o'], f[:-2] + '.o'))
        for f in fs:
            o = os.path.join(d, 'c_' + os.path.basename(f)[:-2] + '.o')
            jobs.append((['gfortran', '-c', '-fPIC', '-cpp', '-DNDIM=%d' % nd] + fl['f'] + [f, '-o', o], o))
        for c in ccs + [shim, api]:
            o = os.path.join(d, 'x_' + os.path.basename(c)[:-3] + '.o')
            jobs.append((['g++', '-std=c++11', '-c', '-fPIC', '-DNDIM=%d' % nd, '-I' + src, '-I' + fdir] + fl['c'] + [c, '-o', o], o))
        jobs.sort(key=lambda j: -os.path.getsize([a for a in j[0] if a.endswith(('.f', '.cc'))][0]))
        with ThreadPoolExecutor(8) as ex:
            def one(j):
                try: _run(j[0], cwd=d)
                except BuildError:
                    if not j[1].endswith('x_api.o'): raise
                    j[1:] = [None]             # the C++ interface was changed: its workloads are skipped
            jobs = [list(j) for j in jobs]
            list(ex.map(one, jobs))
            jobs = [j for j in jobs if j[1]]
        _run(['g++', '-shared', '-o', so + '.tmp'] + [j[1] for j in jobs] + fl['l'] + ['-lgfortran', '-lm'], cwd=d)
        try:
            import json, mksigs
            mksigs.R = REPO
            new, old = mksigs.collect(), json.load(open(os.path.join(VERIF, 'lib', 'sigs.json')))
            ifc = mksigs.compare(dict(old['common'], **old[str(nd)]), dict(new['common'], **new[str(nd)]))
        except Exception as ex:
            ifc = {}
        with open(os.path.join(d, 'interface.json'), 'w') as o: json.dump(ifc, o)
        os.rename(so + '.tmp', so)
        return so
    finally:
        lock.close()

if __name__ == '__main__':
    import time
    for nd in (2, 3):
        for fl in sys.argv[1:] or ['plain', 'san']:
            t = time.time(); print(kernels(nd, fl), '%.1fs' % (time.time() - t))
