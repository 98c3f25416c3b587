"""Builds AMPE's C++ classes from /repo's working tree, unmodified, against the stand-ins of SAMRAI, Sundials, MPI and Thermo4PFM in
native/mini, together with the drivers in native/glue.  What does not compile (any more) is left out; a workload that needs it is skipped."""
import os, re, glob, json, shutil, fcntl, subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from build import REPO, VERIF, BUILD, BuildError, _run, _hash

MINI = os.path.join(VERIF, 'native', 'mini')
GLUE = os.path.join(VERIF, 'native', 'glue')
FL = {'plain': ['-O0', '-g0'],
      'san': ['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
      'cov': ['-O0', '-g1', '--coverage']}
LF = {'plain': [], 'san': ['-fsanitize=address,undefined'], 'cov': ['--coverage']}
THERMO = '''CALPHADConcSolverBinary CALPHADConcSolverTernary CALPHADEqConcSolverBinary CALPHADFreeEnergyFunctionsBinary
CALPHADFreeEnergyFunctionsBinary2Ph1Sl CALPHADFreeEnergyFunctionsBinary3Ph2Sl CALPHADFreeEnergyFunctionsBinaryThreePhase
CALPHADFreeEnergyFunctionsTernary CALPHADFunctions CALPHADTieLineConcSolverTernary Determinant InterpolationType
KKSFreeEnergyFunctionDiluteBinary Phases PhysicalConstants QuadraticFreeEnergyFunctionsBinary QuadraticFreeEnergyFunctionsTernaryThreePhase xlogx'''.split()
NGROUPS = 20
ALONE = set('CALPHADMobility QuatModel QuatIntegrator PFModel EllipticFACOps QuatFACOps'.split())      # large, or with file-scope names of their own
# cannot be compiled: removed by their own authors from the build, or replaced by the stand-ins
SKIP = set('SundialsAbstractVector CVODEAbstractFunctions CVODESolver Sundials_SAMRAIVector ApplyPolynomial SpinodalCompositionRHSStrategy'.split())
OWN = set(build.CXX)               # already in the kernel library

def headers(d):
    """forwarding headers for what the sources include"""
    src = os.path.join(REPO, 'source')
    inc = set()
    for p in glob.glob(src + '/*.h') + glob.glob(src + '/*.cc') + glob.glob(src + '/samrai/*') + glob.glob(src + '/fortran/*.h') + glob.glob(REPO + '/tests/*.*'):
        if os.path.isfile(p): inc |= set(re.findall(r'#\s*include\s*[<"](SAMRAI/[^">]+)[">]', open(p, errors='replace').read()))
    def put(n, t):
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as o: o.write(t)
    for i in inc: put(i, '#include "samrai_mini.h"\n')
    for h in THERMO: put(h + '.h', '#include "thermo_mini.h"\n')
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    for h, sy in re.findall(r'FortranCInterface_HEADER\(\s*(\S+)\s+MACRO_NAMESPACE\s+"\w+"\s+SYMBOLS([^)]*)\)', cm):
        put(h, ''.join('#define %s %s_\n' % (s.upper(), s.lower()) for s in sy.split()))
    put('cvode/cvode_spils.h', '')

def undefined(objs):
    d, u = set(), set()
    for l in _run(['nm', '-P'] + objs).split('\n'):
        f = l.split()
        if len(f) < 2: continue
        if f[1] == 'U': u.add(f[0])
        elif f[1] not in 'wv': d.add(f[0])
    return u - d

def world(nd, flavour, units, kern):
    """shared object with the .cc files named in units (their dependencies are added) and the glue files of the same unit list"""
    src = os.path.join(REPO, 'source')
    units = sorted(set(units))
    key = _hash([p for p in glob.glob(src + '/*') + glob.glob(src + '/samrai/*') + glob.glob(src + '/fortran/*.h') + glob.glob(MINI + '/*') + glob.glob(MINI + '/*/*') +
                 glob.glob(GLUE + '/*') if os.path.isfile(p)] + [__file__], '%d %s %s %s' % (nd, flavour, ' '.join(units), kern))
    d = os.path.join(BUILD, 'w%d-%s-%s' % (nd, flavour, key))
    so = os.path.join(d, 'libworld%dd.so' % nd)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lockw-%d-%s' % (nd, flavour)), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(so): return so
        olds = sorted(glob.glob(os.path.join(BUILD, 'w%d-%s-*' % (nd, flavour))), key=os.path.getmtime)
        for old in olds[:-3] if not os.environ.get('VERIF_KEEP') else []: shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        headers(d)
        base = ['g++', '-std=c++17', '-fPIC', '-w', '-DNDIM=%d' % nd, '-DHAVE_NETCDF4', '-UNDEBUG'] + FL[flavour]
        inc = ['-I' + d, '-I' + MINI, '-I' + MINI + '/thermo', '-I' + MINI + '/sundials', '-I' + src, '-I' + src + '/fortran', '-I' + src + '/samrai', '-I/usr/include/hypre']
        pre = os.path.join(d, 'mini_pre.h')
        with open(pre, 'w') as o: o.write('#include "samrai_mini.h"\n#include "thermo_mini.h"\n')
        _run(base + inc + ['-x', 'c++-header', pre, '-o', pre + '.gch'], cwd=d)
        bad = {}
        def comp(f):
            o = os.path.join(d, ('g_' if f.startswith(GLUE) else 'a_') + os.path.basename(f)[:-3] + '.o')
            p = subprocess.run(base + inc + ['-include', pre, '-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
            if p.returncode:
                bad[os.path.basename(f)] = '\n'.join(l for l in p.stdout.split('\n') if 'error' in l)[:1500]
                return None
            return o
        allcc = {os.path.basename(p)[:-3]: p for p in glob.glob(src + '/*.cc') + glob.glob(src + '/samrai/*.cc') if os.path.basename(p) not in OWN and os.path.basename(p) != 'main.cc'}
        done = {}
        hyp = os.path.join(GLUE, 'hypre.cc')
        glue = [os.path.join(GLUE, f) for f in ('world.cc', 'samrai_f77.cc', 'hypre.cc')]
        for u in units:
            g = os.path.join(GLUE, u + '.cc')
            if os.path.exists(g): glue.append(g)
            elif u not in allcc: bad[u] = 'not in the source tree'
        # the sources are compiled in groups; a group that does not compile is compiled file by file
        files = sorted(allcc.values(), key=lambda f: (-os.path.getsize(f), f))
        groups = [[] for _ in range(NGROUPS)]; load = [0] * NGROUPS
        naked = set(os.path.basename(h) for h in glob.glob(src + '/*.h') if not re.search(r'#\s*(pragma\s+once|ifndef|if\s+!defined)', open(h, errors='replace').read()))
        for f in files:
            if os.path.basename(f)[:-3] in SKIP or 'WithPenalty' in os.path.basename(f): continue
            if os.path.basename(f)[:-3] in ALONE or set(re.findall(r'#\s*include\s*"([^"]+)"', open(f, errors='replace').read())) & naked: glue.append(f); continue
            k = load.index(min(load)); groups[k].append(f); load[k] += os.path.getsize(f) + 12000
        def group(k):
            o = os.path.join(d, 'u_%d.o' % k); c = os.path.join(d, 'u_%d.cc' % k)
            with open(c, 'w') as out: out.write(''.join('#include "%s"\n' % f for f in groups[k]))
            p = subprocess.run(base + inc + ['-include', pre, '-c', c, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
            if p.returncode == 0: return {c: o}
            with open(o + '.log', 'w') as out: out.write(p.stdout)
            return {f: comp(f) for f in groups[k]}
        with ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(lambda f=f: {f: comp(f)}) for f in sorted(glue, key=lambda f: -os.path.getsize(f))] + [ex.submit(group, k) for k in range(NGROUPS) if groups[k]]
            for j in jobs: done.update(j.result())
        und = undefined([o for o in done.values() if o])
        und -= set(l.split()[0] for l in _run(['nm', '-P', '-D', '--defined-only', kern]).split('\n') if l)
        objs = [o for o in done.values() if o]
        def link(objs):
            p = subprocess.run(['g++', '-shared', '-o', so + '.tmp'] + objs + LF[flavour] + [kern, '-Wl,-rpath,' + os.path.dirname(kern), '-lnetcdf_c++4', '-lnetcdf', '-lm'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
            if p.returncode: raise BuildError('link of C++ layer: ' + p.stdout[-3000:])
        stub = sorted(s for s in und if re.match(r'(HYPRE|hypre)_\w+$|compdiag|adj\w+_$', s) or re.match(r'[a-z][a-z0-9_]*_$', s))
        with open(os.path.join(d, 'stub.cc'), 'w') as o:
            o.write('#include "samrai_mini.h"\n')
            for s in stub: o.write('extern "C" int %s() { throw MiniGap("%s is not available"); }\n' % (s, s))
            if flavour == 'cov': o.write('extern "C" void __gcov_dump(); extern "C" void verif_gcov_dump() { __gcov_dump(); }\n')
        _run(base + inc + ['-c', os.path.join(d, 'stub.cc'), '-o', os.path.join(d, 'stub.o')], cwd=d)
        link(objs + [os.path.join(d, 'stub.o')])
        with open(os.path.join(d, 'missing.json'), 'w') as o: json.dump(dict(bad=bad, units=sorted(os.path.basename(f) for f in done), undefined=sorted(und)), o, indent=1)
        os.rename(so + '.tmp', so)
        return so
    finally:
        lock.close()
