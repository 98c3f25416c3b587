"""workload support for the whole-model monitors: decks, initial data"""
import os, re, tempfile, shutil
import numpy as np
import deck as D
from scipy.io import netcdf_file
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native', 'decks')

def prepare(name, nd, n, rng=None, L=None, precond=False):
    """deck with resolution n (per axis), no preconditioner, absolute data file names, init.nc as the initial data"""
    d = D.load(name)
    d.put('Geometry/coarsest_level_resolution', [int(x) for x in n])
    if L is not None:
        d.put('Geometry/x_lo', [0.] * nd); d.put('Geometry/x_up', [float(x) for x in L])
    heat = d.one('ModelParameters/Temperature/equation_type') == 'unsteady' or d.one('ModelParameters/Temperature/equation_type') == '"unsteady"'
    if not heat and not precond: d.put('Integrator/Preconditioner', {'enabled': ['FALSE']})
    def walk(x):
        for k, v in x.items():
            if isinstance(v, dict): walk(v)
            else:
                for j, t in enumerate(v):
                    m = re.match(r'"([^"]*\.(?:dat|json|csv))"$', str(t)) if isinstance(t, str) else None
                    if m: v[j] = '"%s"' % os.path.join(DATA, os.path.basename(m.group(1)))
    walk(d)
    for k in ('Visit', 'Restart', 'Amr', 'TimerManager'): d.put(k, None)
    return d

def writenc(fn, n, fields):
    """fields: name -> array [i, j(, k)]"""
    f = netcdf_file(fn, 'w')
    n3 = list(n) + [1] * (3 - len(n))
    for a, b in zip('xyz', n3): f.createDimension(a, int(b))
    for k, a in fields.items():
        v = f.createVariable(k, 'd', ('z', 'y', 'x'))
        v[:] = np.asarray(a).reshape(n3).transpose(2, 1, 0)
    f.close()

def smooth(rng, n, modes=2, nd=None):
    """random smooth field in [0, 1]"""
    g = np.meshgrid(*[(np.arange(m) + .5) / m for m in n], indexing='ij')
    s = 0.
    for _ in range(modes):
        k = rng.integers(-2, 3, len(n)); s = s + rng.standard_normal() * np.cos(2 * np.pi * (sum(a * b for a, b in zip(k, g)) + rng.random()))
    s = s - s.min(); m = s.max()
    return s / m if m > 1e-9 else np.full(tuple(n), .5)

QLEN = {'Quat': {2: 4, 3: 4}, 'KWC': {2: 1, 3: 1}, 'KWCcomplex': {2: 2, 3: 4}}
def qlen(d, nd): return QLEN[d.one('model_type', 'Quat')][nd]

def nphases(name, d):
    m = int(d.num('ModelParameters/norderp', 1) or 1)
    if m > 1: return m
    if d.one('ModelParameters/three_phases') == 'TRUE': return 3
    t = d.one('ModelParameters/norderp'); ic = d.get_path('InitialConditions') or {}
    if 'ThreePhases' in name or '3Ph' in name or name.startswith('Restart'): return 3
    return 1

def fields(name, d, nd, n, rng, qn=None):
    """random smooth initial data for a deck"""
    f = {}
    m = nphases(name, d)
    ph = [smooth(rng, n) + .05 for _ in range(max(m, 1))]
    if m > 1:
        s = sum(ph); ph = [p / s for p in ph]
        for i, p in enumerate(ph): f['phase%d' % i] = p
    else: f['phase0'] = f['phase'] = .02 + .9 * smooth(rng, n)
    f['eta'] = .02 + .9 * smooth(rng, n)
    T = d.num('ModelParameters/Temperature/temperature', d.num('ModelParameters/Temperature/T_ref', 1000.))
    f['temperature'] = T * (1 + .002 * smooth(rng, n))
    ql = qlen(d, nd)
    q = np.stack([smooth(rng, n) - .5 for _ in range(ql)]) + (rng.standard_normal(ql) * 1.2).reshape((-1,) + (1,) * len(n))
    q = q / np.sqrt((q ** 2).sum(0)) if ql > 1 else .2 + .6 * smooth(rng, n)[None]
    for i in range(ql): f['quat%d' % (i + 1)] = q[i]
    c = conc(d)
    for i in range(3): f['concentration%d' % i] = c[i] * (1 + .1 * (smooth(rng, n) - .5))
    f['concentration'] = f['concentration0']
    return f

def conc(d):
    ic = d.get_path('InitialConditions') or {}
    for k in ('init_c', 'concentration', 'init_concA'):
        if k in ic:
            v = [float(x) for x in ic[k]]
            return (v + v * 3)[:3]
    return [.1, .1, .1]

def setup(name, nd, n, rng, wdir, **kw):
    """writes the initial data into wdir and returns (deck, fields)"""
    d = prepare(name, nd, n, **kw)
    f = fields(name, d, nd, n, rng)
    ic = d.get_path('InitialConditions') or {}
    keep = {k: v for k, v in ic.items() if k.startswith('init')}
    keep['filename'] = ['"init.nc"']; d['InitialConditions'] = keep
    writenc(os.path.join(wdir, 'init.nc'), n, f)
    return d, f
