"""C21: what a run reports (scalar diagnostics, grains, their volumes and compositions) is what its fields say"""
import re
import numpy as np
from harness import *
import mod, vary, wd, mdl
from mod import Model
from specs.model import deck_of, variant, first, finite, step_for
from specs.stages import geometry
M = 'ModelParameters/'
NUM = r'([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf|-nan|-inf))'

def line(t, what, all=False):
    v = [float(x) for x in re.findall(r'^\s*' + what + r'\s*=\s*' + NUM + r'\s*$', t, re.M)]
    return v if all else (v[0] if v else None)

def close(c, m, what, got, want, digits=6, scale=0., rel=0.):
    """a printed number (some digits) against what the fields give"""
    c.points += 1; c.nontriv = True
    if got is None: raise Violation('missing', '%s: %s is not reported' % (c.ctx, what), what=what)
    s = max(abs(want), abs(got))
    if not abs(got - want) <= (.51 * 10 ** (1 - digits) + rel) * s + scale:
        raise Violation('value', '%s: %s reported as %r; the fields give %r' % (c.ctx, what, got, float(want)), what=what)

def setting(c, d, f):
    """diagnostics on, with random options"""
    r = c.rng
    o = {'interval': ['1'], 'interval_type': ['"step"'], 'extra_energy_detail': ['TRUE' if r.random() < .5 else 'FALSE']}
    if (d.num(M + 'norderp', 1) or 1) > 1 and 'Wang' not in c.ctx and r.random() < .7: o['domain_fraction'] = ['%r' % float(r.uniform(.3, 1.)) for _ in range(c.nd)]
    d.put('ScalarDiagnostics', o)

def VM(d):
    v = d.num(M + 'ConcentrationModel/molar_volume') or d.num(M + 'molar_volume') or d.num(M + 'Temperature/molar_volume')
    return v

def run_report(c, name, ed, steps):
    n = mod.size(c.nd, c.rng)
    def edit(d, f):
        if ed: ed(d, f)
        setting(c, d, f)
    m = Model(c, name, n=n, edit=edit, boxes=mod.cutboxes(c.rng, n, int(c.rng.integers(1, 5))) if c.rng.random() < .7 else None)
    r = m.rhs(0., 0); finite(c, r, 'rate')
    dt = step_for(r, m.state(), .01)
    for _ in range(steps): m.cycle(dt)
    m.text(); m.w.glue('model_diag'); t = m.text()
    d, ti = m.d, m.time()['t']
    V = float(np.prod(geometry(m))); L = V * np.prod(n)
    gp = int((d.one(M + 'ConcentrationModel/gc', 'FALSE') or '').upper() == 'TRUE')
    E = m.energy(ti, gp)
    names = ['Total energy', 'phi energy', 'eta energy', 'orient energy', 'qint energy', 'well energy', 'free energy']
    if np.isfinite(E).all():
        tot = line(t, r'Total energy \[pJ\]')
        close(c, m, 'total energy', tot, E[0])
        if d.one('ScalarDiagnostics/extra_energy_detail') == 'TRUE':
            for k, w in ((1, 'phi'), (3, 'orient'), (4, 'qint'), (5, 'well'), (6, 'free')): close(c, m, w + ' energy', line(t, w + r' energy \[pJ\]'), E[k])
            if not gp:
                s = float(np.abs(E[1:7]).sum())
                close(c, m, 'sum of the parts of the energy', tot, float(sum(E[1:7])), 6, 1e-6 * s)
    ramp = d.num(M + 'Temperature/dtemperaturedt', 0.) or d.get_path(M + 'Temperature/filename') is not None      # (the field is that of the last evaluation)
    if m.has('temperature') and not (ramp and steps):
        T = m.get('temperature')[..., 0]
        for w, v in (('Min. Temperature', T.min()), ('Max. Temperature', T.max()), ('Average Temperature', T.mean())): close(c, m, w, line(t, re.escape(w)), v)
    if m.has('phase') and 'phase' in r:
        ph = m.get('phase')
        if ph.shape[-1] > 1:
            for k in range(ph.shape[-1]): close(c, m, 'volume fraction of phase %d' % k, line(t, 'Volume fraction of phase %d' % k), ph[..., k].mean(), 6, 1e-12)
        else: close(c, m, 'volume fraction of the solid', line(t, 'Volume fraction of solid phase'), np.abs(ph).mean(), 6, 1e-12)
        if m.has('phase_mobility'):
            mb = m.get('phase_mobility')
            close(c, m, 'largest phase mobility', line(t, 'Max. Phase mobility'), mb.max()); close(c, m, 'smallest phase mobility', line(t, 'Min. Phase mobility'), mb.min())
        if d.get_path('ScalarDiagnostics/domain_fraction') is not None and ph.shape[-1] > 1 and d.one(M + 'three_phases') != 'TRUE':
            want = density(c, m, ph)
            if want is not None: close(c, m, 'density', line(t, 'Density'), want, 6, 1e-9); c.features_add('density')
    if m.has('concentration'):
        co = m.get('concentration')
        for k in range(co.shape[-1]):
            close(c, m, 'content of species %d' % k, line(t, 'Integral concentration %d' % k), co[..., k].sum() * V)
            close(c, m, 'largest concentration of species %d' % k, line(t, 'Max. concentration %d' % k), co[..., k].max())
            cex = line(t, r'Cex \(HBSM\) for component %d' % k)
            if cex is not None and 'phase' in r:
                ph = m.get('phase')[..., 0]
                a = np.abs(ph * co[..., k]).sum() * V; b = co[..., k].mean() * np.abs(ph).sum() * V
                close(c, m, 'excess of species %d in the solid' % k, cex, (a - b) / (co[..., k].sum() * V), 6, 1e-9 * (abs(a) + abs(b)) / abs(co[..., k].sum() * V))
                c.features_add('cex')
    th = line(t, r'Thermal energy \[pJ\]')
    if d.one(M + 'Temperature/equation_type', '').strip('"') == 'unsteady' and 'temperature' in r:
        cp = m.get('cp')[..., 0]; T = m.get('temperature')[..., 0]
        a = (cp * T).sum() * V; b = 0.
        if 'phase' in r: b = d.num(M + 'Temperature/latent_heat') * 1e-6 / VM(d) * m.get('phase')[..., 0].sum() * V
        close(c, m, 'thermal energy', th, a - b, 6, 1e-6 * (abs(a) + abs(b))); c.features_add('thermal')

def density(c, m, ph):
    """one minus the mean of the last order parameter over the cells of the middle of the domain; None: a cell lies on the edge of it"""
    d = m.d
    lo, up = [[float(x) for x in d.get_path('Geometry/' + k)] for k in ('x_lo', 'x_up')]
    fr = [float(x) for x in d.get_path('ScalarDiagnostics/domain_fraction')]
    k = ph.shape[-1] - 1                           # the phase that is not a grain
    w = np.ones(tuple(m.n), bool)
    for q in range(c.nd):
        h = (up[q] - lo[q]) / m.n[q]
        x = (np.arange(m.n[q]) + .5) * h
        e = .5 * (up[q] - lo[q]) * (1 - fr[q])
        keep = (x >= e) & (x <= up[q] - lo[q] - e)
        sh = [1] * c.nd; sh[q] = -1
        w &= keep.reshape(sh)
    if not w.any(): return None
    return 1. - ph[..., k][w].mean()

@spec('C21', n=188, world=True, nogeneric=True, flavours=('plain',))
def reports(c):
    """printed scalar diagnostics against the fields"""
    name = deck_of(c, mod.NOISE)
    ed = variant(c, name)
    first(c, True, run_report, c, name, ed, int(c.rng.integers(0, 3)))

# --- grains
def components(mask, per):
    """connected cells (through their faces, and through periodic sides): label of each cell, -1 outside; numbered by the first cell in storage order"""
    from scipy.ndimage import label
    lab, k = label(mask)
    up = list(range(k + 1))
    def find(a):
        while up[a] != a: a = up[a]
        return a
    for q, p in enumerate(per):
        if not p: continue
        a, b = np.take(lab, 0, q).ravel(), np.take(lab, -1, q).ravel()
        for x, y in zip(a, b):
            if x and y: up[find(max(x, y))] = find(min(x, y))
    root = np.array([find(a) for a in range(k + 1)])
    lab = root[lab]
    F = np.asfortranarray(lab).ravel(order='F')          # the first index runs fastest
    first = {}
    for x in F:
        if x and x not in first: first[x] = len(first)
    out = np.full(lab.shape, -1)
    for x, j in first.items(): out[lab == x] = j
    return out

def blobs(rng, n):
    """phase with grains of random shapes: smooth blobs, single cells, plates, rings, nearly everything"""
    k = int(rng.integers(6))
    if k == 0: a = rng.random(n)
    elif k == 1: a = sum(mdl.smooth(rng, n, 4) for _ in range(2)) / 2
    elif k == 2:
        a = np.zeros(n)
        for _ in range(int(rng.integers(1, 6))):
            lo = [int(rng.integers(0, m)) for m in n]; hi = [int(rng.integers(l + 1, m + 1)) for l, m in zip(lo, n)]
            a[tuple(slice(l, h) for l, h in zip(lo, hi))] = rng.choice([0., 1., 1.])
    elif k == 3:
        from scipy.ndimage import uniform_filter
        a = uniform_filter(rng.random(n), 3, mode='wrap'); a = (a - a.min()) / (a.max() - a.min())
    elif k == 4: a = np.where(rng.random(n) < .1, 0., 1.)
    else:
        a = np.zeros(n); q = int(rng.integers(len(n)))
        ix = [slice(None)] * len(n); ix[q] = slice(None, None, 2); a[tuple(ix)] = 1.
        for _ in range(3): a[tuple(int(rng.integers(m)) for m in n)] = 1.
    return np.clip(a, 0., 1.)

def run_grains(c, name, ed):
    n = mod.size(c.nd, c.rng)
    th = float(c.pick([.5, .85, .3, .95]))
    if c.rng.random() < .2: th = None
    per = [int(x) for x in c.rng.integers(0, 2, c.nd)]
    ph = blobs(c.rng, n)
    vis = bool(c.rng.random() < .5)
    if th is not None and c.rng.random() < .3: ph = np.where(ph > .7, th, ph)        # cells just at the threshold belong to grains
    def edit(d, f):
        if ed: ed(d, f)
        g = {'interval': ['1'], 'interval_type': ['"step"']}
        if th is not None: g['phase_threshold'] = ['%r' % th]
        d.put('GrainDiagnostics', g)
        if vis: d.put('Visit', {'interval': ['1'], 'interval_type': ['"step"'], 'grain_output': ['TRUE']})
        d.put('Geometry/periodic_dimension', [str(x) for x in per])
        for q in ('Phase', 'Conc', 'Temperature', 'Eta', 'Quat'):
            if not all(per): d.put(M + 'BoundaryConditions/' + q, {'boundary_%d' % k: ['"slope"', '"0"'] for k in range(2 * c.nd)})
    m = Model(c, name, n=n, edit=edit, boxes=mod.cutboxes(c.rng, n, int(c.rng.integers(2, 7))) if c.rng.random() < .8 else None)
    if not m.has('quat') or m.get('phase').shape[-1] > 1: raise Skip('no grains of one phase')
    m.set('phase', ph[..., None])
    m.text(); m.w.value('graindiag'); t = m.text()
    mask = ph >= (.85 if th is None else th)
    g = m.get('grain_number')[..., 0].astype(int)
    want = components(mask, per)
    c.points += g.size; c.nontriv = True; c.features_add('grains%d' % min(want.max() + 1, 9), 'periodic%d' % sum(per))
    if 'did not converge' in t: raise Skip('the numbering says that it did not converge')
    if (g != want).any():
        j = [int(x) for x in np.argwhere(g != want)[0]]
        raise Violation('value', '%s: cell %s is numbered as of grain %d, expected %d of %d' % (c.ctx, j, g[tuple(j)], want[tuple(j)], want.max() + 1), what='number')
    V = float(np.prod(geometry(m)))
    k = int(want.max()) + 1
    vol = dict((int(a), float(b)) for a, b in re.findall(r'Volume of grain (-?\d+) = ' + NUM, t))
    if set(vol) != set(range(k)): raise Violation('value', '%s: volumes of grains %s are reported, there are %d' % (c.ctx, sorted(vol)[:20], k), what='volumes')
    for j in range(k): close(c, m, 'volume of a grain', vol[j], (want == j).sum() * V)
    if vis:
        gv = m.get('grain_volume')[..., 0]; w = np.array([(want == j).sum() * V for j in range(k)] + [0.])[want]
        c.points += gv.size
        if not np.abs(gv - w).max() <= 1e-9 * V * g.size: raise Violation('value', '%s: field of the grain volumes differs by %r' % (c.ctx, float(np.abs(gv - w).max())), what='grain_volume')
    if m.has('concentration'):
        co = m.get('concentration')[..., 0]
        av = dict((int(a), float(b)) for a, b in re.findall(r'Concentration average of grain (-?\d+) = ' + NUM, t))
        dv = dict((int(a), float(b)) for a, b in re.findall(r'Concentration deviation of grain (-?\d+) = ' + NUM, t))
        for j in range(k):
            x = co[want == j]
            close(c, m, 'mean composition of a grain', av.get(j), x.mean(), 6, 1e-12); close(c, m, 'variance of the composition of a grain', dv.get(j), x.var(), 6, 1e-12 * np.abs(x).max() ** 2)
        if k:
            al = re.search(r'Concentration average for all grains at \S+ = ' + NUM, t)
            close(c, m, 'mean composition of the grains', float(al.group(1)) if al else None, co[want >= 0].mean(), 6, 1e-12); c.features_add('compositions')

@spec('C21', n=240, world=True, nogeneric=True, flavours=('plain', 'san'))
def grains(c):
    """numbers, volumes and compositions of the grains"""
    name = deck_of(c, mod.NOISE + ('MultiOrder', 'ThreePhases', '3Ph', 'Order4', 'Sintering', 'Porosity', 'RigidBody', 'CahnHilliard', 'PureMaterials', 'Heat1D'))
    first(c, True, run_grains, c, name, None)

def run_extend(c, name, ed):
    n = mod.size(c.nd, c.rng)
    th = float(c.pick([.5, .85, .3]))
    per = [int(x) for x in c.rng.integers(0, 2, c.nd)]
    ph = blobs(c.rng, n)
    def edit(d, f):
        d.put('GrainDiagnostics', {'interval': ['1'], 'interval_type': ['"step"'], 'phase_threshold': ['%r' % th]})
        d.put('GrainExtension', {'interval': ['1000000'], 'interval_type': ['"step"']})
        d.put('Geometry/periodic_dimension', [str(x) for x in per])
        for q in ('Phase', 'Conc', 'Temperature', 'Eta', 'Quat'):
            if not all(per): d.put(M + 'BoundaryConditions/' + q, {'boundary_%d' % k: ['"slope"', '"0"'] for k in range(2 * c.nd)})
    m = Model(c, name, n=n, edit=edit, boxes=mod.cutboxes(c.rng, n, int(c.rng.integers(2, 7))) if c.rng.random() < .8 else None)
    if not m.has('quat') or m.get('phase').shape[-1] > 1: raise Skip('no grains of one phase')
    m.set('phase', ph[..., None])
    q0 = m.get('quat')
    m.text(); m.w.value('extend'); t = m.text()
    q1 = m.get('quat')
    dist = np.where(ph >= th, 0, -1)
    own = [[{i} if dist.ravel()[i] == 0 else set()][0] for i in range(dist.size)]
    ix = np.arange(dist.size).reshape(dist.shape)
    step = 0
    while True:
        new = {}
        for j in np.argwhere(dist == -1):
            for q in range(c.nd):
                for s in (1, -1):
                    k = list(j); k[q] += s
                    if not 0 <= k[q] < n[q]:
                        if not per[q]: continue
                        k[q] %= n[q]
                    if dist[tuple(k)] == step: new.setdefault(tuple(j), set()).update(own[ix[tuple(k)]])
        if not new: break
        step += 1
        for j, v in new.items(): dist[j] = step; own[ix[j]] = v
    A, B = q0.reshape(-1, q0.shape[-1]), q1.reshape(-1, q0.shape[-1])
    lim = max(n) if 'did not converge' in t else 10 ** 9
    c.points += dist.size; c.nontriv = bool((dist > 0).any()); c.features_add('extended%d' % min(step, 9))
    for i in range(dist.size):
        if dist.ravel()[i] > lim: continue
        src = own[i] or {i}
        if not any((B[i] == A[k]).all() for k in src):
            raise Violation('value', '%s: the orientation of cell %s is not one of the nearest grain cells (%d cells away, boundary %r)' % (c.ctx, [int(x) for x in np.unravel_index(i, dist.shape)], dist.ravel()[i], per), what='extension')

@spec('C21', n=120, world=True, nogeneric=True, flavours=('plain', 'san'))
def extension(c):
    """orientation of the grains carried to the cells around them"""
    name = deck_of(c, mod.NOISE + ('MultiOrder', 'ThreePhases', '3Ph', 'Order4', 'Sintering', 'Porosity', 'RigidBody', 'CahnHilliard', 'PureMaterials', 'Heat1D'))
    first(c, True, run_extend, c, name, None)
