"""physical boundaries of the real QuatModel on the stand-ins"""
import numpy as np
from harness import *
import mod, vary, wd, mdl
from mod import Model
from specs.model import deck_of, variant, first, run_image, same, vectors, uniform
M = 'ModelParameters/'

@spec('C20', n=188, world=True, nogeneric=True, flavours=('plain',))
def unfolded(c):
    """insulated sides: the run is half of a periodic one in a domain of twice the length"""
    name = deck_of(c, mod.NOISE)
    ed = variant(c, name)
    nd = c.nd
    n = mod.size(nd, c.rng)
    d, f = mdl.setup(name, nd, n, c.rng, '.')
    if ed: ed(d, f)
    vary.closed(d, nd); uniform(d)
    d.put(M + 'RigidBody', None)            # a grain and its image are one body or two
    if d.get_path(M + 'epsilon_anisotropy') is not None:
        for k in range(1, 5): f['quat%d' % k] = np.full(tuple(n), float(k == 1))
        if d.get_path('InitialConditions/init_q') is not None: d.put('InitialConditions/init_q', [1.] + [0.] * (len(d.get_path('InitialConditions/init_q')) - 1))
    k = int(c.rng.integers(nd))
    if any(q == 'x' for _, q in vectors(d)) and d.one(M + 'Temperature/type', '').strip('"') != 'frozen': raise Skip('a spot is not mirrored')
    if any(q in 'vf' for _, q in vectors(d)) and d.one(M + 'Temperature/type', '').strip('"') != 'frozen': raise Skip('a force is not mirrored')
    per = [int(x) for x in d.get_path('Geometry/periodic_dimension') or [1] * nd][:nd]
    per[k] = 0
    d.put('Geometry/periodic_dimension', [str(x) for x in per])
    for q in ('Phase', 'Conc', 'Eta', 'Quat', 'Temperature', 'TemperatureCorrections'):
        if q != 'TemperatureCorrections' or d.get_path(M + 'BoundaryConditions/' + q) is not None: d.put(M + 'BoundaryConditions/' + q, {'boundary_%d' % i: ['"slope"', '"0"'] for i in range(2 * nd)})
    e = d.copy()
    per[k] = 1; e.put('Geometry/periodic_dimension', [str(x) for x in per])
    lo = [float(x) for x in d.get_path('Geometry/x_lo')]; up = [float(x) for x in d.get_path('Geometry/x_up')]
    up[k] = 2 * up[k] - lo[k]; e.put('Geometry/x_up', up)
    n2 = [2 * x if i == k else x for i, x in enumerate(n)]
    e.put('Geometry/coarsest_level_resolution', [str(x) for x in n2])
    g = {q: np.concatenate([a, np.flip(a, k)], k) for q, a in f.items()}
    c.features_add('axis%d' % k)
    x, dt = first(c, ed, run_image, c, name, (d, f, n), None)
    y, _ = mod.fresh(c, run_image, c, name, (e, g, n2), dt, mod.cutboxes(c.rng, n2, 3) if c.rng.random() < .5 else None)
    half = lambda a: np.take(a, range(n[k]), k)
    for q in ('rate', 'state', 'rate2'): y[q] = {j: half(v) for j, v in y[q].items()}
    same(c, {q: x[q] for q in ('rate', 'state', 'rate2')}, y, 1e-9, what='in half of a mirrored domain:')

FIELD = dict(Phase='phase', Conc='concentration', Quat='quat', Temperature='temperature')

def conditions(c, d, f, scale, coef=True):
    """random conditions at all sides, written to the deck: field -> per side (a, b, g) of a u + b du/dn = g"""
    r, nd = c.rng, c.nd
    L = [float(b) - float(a) for a, b in zip(d.get_path('Geometry/x_lo'), d.get_path('Geometry/x_up'))]
    out = {}
    for q in FIELD:
        s = scale[q]; out[q] = []; b = {}
        for k in range(2 * nd):
            kind = str(r.choice(['value', 'slope', 'slope0', 'coefficients'], p=[.35, .35, .15, .15] if coef and q != 'Temperature' else [.45, .4, .15, 0.]))
            u = float(s[0] + s[1] * r.uniform(-.5, .5)); sl = float(s[1] / L[k // 2] * r.uniform(-1, 1))
            if kind == 'value': t, v = ['"value"', '"%r"' % u], (1., 0., u)
            elif kind == 'slope': t, v = ['"slope"', '"%r"' % sl], (0., 1., sl)
            elif kind == 'slope0': t, v = ['"slope"', '"0"'], (0., 1., 0.)
            else:
                a, be = float(r.uniform(.2, 1)), float(r.uniform(.2, 1)) * L[k // 2]
                g = a * u + be * sl
                t, v = ['"coefficients"', '"%r"' % a, '"%r"' % be, '"%r"' % g], (a, be, g)
            b['boundary_%d' % k] = t; out[q].append(v)
        if q == 'Temperature' and d.get_path(M + 'BoundaryConditions/TemperatureCorrections') is not None: d.put(M + 'BoundaryConditions/TemperatureCorrections', {'boundary_%d' % i: ['"slope"', '"0"'] for i in range(2 * nd)})
        d.put(M + 'BoundaryConditions/' + q, b)
    d.put(M + 'BoundaryConditions/Eta', {'boundary_%d' % i: ['"slope"', '"0"'] for i in range(2 * nd)})
    return out

def run_layers(c, dk, ed):
    r, nd = c.rng, c.nd
    p = {}
    def edit(d, f):
        if ed: ed(d, f)
        per = [int(r.random() < .25) for _ in range(nd)]
        d.put('Geometry/periodic_dimension', [str(x) for x in per])
        scale = {'Phase': (.5, 1.), 'Quat': (0., 1.)}
        cs = [a for k, a in f.items() if k.startswith('concentration')]
        scale['Conc'] = (float(np.mean(cs)), .2 * float(np.mean(cs))) if cs else (.1, .01)
        T = float(np.mean(f['temperature'])) if 'temperature' in f else 1000.
        scale['Temperature'] = (T, .01 * T)
        p.update(per=per, bc=conditions(c, d, f, scale))
    n = mod.size(nd, r)
    m = Model(c, dk, n=n, edit=edit, boxes=mod.cutboxes(r, n, int(r.integers(1, 5))))
    import shadow
    S = shadow.Shadow(m)
    try: m.rhs(0., 0)
    except wd.WorldError as e:
        if 'assert' in str(e) or 'NaN' in str(e): raise Skip('refused: ' + str(e)[:100])
        raise
    L = [float(b) - float(a) for a, b in zip(m.d.get_path('Geometry/x_lo'), m.d.get_path('Geometry/x_up'))]
    h = [l / k for l, k in zip(L, n)]
    names = m.w.names()
    for q, name in FIELD.items():
        if name + '/SCRATCH' not in names: continue
        i = names[name + '/SCRATCH']
        for pn in range(m.w.npatches(0)):
            a, lo = m.w.view(i, 0, pn)
            plo, phi = m.w.patchbox(0, pn)
            w = int(plo[0] - lo[0])
            for k in range(nd):
                for s in (0, 1):
                    if p['per'][k] or (plo[k] if s == 0 else phi[k]) != (0 if s == 0 else n[k] - 1): continue
                    al, be, g = p['bc'][q][2 * k + s]
                    if q == 'Temperature' and S.scale != 1: g = g / S.scale
                    for layer in range(min(w, int(phi[k] - plo[k] + 1))):
                        ins = [slice(w, -w)] * nd; out = list(ins)
                        ins[k] = w + layer if s == 0 else -w - 1 - layer
                        out[k] = w - 1 - layer if s == 0 else -w + layer
                        if s and -w + layer == 0: out[k] = 0
                        ui, ug = a[tuple(ins)], a[tuple(out)]
                        lhs = al * (ui + ug) / 2 + be * (ug - ui) / ((2 * layer + 1) * h[k])
                        sc = max(abs(g), al * np.abs(ui).max() + be * np.abs(ui).max() / h[k])
                        c.points += ui.size; c.nontriv = True
                        if not (np.abs(lhs - g) <= 1e-10 * sc).all():
                            j = np.unravel_index(int(np.argmax(np.abs(lhs - g))), lhs.shape)
                            raise Violation('value', '%s: %s at side %d, layer %d, patch %d: %r u + %r du/dn is %r, given as %r (inside %r, beyond %r)' % (c.ctx, name, 2 * k + s, layer + 1, pn, al, be, float(lhs[j]), g, float(ui[j]), float(ug[j])), what='condition')
                        c.features_add('%s:%s' % (name, 'value' if not be else 'slope' if not al else 'mixed'))

@spec('C20', n=188, world=True, nogeneric=True, flavours=('plain',))
def boundary_layers(c):
    """the ghost cells beyond the outer sides satisfy the conditions that the input file gives"""
    dk = deck_of(c, mod.NOISE)
    ed = variant(c, dk)
    first(c, True, run_layers, c, dk, ed)
