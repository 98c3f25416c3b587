"""whole-program monitors: the real QuatModel on the stand-ins, on the repository's own decks with random data"""
import re
import numpy as np
from harness import *
import mod, vary, wd, mdl
from mod import Model, D2, D3

def deck_of(c, without=(), only=None):
    ds = mod.decks(c.nd, without) if only is None else [x for x in only]
    p = np.random.default_rng([c.seed, c.sid, c.nd, c.idx // len(ds)]).permutation(len(ds))
    name = ds[int(p[c.idx % len(ds)])]
    c.ctx = '%s %dd case %d' % (name, c.nd, c.idx); c.features_add(name)
    c.log.append(dict(deck=name))
    return name

def step_for(r, s, frac=.02):
    """step that changes the fastest component by about frac of its range"""
    v = [np.abs(r[k]).max() / max(np.abs(s[k]).max(), 1e-12) for k in r if k in s]
    v = max(v + [0.])
    return frac / v if v > 0 and np.isfinite(v) else 1e-9

def finite(c, r, what):
    for k, a in r.items():
        if not np.isfinite(a).all(): raise Violation('value', '%s: %s of %s is not a number' % (c.ctx, what, k), what='nan')

VALUES = ('conc', 'volume', 'fraction')
def observe(c, m, dt=None, steps=2):
    """rate, energies, state after some cycles, printed diagnostics"""
    o = {}
    r = m.rhs(0., 0); s = m.state()
    finite(c, r, 'rate')
    if dt is None: dt = step_for(r, s)
    o['rate'] = r
    o['energy'] = {str(k): np.array([x]) for k, x in enumerate(m.energy(0.))}
    m.text(); m.w.glue('model_diag')
    o['report'] = m.text()
    for _ in range(steps): m.cycle(dt)
    m.comps = None
    o['state'] = m.state()
    o['rate2'] = m.rhs(m.time()['t'], 0)
    return o, dt

def numbers(t):
    out = []
    for l in t.split('\n'):
        x = re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', l)
        out.append((re.sub(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', '#', l), [float(v) for v in x]))
    return out

def same(c, a, b, rtol=1e-8, what='', floor=None):
    for g in a:
        if g == 'report': continue
        if not all(np.isfinite(v).all() for v in a[g].values()) and g == 'energy': continue
        d = mod.differ(a[g], b[g], rtol, 0. if floor is None else floor.get(g, 0.))
        c.points += sum(np.asarray(v).size for v in a[g].values()); c.nontriv = True
        if d: raise Violation('differs', '%s: %s %s: %s at %s: %r instead of %r' % (c.ctx, what, g, d[0], d[1], d[3], d[2]), what=g)

def run_observe(c, name, boxes=None, dt=None, steps=2, edit=None, **kw):
    m = Model(c, name, boxes=boxes, edit=edit, **kw)
    return observe(c, m, dt, steps) + (m.n,)

UNSUPPORTED = re.compile(r'[Nn]ot implemented|Invalid interpolation function|isnan\(x|not converge|unknown/incompatible|Newton|fmin|needs to be', re.S)
def first(c, varied, f, *a):
    """the reference run of a case: a combination of options that the program refuses is skipped"""
    try: return mod.fresh(c, f, *a)
    except wd.WorldError as e:
        if varied and UNSUPPORTED.search(str(e)): raise Skip('refused: ' + str(e)[:200])
        raise
    except mod.Died as e:
        if varied and e.st == 77 << 8: raise Skip('refused by a kernel')
        raise

def variant(c, name, per=47, **kw):
    """random legal options from the second round of the decks on; None: the deck as it is"""
    if c.idx < per: return None
    s = int(c.rng.integers(1 << 30))
    def edit(d, f): return vary.vary(d, np.random.default_rng(s), c.nd, **kw)
    ch = [x.replace('ModelParameters/', '') for x in edit(mdl.prepare(name, c.nd, [8] * c.nd), {})]
    for x in ch: c.features_add(x.split('/')[-1].split('=')[0])
    c.log.append(dict(changes=ch)); c.ctx += ' with ' + ' '.join(ch)
    return edit

@spec('C17', n=141, world=True, nogeneric=True, flavours=('plain',))
def decomposition(c):
    name = deck_of(c, mod.NOISE)
    ed = variant(c, name)
    st0 = c.rng.bit_generator.state
    a, dt, n = first(c, ed, run_observe, c, name, None, None, 2, ed)
    c.rng.bit_generator.state = st0
    mod.size(c.nd, c.rng); c.rng.random(40)
    boxes = mod.cutboxes(c.rng, n, int(c.rng.integers(2, 6)))
    c.rng.bit_generator.state = st0
    c.features_add('patches%d' % len(boxes))
    b, _, _ = mod.fresh(c, run_observe, c, name, boxes, dt, 2, ed)
    same(c, a, b, what='%d patches' % len(boxes))

# --- conservation
def uniform(d):
    """a prescribed temperature without gradient: one that slopes jumps across a periodic side, and with it what equilibrium makes of it there"""
    T = 'ModelParameters/Temperature/'
    if d.one(T + 'type', '').strip('"') != 'frozen': return
    if d.get_path(T + 'filename') is not None:
        d.put(T + 'filename', None); d.put(T + 'temperature', ['1690.']); d.put(T + 'dtemperaturedt', ['-1.e2'])
    d.put(T + 'gradient', ['0.'] * len(d.get_path(T + 'center') or d.get_path('Geometry/x_lo')))

def closed_edit(c, ed, slopes=None):
    """the deck with changes ed, and nothing crossing the outer sides (except heat, by the given slopes)"""
    def edit(d, f):
        if ed: ed(d, f)
        vary.closed(d, c.nd); uniform(d)
        if slopes is not None:
            d.put('Geometry/periodic_dimension', ['0'] * c.nd)
            for q in ('Phase', 'Conc', 'Eta', 'Quat'): d.put('ModelParameters/BoundaryConditions/' + q, {'boundary_%d' % k: ['"slope"', '"0"'] for k in range(2 * c.nd)})
            d.put('ModelParameters/BoundaryConditions/Temperature', {'boundary_%d' % k: ['"slope"', '"%r"' % slopes[k]] for k in range(2 * c.nd)})
    return edit

def balance(c, x, scale, what, tol=2e-5):
    c.points += 1
    if not abs(x) <= tol * scale: raise Violation('balance', '%s: %s: %r left over of exchanges of %r' % (c.ctx, what, float(x), float(scale)), what=what.split(' ')[0])

def heat_balance(c, m, r, slopes):
    """heat content changes by what enters through the sides and by the latent heat of the phase change"""
    d = m.d
    L = [float(b) - float(a) for a, b in zip(d.get_path('Geometry/x_lo'), d.get_path('Geometry/x_up'))]
    V = float(np.prod([l / k for l, k in zip(L, m.n)]))
    T = 'ModelParameters/Temperature/'
    kap = d.num(T + 'thermal_diffusivity') * 1e8
    flux = kap / (d.num(T + 'meltingT') or 1.) * sum(slopes[k] * float(np.prod([L[q] for q in range(c.nd) if q != k // 2])) for k in range(2 * c.nd))
    lat = 0.
    if 'phase' in r: lat = d.num(T + 'latent_heat') / d.num(T + 'cp/SpeciesA/a') / (d.num(T + 'meltingT') or 1.) * r['phase'].sum() * V
    a = r['temperature']
    balance(c, a.sum() * V - flux - lat, np.abs(a).sum() * V + abs(flux) + abs(lat), 'heat balance of the rates', 1e-9)
    c.features_add('heat' + ('flux' if flux else ''))

def run_conserve(c, name, edit, slopes, steps):
    m = Model(c, name, boxes=mod.cutboxes(c.rng, mod.size(c.nd), int(c.rng.integers(1, 5))), n=mod.size(c.nd), edit=edit)
    heat = m.d.one('ModelParameters/Temperature/equation_type', '').strip('"') == 'unsteady'
    if heat: m.set('temperature', m.get('temperature') * (1 + .005 * mdl.smooth(c.rng, m.n)[..., None]))
    three = m.d.one('ModelParameters/three_phases') == 'TRUE'
    tol = 1e-3 if any(x in name for x in ITERATED) else 2e-6
    def check(r, when):
        finite(c, r, 'rate')
        if 'concentration' in r and not slopes:     # (compositions in equilibrium with a sloping temperature slope as well)
            for q in range(r['concentration'].shape[-1]):
                a = r['concentration'][..., q]
                if np.abs(a).max() > 1e-12: c.nontriv = True; balance(c, a.sum(), np.abs(a).sum(), 'solute %d balance of the rates %s' % (q, when), tol); c.features_add('solute')
        if three and 'phase' in r:
            a = r['phase']; c.points += a[..., 0].size; c.nontriv = True; c.features_add('fractions')
            bad = np.abs(a.sum(-1)) > 1e-10 * np.abs(a).max()
            if bad.any():
                j = np.unravel_index(int(np.argmax(bad)), bad.shape)
                raise Violation('balance', '%s: rates of the phase fractions %s sum to %r at %r (rates up to %r)' % (c.ctx, when, float(a.sum(-1)[j]), [int(x) for x in j], float(np.abs(a).max())), what='fractions')
        if heat and 'temperature' in r: c.nontriv = True; heat_balance(c, m, r, slopes or [0.] * 2 * c.nd)
    r = m.rhs(0., 0); check(r, 'at the start'); s = m.state()
    dt = step_for(r, s)
    t0 = m.time()['t']
    for k in range(steps): m.cycle(dt)
    m.comps = None
    r2 = m.rhs(m.time()['t'], 0); check(r2, 'after the steps'); s2 = m.state()
    if 'concentration' in s and not slopes:
        for q in range(s['concentration'].shape[-1]):
            a, b = s['concentration'][..., q], s2['concentration'][..., q]
            balance(c, b.sum() - a.sum(), np.abs(b - a).sum() + 1e-8 * np.abs(a).sum(), 'solute %d content over %d steps' % (q, steps), tol)
    if three and 'phase' in s:
        d = np.abs(s2['phase'].sum(-1) - s['phase'].sum(-1)).max(); c.points += 1
        if not d <= 1e-10 + 1e-9 * np.abs(s2['phase'] - s['phase']).max(): raise Violation('balance', '%s: sum of the phase fractions changed by %r over %d steps' % (c.ctx, float(d), steps), what='fractions')
    return True

@spec('C18', n=900, world=True, nogeneric=True, flavours=('plain',))
def conservation(c):
    ds = [x for x in mod.decks(c.nd, mod.NOISE)]
    name = deck_of(c, mod.NOISE)
    ed = variant(c, name)
    slopes = None
    if c.idx % 2 and any(x in name for x in HEAT): slopes = [float(x) for x in c.rng.standard_normal(2 * c.nd)]
    first(c, ed, run_conserve, c, name, closed_edit(c, ed, slopes), slopes, int(c.rng.integers(1, 4)))
ITERATED = ('2Ph1Sl', 'FeNbNi', 'DiluteCuNi', 'GaussianT', 'GradientMovingFrame', 'TemperatureHistoryMovingFrame', 'AuNi', 'Calphad', 'CALPHAD', 'calphad', 'KKS')     # compositions of the phases known to the tolerance of an iteration
HEAT = ('AlCuMovingFrame', 'Dendrite/', 'Heat', 'PureMaterials')

# --- symmetries
def vectors(d):
    """(path, kind) of the entries of a deck that are positions or vectors"""
    out = []
    def walk(x, p):
        for k, v in x.items():
            if isinstance(v, dict): walk(v, p + k + '/')
            elif k in ('gradient', 'velocity') and len(v) > 1: out.append((p + k, 'v'))
            elif k == 'external_force': out.append((p + k, 'f'))
            elif k == 'center' and len(v) > 1: out.append((p + k, 'x'))
    walk(d.get_path('ModelParameters'), 'ModelParameters/')
    return out

def mirrored(c, d, f, n, nd, ks):
    lo = [float(x) for x in d.get_path('Geometry/x_lo')][:nd]; up = [float(x) for x in d.get_path('Geometry/x_up')][:nd]
    bcs = d.get_path('ModelParameters/BoundaryConditions') or {}
    for b in bcs.values():
        for k in ks:
            i, j = 'boundary_%d' % (2 * k), 'boundary_%d' % (2 * k + 1)
            if i in b or j in b: b[i], b[j] = b.get(j), b.get(i)
    for p, kind in vectors(d):
        v = [float(x) for x in d.get_path(p)][:nd]
        for k in ks: v[k] = -v[k] if kind in 'vf' else lo[k] + up[k] - v[k]
        d.put(p, v)
    return {k: np.flip(a, ks) for k, a in f.items()}, n

def swapped(c, d, f, n, nd, perm):
    """axis j of the new problem is axis perm[j] of the old one"""
    for k in ('x_lo', 'x_up', 'coarsest_level_resolution', 'periodic_dimension'):
        v = d.get_path('Geometry/' + k)
        if v is not None: d.put('Geometry/' + k, [v[q] for q in perm])
    for b in (d.get_path('ModelParameters/BoundaryConditions') or {}).values():
        o = dict(b)
        for j, q in enumerate(perm):
            for s in (0, 1):
                if 'boundary_%d' % (2 * q + s) in o: b['boundary_%d' % (2 * j + s)] = o['boundary_%d' % (2 * q + s)]
    for p, kind in vectors(d): v = d.get_path(p); d.put(p, [v[q] for q in perm])
    return {k: np.transpose(a, perm) for k, a in f.items()}, [n[q] for q in perm]

def symmetric(c, name, ed, kind):
    """deck and data of a case, its image under a symmetry, and the map back"""
    nd = c.nd
    n = mod.size(nd, c.rng)
    d, f = mdl.setup(name, nd, n, c.rng, '.')
    if ed: ed(d, f)
    M = 'ModelParameters/'
    frame = d.get_path(M + 'MovingFrame') is not None or 'History' in name
    axes = list(range(1 if frame else 0, nd))
    if kind != 'shift' and d.get_path(M + 'epsilon_anisotropy') is not None:      # crystal axes along the mesh
        for k in range(1, 5): f['quat%d' % k] = np.full(tuple(n), float(k == 1))
        if d.get_path('InitialConditions/init_q') is not None: d.put('InitialConditions/init_q', [1.] + [0.] * (len(d.get_path('InitialConditions/init_q')) - 1))
    if kind == 'shift':
        d.put(M + 'MovingFrame', None); d.put('Geometry/periodic_dimension', ['1'] * nd)
        axes = list(range(1 if 'History' in name else 0, nd))
        for p, k in vectors(d):
            if k == 'x' and d.one(M + 'Temperature/type', '').strip('"') not in ('frozen', 'linear'): raise Skip('a spot is not shifted')
            if k == 'v': axes = [q for q in axes if float(d.get_path(p)[q]) == 0.]
        s = [int(c.rng.integers(n[q])) if q in axes else 0 for q in range(nd)]
        if not any(s): raise Skip('no direction to shift along')
        e, g, n2 = d.copy(), {k: np.roll(a, s, range(nd)) for k, a in f.items()}, n
        back = lambda a: np.roll(a, [-x for x in s], range(nd))
    elif kind == 'mirror':
        if d.one('Symmetry/enabled') == 'TRUE': raise Skip('rotations between neighbours are not mirrored')
        ks = [q for q in axes if c.rng.random() < .6] or [axes[-1]]
        e = d.copy(); g, n2 = mirrored(c, e, f, n, nd, ks)
        back = lambda a: np.flip(a, ks)
    elif kind == 'relabel':
        m = int(d.num(M + 'norderp', 1)); nA = int(d.num(M + 'norderp_A', 0))
        if not nA:                                     # more grains than the deck has
            m += int(c.rng.integers(1, 4)); d.put(M + 'norderp', [m])
            ph = [mdl.smooth(c.rng, n) + .05 for _ in range(m)]
            for k in range(m): f['phase%d' % k] = ph[k] / sum(ph)
        if nA: groups = [range(nA), range(nA, m - 1)]
        else: groups = [range(m - 1)]                  # the last one is the liquid
        perm = []
        for g in groups: perm += [g[int(x)] for x in c.rng.permutation(len(g))]
        perm += list(range(len(perm), m))
        if perm == sorted(perm): raise Skip('one grain of each kind')
        e, n2 = d.copy(), n
        g = dict(f)
        for k in range(m): g['phase%d' % k] = f['phase%d' % perm[k]]
        inv = list(np.argsort(perm)); back = lambda a, key=None: a[..., inv] if key == 'phase' else a
    elif kind == 'turn':
        q = mdl.qlen(d, nd)
        if d.get_path(M + 'epsilon_anisotropy') is not None or d.one('Symmetry/enabled') == 'TRUE': raise Skip('a crystal with axes is not turned')
        r = c.rng.standard_normal(q); r /= np.linalg.norm(r)
        if q == 1: turn = lambda a, w=r[0]: a + w
        elif q == 2: turn = lambda a, r=r: [a[0] * r[0] - a[1] * r[1], a[0] * r[1] + a[1] * r[0]]
        else: turn = lambda a, r=r: [a[0] * r[0] - a[1] * r[1] - a[2] * r[2] - a[3] * r[3], a[0] * r[1] + a[1] * r[0] + a[2] * r[3] - a[3] * r[2],
                                     a[0] * r[2] - a[1] * r[3] + a[2] * r[0] + a[3] * r[1], a[0] * r[3] + a[1] * r[2] - a[2] * r[1] + a[3] * r[0]]
        if d.get_path('InitialConditions/init_q') is not None: raise Skip('uniform orientation')
        e, g, n2 = d.copy(), dict(f), n
        o = [f['quat%d' % (k + 1)] for k in range(q)]
        for k, a in enumerate(turn(o) if q > 1 else [turn(o[0])]): g['quat%d' % (k + 1)] = a
        def back(a, key=None, rate=False):
            if key != 'quat': return a
            if q == 1: return a if rate else a - r[0]
            ri = r * np.array([1.] + [-1.] * (q - 1))
            return np.stack(turn([a[..., k] for k in range(q)], ri), -1)
    else:
        if frame or d.one('Symmetry/enabled') == 'TRUE': raise Skip('a frame is not turned')
        perm = [1, 0] if nd == 2 else [[1, 0, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0], [2, 0, 1]][int(c.rng.integers(5))]
        e = d.copy(); g, n2 = swapped(c, e, f, n, nd, perm)
        inv = list(np.argsort(perm)); back = lambda a: np.transpose(a, inv + [nd])
    return (d, f, n), (e, g, n2), back

def run_image(c, name, p, dt, boxes=None):
    d, f, n = p
    m = Model(c, name, n=n, deckf=(d, f), boxes=boxes)
    return observe(c, m, dt)

@spec('C19', n=846, world=True, nogeneric=True, flavours=('plain',))
def symmetry(c):
    name = deck_of(c, mod.NOISE)
    ed = variant(c, name)
    kind = ('shift', 'mirror', 'swap', 'own')[(c.idx + c.idx // 47) % 4]
    if kind == 'own':
        D = mdl.prepare(name, c.nd, [8] * c.nd)
        if (D.num('ModelParameters/norderp', 1) or 1) > 1: kind = 'relabel'
        elif D.get_path('ModelParameters/H_parameter') is not None: kind = 'turn'
        else: kind = 'mirror'
    a, b, back = symmetric(c, name, ed, kind)
    c.ctx += ' ' + kind; c.features_add(kind)
    x, dt = first(c, ed, run_image, c, name, a, None)
    boxes = mod.cutboxes(c.rng, b[2], 3) if c.rng.random() < .3 else None
    y, _ = mod.fresh(c, run_image, c, name, b, dt, boxes)
    for g in ('rate', 'state', 'rate2'):
        if kind == 'relabel': y[g] = {k: back(v, k) for k, v in y[g].items()}
        elif kind == 'turn': y[g] = {k: back(v, k, g != 'state') for k, v in y[g].items()}
        else: y[g] = {k: back(v) for k, v in y[g].items()}
    if kind == 'relabel':
        e = x.pop('energy'), y.pop('energy')
        same(c, x, y, 1e-9, what='image under relabel')
        for a, b in zip(*[list(q.values()) for q in e]):
            if np.isfinite(a).all() and not np.abs(a - b).max() <= 1e-9 * max(np.abs(a).max(), np.abs(b).max()):
                raise Violation('differs', '%s: energies %r become %r when the grains are numbered in another order' % (c.ctx, [float(q[0]) for q in e[0].values()], [float(q[0]) for q in e[1].values()]), what='relabel-energy')
    else: same(c, x, y, 1e-9, what='image under ' + kind)
