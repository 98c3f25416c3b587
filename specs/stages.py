"""monitors on the stages of the coupled equations: what every stage of a run of the real QuatModel (on the stand-ins) left in its fields is
compared with what the documented formula gives from the fields it started from"""
import os
import numpy as np
from harness import *
import mod, vary, wd, mdl, fref
from mod import Model
from specs.model import deck_of, variant, first, finite, step_for
M = 'ModelParameters/'

def opened(ed, more=None):
    """changes ed, in a fully periodic domain"""
    def edit(d, f):
        nd = len(d.get_path('Geometry/x_lo'))
        if ed: ed(d, f)
        d.put('Geometry/periodic_dimension', ['1'] * nd)
        if more: more(d, f)
    return edit

def geometry(m):
    L = [float(b) - float(a) for a, b in zip(m.d.get_path('Geometry/x_lo'), m.d.get_path('Geometry/x_up'))]
    return [l / k for l, k in zip(L, m.n)]

def on(d, k, v='TRUE'): return (d.one(M + k, '') or '').strip('"').upper() == v.upper()

# --- C06: the phase rate is the negative variation of the reported energy
def run_descent(c, name, ed):
    m = Model(c, name, n=mod.size(c.nd), edit=ed)
    r = m.rhs(0., 0)
    if 'phase' not in r or r['phase'].shape[-1] > 1: raise Skip('one order parameter only')
    V = float(np.prod(geometry(m)))
    E0 = m.energy(0.)[0]
    if not np.isfinite(E0): raise Skip('energy not finite')
    ph = m.get('phase'); K = m.get('phase_mobility')
    mb = K.max()
    top = np.abs(r['phase']).max()
    for _ in range(4):
        j = tuple(int(c.rng.integers(k)) for k in m.n) + (0,)
        h = 1e-4
        def E(x):
            p = ph.copy(); p[j] += x; m.set('phase', p); return m.energy(0.)[0]
        g = (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h) / V
        m.set('phase', ph)
        want = -g * K[j]
        tol = 3e-6 * top + 40 * 2.2e-16 * abs(E0) / h / V * mb * np.sqrt(np.prod(m.n))
        if tol > 1e-2 * top: raise Skip('energy too large for a difference')
        c.points += 1; c.nontriv = True
        if not abs(r['phase'][j] - want) <= tol:
            raise Violation('value', '%s: phase rate %r at %s; the reported energy falls along %r there (mobility %r, largest rate %r)' % (c.ctx, float(r['phase'][j]), list(map(int, j[:-1])), float(want), float(K[j]), float(top)), what='descent')

@spec('C06', n=160, world=True, nogeneric=True, flavours=('plain',))
def descent(c):
    name = deck_of(c, mod.NOISE + ('MultiOrderP', 'Order4', '3Ph', 'ThreePhases', 'CahnHilliard', 'Sintering', 'PureMaterials', '+beck', '+utrc', '+bias', '+partition'))
    ed = variant(c, name)
    def more(d, f):
        for k in ('MovingFrame', 'epsilon_anisotropy'): d.put(M + k, None)
        if d.get_path(M + 'H_parameter') is not None: d.put(M + 'H_parameter', ['0.'])
        d.put(M + 'stencil_type', ['"normal"']); d.put("Symmetry/enabled", ["FALSE"])
        d.put(M + 'conc_interp_func_type', d.get_path(M + 'phi_interp_func_type'))
    first(c, True, run_descent, c, name, opened(ed, more))

# --- stages: every field against the formula that defines it
def compare(c, what, got, want, rtol, scale=None, floor=0.):
    got, want = np.asarray(got), np.asarray(want)
    s = max(np.abs(want).max() if scale is None else scale, floor)
    c.points += got.size
    if s > 0: c.nontriv = True
    bad = ~(np.abs(got - want) <= rtol * s)
    if bad.any():
        j = np.unravel_index(int(np.argmax(np.where(np.isfinite(got), np.abs(got - want), np.inf))), got.shape)
        raise Violation('value', '%s: %s is %r at %s, expected %r (largest %r, %d of %d differ)' % (c.ctx, what, float(got[j]), [int(x) for x in j], float(want[j]), float(s), int(bad.sum()), bad.size), what=what.split(' at')[0])

def stage(name, prop, run, without=(), n=160, more=None, per=47, keep=False, **kw):
    """monitor of one stage: run(c, m, shadow) on every deck, first as it is, then with random options"""
    def wl(c):
        import shadow
        dk = deck_of(c, mod.NOISE + tuple(without))
        ed = variant(c, dk, per=per)
        def go():
            m = Model(c, dk, n=mod.size(c.nd, c.rng), edit=opened(ed, more), boxes=None)
            r = m.rhs(0., 0)
            run(c, m, shadow.Shadow(m), r)
        first(c, True, go)
    wl.__name__ = name
    wl.__doc__ = run.__doc__
    return spec(prop, n=n, world=True, nogeneric=True, flavours=('plain',))(wl)

def still(d, f):
    """no moving frame, no moving bodies"""
    for k in ('MovingFrame', 'RigidBody'): d.put(M + k, None)

def split_stage(c, m, S, r):
    """compositions of the phases: equal slopes, and they make up the composition"""
    if not m.has('conc_l') or S.table() is None and S.model != 'linear': raise Skip('no phase compositions')
    T, ph, co = m.get('temperature')[..., 0], m.get('phase'), m.get('concentration')
    W = S.split(ph, co, T)
    for k, x in zip('lab', W): compare(c, 'composition of phase %s' % k, m.get('conc_' + k), x, 1e-6, floor=1e-3)
split_stages = stage('split_stages', 'C07', split_stage)

def density_stage(c, m, S, r):
    """energy densities of the phases from their compositions and the temperature"""
    if not m.has('conc_l') or not m.has('f_l') or S.table() is None: raise Skip('no phase energies')
    T = m.get('temperature')[..., 0]
    for p, k in enumerate('lab'):
        if not m.has('conc_' + k) or not m.has('f_' + k): continue
        w = S.f(p, m.get('conc_' + k), T)
        compare(c, 'energy density of phase %s' % k, m.get('f_' + k)[..., 0], w, 1e-9)
density_stages = stage('density_stages', 'C09', density_stage)

def phase_stage(c, m, S, r):
    """rate of the order parameters: interface, wells, orientation, driving force, mobility"""
    if 'phase' not in r: raise Skip('no phase')
    w = S.phase_rate()
    if w is None: raise Skip('not documented here')
    compare(c, 'phase rate', r['phase'], w, 1e-9 if S.g('bias_well_gamma') is None and S.ck('gamma', None) is None else 1e-7)
phase_stages = stage('phase_stages', 'C06', phase_stage, more=still)

# --- composition
def inside(S, a):
    """a prescribed temperature field is not periodic: cells and sides on the seam see its continuation"""
    return a[tuple(slice(2, -2) if k > 5 else slice(None) for k in a.shape[:S.nd])] if S.t('Temperature/type') in ('frozen', 'gaussian') else a

def sidecompare(c, S, what, name, want, rtol=1e-9, floor=0.):
    """side field against want[axis][.., depth]"""
    got = S.side(name) if isinstance(name, str) else name
    sc = max(float(np.abs(w).max()) for w in want)
    for d in range(S.nd): compare(c, '%s at sides of axis %d' % (what, d), inside(S, got[d].a[..., :want[d].shape[-1]]), inside(S, want[d]), rtol, scale=sc, floor=floor)

def diffusion_stage(c, m, S, r):
    """diffusivities at the sides"""
    if not S.conc: raise Skip('no composition')
    T = m.get('temperature')[..., 0]
    phi = m.get('phase') if m.has('phase') else None
    if S.rhsform == 'ebs' and S.t('ConcentrationModel/diffusion_type') == 'temperature_dependent':
        D = S.ebs_diffusion(phi, T); tot = None
        for p, k in enumerate('lab'[:len(D)]):
            W = []
            for x in D[p]:
                w = np.zeros(x.shape + (S.nc ** 2,)); w[..., ::S.nc + 1] = x[..., None]; W.append(w)
            sidecompare(c, S, 'diffusivity of phase ' + k, 'conc_pfm_diffusion_' + k, W)
        for i in range(S.nc):
            if m.has('conc_pfm_diffusion%d' % i) and np.any(S.side('conc_pfm_diffusion%d' % i)[0].a): sidecompare(c, S, 'diffusivity for the preconditioner', 'conc_pfm_diffusion%d' % i, [sum(D[p][d] for p in range(len(D)))[..., None] for d in range(S.nd)])
        c.features_add('ebs%d' % len(D))
    elif S.rhsform == 'kks' and m.has('conc_phase_coupling_diffusion'):
        cl, ca = m.get('conc_l')[..., 0], m.get('conc_a')[..., 0]
        P = S.dpar(); D, K = [], []
        for d in range(S.nd):
            a = S.sideavg(phi[..., 0], d, S.avg); h = fref.interp(a, S.ei)
            D.append(((1 - h) * S.arr(*P[0], T, d) + h * S.arr(*P[1], T, d))[..., None])
            K.append(D[-1] * (fref.dinterp(a, S.ei) * (S.mean(cl, d) - S.mean(ca, d)))[..., None])
        sidecompare(c, S, 'diffusivity', 'conc_pfm_diffusion0', D)
        sidecompare(c, S, 'phase coupling', 'conc_phase_coupling_diffusion', K, floor=1e-9 * max(np.abs(x).max() for x in D))
        c.features_add('kks')
    elif S.rhsform == 'beckermann':
        # liquid and solid at the partition ratio: c = cl (1 - h + k h)
        co, k0 = m.get('concentration')[..., 0], m.get('partition_coeff')[..., 0]
        Dl, Ds = S.ck('D_liquid'), S.ck('D_solid_A'); D, K = [], []
        for d in range(S.nd):
            a = S.sideavg(phi[..., 0], d, S.avg); h = fref.interp(a, S.ci); k = S.sideavg(k0, d, S.avg)
            D.append(((Dl * (1 - h) + k * Ds * h) / (1 - h + k * h))[..., None])
            K.append(D[-1] * (fref.dinterp(a, S.ci) * (1 - k) * S.sideavg(co, d, S.avg) / (1 - h + k * h))[..., None])
        sidecompare(c, S, 'diffusivity', 'conc_pfm_diffusion0', D)
        sidecompare(c, S, 'phase coupling', 'conc_phase_coupling_diffusion', K, floor=1e-9 * max(np.abs(x).max() for x in D))
        c.features_add('beckermann')
    elif S.model == 'wang_sintering':
        co = m.get('concentration')[..., 0]; P = S.dpar(); W = []
        n = phi.shape[-1]
        f = S.ck('D0_AA') * S.contacts(phi, range(n), range(n), True) + 16 * S.ck('D0_LA') * co ** 2 * (1 - co) ** 2
        for d in range(S.nd):
            h = fref.interp(S.sideavg(co, d, S.avg), S.di)
            W.append(((1 - h) * P[0][0] + h * P[1][0] + S.mean(f, d))[..., None])
        sidecompare(c, S, 'diffusivity', 'conc_pfm_diffusion0', W)
        c.features_add('sintering')
    else: raise Skip('not documented here')
diffusion_stages = stage('diffusion_stages', 'C07', diffusion_stage)

def flux_stage(c, m, S, r):
    """solute fluxes from the diffusivities the program set, and the rate as their divergence"""
    if 'concentration' not in r: raise Skip('composition does not change')
    F = S.side('Integrator_QUI_conc_flux_')
    phi = m.get('phase') if m.has('phase') else None
    co = m.get('concentration')
    want = None
    if S.rhsform == 'ebs' and not on(m.d, 'ConcentrationModel/gradT'):
        C = S.fields(); D = [S.side('conc_pfm_diffusion_' + k) for k in 'lab'[:len(C)]]
        st = S.t('ConcentrationModel/ebs_stencil', 'regular')
        want = []
        for d in range(S.nd):
            w = [sum(S.dflux(D[p][d].a[..., i * S.nc + j], C[p][..., j], d, st) for p in range(len(C)) for j in range(S.nc)) for i in range(S.nc)]
            want.append(np.stack(w, -1))
        if on(m.d, 'ConcentrationModel/antitrapping'):
            for d in range(S.nd): want[d] = want[d] + S.antitrapping(phi, C, r['phase'], d)
            c.features_add('antitrapping')
        c.features_add(st)
    elif S.rhsform in ('kks', 'beckermann') and m.has('conc_phase_coupling_diffusion'):
        D, K = S.side('conc_pfm_diffusion0'), S.side('conc_phase_coupling_diffusion')
        want = [D[d].a * S.grad_side(co, d) + K[d].a * S.grad_side(phi[..., :1], d) for d in range(S.nd)]
    elif S.model in ('cahn_hilliard', 'wang_sintering'):
        x = co[..., 0]
        lap = lambda a: sum((np.roll(a, 1, d) + np.roll(a, -1, d) - 2 * a) / S.dx[d] ** 2 for d in range(S.nd))
        if S.model == 'cahn_hilliard':
            q = 'ConcentrationModel/CahnHilliard/'
            ca, cb, k, w = [S.g(q + z) for z in ('ca', 'cb', 'kappa', 'well_scale')]
            mu = w * 2 * (x - ca) * (x - cb) * (2 * x - ca - cb) - k * lap(x)
            D = [P_(1.) for _ in range(S.nd)]
        else:
            A, B, beta = S.wang()
            q2, q3 = (phi ** 2).sum(-1), (phi ** 3).sum(-1)
            mu = 2 * A * x * (1 - x) * (1 - 2 * x) + B * (2 * x - 6 * q2 + 4 * q3) - beta * lap(x)
            D = S.side('conc_pfm_diffusion0')
        want = [np.asarray(D[d].a) * S.grad_side(mu, d)[..., None] for d in range(S.nd)]
    if want is None: raise Skip('not documented here')
    sidecompare(c, S, 'solute flux', F, want, rtol=1e-8 if S.model == 'cahn_hilliard' else 1e-9)
    M = S.ck('mobility', 1.)
    rate = np.stack([M * S.divs([f.a[..., i] for f in F]) for i in range(S.nc)], -1)
    compare(c, 'composition rate', inside(S, r['concentration']), inside(S, rate), 1e-9)

class P_:
    def __init__(s, a): s.a = np.asarray(a)
flux_stages = stage('flux_stages', 'C07', flux_stage, more=still)

def some_mobilities(d, rng, ns, wd):
    """the deck with a random assessment of the atomic mobilities"""
    import deck, os
    fn = d.one(M + 'ConcentrationModel/Calphad/filename').strip('"')
    if fn.endswith('.json'): raise Skip('parameters in json')
    t = deck.parse(open(fn).read())
    q = {}
    ex = rng.random() < .4
    for i in range(ns):
        q['Species%d' % i] = {}
        for ph in 'LA':
            b = q['Species%d' % i]['Phase' + ph] = {}
            for k in 'ABC'[:ns]: b['q' + k] = [float(x) for x in ((-rng.uniform(1e4, 6e4), 10 ** rng.uniform(-9, -6)) + ((rng.uniform(-3, 3), rng.uniform(-1e6, 1e6)) if ex else ()))]
            for n in range(4):
                for z in ('AB', 'AC', 'BC')[:1 if ns == 2 else 3]:
                    if rng.random() < .7: b['q%d%s' % (n, z)] = [float(rng.uniform(-2e4, 2e4)), float(10 ** rng.uniform(-1, 1))]
    t['MobilityParameters'] = q
    fn = os.path.join(wd, 'mobilities.dat')
    open(fn, 'w').write(deck.text(t))
    d.put(M + 'ConcentrationModel/Calphad/filename', ['"%s"' % fn])

@spec('C07', n=60, world=True, nogeneric=True, flavours=('plain',))
def mobility_stages(c):
    """diffusivities from atomic mobilities and the curvature of the energies"""
    dk = c.pick([x for x in mod.decks(c.nd) if any(y in x for y in ('AuNi', 'GaussianT', 'KKScomposition/3d', 'FeNbNiOrder4', 'WithFluctuation'))])
    c.features_add(dk); c.ctx = dk + ' %dd case %d' % (c.nd, c.idx)
    ed = variant(c, dk, per=8)
    s = int(c.rng.integers(1 << 30))
    def more(d, f):
        still(d, f)
        d.put(M + 'ConcentrationModel/diffusion_type', None)
        if (d.one(M + 'PhaseMobility/type') or '') == 'kim': d.put(M + 'PhaseMobility', None); d.put(M + 'phi_mobility', [1.])
        if d.num(M + 'ConcentrationModel/nspecies', 2) == 3: d.put('InitialConditions/init_c', [.25, .3])
        some_mobilities(d, np.random.default_rng(s), int(d.num(M + 'ConcentrationModel/nspecies', 2)), os.getcwd())
    def go():
        import shadow
        m = Model(c, dk, n=mod.size(c.nd, c.rng), edit=opened(ed, more), boxes=None)
        r = m.rhs(0., 0); S = shadow.Shadow(m)
        C = S.fields(); phi, T = m.get('phase'), m.get('temperature')[..., 0]
        D, W = S.ctd_diffusion(phi, C, T)
        fl = lambda x: x.reshape(x.shape[:S.nd] + (-1,))
        for p, k in enumerate('la'):
            sidecompare(c, S, 'diffusivity in phase ' + k, 'conc_diffusion_coeff_' + k, [fl(x) for x in D[p]])
            sidecompare(c, S, 'diffusivity of phase ' + k, 'conc_pfm_diffusion_' + k, [fl(D[p][d] * W[d][p][..., None, None]) for d in range(S.nd)])
        c.features_add('species%d' % (S.nc + 1))
    first(c, True, go)

# --- mobilities
def phasemobility_stage(c, m, S, r):
    """mobility of the order parameters: the value given, or Kim's expression"""
    import shadow
    if not m.has('phase_mobility') or 'phase' not in r: raise Skip('no phase')
    K = m.get('phase_mobility')
    if (S.t('PhaseMobility/type', 'scalar')) == 'scalar':
        v = S.g('PhaseMobility/value') if S.g('PhaseMobility/value') is not None else S.g('phi_mobility')
        compare(c, 'phase mobility', K, v + 0 * K, 1e-12)
        c.features_add('scalar')
        return
    w = shadow.kim(S)
    if not (np.isfinite(w).all() and (w > 0).all()): raise Skip('no finite mobility')
    j = np.abs(m.get('conc_l') - m.get('conc_a')).min() / max(np.abs(m.get('conc_l')).max(), 1e-9)
    compare(c, "Kim's mobility", np.log(K[..., 0]), np.log(w), max(1e-9, 1e-14 / max(j * j, 1e-12)), scale=1.)
    c.features_add('kim', *('%s' % k for k in ('interface_mobility', 'kinetics_coefficient', 'zeta', 'zetaLA') if S.d.get_path(M + 'PhaseMobility/' + k) is not None))
phasemobility_stages = stage('phasemobility_stages', 'C06', phasemobility_stage)

# --- orientation
def orient(c, m, S, r):
    import shadow
    if 'quat' not in r: raise Skip('orientation does not change')
    o = shadow.Orient(S, c.lib)
    c.features_add('n%d' % o.n, 'symmetry' if o.sym else 'plain')
    return o

def gradient_stage(c, m, S, r):
    """differences, gradients and modulus of the orientation"""
    from qlib import mindist
    o = orient(c, m, S, r)
    D = o.diffs(); n = o.n
    Q = S.side('quat_diffs')
    sidecompare(c, S, 'difference of the orientation', [type(Q[0])(x.a[..., :n]) for x in Q], D)
    if o.sym:
        sidecompare(c, S, 'plain difference of the orientation', [type(Q[0])(x.a[..., n:]) for x in Q], o.plain())
    G = m.get('quat_grad_cell'); W = o.cells(D)
    for t in range(S.nd): compare(c, 'gradient along axis %d in cells' % t, G[..., t * n:(t + 1) * n], W[t], 1e-9, scale=max(np.abs(x).max() for x in W))
    SW = o.sides(D); SG = S.side('quat_grad_side')
    if SW is not None:
        for t in range(S.nd):
            sidecompare(c, S, 'gradient along axis %d' % t, [type(Q[0])(x.a[..., t * n:(t + 1) * n]) for x in SG], [SW[d][t] for d in range(S.nd)])
    if S.t('quat_grad_modulus_type', 'cells') == 'cells': w = np.sqrt(sum((x ** 2).sum(-1) for x in W))
    else:
        g = [SG[d].a[..., d * n:(d + 1) * n] for d in range(S.nd)]
        w = np.sqrt(.5 * sum((x ** 2).sum(-1) + (np.roll(x, -1, d) ** 2).sum(-1) for d, x in enumerate(g)))
    compare(c, 'modulus of the gradient of the orientation', m.get('quat_grad_modulus')[..., 0], w, 1e-9)
gradient_stages = stage('gradient_stages', 'C04', gradient_stage, without=('CahnHilliard', 'Wang', 'Sintering', 'Heat1D', 'Porosity', 'Quadratic'))

def quatmobility_stage(c, m, S, r):
    """mobility of the orientation in the selected form"""
    o = orient(c, m, S, r)
    w = o.mobility()
    compare(c, 'orientation mobility', m.get('quat_mobility')[..., 0], w, 1e-9)
    c.features_add(S.t('orient_mobility_func_type', 'pbg'))
quatmobility_stages = stage('quatmobility_stages', 'C14', quatmobility_stage, without=('CahnHilliard', 'Wang', 'Sintering', 'Heat1D', 'Porosity', 'Quadratic'))

def quatrate_stage(c, m, S, r):
    """side coefficients and rate of the orientation; the rate has no component along the orientation"""
    o = orient(c, m, S, r); n = o.n
    q = r['quat']
    SG = S.side('quat_grad_side')
    G = [[x.a[..., t * n:(t + 1) * n] for t in range(S.nd)] for x in SG]
    K = o.facecoef(G)
    w = o.rate(K, None, G, o.diffs())
    sc = max(np.abs(k).max() for k in K) * max(np.abs(g[d]).max() for d, g in enumerate(G)) / min(S.dx) * m.get('quat_mobility').max()
    compare(c, 'rate of the orientation', q, w, 1e-9, scale=sc)
    if n > 1: compare(c, 'component of the rate along the orientation', (q * o.q).sum(-1), 0 * q[..., 0], 1e-9, scale=sc)
quatrate_stages = stage('quatrate_stages', 'C10', quatrate_stage, without=('CahnHilliard', 'Wang', 'Sintering', 'Heat1D', 'Porosity', 'Quadratic'))

@spec('C04', 'C10', n=80, world=True, nogeneric=True, flavours=('plain',))
def equivalent_orientations(c):
    """a crystal described by any of its equivalent orientations: same energies, moduli and rates, cell by cell"""
    from qlib import rotate, NROT
    dk = deck_of(c, mod.NOISE + ('CahnHilliard', 'Wang', 'Sintering', 'Heat1D', 'Porosity', 'Quadratic', 'AuNi'))
    ed = variant(c, dk, per=20)
    s = int(c.rng.integers(1 << 30))
    def more(d, f):
        if d.num(M + 'H_parameter', -1.) <= 0: raise Skip('no orientation')
        d.put('Symmetry/enabled', ['TRUE']); d.put(M + 'epsilon_anisotropy', None)
    def go():
        R = {}
        def other(d, f):
            more(d, f)
            g = np.random.default_rng(s)
            n = mdl.qlen(d, c.nd)
            sh = f['quat1'].shape
            i = g.integers(1, NROT[n] + 1, sh)
            if g.random() < .5: i = np.where(mdl.smooth(g, sh) > .5, g.integers(1, NROT[n] + 1), g.integers(1, NROT[n] + 1))     # grains
            q = np.stack([f['quat%d' % (k + 1)] for k in range(n)], -1)
            q = rotate(c.lib, q, i)
            for k in range(n): f['quat%d' % (k + 1)] = q[..., k]
            R['i'] = i
        n = mod.size(c.nd, c.rng)
        st = c.rng.bit_generator.state
        res = []
        for e_ in (more, other):
            c.rng.bit_generator.state = st
            m = Model(c, dk, n=n, edit=opened(ed, e_), boxes=None)
            r = m.rhs(0., 0)
            if 'quat' not in r: raise Skip('orientation does not change')
            res.append((r, m.get('quat_grad_modulus'), m.energy(0.), m.get('quat')))
            m.free()
        (r, g, E, q), (r2, g2, E2, q2) = res
        want = {k: v for k, v in r.items()}
        x = r['quat']
        want['quat'] = rotate(c.lib, x, R['i']) if x.shape[-1] > 1 else x
        c.features_add('n%d' % x.shape[-1])
        compare(c, 'modulus of the gradient', g2, g, 1e-9, floor=1e-6)
        for k in want: compare(c, 'rate of %s' % k, r2[k], want[k], 1e-7)
        if np.isfinite(E).all(): compare(c, 'energies', np.array(E2), np.array(E), 1e-8)
    first(c, True, go)

# --- C13: moving bodies
def run_bodies(c, name, ed, body):
    """rates with the bodies of the deck (body: entries of RigidBody) or without"""
    def edit(d, f):
        ed(d, f)
        d.put(M + 'RigidBody', body)
        if d.get_path(M + 'norderp_A') is None: d.put(M + 'norderp_A', ['%d' % (int(d.one(M + 'norderp')) - 1)])
    import shadow
    m = Model(c, name, n=mod.size(c.nd, c.rng), edit=edit)
    r = m.rhs(0., 0)
    return r, m.get('phase'), m.get('concentration') if m.has('concentration') else None, geometry(m), shadow.Shadow(m).ws

def centred(a, h, d): return (np.roll(a, -1, d) - np.roll(a, 1, d)) / (2 * h)

BODIES = ('Porosity', 'RigidBodyMotion', 'WangSintering', 'TwoGrainsQuadraticMultiOrderP')
@spec('C13', n=120, world=True, nogeneric=True, flavours=('plain',))
def moving_bodies(c):
    """what moving bodies add to the rates: forces of every pair, velocity of every grain, transport of its order parameter and of the solute"""
    ds = [x for x in mod.decks(c.nd, mod.NOISE) if any(k in x for k in BODIES)]
    name = deck_of(c, only=ds)
    ed = opened(variant(c, name, per=len(ds)), lambda d, f: d.put(M + 'MovingFrame', None))
    d0 = mdl.prepare(name, c.nd, [8] * c.nd)
    wang = d0.get_path(M + 'RigidBody/threshold') is not None
    r = c.rng
    body = dict(mobility=['%r' % float(r.uniform(.5, 5))], stiffness=['%r' % float(r.uniform(.5, 20))])
    if r.random() < .6: body['external_force'] = ['%r' % float(x) for x in r.uniform(-9, 9, c.nd)]
    if wang: body['threshold'] = ['%r' % float(r.uniform(.05, .3))]; body['equil_gb'] = ['%r' % float(r.uniform(.5, 1.2))]
    st = r.bit_generator.state
    a, ph, co, h, well = first(c, True, run_bodies, c, name, ed, body)
    r.bit_generator.state = st
    b = mod.fresh(c, run_bodies, c, name, ed, None)[0]
    nA = int(d0.one(M + 'norderp_A') or int(d0.one(M + 'norderp')) - 1); n = nA + max(0, int(d0.one(M + 'norderp')) - nA - 1)
    V = float(np.prod(h)); nd = c.nd
    P = [ph[..., k] for k in range(n)]
    G = [[centred(p, h[q], q) for q in range(nd)] for p in P]
    gm = 12. * (well or 0.)
    v = np.zeros((n, nd))
    for i in range(n):
        for q in range(nd):
            F = 0.
            for j in range(n):
                if i == j: continue
                if wang:
                    pp = .5 + (P[i] * P[j] - float(body['threshold'][0])) * 10
                    k = np.where(pp > 0, fref.interp(pp, 'p'), 0.) * (np.minimum(co.sum(-1), 1.) - float(body['equil_gb'][0]))
                    F += (k * (G[i][q] - G[j][q])).sum() * V
                else: F += (gm * P[i] ** 2 * P[j] * G[j][q]).sum() * V
            F = F * float(body['stiffness'][0]) + (float(body['external_force'][q]) if 'external_force' in body else 0.)
            v[i, q] = F * float(body['mobility'][0]) / (P[i].sum() * V)
    c.features_add('bodies%d' % n, 'contact' if wang else 'overlap')
    w = np.zeros_like(a['phase'])
    for i in range(n): w[..., i] = -sum(v[i, q] * G[i][q] for q in range(nd))
    sc = np.abs(a['phase']).max() * 1e-4 + np.abs(w).max()
    compare(c, 'transport of the order parameters', a['phase'] - b['phase'], w, 1e-8, scale=sc)
    if 'concentration' in a:
        t = w[..., :n].sum(-1)
        sc = np.abs(a['concentration']).max() * 1e-4 + np.abs(t).max()
        compare(c, 'transport of the solute', a['concentration'][..., 0] - b['concentration'][..., 0], t, 1e-8, scale=sc)

# --- C08: prescribed temperatures in space and time
def axes_of(d, n):
    lo = [float(x) for x in d.get_path('Geometry/x_lo')]; up = [float(x) for x in d.get_path('Geometry/x_up')]
    xs = []
    for k in range(len(n)):
        sh = [1] * len(n); sh[k] = -1
        xs.append((lo[k] + (up[k] - lo[k]) * (np.arange(n[k]) + .5) / n[k]).reshape(sh))
    return lo, up, xs

def history(r, lo, up, t1, T0):
    """table of temperatures over positions (decreasing, as in the files) and times"""
    npos, nt = int(r.integers(2, 7)), int(r.integers(2, 5))
    L = up - lo
    pos = np.sort(r.uniform(lo - 3 * L, up + 3 * L, npos)); pos[0] = lo - 4 * L; pos[-1] = up + 4 * L
    tm = np.concatenate([[0.], np.sort(r.uniform(.1, 1.5, nt - 1)) * t1]); tm[-1] = 2 * t1
    Tt = T0 * (1 + .02 * r.uniform(-1, 1, (nt, npos)))
    return pos, tm, Tt

def history_text(pos, tm, Tt):
    return '#locations\n' + ','.join('%r' % float(x) for x in pos[::-1]) + '\n#times\n' + ''.join(','.join('%r' % float(x) for x in [t] + list(row[::-1])) + '\n' for t, row in zip(tm, Tt))

def history_at(h, t, x):
    """temperature and slope at a time and position: bilinear, slopes weighted towards the neighbouring interval"""
    pos, tm, Tt = h
    i = int(np.searchsorted(tm, t, side='right')) - 1
    w = (t - tm[i]) / (tm[i + 1] - tm[i])
    row = (1 - w) * Tt[i] + w * Tt[i + 1]
    T = float(np.interp(x, pos, row))
    j = max(int(np.searchsorted(pos, x, side='left')) - 1, 0)
    s = np.diff(row) / np.diff(pos)
    f = (x - pos[j]) / (pos[j + 1] - pos[j])
    g = s[j]
    if j > 0 and f < .5: g = (.5 + f) * s[j] + (.5 - f) * s[j - 1]
    elif j + 2 < len(pos) and f > .5: g = (1.5 - f) * s[j] + (f - .5) * s[j + 1]
    return T, float(g)

def run_prescribed(c, name, ed, kind):
    r = c.rng
    p = {}
    def edit(d, f):
        if ed: ed(d, f)
        T = M + 'Temperature/'
        old = float(f['temperature'].mean()) if d.get_path(M + 'Temperature') is None else d.num(T + 'temperature', d.num(T + 'base', 1000.))
        lo, up, _ = axes_of(d, [1] * c.nd)
        nd = c.nd
        L = np.array(up) - np.array(lo)
        keep = {k: d.get_path(T + k) for k in ('meltingT', 'latent_heat') if d.get_path(M + 'Temperature') is not None and d.get_path(T + k) is not None}
        v = d.num(M + 'MovingFrame/velocity', 0.) if d.get_path(M + 'MovingFrame') is not None else 0.
        if v:
            v = float(v * r.uniform(-2, 2)); d.put(M + 'MovingFrame/velocity', ['%r' % v]); d.put(M + 'MovingFrame/adapt', None)
        t1 = .3 * float(L[0]) / abs(v) if v else 1e-3
        p.update(T0=old, v=v, t1=t1, cen=[float(lo[k] + r.uniform(-.2, 1.2) * L[k]) for k in range(nd)], lo=lo, up=up)
        rate = float(r.choice([0., -1., 1.]) * r.uniform(.01, .05) * old / t1)
        p['rate'] = rate
        e = dict(keep, type=['"%s"' % kind], dtemperaturedt=['%r' % rate])
        if r.random() < .8 or kind == 'gaussian': e['center'] = ['%r' % x for x in p['cen']]
        else: p['cen'] = [0.] * nd
        if kind == 'scalar':
            e.pop('center', None)
            e['temperature'] = ['%r' % old]
            p['target'] = 0.
            if r.random() < .7: p['target'] = old + .5 * rate * t1; e['target_temperature'] = ['%r' % p['target']]
        elif kind == 'frozen':
            e['temperature'] = ['%r' % old]
            p['g'] = [float(x) for x in r.uniform(-1, 1, nd) * .01 * old / L * r.integers(0, 2, nd)]
            e['gradient'] = ['%r' % x for x in p['g']]
        elif kind == 'gaussian':
            p.update(base=old, first=old * (1 + .02 * float(r.uniform(0, 1))), sd=float(L.min() * r.uniform(.1, .5)), vel=[float(x) for x in r.uniform(-1, 1, nd) * L / t1 * r.integers(0, 2, nd)])
            p['target'] = p['first'] + rate * t1 * float(r.uniform(.3, 2))
            e.update(base=['%r' % old], target=['%r' % p['target']], standard_deviation=['%r' % p['sd']], velocity=['%r' % x for x in p['vel']])
            if r.random() < .7: e['initial'] = ['%r' % p['first']]
            else: p['first'] = old
        else:
            p['h'] = history(r, lo[0], up[0], t1, old)
            open('prescribed.csv', 'w').write(history_text(*p['h']))
            e['type'] = ['"frozen"']; e['filename'] = ['"prescribed.csv"']; e.pop('dtemperaturedt')
        for k in ('temperature_type', 'T_parameter', 'temperature', 'temperature0'): d.put(M + k, None)
        d.put(M + 'Temperature', e)
        if d.get_path(M + 'BoundaryConditions/Temperature') is not None: d.put(M + 'BoundaryConditions/Temperature', None)
        p['per'] = [int(float(x)) for x in (d.get_path('Geometry/periodic_dimension') or [1] * nd)]
    m = Model(c, name, n=mod.size(c.nd, r), edit=edit)
    c.features_add(kind, 'moving frame' if p['v'] else 'at rest')
    lo, up, xs = axes_of(m.d, m.n)
    for t in [0.] + sorted(float(x) for x in r.uniform(0, 1, 2) * p['t1']):
        m.rhs(t, 0)
        if kind == 'scalar':
            w = p['T0'] + p['rate'] * t
            if p['rate'] < 0: w = max(w, p['target'])
            elif p['rate'] > 0 and p['target'] > 0: w = min(w, p['target'])
            w = np.full(m.n, w)
        elif kind == 'gaussian':
            pk = p['first'] + p['rate'] * t
            if p['rate'] < 0: pk = max(pk, p['target'])
            elif p['rate'] > 0: pk = min(pk, p['target'])
            d2 = 0.
            for k in range(c.nd):
                L = up[k] - lo[k]; q = p['cen'][k] + p['vel'][k] * t
                if p['per'][k]:
                    a = np.abs((xs[k] - q + L / 2) % L - L / 2)
                else: a = xs[k] - q
                d2 = d2 + a * a
            w = p['base'] + (pk - p['base']) * np.exp(-d2 / (2 * p['sd'] ** 2))
        elif kind == 'frozen':
            q = list(p['cen']); q[0] -= p['v'] * t
            w = p['T0'] + p['rate'] * t + sum(p['g'][k] * (xs[k] - q[k]) for k in range(c.nd))
        else:
            T, g = history_at(p['h'], t, p['cen'][0] + p['v'] * t)
            w = T + g * (xs[0] - p['cen'][0])
        w = np.broadcast_to(w, m.n)
        compare(c, 'prescribed temperature at time %r' % t, m.get('temperature')[..., 0], w, 1e-9)

@spec('C08', n=200, world=True, nogeneric=True, flavours=('plain',))
def prescribed(c):
    """prescribed temperatures (uniform, gradient, Gaussian spot, table) at several times of every model"""
    name = deck_of(c, mod.NOISE + ('Heat', 'Dendrite/', 'AlCuMoving', 'PureMaterials'))
    kind = ('scalar', 'frozen', 'gaussian', 'history')[int(c.rng.integers(4))]
    c.ctx += ' ' + kind
    first(c, True, run_prescribed, c, name, (lambda d, f: d.put('Geometry/periodic_dimension', ['1'] * c.nd)) if c.rng.random() < .5 else None, kind)

# --- C08: heat capacity and the rate of the temperature
def heat_edit(c):
    s = int(c.rng.integers(1 << 30))
    def more(d, f):
        T = M + 'Temperature/'
        if d.one(T + 'equation_type', '').strip('"') != 'unsteady': return
        r = np.random.default_rng(s)
        if d.get_path(M + 'MovingFrame') is not None: d.put(M + 'MovingFrame/adapt', ['FALSE'])
        if c.idx < 20: return
        a = d.num(T + 'cp/SpeciesA/a')
        for k in ('thermal_diffusivity', 'latent_heat'): d.put(T + k, ['%r' % float(d.num(T + k) * r.uniform(.5, 2))])
        for k in ('A', 'B'):
            if d.get_path(T + 'cp/Species' + k) is None: continue
            d.put(T + 'cp/Species%s/a' % k, ['%r' % float(a * r.uniform(.5, 2))])
            t = float(np.mean(f['temperature']))
            if r.random() < .7: d.put(T + 'cp/Species%s/b' % k, ['%r' % float(a / t * r.uniform(0, .5))])
            if r.random() < .7: d.put(T + 'cp/Species%s/dm2' % k, ['%r' % float(a * t ** 2 * r.uniform(0, .5))])
    return more

def advected(d, a, dx):
    """velocity of the frame times the slope along it, as the program discretises it"""
    v = d.num(M + 'MovingFrame/velocity', 0.) if d.get_path(M + 'MovingFrame') is not None else 0.
    if not v: return 0. * a
    R = lambda k: np.roll(a, -k, 0)
    if on(d, 'MovingFrame/upwind'): return v / (6 * dx) * (-2 * R(-1) - 3 * a + 6 * R(1) - R(2))
    return v * (R(1) - R(-1)) / (2 * dx)

@spec('C08', n=80, world=True, nogeneric=True, flavours=('plain',))
def heat(c):
    """rate of the temperature: diffusion, latent heat over heat capacity at the local temperature and composition, frame of reference"""
    import shadow
    names = [x for x in mod.decks(c.nd) if any(k in x for k in ('Heat', 'Dendrite/', 'AlCuMoving', 'PureMaterials'))]
    name = names[c.idx % len(names)]
    c.ctx = '%s %dd case %d' % (name, c.nd, c.idx)
    ed = variant(c, name, per=20)
    def go():
        m = Model(c, name, n=mod.size(c.nd, c.rng), edit=opened(ed, heat_edit(c)))
        r = m.rhs(0., 0)
        S = shadow.Shadow(m)
        T = m.get('temperature')[..., 0]
        q = 'Temperature/'
        if 'temperature' not in r: raise Skip('temperature not evolved')
        sp = [{n: S.g(q + 'cp/Species%s/%s' % (k, x)) or 0. for n, x in ((0, 'a'), (1, 'b'), (-2, 'dm2'))} for k in 'AB' if S.d.get_path(M + q + 'cp/Species' + k) is not None]
        one = lambda k: sum(v * (T * S.scale) ** n for n, v in sp[k].items()) * S.k[0] * S.scale
        if S.conc:
            x = m.get('concentration')[..., 0]
            cp = x * one(0) + (1 - x) * one(1)
        else: cp = 0 * T + sp[0][0] * S.k[0] * S.scale
        compare(c, 'heat capacity', m.get('cp')[..., 0], cp, 1e-9)
        kap = S.g(q + 'thermal_diffusivity') * 1e8
        lap = sum((np.roll(T, 1, k) + np.roll(T, -1, k) - 2 * T) / S.dx[k] ** 2 for k in range(c.nd))
        w = kap * lap + advected(m.d, T, S.dx[0])
        sc = np.abs(kap * T).max() * 1e-6 / min(S.dx) ** 2
        if 'phase' in r:
            ph = m.get('phase')[..., 0]
            lat = S.g(q + 'latent_heat') * S.k[0] / cp * (r['phase'][..., 0] - advected(m.d, ph, S.dx[0]))
            w = w + lat; c.features_add('latent')
            sc = max(sc, np.abs(lat).max())
        c.features_add('cp%d' % (2 if S.conc else 1), 'powers%d' % max(sum(1 for v in s.values() if v) for s in sp), 'frame' if m.d.get_path(M + 'MovingFrame') is not None else 'rest')
        compare(c, 'temperature rate', r['temperature'][..., 0], w, 1e-8, scale=max(np.abs(w).max(), sc))
    first(c, True, go)

@spec('C08', n=60, world=True, nogeneric=True, flavours=('plain',))
def heat_boundaries(c):
    """heat entering through the outer sides: given slopes and temperatures, constant or tabulated in time"""
    names = [x for x in mod.decks(c.nd) if 'Heat' in x]
    name = names[c.idx % len(names)]
    c.ctx = '%s %dd case %d' % (name, c.nd, c.idx)
    r = c.rng
    p = {}
    def edit(d, f):
        lo, up, _ = axes_of(d, [1] * c.nd)
        per = [int(r.random() < .3) for _ in range(c.nd)]
        p.update(per=per, L=[b - a for a, b in zip(lo, up)], bc=[], T0=float(np.mean(f['temperature'])), table=bool(r.random() < .5))
        d.put('Geometry/periodic_dimension', [str(x) for x in per])
        b = {}
        for k in range(2 * c.nd):
            kind = 'value' if r.random() < .5 else 'slope'
            g = lambda: float(p['T0'] * (1 + .01 * r.uniform(-1, 1)) if kind == 'value' else p['T0'] * .01 / p['L'][0] * r.uniform(-1, 1))
            t = [0.]
            if p['table']: t = np.concatenate([[0.], np.cumsum(r.uniform(.1, 1., int(r.integers(1, 14))))])
            v = [g() for _ in t]
            p['bc'].append((kind, list(map(float, t)), v))
            if p['table']:
                open('bc%d.dat' % k, 'w').write('type = "%s"\n' % kind + ''.join('time_%d = %r, %r\n' % (i, float(x), y) for i, (x, y) in enumerate(zip(t, v))))
                b['boundary_%d' % k] = ['"file"', '"bc%d.dat"' % k]
            else: b['boundary_%d' % k] = ['"%s"' % kind, '"%r"' % v[0]]
        for k in ('Phase', 'Conc', 'Quat'): d.put(M + 'BoundaryConditions/' + k, {'boundary_%d' % i: ['"slope"', '"0"'] for i in range(2 * c.nd)})
        d.put(M + 'BoundaryConditions/Temperature', b)
        d.put(M + 'BoundaryConditions/TemperatureCorrections', {'boundary_%d' % i: ['"slope"', '"0"'] for i in range(2 * c.nd)} if p['table'] else None)
    def go():
        import shadow
        m = Model(c, name, n=mod.size(c.nd, c.rng), edit=edit)
        S = shadow.Shadow(m)
        end = min(b[1][-1] for b in p['bc']) if p['table'] else 1.
        t = (float(end * r.uniform(0, 1)), 0., end)[int(r.choice(3, p=[.8, .1, .1]))]
        if p['table'] and r.random() < .5: m.rhs(float(end * r.uniform(0, 1)), 0)     # what an earlier time left must not matter
        q = m.rhs(t, 0)
        T = m.get('temperature')[..., 0]
        w = 0. * T
        for k in range(c.nd):
            h = S.dx[k]
            def ghost(side, edge):
                if p['per'][k]: return np.take(T, [-1 if side == 0 else 0], k)
                kind, tt, vv = p['bc'][2 * k + side]
                g = float(np.interp(t, tt, vv)) / S.scale
                return edge + h * g if kind == 'slope' else 2 * g - edge
            G = np.concatenate([ghost(0, np.take(T, [0], k)), T, ghost(1, np.take(T, [-1], k))], k)
            s = [slice(None)] * c.nd
            cut = lambda a, b: G[tuple(slice(a, b) if i == k else slice(None) for i in range(c.nd))]
            w = w + (cut(2, None) + cut(0, -2) - 2 * T) / h ** 2
        w = w * S.g('Temperature/thermal_diffusivity') * 1e8
        c.features_add('table' if p['table'] else 'constant', *['%s' % b[0] for k, b in enumerate(p['bc']) if not p['per'][k // 2]])
        sc = max(np.abs(w).max(), S.g('Temperature/thermal_diffusivity') * 1e8 * np.abs(T).max() * 1e-6 / min(S.dx) ** 2)
        if 'phase' in q: raise Skip('with a phase')
        compare(c, 'temperature rate at time %r' % t, q['temperature'][..., 0], w, 1e-8, scale=sc)
    go()
