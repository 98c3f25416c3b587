"""composition diffusion coefficients"""
import numpy as np
from harness import *
import fref

INT = ['p', 'h', 'l', 'q', 'w', 'm']
RGAS = 8.314472
def lohi(f, sb, nd, d, m=None): return f.v(sb, e(nd, d, -1), m), f.v(sb, None, m)
def avgp(f, sb, nd, d, t, m=None):
    a, b = lohi(f, sb, nd, d, m)
    return fref.average(a, b, t)
def arr(D, q, T, sb, nd, d):
    a, b = lohi(T, sb, nd, d)
    return D * np.exp(-q / RGAS * 2. / (a + b))

class S:
    """common inputs"""
    def __init__(s, c, nsol=None):
        s.box = c.rbox()
        s.ngd = c.ng(0, 2)
        s.ngp = c.ng(max(1, s.ngd), 3); s.ngt = c.ng(max(1, s.ngd), 3)
        s.it, s.at = c.pick(INT), c.pick(['a', 'h'])
        s.D = [float(10 ** c.rng.uniform(-3, 0)) for _ in range(3)]
        s.q = [float(c.rng.uniform(0, 2e4)) for _ in range(3)]
        s.T = c.cell(s.box, s.ngt, name='temp', how='temp')
        c.features_add(s.it + s.at, 'ngd%d' % s.ngd)
    def ph(s, c, n=None, name='phi'): return c.cell(s.box, s.ngp, n, 'phase', name)
    def sd(s, c, name, how=None): return c.sides(s.box, s.ngd, name=name, how=how)

@spec('C07', n=40)
def concentration_pfmdiffusion(c):
    s = S(c); p, F = s.ph(c), s.sd(c, 'diff')
    c.call('concentration_pfmdiffusion', s.box, p, s.ngp, F, s.ngd, s.T, s.ngt, s.D[0], s.q[0], s.D[1], s.q[1], RGAS, s.it, s.at, split=True)
    for d in range(c.nd):
        sb = s.box.side(d)
        h = fref.interp(avgp(p, sb, c.nd, d, s.at), s.it)
        c.expect(F[d], sb, (1 - h) * arr(s.D[0], s.q[0], s.T, sb, c.nd, d) + h * arr(s.D[1], s.q[1], s.T, sb, c.nd, d), scale=0., rtol=1e-9, atol=1e-13)

@spec('C07', n=40)
def concentration_pfmdiffusion_scalar(c):
    s = S(c); p, F = s.ph(c), s.sd(c, 'diff')
    c.call('concentration_pfmdiffusion_scalar', s.box, p, s.ngp, F, s.ngd, s.D[0], s.D[1], s.it, s.at, split=True)
    lo, hi = min(s.D[:2]), max(s.D[:2])
    for d in range(c.nd):
        sb = s.box.side(d)
        h = fref.interp(avgp(p, sb, c.nd, d, s.at), s.it)
        c.expect(F[d], sb, (1 - h) * s.D[0] + h * s.D[1])
        if s.it in 'phl':
            c.check((F[d].g(sb) >= lo * (1 - 1e-12)) & (F[d].g(sb) <= hi * (1 + 1e-12)), 'diffusion coefficient is not between those of the two phases')

def hsum(P, sb, nd, d, s, n):
    return fref.interp(sum(avgp(P, sb, nd, d, s.at, i) for i in range(n)), s.it)

@spec('C07', n=40)
def concentration_pfmdiffusion_scalar_phases(c):
    s = S(c); n = [int(c.rng.integers(1, 5)) for _ in range(3)]
    three = c.pick([True, False])
    n[0] = 1
    P = [s.ph(c, n[k], 'phi%s' % 'LAB'[k]) for k in range(3)]
    F = s.sd(c, 'diff')
    c.features_add('three%d' % three, 'nA%d' % n[1])
    if three:
        c.call('concentration_pfmdiffusion_scalar_3phases', s.box, P[0], n[0], P[1], n[1], P[2], n[2], s.ngp, F, s.ngd, s.D[0], s.D[1], s.D[2], s.it, s.at, split=True)
    else:
        P[0] = s.ph(c, None, 'phiL')
        c.call('concentration_pfmdiffusion_scalar_2phases', s.box, P[0], P[1], n[1], s.ngp, F, s.ngd, s.D[0], s.D[1], s.it, s.at, split=True)
    for d in range(c.nd):
        sb = s.box.side(d)
        r = hsum(P[0], sb, c.nd, d, s, 1) if three else fref.interp(avgp(P[0], sb, c.nd, d, s.at), s.it)
        r = r * s.D[0] + sum(hsum(P[k], sb, c.nd, d, s, n[k]) * s.D[k] for k in (1, 2)[:2 if three else 1])
        c.expect(F[d], sb, r)

@spec('C07', dims=(2,), n=40)
def concentration_pfmdiffusion_threephases(c):
    s = S(c); P, F = s.ph(c, 3), s.sd(c, 'diff')
    c.call('concentration_pfmdiffusion_threephases', s.box, P, s.ngp, F, s.ngd, s.T, s.ngt, s.D[0], s.q[0], s.D[1], s.q[1], s.D[2], s.q[2], RGAS, s.it, s.at, split=True)
    for d in range(c.nd):
        sb = s.box.side(d)
        c.expect(F[d], sb, sum(fref.interp(avgp(P, sb, c.nd, d, s.at, k), s.it) * arr(s.D[k], s.q[k], s.T, sb, c.nd, d) for k in range(3)), scale=0., rtol=1e-9, atol=1e-13)

def tb(box, d, n):
    b = box.side(d)
    for t in range(box.nd):
        if t != d: b = b.grow(n, t)
    return b

@spec('C07', n=40)
def concentration_pfmdiffusion_of_temperature(c):
    s = S(c); p = s.ph(c); L, A = s.sd(c, 'diffL'), s.sd(c, 'diffA')
    c.call('concentration_pfmdiffusion_of_temperature', s.box, p, s.ngp, L, A, s.ngd, s.T, s.ngt, s.D[0], s.q[0], s.D[1], s.q[1], RGAS, s.it, s.at, split=True)
    for d in range(c.nd):
        sb = tb(s.box, d, s.ngd)
        h = fref.interp(avgp(p, sb, c.nd, d, s.at), s.it)
        c.expect(L[d], sb, (1 - h) * arr(s.D[0], s.q[0], s.T, sb, c.nd, d), scale=0., rtol=1e-9, atol=1e-13)
        c.expect(A[d], sb, h * arr(s.D[1], s.q[1], s.T, sb, c.nd, d), scale=0., rtol=1e-9, atol=1e-13)

@spec('C07', n=50)
def concentration_pfmdiffusion_of_temperature_multiphases(c):
    s = S(c); n = int(c.rng.integers(2, 6)); P = s.ph(c, n); L, A = s.sd(c, 'diffL'), s.sd(c, 'diffA')
    c.features_add('n%d' % n)
    c.call('concentration_pfmdiffusion_of_temperature_multiphases', s.box, P, n, s.ngp, L, A, s.ngd, s.T, s.ngt, s.D[0], s.q[0], s.D[1], s.q[1], RGAS, s.it, s.at, split=True)
    for d in range(c.nd):
        sb = tb(s.box, d, s.ngd)
        c.expect(L[d], sb, fref.interp(avgp(P, sb, c.nd, d, s.at, n - 1), s.it) * arr(s.D[0], s.q[0], s.T, sb, c.nd, d), scale=0., rtol=1e-9, atol=1e-13)
        c.expect(A[d], sb, hsum(P, sb, c.nd, d, s, n - 1) * arr(s.D[1], s.q[1], s.T, sb, c.nd, d), scale=0., rtol=1e-9, atol=1e-13)

@spec('C07', n=50)
def concentration_pfmdiffusion_of_temperature_threephases(c):
    s = S(c); n = [1] + [int(c.rng.integers(1, 4)) for _ in range(2)]
    P = [s.ph(c, n[k], 'phi%s' % 'LAB'[k]) for k in range(3)]
    F = [s.sd(c, 'diff' + x) for x in 'LAB']
    c.features_add('nA%d' % n[1], 'nB%d' % n[2])
    c.call('concentration_pfmdiffusion_of_temperature_threephases', s.box, P[0], 1, P[1], n[1], P[2], n[2], s.ngp, F[0], F[1], F[2], s.ngd, s.T, s.ngt,
           s.D[0], s.q[0], s.D[1], s.q[1], s.D[2], s.q[2], RGAS, s.it, s.at, split=True)
    for d in range(c.nd):
        sb = tb(s.box, d, s.ngd)
        for k in range(3):
            c.expect(F[k][d], sb, hsum(P[k], sb, c.nd, d, s, n[k]) * arr(s.D[k], s.q[k], s.T, sb, c.nd, d), scale=0., rtol=1e-9, atol=1e-13)

@spec('C07', n=30)
def concentrationdiffusion_beckermann(c):
    s = S(c); p, F = s.ph(c), s.sd(c, 'diff')
    ngk = c.ng(1, 3)
    k = c.cell(s.box, ngk, name='partition', how=lambda r, sh: r.uniform(.1, 1.8, sh))
    it = c.pick(['p', 'h', 'l'])
    c.call('concentrationdiffusion_beckermann', s.box, p, s.ngp, F, s.ngd, k, ngk, s.D[0], s.D[1], it, s.at, split=True)
    for d in range(c.nd):
        sb = s.box.side(d)
        h = fref.interp(avgp(p, sb, c.nd, d, s.at), it)
        # share of the solute in the liquid
        f = (1 - h) / (1 - h + avgp(k, sb, c.nd, d, s.at) * h)
        c.expect(F[d], sb, f * s.D[0] + (1 - f) * s.D[1])

@spec('C07', n=30)
def concentration_diffcoeff_of_temperature(c):
    s = S(c); F = [s.sd(c, 'diff' + x) for x in 'LAB']
    if c.nd == 2:
        three = int(c.rng.integers(0, 2))
        c.call('concentration_diffcoeff_of_temperature', s.box, *F, s.ngd, s.T, s.ngt, s.D[0], s.q[0], s.D[1], s.q[1], s.D[2], s.q[2], RGAS, three, split=True)
    else:
        three = 0
        c.call('concentration_diffcoeff_of_temperature', s.box, F[0], F[1], s.ngd, s.T, s.ngt, s.D[0], s.q[0], s.D[1], s.q[1], RGAS, split=True)
    for d in range(c.nd):
        sb = s.box.side(d)
        for k in range(3 if three else 2):
            c.expect(F[k][d], sb, arr(s.D[k], s.q[k], s.T, sb, c.nd, d), scale=0., rtol=1e-9)

def pairs(P, Q, b, n, m, same, nd, sh=None):
    th = 1e-2
    t = 0.
    for i in range(n):
        for j in range(i + 1 if same else 0, m):
            a, z = P.v(b, sh, i), Q.v(b, sh, j)
            t = t + np.where((a > th) & (z > th), (a - th) ** 2 * (z - th) ** 2, 0.)
    return t / (.5 - th) ** 4

def both_sides(f, sb, nd, d):
    """half from each of the two cells next to the side"""
    return .5 * (f(sb, e(nd, d, -1)) + f(sb, None))

def phases2(c, s):
    n = int(c.rng.integers(1, 5)); same = int(c.rng.integers(0, 2))
    P = s.ph(c, n, 'phia')
    if same: Q, m = P, n
    else:
        m = int(c.rng.integers(1, 4)); Q = s.ph(c, m, 'phib')
    c.features_add('pair%d%d%d' % (same, n, m))
    return P, n, Q, m, same

@spec('C07', n=50)
def ab_diffusion_of_temperature(c):
    s = S(c); P, n, Q, m, same = phases2(c, s)
    A = s.sd(c, 'diffA', 'pos'); B = A if same else s.sd(c, 'diffB', 'pos')
    c.call('ab_diffusion_of_temperature', s.box, P, n, Q, m, s.ngp, A, B, s.ngd, s.T, s.ngt, s.D[0], s.q[0], RGAS, same, split=True)
    f = lambda sb, sh: pairs(P, Q, sb, n, m, same, c.nd, sh) * s.D[0] * np.exp(-s.q[0] / RGAS / s.T.v(sb, sh))
    for d in range(c.nd):
        sb = tb(s.box, d, s.ngd)
        r = both_sides(f, sb, c.nd, d)
        if np.any(r > 0): c.features_add('contact')
        c.expect(A[d], sb, A[d].v(sb) + r)
        if not same: c.expect(B[d], sb, B[d].v(sb) + r)

def ghosty(c, F, s, f, split=True):
    # sides of the box get both halves; sides outside it are scratch
    for d in range(c.nd):
        sb = s.box.side(d)
        c.expect(F[d], sb, F[d].v(sb) + both_sides(f, sb, c.nd, d))
        F[d].written[...] = True

@spec('C07', n=40)
def add_ab_diffusion_single(c):
    s = S(c); s.ngd = c.ng(1, 2); s.ngp = c.ng(1, 3)
    p, F = s.ph(c), s.sd(c, 'diff', 'pos')
    c.call('add_ab_diffusion_single', s.box, p, s.ngp, F, s.ngd, s.D[0], split=True)
    def f(sb, sh):
        x = p.v(sb, sh); return 16 * s.D[0] * x * x * (1 - x) ** 2
    ghosty(c, F, s, f)

@spec('C07', n=40)
def add_ab_diffusion(c):
    s = S(c); s.ngd = c.ng(1, 2); s.ngp = c.ng(1, 3)
    P, n, Q, m, same = phases2(c, s)
    F = s.sd(c, 'diff', 'pos')
    c.call('add_ab_diffusion', s.box, P, n, Q, m, s.ngp, F, s.ngd, s.D[0], same, split=True)
    ghosty(c, F, s, lambda sb, sh: s.D[0] * pairs(P, Q, sb, n, m, same, c.nd, sh))
