"""evolution equations: phase (gradient fluxes, wells, driving forces, moving frame), temperature, eta"""
import numpy as np
from harness import *
from qlib import *
import fref

def sadd(a, b): return tuple(x + y for x, y in zip(a, b))
def fdiv(F, b, dx, nd, m=None): return sum((F[d].v(b, e(nd, d), m) - F[d].v(b, None, m)) / dx[d] for d in range(nd))
def sgrad(f, sb, nd, d, dx, s=None):
    s = s or (0,) * nd
    return (f.v(sb, s) - f.v(sb, sadd(s, e(nd, d, -1)))) / dx[d]
def tgrad(f, sb, nd, d, t, dx):
    return sum(.25 * (f.v(sb, sadd(s, e(nd, t))) - f.v(sb, sadd(s, e(nd, t, -1)))) / dx[t] for s in ((0,) * nd, e(nd, d, -1)))
def optarg(c, fn, n, x):
    """a trailing argument that only one of the dimensions has"""
    return [x] if len(c.lib.sigs[fn]['args']) == n + 1 else []

@spec('C06', n=20)
def gradient_flux(c):
    box, dx, g, gf = c.rbox(), c.dx(), c.ng(1, 2), c.ng()
    p, F, ep = c.cell(box, g, name='phase', how='phase'), c.sides(box, gf, name='F'), float(c.rng.uniform(.1, 2))
    c.call('gradient_flux', box, c.array(dx), ep, p, g, F, gf, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        c.expect(F[d], sb, ep * ep * sgrad(p, sb, c.nd, d, dx))

@spec('C06', n=20, dims=(2,))
def gradient_flux_averaged(c):
    """variants that average the difference over the three rows next to the side"""
    box, dx, g, gf = c.rbox(), c.dx(), c.ng(1, 2), c.ng()
    p, F, ep = c.cell(box, g, name='phase', how='phase'), c.sides(box, gf, name='F'), float(c.rng.uniform(.1, 2))
    fn, w = c.pick([('gradient_flux_wide', 1 / 8.), ('compute_flux_isotropic', 1 / 12.)])
    c.features_add(fn)
    c.call(fn, box, c.array(dx), ep, p, g, F, gf, split=True)
    for d in range(2):
        sb = box.side(d); t = 1 - d
        c.expect(F[d], sb, ep * ep * ((1 - 2 * w) * sgrad(p, sb, 2, d, dx) + w * (sgrad(p, sb, 2, d, dx, e(2, t)) + sgrad(p, sb, 2, d, dx, e(2, t, -1)))))

def orient(c, box, g, n):
    q = Field(box, g, n, name='quat')
    if c.pick([True, False]): q.a[...] = randq(c.rng, q.shape[:-1], n, jitter=.05)
    else: q.a[...] = normed(c.rng.normal(size=n)); c.features_add('one grain')
    if c.rng.random() < .1: q.a[..., 0] *= 1.5; c.features_add('beyond 1')
    return q

@spec('C06', n=60)
def anisotropic_gradient_flux(c):
    """flux = derivative of half gamma(grad phi)^2 |grad phi|^2 with respect to the gradient"""
    box, dx, g, gq, gf = c.rbox(), c.dx(), c.ng(1, 2), c.ng(1, 2), c.ng()
    nd = c.nd
    n = c.pick([2, 4]) if nd == 2 else 4
    p, F = c.cell(box, g, name='phase', how='phase'), c.sides(box, gf, name='F')
    r = c.rng.random()
    if r < .15: p.a[...] = .25; c.features_add('flat')
    elif r < .45:
        d = int(c.rng.integers(nd))
        p.a[...] = p.a[tuple(slice(0, 1) if i != d else slice(None) for i in range(nd))]; c.features_add('axis%d' % d)
    elif r < .6: p.a[...] = np.round(p.a); c.features_add('steps')
    q = orient(c, box, gq, n)
    ep, nu, kn = float(c.rng.uniform(.1, 2)), float(c.rng.uniform(-.2, .2)), int(c.pick([4, 6, 2]))
    c.features_add('n%d' % n, 'k%d' % kn)
    c.call('anisotropic_gradient_flux', box, c.array(dx), ep, nu, kn, p, g, q, gq, n, F, gf, split=True)
    for d in range(nd):
        sb = box.side(d)
        G = [sgrad(p, sb, nd, d, dx) if t == d else tgrad(p, sb, nd, d, t, dx) for t in range(nd)]
        g2 = sum(x * x for x in G)
        if nd == 2:
            qa = .5 * (q.v(sb, e(nd, d, -1), 0) + q.v(sb, None, 0))
            big = np.abs(G[0]) > 1e-12
            th = np.where(big, np.arctan(G[1] / np.where(big, G[0], 1)), .5 * np.pi) - np.arccos(np.clip(qa, -1, 1)) * (2 if n == 4 else 1)
            gam, dg = ep * (1 + nu * np.cos(kn * th)), -kn * ep * nu * np.sin(kn * th)
            ref = gam * gam * G[d] + gam * dg * (-G[1] if d == 0 else G[0])
            c.expect(F[d], sb, ref, rtol=1e-9)      # cos(k theta) amplifies rounding of theta
        else:
            Q = .5 * (q.v(sb, e(nd, d, -1)) + q.v(sb))
            big = g2 > 1e-12
            nn = np.stack([0 * g2] + [x / np.sqrt(np.where(big, g2, 1)) for x in G], -1)
            y = qmul(Q, qmul(nn, conj(Q)))
            n4 = np.where(big, (y[..., 1:] ** 4).sum(-1), 0.)
            dg = np.stack([0 * g2] + [y[..., k] * (y[..., k] ** 2 - n4) for k in (1, 2, 3)], -1)
            dg = qmul(conj(Q), qmul(dg, Q))[..., d + 1]
            gam = ep * (1 - 3 * nu) * (1 + 4 * nu / (1 - 3 * nu) * n4)
            c.expect(F[d], sb, gam * gam * G[d] + np.where(big, 16 * ep * gam * nu * np.sqrt(g2) * dg, 0.), rtol=1e-10)

@spec('C06', n=60)
def computerhspbg(c):
    box, dx = c.rbox(), c.dx()
    gf, gt, gp, ge, go, gr = [c.ng() for _ in range(6)]
    F, T, p, eta, M, r = c.sides(box, gf, name='flux'), c.cell(box, gt, name='T', how='temp'), c.cell(box, gp, name='phi', how='phase'), c.cell(box, ge, name='eta', how='phase'), c.cell(box, go, name='mod', how='pos'), c.cell(box, gr, name='rhs')
    mf, eq, ws, es = [float(x) for x in c.rng.uniform(.1, 2, 4)]
    pw, ew = c.pick('ds'), c.pick('ds')
    pi_, o1, o2 = [c.pick('qphwl') for _ in range(3)]
    wo, tp = int(c.rng.integers(0, 2)), int(c.rng.integers(0, 2))
    c.features_add('orient%d' % wo, 'eta%d' % tp, pw, ew, 'i' + pi_, 'o1' + o1, 'o2' + o2)
    c.call('computerhspbg', box, c.array(dx), mf, eq, F, gf, T, gt, ws, es, p, gp, eta, ge, M, go, r, gr, pw, ew, pi_, o1, o2, wo, tp, split=True)
    x, t, m = p.v(box), T.v(box) if wo else 0., M.v(box) if wo else 0.
    h = fdiv(F, box, dx, c.nd) - ws * fref.dwell(x, pw)
    if tp: h = h - es * fref.dinterp(x, pi_) * fref.well(eta.v(box), ew)
    if wo: h = h - mf * t * fref.dinterp(x, o1) * m - fref.dinterp(x, o2) * .5 * eq * eq * m * m
    c.expect(r, box, h)

@spec('C06', n=40)
def computerhsthreephases(c):
    box, dx = c.rbox(), c.dx()
    gf, gp, gr = c.ng(), c.ng(), c.ng()
    F, p, r = c.sides(box, gf, 3, name='flux'), c.cell(box, gp, 3, 'phase', 'phi'), c.cell(box, gr, 3, name='rhs')
    ws = float(c.rng.uniform(.1, 2))
    c.call('computerhsthreephases', box, c.array(dx), F, gf, ws, p, gp, r, gr, split=True)
    x = [p.v(box, None, k) for k in range(3)]
    h = [fdiv(F, box, dx, c.nd, k) - ws * fref.triple(x[k], x[(k + 1) % 3], x[(k + 2) % 3]) for k in range(3)]
    mean = sum(h) / 3
    sc = max(np.abs(y).max() for y in h)
    for k in range(3): c.expect(r, box, h[k] - mean, k, scale=sc)
    c.check(np.abs(r.g(box).sum(-1)) <= 1e-12 * (1 + sc), 'rates of the three phases do not sum to zero', 'balance')

@spec('C06', n=30)
def computerhseta(c):
    box, dx = c.rbox(), c.dx()
    gf, gt, gp, ge, gr = [c.ng() for _ in range(5)]
    F, T, p, eta, r = c.sides(box, gf, name='flux'), c.cell(box, gt, name='T', how='temp'), c.cell(box, gp, name='phi', how='phase'), c.cell(box, ge, name='eta', how='phase'), c.cell(box, gr, name='rhs')
    es, ew, pi_ = float(c.rng.uniform(.1, 2)), c.pick('ds'), c.pick('qphwl')
    c.features_add(ew, 'i' + pi_)
    c.call('computerhseta', box, c.array(dx), F, gf, T, gt, es, p, gp, eta, ge, r, gr, ew, pi_, split=True)
    c.expect(r, box, fdiv(F, box, dx, c.nd) - es * fref.interp(p.v(box), pi_) * fref.dwell(eta.v(box), ew))

@spec('C06', n=40)
def phaserhs_fenergy(c):
    """driving force = minus the derivative of the mixture free energy"""
    box, gp, gr = c.rbox(), c.ng(), c.ng()
    fl, fa, fb = [c.cell(box, 0, name=x) for x in ('fl', 'fa', 'fb')]
    p, r = c.cell(box, gp, name='phi', how='phase'), c.cell(box, gr, name='rhs')
    t = c.pick('qphwlm')
    c.features_add(t)
    if c.pick([True, False]):
        c.call('phaserhs_fenergy', box, fl, fa, p, gp, r, gr, t, split=True)
        c.expect(r, box, r.v(box) + fref.dinterp(p.v(box), t) * (fl.v(box) - fa.v(box)))
    else:
        ge, te = c.ng(), c.pick('qphwl')
        eta = c.cell(box, ge, name='eta', how='phase')
        c.features_add('eta' + te)
        c.call('etarhs_fenergy', box, fl, fa, fb, p, gp, eta, ge, r, gr, t, te, split=True)
        fl.v(box)
        c.expect(r, box, r.v(box) + fref.interp(p.v(box), t) * fref.dinterp(eta.v(box), te) * (fa.v(box) - fb.v(box)))

@spec('C06', n=40)
def phaserhs_fenergy_multiorderp(c):
    box, gp, gr = c.rbox(), c.ng(), c.ng()
    n = int(c.rng.integers(2, 6))
    fl, fa = c.cell(box, 0, name='fl'), c.cell(box, 0, name='fa')
    p, r = c.cell(box, gp, n, lambda g, s: g.uniform(-.1, 1.1, s) + .01, 'phi'), c.cell(box, gr, n, name='rhs')
    p.a[..., int(c.rng.integers(n))] += 1.
    c.features_add('n%d' % n)
    c.call('phaserhs_fenergy_multiorderp', box, fl, fa, p, gp, n, r, gr, *optarg(c, 'phaserhs_fenergy_multiorderp', 2 * c.nd + 7, 'pbg'), split=True)
    x = [p.v(box, None, k) for k in range(n)]
    S = sum(y * y for y in x); hs = sum(y * y for y in x[:-1]) / S; hl = x[-1] ** 2 / S
    df = fl.v(box) - fa.v(box)
    r0 = [r.v(box, None, k).copy() for k in range(n)]
    for k in range(n): c.expect(r, box, r0[k] + 2 * x[k] / S * (hl if k < n - 1 else -hs) * df, k)
    # energy of the mixture does not change when all order parameters are scaled: sum phi * rate = 0
    c.close(sum(x[k] * (r.g(box, None, k) - r0[k]) for k in range(n)), 0., atol=1e-11, what='driving force changes the energy under uniform scaling', kind='balance')

@spec('C08', n=40)
def computerhstemp(c):
    box, dx = c.rbox(), c.dx()
    gt, gc, gp, gr = c.ng(1, 2), c.ng(), c.ng(), c.ng()
    T, cp, p, r = c.cell(box, gt, name='T', how='temp'), c.cell(box, gc, name='cp', how='pos'), c.cell(box, gp, name='phi_rhs'), c.cell(box, gr, name='rhs')
    D, L, wp = float(c.rng.uniform(.1, 2)), float(c.rng.uniform(.1, 20)), int(c.rng.integers(0, 2))
    c.features_add('phase%d' % wp)
    c.call('computerhstemp', box, c.array(dx), D, L, T, gt, cp, gc, wp, p, gp, r, gr, split=True)
    z = (0,) * c.nd
    lap = sum((T.v(box, e(c.nd, d)) + T.v(box, e(c.nd, d, -1)) - 2 * T.v(box)) / dx[d] ** 2 for d in range(c.nd))
    h = D * lap
    if wp: h = h + L / cp.v(box) * p.v(box)
    c.expect(r, box, h)

@spec('C06', 'C08', n=40)
def undercooling(c):
    """driving forces of pure materials: vanish at the equilibrium temperature, favour the solid below it"""
    box = c.rbox()
    gp, gt, ge, gr = c.ng(), c.ng(1, 2), c.ng(), c.ng()
    p, T, te, r = c.cell(box, gp, name='phi', how='phase'), c.cell(box, gt, name='T', how='temp'), c.cell(box, ge, name='te', how='temp'), c.cell(box, gr, name='rhs')
    al, ga = [float(x) for x in c.rng.uniform(.01, 2, 2)]
    k = c.pick(range(4))
    t = c.pick('qphwl')
    c.features_add('k%d' % k)
    x = None
    if k == 0:
        c.call('computerhsbiaswell', box, p, gp, T, gt, al, ga, te, ge, r, gr, split=True)
        m = al / np.pi * np.arctan(ga * (te.v(box) - T.v(box)))
        c.expect(r, box, r.v(box) + m * p.v(box) * (1 - p.v(box)), atol=2e-7)       # pi is single precision in the kernel
    elif k == 1:
        c.call('computerhsbiaswellbeckermann', box, p, gp, T, gt, al, te, ge, r, gr, split=True)
        c.expect(r, box, r.v(box) + al * (te.v(box) - T.v(box)) * p.v(box) * (1 - p.v(box)))
    elif k == 2:
        tm = float(c.rng.uniform(500, 1200))
        c.features_add(t)
        c.call('computerhsdeltatemperature', box, p, gp, T, gt, tm, al, r, gr, t, split=True)
        w = .75 * T.v(box) + .25 / (2 * c.nd) * sum(T.v(box, e(c.nd, d, s)) for d in range(c.nd) for s in (1, -1))
        c.expect(r, box, r.v(box) + al / tm * (tm - w) * fref.dinterp(p.v(box), t), rtol=1e-7, scale=al)     # single precision weights in 3d
    else:
        tm, mo = float(c.rng.uniform(500, 1200)), float(c.rng.uniform(.1, 2))
        c.features_add(t)
        c.call('computedphidtemperaturedeltatemperature', box, p, gp, tm, al, mo, r, gr, t, split=True)
        c.expect(r, box, mo * al / tm * fref.dinterp(p.v(box), t))

@spec('C06', n=40)
def moving_frame(c):
    """advection with the speed of the frame: exact for linear (central) and cubic (upwind) profiles"""
    box, dx = c.rbox(), c.dx()
    nd = c.nd
    v = float(c.rng.uniform(-2, 2))
    E = lambda n: e(nd, 0, n)
    if c.rng.random() < .4:
        g, gr = c.ng(1, 2), c.ng()
        p, r = c.cell(box, g, name='phase', how='phase'), c.cell(box, gr, name='rhs')
        c.features_add('central')
        c.call('addvdphidx', box, c.array(dx), p, g, v, r, gr, split=True)
        c.expect(r, box, r.v(box) + v * .5 * (p.v(box, E(1)) - p.v(box, E(-1))) / dx[0])
        return
    g, gr, ph = c.ng(2, 3), c.ng(), int(c.rng.integers(0, 2))
    p, r = c.cell(box, g, name='phase', how='phase'), c.cell(box, gr, name='rhs')
    c.features_add('upwind%d' % ph)
    c.call('addvdphidx_upwind3', box, c.array(dx), p, g, v, r, gr, ph, split=not ph)
    inner = box if not ph else Box(box.lo, [h - 1 if i == 0 else h for i, h in enumerate(box.hi)])
    if inner.hi[0] >= inner.lo[0]:
        c.expect(r, inner, r.v(inner) + v / (6 * dx[0]) * (-2 * p.v(inner, E(-1)) - 3 * p.v(inner) + 6 * p.v(inner, E(1)) - p.v(inner, E(2))))
    if ph:
        last = Box([box.hi[0] if i == 0 else l for i, l in enumerate(box.lo)], box.hi)
        c.expect(r, last, r.v(last) + v * .5 * (p.v(last, E(1)) - p.v(last, E(-1))) / dx[0])
