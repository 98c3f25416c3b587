"""composition fluxes and their divergence, antitrapping current, composition from phase compositions"""
import numpy as np
from harness import *
import fref

def back(f, sb, nd, d, m=None):
    """value in the cell below minus nothing: pair (low, high) next to a side"""
    return f.v(sb, e(nd, d, -1), m), f.v(sb, None, m)
def sgrad(f, sb, nd, d, dx, m=None):
    a, b = back(f, sb, nd, d, m)
    return (b - a) / dx[d]
def smean(f, sb, nd, d, m=None):
    a, b = back(f, sb, nd, d, m)
    return .5 * (a + b)
def sadd(a, b): return tuple(x + y for x, y in zip(a, b))
def tgrad(f, sb, nd, d, t, dx, m=None):
    """derivative along t at sides of direction d: central differences of the two cells, averaged"""
    r = 0.
    for s in ((0,) * nd, e(nd, d, -1)):
        r = r + .25 * (f.v(sb, sadd(s, e(nd, t)), m) - f.v(sb, sadd(s, e(nd, t, -1)), m)) / dx[t]
    return r
def fullgrad(f, sb, nd, d, dx, m=None):
    return [sgrad(f, sb, nd, d, dx, m) if t == d else tgrad(f, sb, nd, d, t, dx, m) for t in range(nd)]

@spec('C07', n=30)
def concentrationflux(c):
    box, dx = c.rbox(), c.dx()
    g = [c.ng(1, 2), c.ng(1, 2), c.ng(), c.ng(), c.ng()]
    co, p = c.cell(box, g[0], name='conc'), c.cell(box, g[1], name='phase', how='phase')
    D, K, F = c.sides(box, g[2], name='D'), c.sides(box, g[3], name='K'), c.sides(box, g[4], name='F')
    c.call('concentrationflux', box, c.array(dx), co, g[0], p, g[1], D, g[2], K, g[3], F, g[4], split=True)
    for d in range(c.nd):
        sb = box.side(d)
        c.expect(F[d], sb, D[d].v(sb) * sgrad(co, sb, c.nd, d, dx) + K[d].v(sb) * sgrad(p, sb, c.nd, d, dx))

def lap(f, b, nd, dx, s):
    return sum((f.v(b, sadd(s, e(nd, t))) + f.v(b, sadd(s, e(nd, t, -1))) - 2 * f.v(b, s)) / dx[t] ** 2 for t in range(nd))

@spec('C07', n=40)
def add_cahnhilliarddoublewell_flux(c):
    box, dx = c.rbox(), c.dx()
    ngc, ngf = c.ng(2, 3), c.ng(1, 2)
    co, F = c.cell(box, ngc, name='conc', how='phase'), c.sides(box, ngf, name='F')
    M, ca, cb, w, k = [float(x) for x in c.rng.uniform(.1, 2, 5)]
    c.call('add_cahnhilliarddoublewell_flux', box, c.array(dx), co, ngc, M, ca, cb, w, k, F, ngf, split=True)
    def mu(b, s):
        x = co.v(b, s)
        return w * (2 * (x - ca) * (x - cb) ** 2 + 2 * (x - ca) ** 2 * (x - cb)) - k * lap(co, b, c.nd, dx, s)
    for d in range(c.nd):
        sb = box.side(d)
        # potential: derivative of w (c-ca)^2 (c-cb)^2, minus kappa laplacian
        c.expect(F[d], sb, F[d].v(sb) + M * (mu(sb, (0,) * c.nd) - mu(sb, e(c.nd, d, -1))) / dx[d], rtol=1e-10)
        F[d].written[...] = True

@spec('C07', n=40)
def add_wang_sintering_flux(c):
    box, dx = c.rbox(), c.dx()
    n = int(c.rng.integers(1, 5))
    ngc, ngd, ngp, ngf = c.ng(2, 3), c.ng(1, 2), c.ng(1, 3), c.ng(1, 2)
    co, D, p, F = c.cell(box, ngc, name='conc', how='phase'), c.sides(box, ngd, name='D', how='pos'), c.cell(box, ngp, n, 'phase', 'phi'), c.sides(box, ngf, name='F')
    s2, s3 = c.cell(box, ngp, name='phi2sum'), c.cell(box, ngp, name='phi3sum')
    M, A, B, k = [float(x) for x in c.rng.uniform(.1, 2, 4)]
    c.features_add('n%d' % n)
    c.call('add_wang_sintering_flux', box, c.array(dx), co, ngc, D, ngd, p, ngp, n, M, A, B, k, F, ngf, s2, s3, split=True)
    def mu(b, s):
        x = co.v(b, s)
        q2 = sum(p.v(b, s, i) ** 2 for i in range(n)); q3 = sum(p.v(b, s, i) ** 3 for i in range(n))
        # derivative of A c^2(1-c)^2 + B (c^2 + 6 (1-c) q2 - 4 (2-c) q3 + 3 q2^2)
        return 2 * A * x * (1 - x) * (1 - 2 * x) + B * (2 * x - 6 * q2 + 4 * q3) - k * lap(co, b, c.nd, dx, s)
    for d in range(c.nd):
        sb = box.side(d)
        c.expect(F[d], sb, F[d].v(sb) + M * D[d].v(sb) * (mu(sb, (0,) * c.nd) - mu(sb, e(c.nd, d, -1))) / dx[d], rtol=1e-10)
        F[d].written[...] = True
    s2.written[...] = True; s3.written[...] = True

@spec('C07', n=30)
def concentrationflux_spinodal(c):
    box, dx = c.rbox(), c.dx()
    g = [c.ng(1, 2) for _ in range(4)]; ngd, ngf = c.ng(), c.ng()
    co, A, B = [c.cell(box, g[k], 1, name='c%d' % k) for k in range(3)]
    eta = c.cell(box, g[3], name='eta', how='phase')
    D, F = c.sides(box, ngd, 1, name='D'), c.sides(box, ngf, 1, name='F')
    k = float(c.rng.uniform(.1, 3))
    c.call('concentrationflux_spinodal', box, c.array(dx), co, g[0], 1, A, g[1], B, g[2], D, ngd, eta, g[3], k, F, ngf, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        c.expect(F[d], sb, D[d].v(sb, None, 0) * sgrad(co, sb, c.nd, d, dx, 0)
                 - k * (smean(A, sb, c.nd, d, 0) - smean(B, sb, c.nd, d, 0)) * sgrad(eta, sb, c.nd, d, dx), 0)

@spec('C05', 'C07', n=30)
def computerhsconcentration(c):
    box, dx = c.rbox(), c.dx()
    ngf, ngr = c.ng(), c.ng()
    F, r = c.sides(box, ngf, name='F'), c.cell(box, ngr, name='rhs')
    M = float(c.rng.uniform(.1, 3))
    c.call('computerhsconcentration', box, c.array(dx), F, ngf, M, r, ngr, split=True)
    c.expect(r, box, M * sum((F[d].v(box, e(c.nd, d)) - F[d].v(box)) / dx[d] for d in range(c.nd)))
    # what enters the patch stays in it
    V = float(np.prod(dx)); net = 0.
    for d in range(c.nd):
        A = V / dx[d]
        up = Box([h + 1 if i == d else l for i, (l, h) in enumerate(zip(box.lo, box.hi))], [h + 1 if i == d else h for i, h in enumerate(box.hi)])
        lo = Box(box.lo, [l if i == d else h for i, (l, h) in enumerate(zip(box.lo, box.hi))])
        net += A * (F[d].v(up).sum() - F[d].v(lo).sum())
    c.check(abs(r.g(box).sum() * V - M * net) <= 1e-11 * (1 + M * V * box.size / min(dx)), 'change of the amount of solute in the patch is not the flux through its boundary: %r vs %r' % (r.g(box).sum() * V, M * net), 'conservation')

@spec('C07', n=30)
def addconcentrationfluxfromgradt(c):
    box, dx = c.rbox(), c.dx()
    g = [c.ng(1, 2), c.ng(), c.ng()]
    T, Q, F = c.cell(box, g[0], name='T', how='temp'), c.sides(box, g[1], name='mq'), c.sides(box, g[2], name='F')
    at = c.pick(['a', 'h'])
    c.features_add(at)
    c.call('addconcentrationfluxfromgradt', box, c.array(dx), T, g[0], Q, g[1], F, g[2], at, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        a, b = back(T, sb, c.nd, d)
        c.expect(F[d], sb, F[d].v(sb) - Q[d].v(sb) * (b - a) / dx[d] / fref.average(a, b, at))

def flat(c, f, box):
    """some cases have regions without any gradient, and fields varying along one axis only"""
    r = c.rng.random()
    if r < .2: f.a[...] = .5; c.features_add('flat')
    elif r < .4:
        d = int(c.rng.integers(c.nd))
        sl = [slice(0, 1) if i != d else slice(None) for i in range(c.nd)]
        f.a[...] = f.a[tuple(sl)]; c.features_add('axis%d' % d)
    elif r < .5: f.a[...] = np.round(f.a * 1.5); c.features_add('steps')

def unit(g):
    n2 = sum(x * x for x in g)
    ok = n2 > 1e-16
    n = np.sqrt(np.where(ok, n2, 1))
    return ok, [np.where(ok, x / n, 0.) for x in g]

@spec('C07', n=50)
def addconcentrationfluxfromantitrapping(c):
    box, dx = c.rbox(), c.dx()
    n = int(c.rng.integers(1, 4))
    g = [c.ng(1, 2), c.ng(1, 2), c.ng(1, 2), c.ng()]
    p, L, A, dt, F = c.cell(box, g[0], name='phase', how='phase'), c.cell(box, g[1], n, name='cl'), c.cell(box, g[1], n, name='ca'), c.cell(box, g[2], name='dphidt'), c.sides(box, g[3], n, name='F')
    flat(c, p, box)
    al = float(c.rng.uniform(.1, 2))
    c.call('addconcentrationfluxfromantitrapping', box, c.array(dx), p, g[0], L, A, g[1], n, dt, g[2], al, F, g[3], split=True)
    for d in range(c.nd):
        sb = box.side(d)
        ok, u = unit(fullgrad(p, sb, c.nd, d, dx))
        for i in range(n):
            c.expect(F[d], sb, F[d].v(sb, None, i) + al * u[d] * (smean(L, sb, c.nd, d, i) - smean(A, sb, c.nd, d, i)) * smean(dt, sb, c.nd, d), i)

@spec('C07', n=50)
def addconcentrationfluxfromantitrapping3phases(c):
    box, dx = c.rbox(), c.dx()
    g = [c.ng(1, 2), c.ng(1, 2), c.ng(1, 2), c.ng()]
    p, dt, F = c.cell(box, g[0], 3, name='phase', how='phase'), c.cell(box, g[2], 3, name='dphidt'), c.sides(box, g[3], name='F')
    C = [c.cell(box, g[1], name='c%s' % x) for x in 'lab']
    flat(c, p, box)
    al = float(c.rng.uniform(.1, 2))
    c.call('addconcentrationfluxfromantitrapping3phases', box, c.array(dx), p, g[0], C, g[1], dt, g[2], al, F, g[3], split=True)
    for d in range(c.nd):
        sb = box.side(d)
        u = [unit(fullgrad(p, sb, c.nd, d, dx, k)) for k in range(3)]
        r = F[d].v(sb).copy()
        for k in (1, 2):
            f = -sum(x * y for x, y in zip(u[0][1], u[k][1]))
            r = r + al * f * u[0][1][d] * (smean(C[0], sb, c.nd, d) - smean(C[k], sb, c.nd, d)) * smean(dt, sb, c.nd, d, k)
        dt.v(sb, None, 0)
        c.expect(F[d], sb, r)

@spec('C07', n=50)
def addconcentrationfluxfromantitrappingmultiorderp(c):
    box, dx = c.rbox(), c.dx()
    n = int(c.rng.integers(2, 5))
    g = [c.ng(1, 2), c.ng(1, 2), c.ng(1, 2), c.ng()]
    p, dt, F = c.cell(box, g[0], n, name='phase', how='phase'), c.cell(box, g[2], n, name='dphidt'), c.sides(box, g[3], name='F')
    C = [c.cell(box, g[1], name='c%s' % x) for x in 'la']
    flat(c, p, box)
    k = c.pick([0, 0, 1, 2])
    if k:                                  # solid order parameters vary along one axis only, or not at all: no solid interface, no current
        d = c.pick(range(c.nd))
        sl = tuple(slice(0, 1) if i != d or k == 2 else slice(None) for i in range(c.nd))
        p.a[..., :n - 1] = p.a[sl][..., :n - 1]
        c.features_add('solid%d' % k)
    al = float(c.rng.uniform(.1, 2))
    c.features_add('n%d' % n)
    c.call('addconcentrationfluxfromantitrappingmultiorderp', box, c.array(dx), p, g[0], n, C, g[1], dt, g[2], al, F, g[3], split=True)
    for d in range(c.nd):
        sb = box.side(d)
        ok, u = unit(fullgrad(p, sb, c.nd, d, dx, n - 1))
        gs = [sum(x) for x in zip(*[fullgrad(p, sb, c.nd, d, dx, k) for k in range(n - 1)])]
        oks, _ = unit(gs)
        r = -al * u[d] * (smean(C[0], sb, c.nd, d) - smean(C[1], sb, c.nd, d)) * sum(smean(dt, sb, c.nd, d, k) for k in range(n - 1))
        c.expect(F[d], sb, F[d].v(sb) + np.where(oks, r, 0.))

@spec('C07', n=30)
def compute_concentration_from_phase_concentrations(c):
    box = c.rbox()
    g = [c.ng(), c.ng(), c.ng()]
    p, L, S, o = c.cell(box, g[0], name='phi', how='phase'), c.cell(box, g[1], name='cl', how='unit'), c.cell(box, g[1], name='cs', how='unit'), c.cell(box, g[2], name='c')
    it = c.pick(['p', 'h', 'l', 'q', 'w', 'm'])
    c.features_add(it)
    c.call('compute_concentration_from_phase_concentrations', box, p, g[0], L, S, g[1], o, g[2], it, split=True)
    h = fref.interp(p.v(box), it)
    c.expect(o, box, (1 - h) * L.v(box) + h * S.v(box))
    if it in 'phlm':
        lo, hi = np.minimum(L.v(box), S.v(box)), np.maximum(L.v(box), S.v(box))
        c.check((o.g(box) >= lo - 1e-12) & (o.g(box) <= hi + 1e-12), 'mixture composition is not between those of its phases')
