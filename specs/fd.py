"""finite-difference building blocks: flux, gradients, laplacian, side/cell averages, order parameter projection"""
import numpy as np
from harness import *

def fluxdata(c, extra, gd):
    box, dx = c.rbox(), c.dx()
    dep = c.pick([1, 1, 2, 3])
    ng, ngd, ngf = c.ng(extra, extra + 2), c.ng(gd, gd + 2), c.ng()
    u = c.cell(box, ng, dep, name='u')
    D = c.sides(box, ngd, dep * dep, c.pick(['sym', 'pos']), name='D')
    F = c.sides(box, ngf, dep, name='F')
    c.features_add('depth%d' % dep)
    return box, dx, dep, u, ng, D, ngd, F, ngf

def sidediff(u, d, nd, s, sb, m):
    """u(i) - u(i-1) in direction d, at sides shifted by s"""
    return u.v(sb, s, m) - u.v(sb, tuple(a - b for a, b in zip(s, e(nd, d))), m)

@spec('C05', n=30)
def add_flux(c):
    box, dx, dep, u, ng, D, ngd, F, ngf = fluxdata(c, 1, 0)
    c.call('add_flux', box, c.array(dx), u, ng, dep, D, ngd, F, ngf, split=True)
    z = (0,) * c.nd
    for d in range(c.nd):
        sb = box.side(d)
        for i in range(dep):
            r = F[d].v(sb, None, i).copy()
            for j in range(dep):
                r += D[d].v(sb, None, i + j * dep) * sidediff(u, d, c.nd, z, sb, j) / dx[d]
            c.expect(F[d], sb, r, i)

@spec('C05', n=30)
def add_flux_iso(c):
    box, dx, dep, u, ng, D, ngd, F, ngf = fluxdata(c, 1, 1)
    c.call('add_flux_iso', box, c.array(dx), u, ng, dep, D, ngd, F, ngf, split=True)
    z = (0,) * c.nd
    for d in range(c.nd):
        sb = box.side(d)
        sh = [(z, (10. if c.nd == 2 else 8.) / 12)]
        for t in range(c.nd):
            if t != d: sh += [(e(c.nd, t, k), 1. / 12) for k in (-1, 1)]
        for i in range(dep):
            r = F[d].v(sb, None, i).copy()
            for j in range(dep):
                for s, w in sh:
                    r += w * D[d].v(sb, s, i + j * dep) * sidediff(u, d, c.nd, s, sb, j) / dx[d]
            c.expect(F[d], sb, r, i)

@spec('C05', n=40)
def add_flux_4th(c):
    box, dx, dep, u, ng, D, ngd, F, ngf = fluxdata(c, 2, 0)
    pb = c.rng.integers(0, 2, 2 * c.nd)
    c.features_add(*['phys%d=%d' % (k, p) for k, p in enumerate(pb)])
    if any(box.shape[d] < 2 for d in range(c.nd)): pb = pb * 0 if c.rng.random() < .3 else pb
    P = c.array(pb, 'physb', 'i')
    def sp(items, b, full):
        items = list(items)
        q = pb.copy()
        for d in range(c.nd):
            if b.lo[d] != full.lo[d]: q[2 * d] = 0
            if b.hi[d] != full.hi[d]: q[2 * d + 1] = 0
        items[-1] = c.array(q, 'physb', 'i')
        return items
    c.call('add_flux_4th', box, c.array(dx), u, ng, dep, D, ngd, F, ngf, P, split=sp)
    z = (0,) * c.nd
    for d in range(c.nd):
        sb = box.side(d)
        first = Box(sb.lo, [sb.lo[d] if t == d else h for t, h in enumerate(sb.hi)])
        last = Box([sb.hi[d] if t == d else l for t, l in enumerate(sb.lo)], sb.hi)
        inner = Box([l + (int(pb[2 * d]) if t == d else 0) for t, l in enumerate(sb.lo)],
                    [h - (int(pb[2 * d + 1]) if t == d else 0) for t, h in enumerate(sb.hi)])
        parts = [(first, 2)] * int(pb[2 * d]) + [(last, 2)] * int(pb[2 * d + 1])
        if inner.lo[d] <= inner.hi[d]: parts.append((inner, 4))
        for i in range(dep):
            for b, order in parts:
                r = F[d].v(b, None, i).copy()
                for j in range(dep):
                    dd = sidediff(u, d, c.nd, z, b, j)
                    if order == 4:
                        dd = 1.25 * dd - (u.v(b, e(c.nd, d, 1), j) - u.v(b, e(c.nd, d, -2), j)) / 12
                    r += D[d].v(b, None, i + j * dep) * dd / dx[d]
                c.expect(F[d], b, r, i)

@spec('C04', n=30)
def grad_cell(c):
    box, dx = c.rbox(), c.dx()
    ngd, ngg = c.ng(), c.ng()
    D = c.sides(box, ngd, name='diff')
    G = [c.cell(box, ngg, name='g%d' % d) for d in range(c.nd)]
    c.call('grad_cell', box, D, ngd, c.array(dx), G, ngg, split=True)
    for d in range(c.nd):
        c.expect(G[d], box, .5 * (D[d].v(box) + D[d].v(box, e(c.nd, d))) / dx[d])

def tang(D, t, d, sb, nd):
    """average of the four neighbouring t-side values around d-sides"""
    m = e(nd, d, -1)
    mt = tuple(a + b for a, b in zip(m, e(nd, t, 1)))
    return .25 * (D[t].v(sb, m) + D[t].v(sb, mt) + D[t].v(sb) + D[t].v(sb, e(nd, t)))

@spec('C04', n=30)
def grad_side(c):
    box, dx = c.rbox(), c.dx()
    ngd, ngg = c.ng(1, 3), c.ng()
    D = c.sides(box, ngd, name='diff')
    G = [[c.side(box, d, ngg, name='g%d%d' % (t, d)) for t in range(c.nd)] for d in range(c.nd)]
    c.call('grad_side', box, D, ngd, c.array(dx), G, ngg, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        for t in range(c.nd):
            c.expect(G[d][t], sb, (D[d].v(sb) if t == d else tang(D, t, d, sb, c.nd)) / dx[t])

@spec('C04', n=30, dims=(2,))
def grad_side_isotropic(c):
    box, dx = c.rbox(), c.dx()
    ngd, ngg = c.ng(1, 3), c.ng()
    D = c.sides(box, ngd, name='diff')
    G = [[c.side(box, d, ngg, name='g%d%d' % (t, d)) for t in range(c.nd)] for d in range(c.nd)]
    c.call('grad_side_isotropic', box, D, box.grow(ngd), c.array(dx), G, box.grow(ngg), split=lambda it, b, f: [
        b.grow(ngd) if k == 2 else b.grow(ngg) if k == 5 else x for k, x in enumerate(it)])
    for d in range(c.nd):
        sb = box.side(d)
        for t in range(c.nd):
            if t == d:
                o = 1 - d
                r = (D[d].v(sb, e(2, o, -1)) + 10. * D[d].v(sb) + D[d].v(sb, e(2, o, 1))) / 12
            else: r = tang(D, t, d, sb, 2)
            c.expect(G[d][t], sb, r / dx[t])

@spec('C04', n=30)
def velocity(c):
    box = c.rbox()
    G = [c.cell(box, 0, name='g%d' % d, how=c.pick(['sym', 'zero'])) for d in range(c.nd)]
    pd, v = c.cell(box, 0, name='phidot'), c.cell(box, 0, name='vel')
    th = float(c.rng.uniform(0.01, 1.))
    c.call('velocity', box, th, G, pd, v, split=True)
    c.expect(v, box, pd.v(box) / np.sqrt(sum(g.v(box) ** 2 for g in G) + th * th))

@spec('C04', n=30)
def laplacian(c):
    box, dx = c.rbox(), c.dx()
    ngf, ngr = c.ng(1, 3), c.ng()
    f, r = c.cell(box, ngf, name='field'), c.cell(box, ngr, name='rhs')
    co = float(c.rng.uniform(-2, 2))
    c.call('laplacian', box, c.array(dx), co, f, ngf, r, ngr, split=True)
    c.expect(r, box, co * sum((f.v(box, e(c.nd, d)) - 2 * f.v(box) + f.v(box, e(c.nd, d, -1))) / dx[d] ** 2 for d in range(c.nd)))

@spec('C04', n=30)
def side2cell(c):
    box = c.rbox()
    ngs, ngc = c.ng(), c.ng()
    S, u = c.sides(box, ngs, name='s'), c.cell(box, ngc, name='c')
    c.call('side2cell', box, S, ngs, u, ngc, split=True)
    c.expect(u, box, sum(S[d].v(box) + S[d].v(box, e(c.nd, d)) for d in range(c.nd)) / (2 * c.nd))

@spec('C04', n=20)
def settozero(c):
    full = c.rbox(2)
    u = c.cell(full, 0, name='a')
    lo = [int(c.rng.integers(l, h + 1)) for l, h in zip(full.lo, full.hi)]
    hi = [int(c.rng.integers(l, h + 1)) for l, h in zip(lo, full.hi)]
    c.call('settozero', *lo, *hi, *full.lo, *full.hi, u)
    c.check(u.g(Box(lo, hi)) == 0., 'region is not zero')
    u.w(Box(lo, hi))

@spec('C06', n=20)
def projectphi(c):
    box = c.rbox()
    dep = int(c.rng.integers(1, 6))
    ng, ngc, nge = c.ng(), c.ng(), c.ng()
    phi, co, er = c.cell(box, ng, dep, 'phase', 'phi'), c.cell(box, ngc, dep, name='corr'), c.cell(box, nge, dep, name='err')
    c.call('projectphi%dd' % c.nd, box, dep, phi, ng, co, ngc, er, nge, split=True)
    s = sum(phi.v(box, None, m) for m in range(dep))
    es = sum(er.v(box, None, m) for m in range(dep))
    for m in range(dep):
        c.expect(co, box, -(s - 1) / dep, m, atol=1e-12)
        c.expect(er, box, er.v(box, None, m) - es / dep, m, atol=1e-12)
        phi.v(box, None, m)

@spec('C11', n=20)
def phasesetexactandrhs(c):
    box, dx = c.rbox(), c.dx()
    ex, rh = c.cell(box, 1, name='exact'), c.cell(box, 0, name='rhs')
    m, de, om, ga = [float(x) for x in c.rng.uniform(.1, 2., 4)]
    xl = c.rng.uniform(-2, 2, c.nd)
    if ex.n != np.prod([s + 2 for s in box.shape]): return
    c.call('phasesetexactandrhs%dd' % c.nd, box, ex, rh, c.array(dx), c.array(xl), m, de, om, ga)
    sh = [1] * c.nd; sh[0] = -1
    x = (xl[0] + dx[0] * (np.arange(box.shape[0]) + .5)).reshape(sh)
    t = np.broadcast_to(.5 * (1 + np.tanh(.5 / de * x)), box.shape)
    c.expect(ex, box, t, rtol=1e-6)
    c.expect(rh, box, -32. * ga * m * om * t * (1 - t) * (1 - 2 * t) + t + 32 * ga * m * om * (1 + 6 * t * (t - 1)) * t, rtol=1e-5)
