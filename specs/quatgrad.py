"""orientation gradients (with and without symmetry rotations), gradient moduli, refinement tagging"""
import numpy as np
from harness import *
from qlib import *
from specs.quatalg import iqfield
from specs.fd import tang

def qsetup(c, mn=1, symm=False):
    box, dx, n = c.rbox(), c.dx(), c.pick([1, 2, 4] if c.nd == 2 else [1, 4, 4])
    ngd, ngg = c.ng(mn, mn + 2), c.ng()
    D = c.sides(box, ngd, n, name='diff')
    c.features_add('depth%d' % n)
    r = [box, dx, n, ngd, ngg, D]
    if symm:
        ngi = c.ng(mn, mn + 2)
        r += [Sides([iqfield(c, box, d, ngi, n) for d in range(c.nd)]), ngi]
    return r

def rot(c, q, iq): return q if q.shape[-1] == 1 else rotate(c.lib, q, iq)

def sgrad(c, box, ngg, n):
    return [[c.side(box, d, ngg, n, name='g%d%d' % (t, d)) for t in range(c.nd)] for d in range(c.nd)]

@spec('C04', n=30)
def quatgrad_cell(c):
    box, dx, n, ngd, ngg, D = qsetup(c, 0)
    G = [c.cell(box, ngg, n, name='g%d' % d) for d in range(c.nd)]
    c.call('quatgrad_cell', box, n, c.array(dx), D, ngd, G, ngg, split=True)
    for d in range(c.nd):
        c.expect(G[d], box, .5 * (D[d].v(box) + D[d].v(box, e(c.nd, d))) / dx[d])

@spec('C04', n=30)
def quatgrad_cell_symm(c):
    box, dx, n, ngd, ngg, D, I, ngi = qsetup(c, 0, True)
    G = [c.cell(box, ngg, n, name='g%d' % d) for d in range(c.nd)]
    c.call('quatgrad_cell_symm', box, n, c.array(dx), D, ngd, G, ngg, I, ngi, split=True)
    for d in range(c.nd):
        s = e(c.nd, d)
        c.expect(G[d], box, .5 * (D[d].v(box) + rot(c, D[d].v(box, s), -I[d].v(box, s))) / dx[d])

@spec('C04', n=30)
def quatgrad_side(c):
    box, dx, n, ngd, ngg, D = qsetup(c)
    G = sgrad(c, box, ngg, n)
    c.call('quatgrad_side', box, n, c.array(dx), D, ngd, G, ngg, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        for t in range(c.nd):
            c.expect(G[d][t], sb, (D[d].v(sb) if t == d else tang(D, t, d, sb, c.nd)) / dx[t])

def iso(D, d, sb, f=None):
    o = 1 - d
    a, b = D[d].v(sb, e(2, o, -1)), D[d].v(sb, e(2, o, 1))
    if f: a, b = f(a, -1), f(b, 1)
    return (10. * D[d].v(sb) + a + b) / 12

@spec('C04', n=30, dims=(2,))
def quatgrad_side_isotropic(c):
    box, dx, n, ngd, ngg, D = qsetup(c)
    G = sgrad(c, box, ngg, n)
    c.call('quatgrad_side_isotropic', box, n, c.array(dx), D, ngd, G, ngg, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        for t in range(c.nd):
            c.expect(G[d][t], sb, (iso(D, d, sb) if t == d else tang(D, t, d, sb, c.nd)) / dx[t])

def tsymm(c, D, I, t, d, sb):
    m, p = e(c.nd, d, -1), e(c.nd, t)
    mp = tuple(a + b for a, b in zip(m, p))
    back = rot(c, D[t].v(sb, mp), -I[t].v(sb, mp)) + D[t].v(sb, m)
    return .25 * (rot(c, back, I[d].v(sb)) + rot(c, D[t].v(sb, p), -I[t].v(sb, p)) + D[t].v(sb))

@spec('C04', n=30)
def quatgrad_side_symm(c):
    box, dx, n, ngd, ngg, D, I, ngi = qsetup(c, 1, True)
    G = sgrad(c, box, ngg, n)
    c.call('quatgrad_side_symm', box, n, c.array(dx), D, ngd, G, ngg, I, ngi, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        for t in range(c.nd):
            c.expect(G[d][t], sb, (D[d].v(sb) if t == d else tsymm(c, D, I, t, d, sb)) / dx[t])

@spec('C04', n=30, dims=(2,))
def quatgrad_side_symm_isotropic(c):
    box, dx, n, ngd, ngg, D, I, ngi = qsetup(c, 1, True)
    G = sgrad(c, box, ngg, n)
    c.call('quatgrad_side_symm_isotropic', box, n, c.array(dx), D, ngd, G, ngg, I, ngi, split=True)
    for d in range(c.nd):
        sb, o = box.side(d), 1 - d
        f = lambda q, k: rot(c, q, I[o].v(sb) if k < 0 else -I[o].v(sb, e(2, o)))
        for t in range(c.nd):
            c.expect(G[d][t], sb, (iso(D, d, sb, f) if t == d else tsymm(c, D, I, t, d, sb)) / dx[t])

@spec('C04', n=30)
def quatgrad_modulus(c):
    box, dx, n, ngd, ngg, D = qsetup(c)
    ngm = c.ng()
    how = c.pick(['sym', 'sym', 'zero'])
    G = [c.cell(box, ngg, n, how, name='g%d' % d) for d in range(c.nd)]
    M = c.cell(box, ngm, name='mod')
    c.call('quatgrad_modulus', box, n, G, ngg, M, ngm, split=True)
    c.expect(M, box, np.sqrt(sum((g.v(box) ** 2).sum(-1) for g in G)))

@spec('C04', n=30)
def quatgrad_modulus_sides(c):
    box, n = c.rbox(), c.pick([1, 2, 4])
    ngg, ngm = c.ng(), c.ng()
    G = c.sides(box, ngg, (n, c.nd), c.pick(['sym', 'sym', 'zero']), name='g')
    M = c.cell(box, ngm, name='mod')
    c.call('quatgrad_modulus_from_sides_compact', box, n, G, ngg, M, ngm, split=True)
    r = 0
    for d in range(c.nd):
        for s in (None, e(c.nd, d)):
            for m in range(n): r = r + .5 * G[d].v(box, s, (m, d)) ** 2
    c.expect(M, box, np.sqrt(r))
    if c.nd == 3: return
    c.call('quatgrad_modulus_from_sides', box, n, G, ngg, M, ngm, split=True)
    L = [(G[d].v(box, s) ** 2).sum((-1, -2)) for d in range(2) for s in (None, e(2, d))]
    c.expect(M, box, .25 * sum(np.sqrt(x) for x in L), rtol=1e-7)
    ft, fl = c.pick(['s', 'smooth', 'm', 't']), float(c.rng.uniform(1e-3, .1))
    c.call('quatgrad_modulus_from_sides_harmonic', box, n, G, GBox(box, ngg), M, GBox(box, ngm), ft, fl, split=True)
    L = [(G[d].v(box, s) ** 2).sum((-1, -2)) + (fl * fl if ft[0] == 's' else 0.) for d in range(2) for s in (None, e(2, d))]
    if min(x.min() for x in L) == 0:
        M.w(box); c.cl.poison = c.cl.split = False; c.features_add('zero gradient'); return
    c.expect(M, box, 4 / sum(1 / np.sqrt(x) for x in L), rtol=1e-7)

@spec('C12', n=40)
def tagging(c):
    """cells whose undivided gradient reaches the tolerance are tagged, no other cell is touched"""
    box, dx = c.rbox(), c.dx()
    for n in (None, c.pick([1, 2, 4])):
        ngg, ngt = c.ng(), c.ng()
        G = [c.cell(box, ngg, n, c.pick(['sym', 'sym', 'zero']), name='g%d' % d) for d in range(c.nd)]
        T = c.cell(box, ngt, None, name='tags', dtype='i')
        T.a[...] = c.rng.integers(0, 3, T.shape)
        val, tol = int(c.rng.integers(1, 5)), float(c.rng.uniform(0., 2.) * c.rng.integers(0, 2) + c.rng.uniform(0, .6))
        exact = c.pick([0, 0, 1])
        if exact:                          # integers: sums and comparisons with the tolerance are exact, and equality happens
            dx = np.array([c.pick([.5, 1., 2.]) for d in range(c.nd)]); tol = float(c.pick([1, 2, 3, 5]))
            for d in range(c.nd): G[d].a[...] = c.rng.integers(-1, 2, G[d].shape) * c.pick([0, 1, 2, 3, 4]) / dx[d]
        hd = c.array(dx)
        if n is None: c.call('tagfromgrads', box, G, GBox(box, ngg), hd, T, GBox(box, ngt), val, tol, split=True)
        else: c.call('tagfromquatgrads', box, G, GBox(box, ngg), n, hd, T, GBox(box, ngt), val, tol, split=True)
        g = sum(((G[d].v(box) * dx[d]) ** 2).sum(-1) if n else (G[d].v(box) * dx[d]) ** 2 for d in range(c.nd))
        if exact: c.features_add('threshold reached exactly' if (g == tol * tol).any() else 'exact')
        elif (np.abs(g - tol * tol) < 1e-12).any() and tol > 0:
            T.w(box); c.cl.poison = False; continue
        c.expect(T, box, np.where(g >= tol * tol, val, T.v(box)))
        c.features_add('tagged' if (g >= tol * tol).any() else 'none', 'untagged' if (g < tol * tol).any() else 'all')
