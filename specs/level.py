"""matrix of the orientation level solver, its boundary rows, and the face-centred diffusion derivative"""
import numpy as np
from harness import *
from qlib import *
import fref

def bx(f): return f.gbox
def ibox(b):
    """lo,hi of every direction, interleaved"""
    return b.ints()
def lbox(*fs): return [f.gbox.ints() for f in fs]

@spec('C11', n=30)
def set_j_ij(c):
    box, h = c.rbox(), c.dx()
    nd = c.nd
    K = [c.side(box, d, c.ng(0, 2), name='fc%d' % d) for d in range(nd)]
    O = [c.side(box, d, c.ng(0, 2), name='off%d' % d) for d in range(nd)]
    D = c.cell(box, c.ng(0, 2), name='diag')
    it = [box]
    for k in K: it += [k, bx(k)]
    it += [c.array(h), D, bx(D)]
    for o in O: it += [o, bx(o)]
    c.call('set_j_ij%dd' % nd, *it, split=True)
    dg = 0.
    for d in range(nd):
        sb = box.side(d)
        c.expect(O[d], sb, K[d].v(sb) / h[d] ** 2)
        dg = dg - (K[d].v(box) + K[d].v(box, e(nd, d))) / h[d] ** 2
    c.expect(D, box, dg)

@spec('C11', n=40, flavours=('plain',))     # 'values(1)' is an old style assumed size array: bounds checks cannot be used
def set_stencil(c):
    """rows of I + gamma sqrt(M) J sqrt(M)"""
    box = c.rbox()
    nd = c.nd
    sym = c.pick([True, False])
    s, D = c.cell(box, c.ng(1, 2), name='sqrtm', how='pos'), c.cell(box, c.ng(0, 1), name='diag')
    O = [c.side(box, d, c.ng(0, 1), name='off%d' % d) for d in range(nd)]
    ga = float(c.rng.uniform(.1, 2))
    w = nd + 1 if sym else 2 * nd + 1
    V = c.array(c.rng.uniform(-1, 1, w * box.size), 'values'); V.opaque = False
    it = [box, ga, s, bx(s).ints(), D, bx(D)]
    for o in O: it += [o, bx(o)]
    c.features_add('sym%d' % sym)
    c.call(('set_symmetric_stencil%dd' if sym else 'set_stencil%dd') % nd, *it, V)
    rows = [ga * s.v(box) ** 2 * D.v(box) + 1]
    for d in range(nd):
        rows.append(ga * s.v(box) * O[d].v(box) * s.v(box, e(nd, d, -1)))
        if not sym: rows.append(ga * s.v(box) * O[d].v(box, e(nd, d)) * s.v(box, e(nd, d)))
    ref = np.stack([r.ravel(order='F') for r in rows], -1).ravel()
    V.written[...] = True
    c.close(V.a, ref, what='matrix entries')
    # the symmetric form holds the lower half of the full rows: what a cell sees above is what the upper cell sees below
    c.cl.poison = False

@spec('C11', n=20)
def copybox(c):
    box = c.rbox()
    a, b = c.cell(box, c.ng(0, 2), name='src'), c.cell(box, c.ng(0, 2), name='dst')
    c.call('copy%dd' % c.nd, box, a, bx(a), b, bx(b), split=True)
    c.expect(b, box, a.v(box))

def bdry(c, box):
    nd = c.nd
    loc = c.pick(range(2 * nd)); d, up = loc // 2, loc % 2
    lo, hi = list(box.lo), list(box.hi)
    lo[d] = hi[d] = box.hi[d] + 1 if up else box.lo[d] - 1
    for t in range(nd):
        if t != d and box.shape[t] > 1 and c.rng.random() < .3: lo[t] += 1
    gh = Box(lo, hi)
    cell = gh.shift(e(nd, d, -1 if up else 1))
    face = gh if up else cell
    return loc, d, gh, cell, face

@spec('C11', n=50)
def adjust_bdry(c):
    """Robin condition a u + (1-a) du/dn = g on one face, folded into the matrix row of the cell next to it"""
    box, h = c.rbox(), c.dx() * .5
    nd = c.nd
    loc, d, gh, cell, face = bdry(c, box)
    s, D = c.cell(box, 1, name='sqrtm', how='pos'), c.cell(box, 0, name='diag')
    O = c.sides(box, 0, name='off')
    A, B = c.side(box, d, 0, name='acoef', how='unit'), c.side(box, d, 0, name='bcoef', how='unit')
    if c.rng.random() < .3: A.a[...] = c.pick([0., 1.])
    K = c.side(box, d, 0, name='auk0')
    ga = float(c.rng.uniform(.1, 2))
    c.features_add('loc%d' % loc)
    c.call('adjust_bdry%dd' % nd, ga, s, bx(s).ints(), D, O, box, A, B, bx(A).ints(), K, bx(K).ints(),
           c.array(gh.lo, 'lower', 'i'), c.array(gh.hi, 'upper', 'i'), loc, c.array(h))
    a, o = A.v(face), O[d].v(face)
    den = 1 - a * (1 - .5 * h[d])
    k1 = (1 - a * (1 + .5 * h[d])) / den
    c.expect(D, cell, D.v(cell) + k1 * o)
    c.expect(K, face, h[d] / den * o * s.v(gh) * ga * s.v(cell))
    c.expect(O[d], face, 0.)

@spec('C11', n=30)
def adjust_qrhs(c):
    box = c.rbox()
    nd = c.nd
    loc, d, gh, cell, face = bdry(c, box)
    r, K, G = c.cell(box, c.ng(0, 1), name='rhs'), c.side(box, d, 0, name='auk0'), c.side(box, d, 0, name='gcoef')
    c.features_add('loc%d' % loc)
    c.call('adjust_qrhs%dd' % nd, r, bx(r).ints(), K, bx(K).ints(), G, bx(G).ints(), c.array(gh.lo, 'lower', 'i'), c.array(gh.hi, 'upper', 'i'), loc)
    c.expect(r, cell, r.v(cell) - K.v(face) * G.v(face))

@spec('C10', n=50)
def quatdiffusionderiv(c):
    """derivative of the orientation diffusion coefficient with respect to the phase on the two sides of a face"""
    box = c.rbox()
    nd = c.nd
    n = c.pick([1, 2, 4])
    gt, gp, gg, gd = c.ng(1, 2), c.ng(1, 2), c.ng(), c.ng()
    T, p = c.cell(box, gt, name='T', how='temp'), c.cell(box, gp, name='phase', how='phase')
    G, D = c.sides(box, gg, (n, nd), c.pick(['sym', 'sym', 'zero']), name='gradq'), c.sides(box, gd, 2, name='diff')
    mf, fl = float(c.rng.uniform(.1, 2)), float(c.rng.uniform(.01, .5))
    it, av, ft = c.pick('qphwl'), c.pick('ah'), c.pick(['max', 'tanh', 'sqrt'])
    c.features_add(it, 'avg' + av, 'floor' + ft, 'n%d' % n)
    c.call('quatdiffusionderiv', box, mf, T, gt, p, gp, n, G, gg, D, gd, fl, ft, it, av, split=True)
    for d in range(nd):
        sb = box.side(d)
        a, b = p.v(sb, e(nd, d, -1)), p.v(sb)
        ok = (a >= 1e-16) & (b >= 1e-16)
        m = fref.average(a, b, av)
        g2 = (G[d].v(sb) ** 2).sum((-1, -2))
        f = mf * .5 * (T.v(sb, e(nd, d, -1)) + T.v(sb)) * fref.dinterp(m, it) * fref.gradnormi(g2, ft, fl * fl, 1 / fl)
        for k, y in ((0, a), (1, b)):
            c.expect(D[d], sb, np.where(ok, f * fref.daverage(m, y, av), 0.), k, rtol=1e-9)
