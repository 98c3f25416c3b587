"""quaternion coarsening, refinement and smoothing"""
import numpy as np
from harness import *
from qlib import *
from specs.quatalg import qfield

def setup_refine(c):
    nd = c.nd
    ratio = [int(x) for x in c.rng.integers(1, 5, nd)]
    if c.pick([True, False]): ratio = [2] * nd
    cb = c.rbox(1, 3)
    dxc = c.dx(); dxf = dxc / np.array(ratio)
    n = c.pick([1, 2, 4, 4])
    jit = c.pick([0., .01, .04])
    g = int(c.rng.integers(1, 3))
    return nd, ratio, cb, dxc, dxf, n, jit, g

def oneGrain(c, box, ng, n, jit, symm=True):
    """orientations of one grain, any symmetric variant"""
    f = Field(box, ng, n, name='q')
    f.a[...] = randq(c.rng, f.shape[:-1], n, grains=1, jitter=jit)
    return f

@spec('C12', n=40)
def quatcoarsen(c):
    nd, ratio, cb, dxc, dxf, n, jit, g = setup_refine(c)
    fb = Box([l * r for l, r in zip(cb.lo, ratio)], [(h + 1) * r - 1 for h, r in zip(cb.hi, ratio)])
    gf, gc, gi = c.ng(), c.ng(), c.ng(0, 2)
    sym = int(c.rng.integers(0, 2))
    q = qfield(c, fb, gf, n, jitter=jit, norm=c.pick([True, False])) if not sym else oneGrain(c, fb, gf, n, jit)
    Q = c.cell(cb, gc, n, name='qcoarse')
    I = Sides([c.side(cb, d, gi, dtype='i', name='iq') for d in range(nd)])
    for x in I: x.a[...] = 1
    c.features_add('symm%d depth%d' % (sym, n), 'ratio %s' % ratio)
    c.call('quatcoarsen', *cb.lo, *cb.hi, *q.gbox.lo, *q.gbox.hi, *Q.gbox.lo, *Q.gbox.hi, c.array(ratio, 'ratio', 'i'), c.array(dxf), c.array(dxc), q, Q, n,
           c.pick([1, -1, 5]) if sym else 0, I, cb.grow(gi), poison=not sym)
    fa = q.v(fb)
    sh = []
    for s, r in zip(cb.shape, ratio): sh += [s, r]
    fa = fa.reshape(sh + [n])
    fa = np.moveaxis(fa, [2 * k + 1 for k in range(nd)], list(range(nd, 2 * nd)))   # coarse..., fine..., n
    fa = fa.reshape(cb.shape + (-1, n))
    if not sym:
        m = fa.mean(-2)
        if np.linalg.norm(m, axis=-1).min() < 1e-6: raise Skip('opposite orientations cancel, their mean has no direction')
        c.expect(Q, cb, normed(m), scale=1.)
    else:
        # every child is rotated to the equivalent nearest the first child; result normalised
        q0 = fa[..., :1, :]
        G = group(n)
        if n == 1:
            alt = fa[..., None, :] + G
            k = np.abs(alt - q0[..., None, :])[..., 0].argmin(-1)
        else:
            alt = qmul(fa[..., None, :], G)
            k = np.linalg.norm(normed(alt) - normed(q0)[..., None, :], axis=-1).argmin(-1)
        near = np.take_along_axis(alt, k[..., None, None], -2)[..., 0, :]
        m = near.mean(-2)
        c.expect(Q, cb, normed(m), scale=1., atol=1e-9)
    if n > 1: c.check(np.abs(np.linalg.norm(Q.g(cb), axis=-1) - 1) < 1e-12, 'coarse quaternion not normalised')

@spec('C12', n=40)
def quatlinrefine(c):
    nd, ratio, cb, dxc, dxf, n, jit, g = setup_refine(c)
    gc, gf, gi = c.ng(1, 2), c.ng(), c.ng(0, 2)
    q = oneGrain(c, cb, gc, n, jit)
    fb = Box([l * r for l, r in zip(cb.lo, ratio)], [(h + 1) * r - 1 for h, r in zip(cb.hi, ratio)])
    A = c.cell(fb, gf, n, name='fine')
    lo = [int(c.rng.integers(l, h + 1)) for l, h in zip(fb.lo, fb.hi)]
    hi = [int(c.rng.integers(l, h + 1)) for l, h in zip(lo, fb.hi)]
    rb = Box(lo, hi)
    I = Sides([c.side(cb, d, gi, dtype='i', name='iq') for d in range(nd)])
    for x in I: x.a[...] = 1
    c.features_add('depth%d' % n, 'ratio %s' % ratio)
    c.call('quatlinrefine%dd' % nd, *rb.lo, *rb.hi, *q.gbox.lo, *q.gbox.hi, *A.gbox.lo, *A.gbox.hi, c.array(ratio, 'ratio', 'i'), c.array(dxc), c.array(dxf), q, A, n,
           I, cb.grow(gi), poison=False)
    G = group(n)
    ref = np.zeros(rb.shape + (n,))
    for i in rb.indices():
        own = tuple(x // r for x, r in zip(i, ratio))
        fr = [(x - o * r + .5) / r - .5 for x, o, r in zip(i, own, ratio)]
        base = [o - 1 if t < 0 else o for o, t in zip(own, fr)]
        fr = [t + 1 if t < 0 else t for t in fr]
        qr = q.v(Box(own, own)).reshape(n)
        s = np.zeros(n)
        for corner in itertools.product((0, 1), repeat=nd):
            w = np.prod([t if k else 1 - t for k, t in zip(corner, fr)])
            x = q.v(Box([b + k for b, k in zip(base, corner)], [b + k for b, k in zip(base, corner)])).reshape(n)
            alt = x + G if n == 1 else qmul(x[None], G)
            dd = np.abs(alt - qr)[:, 0] if n == 1 else np.linalg.norm(normed(alt) - normed(qr), axis=-1)
            s = s + w * alt[dd.argmin()]
        ref[tuple(x - l for x, l in zip(i, rb.lo))] = normed(s)
    c.expect(A, rb, ref, scale=1., atol=1e-9)
    if n > 1: c.check(np.abs(np.linalg.norm(A.g(rb), axis=-1) - 1) < 1e-12, 'refined quaternion not normalised')

@spec('C12', n=24)
def smoothquat(c):
    box = c.rbox(); n = c.pick([1, 2, 4])
    gq, go, gd, gp = c.ng(), c.ng(), c.ng(), c.ng()
    q, o = c.cell(box, gq, n, name='quat'), c.cell(box, go, n, name='out')
    D = c.sides(box, gd, n, name='diff'); p = c.cell(box, gp, how='phase', name='phase')
    th = float(c.pick([.5, .1, 0., 1., 2., -1.]))
    c.call('smoothquat', box, n, q, gq, o, go, D, gd, p, gp, th, split=True)
    w = .125 if c.nd == 2 else 1. / 6
    ref = q.v(box) + w * sum(D[d].v(box, e(c.nd, d)) - D[d].v(box) for d in range(c.nd))
    k = p.v(box) < th
    c.expect(o, box, np.where(k[..., None], ref, o.v(box)))
