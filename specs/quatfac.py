"""orientation solver: face coefficients, fluxes, residual of I + gamma sqrt(M) div(c grad sqrt(M) .), constrained operator,
projection on the tangent space of unit quaternions, coarse-fine flux correction"""
import numpy as np
from harness import *
from qlib import *
import fref
from specs.elliptic import ngv, L

def gb(f): return f.gbox
def interleave(fs):
    r = []
    for f in fs: r += [f, gb(f)]
    return r
def sx(c, n): return '%s%dd' % (n, c.nd)
def div(F, b, h, nd, m): return sum((F[d].v(b, e(nd, d), m) - F[d].v(b, None, m)) / h[d] for d in range(nd))
def rs(c, box, depth=None, how=None, name=''):
    """side arrays with ghost widths of their own"""
    return [c.side(box, d, c.ng(0, 2), depth, how, '%s%d' % (name, d)) for d in range(c.nd)]

@spec('C10', n=60)
def face_coefficients(c):
    box = c.rbox()
    nd = c.nd
    n = c.pick([1, 2, 4])
    gp, gt, gg, gf = c.ng(1, 2), c.ng(1, 2), c.ng(), c.ng()
    p, T = c.cell(box, gp, name='phi', how='phase'), c.cell(box, gt, name='T', how='temp')
    G, F = c.sides(box, gg, (n, nd), c.pick(['sym', 'sym', 'zero']), name='gradq'), c.sides(box, gf, name='fc')
    eps, mf, fl = float(c.rng.uniform(.1, 2)), float(c.rng.uniform(.1, 2)), float(c.rng.uniform(.01, .5))
    ft, i1, i2, av = c.pick(['max', 'tanh', 'sqrt']), c.pick('qphwlc'), c.pick('qphwlc'), c.pick('ah')
    c.features_add(i1, i2, 'avg' + av, 'floor' + ft, 'n%d' % n)
    c.call(sx(c, 'compute_face_coef'), box, n, eps, p, gp, T, gt, mf, G, gg, F, gf, fl, ft, i1, i2, av, split=True)
    for d in range(nd):
        sb = box.side(d)
        m = fref.average(p.v(sb, e(nd, d, -1)), p.v(sb), av)
        g2 = (G[d].v(sb) ** 2).sum((-1, -2))
        D = mf * .5 * (T.v(sb, e(nd, d, -1)) + T.v(sb)) * fref.interp(m, i1)
        c.expect(F[d], sb, -fref.gradnormi(g2, ft, fl * fl, 1 / fl) * D - eps * eps * fref.interp(m, i2), rtol=1e-9)

@spec('C10', n=30)
def dquatdphi_face_coefficients(c):
    box = c.rbox()
    nd = c.nd
    D, p, F = rs(c, box, 2, name='dprime'), c.cell(box, c.ng(1, 2), name='phi'), rs(c, box, name='fc')
    c.call(sx(c, 'compute_dquatdphi_face_coef'), box, c.pick([1, 2, 4]), interleave(D), p, gb(p), interleave(F), split=True)
    for d in range(nd):
        sb = box.side(d)
        c.expect(F[d], sb, -D[d].v(sb, None, 0) * p.v(sb, e(nd, d, -1)) - D[d].v(sb, None, 1) * p.v(sb))

@spec('C10', n=50)
def orientation_flux(c):
    box, h = c.rbox(), c.dx()
    nd = c.nd
    n = c.pick([1, 2, 4])
    K, F = rs(c, box, name='fc'), rs(c, box, n, name='flux')
    k = c.pick(range(3))
    c.features_add('k%d' % k, 'n%d' % n)
    if k == 1:
        G = [c.side(box, d, 0, n, name='grad%d' % d) for d in range(nd)]
        c.call(sx(c, 'compute_flux') + '_from_gradq', box, n, interleave(K), G, interleave(F), split=True)
        for d in range(nd):
            sb = box.side(d)
            for m in range(n): c.expect(F[d], sb, K[d].v(sb) * G[d].v(sb, None, m), m)
        return
    q, s = c.cell(box, c.ng(1, 2), n, name='q'), c.cell(box, c.ng(1, 2), name='sqrtm', how='pos')
    if k == 0: c.call(sx(c, 'compute_flux'), box, n, interleave(K), q, gb(q), c.array(h), interleave(F), split=True)
    else: c.call(sx(c, 'compute_sym_flux'), box, n, interleave(K), s, gb(s), q, gb(q), c.array(h), interleave(F), split=True)
    for d in range(nd):
        sb = box.side(d)
        S = (lambda sh: 1.) if k == 0 else (lambda sh: s.v(sb, sh))
        for m in range(n):
            c.expect(F[d], sb, K[d].v(sb) / h[d] * (S(None) * q.v(sb, None, m) - S(e(nd, d, -1)) * q.v(sb, e(nd, d, -1), m)), m)

def rotidx(c, box, n):
    g = c.ng()
    R = c.sides(box, g, dtype='i', name='iqrot')
    for f in R:
        v = c.rng.integers(1, NROT[n] + 1, f.shape)
        f.a[...] = np.where(c.rng.random(f.shape) < .3, -v, v)
        f.a[...] = v
    return R, g

def symdiv(c, F, R, b, h, n):
    """divergence in the frame of the cell: fluxes of upper sides are rotated back"""
    nd = c.nd
    r = 0.
    for d in range(nd):
        up = F[d].v(b, e(nd, d)); lo = F[d].v(b)
        if R is not None: up = rotate(c.lib, up, -R[d].v(b, e(nd, d)))
        r = r + (up - lo) / h[d]
    return r

@spec('C10', 'C11', n=60)
def orientation_operator(c):
    """residual, operator, and operator constrained to the tangent space, with and without crystal symmetry"""
    box, h = c.rbox(), c.dx()
    nd = c.nd
    k = c.pick(['residual', 'op', 'proj', 'lambda'])
    sym = nd == 2 and k != 'op' and c.pick([True, False])
    n = c.pick([2, 4]) if sym or k in ('proj', 'lambda') else c.pick([1, 2, 4])
    F = rs(c, box, n, name='flux')
    q, rhs, M = c.cell(box, c.ng(0, 2), n, name='q'), c.cell(box, c.ng(0, 2), n, name='rhs'), c.cell(box, c.ng(0, 2), name='m', how='pos')
    lam = c.cell(box, c.ng(0, 1), name='lambda')
    R, g = rotidx(c, box, n) if sym else (None, 0)
    tail = [R, g] if sym else []
    c.features_add(k, 'sym%d' % sym, 'n%d' % n)
    fn = lambda x: sx(c, x) + ('_symm' if sym else '')
    if k == 'residual':
        ga = float(c.rng.uniform(.1, 2))
        o = c.cell(box, c.ng(0, 2), n, name='residual')
        c.call(fn('compute_q_residual'), box, n, M, gb(M), interleave(F), q, gb(q), c.array(h), ga, rhs, gb(rhs), o, gb(o), *tail, split=True)
        D = symdiv(c, F, R, box, h, n)
        c.expect(o, box, rhs.v(box) - q.v(box) - ga * M.v(box)[..., None] * D)
        return
    D = None
    if k == 'op':
        c.call(sx(c, 'add_quat_op'), box, n, M, gb(M), interleave(F), c.array(h), rhs, gb(rhs), split=True)
        c.expect(rhs, box, rhs.v(box) - M.v(box)[..., None] * symdiv(c, F, None, box, h, n))
        return
    if k == 'lambda':
        c.call(fn('compute_lambda_flux'), box, n, interleave(F), q, gb(q), c.array(h), lam, gb(lam), *tail, split=True)
        D = symdiv(c, F, R, box, h, n)
        c.expect(lam, box, -.5 * (q.v(box) * D).sum(-1) / (q.v(box) ** 2).sum(-1), scale=np.abs(D).sum(-1) / np.sqrt((q.v(box) ** 2).sum(-1)))
        # with this multiplier the constrained rate is tangent to the sphere
        r0 = rhs.a[rhs._sl(box)].copy()
        c.call(fn('add_quat_proj_op'), box, n, M, gb(M), interleave(F), q, gb(q), lam, gb(lam), c.array(h), rhs, gb(rhs), *tail, split=True)
        rhs.w(box); c.cl.poison = False
        rate = rhs.g(box) - r0
        qq = q.g(box)
        c.check(np.abs((rate * qq).sum(-1)) <= 1e-11 * (1 + np.abs(rate).sum(-1) + np.abs(r0).sum(-1)) * (1 + np.abs(qq).sum(-1)), 'constrained rate changes the length of the quaternion', 'tangent')
        return
    c.call(fn('add_quat_proj_op'), box, n, M, gb(M), interleave(F), q, gb(q), lam, gb(lam), c.array(h), rhs, gb(rhs), *tail, split=True)
    D = symdiv(c, F, R, box, h, n)
    c.expect(rhs, box, rhs.v(box) - M.v(box)[..., None] * (D + 2 * q.v(box) * lam.v(box)[..., None]))

@spec('C10', n=30)
def projection(c):
    """correction to unit length, and removal of the error along the quaternion"""
    box = c.rbox()
    n = c.pick([2, 4])
    q, K, E = c.cell(box, c.ng(0, 2), n, name='q'), c.cell(box, c.ng(0, 2), n, name='corr'), c.cell(box, c.ng(0, 2), n, name='err')
    c.call(sx(c, 'project'), box, n, q, gb(q), K, gb(K), E, gb(E), split=True)
    u = q.v(box) / np.linalg.norm(q.v(box), axis=-1, keepdims=True)
    c.expect(K, box, u - q.v(box), atol=1e-14)
    c.expect(E, box, E.v(box) - u * (u * E.v(box)).sum(-1, keepdims=True), atol=1e-14)
    c.check(np.abs(np.linalg.norm(q.v(box) + K.g(box), axis=-1) - 1) < 1e-12, 'corrected quaternion has not unit length')
    c.check(np.abs((u * E.g(box)).sum(-1)) < 1e-12, 'error still has a component along the quaternion')

@spec('C10', 'C11', n=30)
def pointwise_scaling(c):
    box = c.rbox()
    n = int(c.rng.integers(1, 5))
    M, v = c.cell(box, c.ng(0, 2), name='factor', how='pos'), c.cell(box, c.ng(0, 2), n, name='var')
    k = c.pick(range(3))
    c.features_add('k%d' % k)
    if k == 0:
        c.call(sx(c, 'take_square_root'), box, M, gb(M), split=True); c.expect(M, box, np.sqrt(M.v(box)))
    else:
        c.call(sx(c, 'multicomponent_multiply' if k == 1 else 'multicomponent_divide'), box, M, gb(M), v, gb(v), n, split=True)
        c.expect(v, box, v.v(box) * M.v(box)[..., None] if k == 1 else v.v(box) / M.v(box)[..., None])

@spec('C11', 'C12', n=60)
def orientation_fixflux(c):
    """coarse-fine correction of all components of the orientation flux on one boundary of a fine patch"""
    nd = c.nd
    r = [int(x) for x in c.rng.integers(2, 5, nd)]
    lo = [int(x) * k for x, k in zip(c.rng.integers(-3, 4, nd), r)]
    n = [int(x) * k for x, k in zip(c.rng.integers(1, 3, nd), r)]
    box = Box(lo, [l + x - 1 for l, x in zip(lo, n)])
    dx = c.dx()
    loc = c.pick(range(2 * nd)); d, up = loc // 2, loc % 2
    bl, bh = list(box.lo), list(box.hi)
    for t in range(nd):
        if t == d: bl[t] = bh[t] = box.lo[t] - 1 if not up else box.hi[t] + 1
        else:
            k = c.pick(range(3))
            if k == 1 and n[t] > r[t]:
                if c.pick([True, False]): bl[t] += r[t]
                else: bh[t] -= r[t]
            elif k == 2: bl[t] -= r[t]; bh[t] += r[t]
    g = [ngv(c), ngv(c), ngv(c)]
    nc = c.pick([1, 2, 4])
    ns = nc
    F, D, u = c.sides(box, g[0], nc, name='flux'), c.sides(box, g[1], nc, name='D', how='pos'), c.cell(box, g[2], ns, name='u')
    c.features_add('loc%d' % loc, 'nc%d' % nc)
    c.call(sx(c, 'fixflux'), F, L(g[0]), nc, D, L(g[1]), nc, u, L(g[2]), ns, box, nc, loc, c.array(r, 'ratio', 'i'), c.array(bl, 'blower', 'i'), c.array(bh, 'bupper', 'i'), c.array(dx))
    rl = [max(a, b) for a, b in zip(bl, box.lo)]; rh = [min(a, b) for a, b in zip(bh, box.hi)]
    rl[d] = rh[d] = box.hi[d] if up else box.lo[d]
    cb = Box(rl, rh)
    fb = cb.shift(e(nd, d)) if up else cb
    w = 1. / (1 + r[d])
    for m in range(nc):
        uc = u.v(cb, None, m)
        ur = uc.copy()
        for t in range(nd):
            if t == d: continue
            ur = np.moveaxis(ur, t, 0)
            ur = ur.reshape((ur.shape[0] // r[t], r[t]) + ur.shape[1:])[:, ::-1].reshape(ur.shape)
            ur = np.moveaxis(ur, 0, t)
        c.expect(F[d], fb, 2 * w * F[d].v(fb, None, m) + (-1. if up else 1.) * w * D[d].v(fb, None, m) * (ur - uc) / dx[d], m)
