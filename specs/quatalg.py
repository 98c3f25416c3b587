"""orientation algebra: quaternion operations, symmetry group, nearest symmetric equivalent, fundamental zone"""
import numpy as np
from harness import *
import qlib
from qlib import *

def vec(c, n, how='any'):
    r = c.rng
    q = r.normal(size=n) * 10 ** r.uniform(-2, 2)
    if how == 'unit': q = q / np.linalg.norm(q)
    k = r.integers(0, 12)
    if k == 0: q = np.eye(n)[r.integers(n)]
    return q

@spec('C03', n=40, flavours=('plain', 'san'))
def quat_algebra(c):
    for n, sfx in ((4, '4'), (2, '2')):
        s2 = '' if n == 4 else '2'
        a, b = vec(c, n), vec(c, n)
        A, B, O = c.array(a, 'q1'), c.array(b, 'q2'), c.array(np.full(n, 7e7), 'out')
        def out(ref, what, X=O):
            X.opaque = True; X.written[...] = True
            c.close(X.a, ref, what=what, rtol=1e-13)
            c.cl.poison = False
        c.call('quatmult' + sfx, A, B, O); out(qmul(a, b), 'product')
        c.call('quatadd' + s2, A, B, O); out(a + b, 'sum')
        c.call('quatsub' + sfx, A, B, O); out(a - b, 'difference')
        c.call('quatconj' + s2, A, O); out(conj(a), 'conjugate')
        c.call('quatcopy' + sfx, A, O); out(a, 'copy')
        S = c.array([3e33], 's')
        c.call('quatmagn' + sfx, A, S); out([np.linalg.norm(a)], 'magnitude', S)
        c.call('quatmagsq' + sfx, A, S); out([a @ a], 'squared magnitude', S)
        c.call('quatmaginv' + sfx, A, S); out([1 / np.linalg.norm(a)], 'inverse magnitude', S)
        Z = c.array(np.zeros(n) + c.pick([0., 1e-17]), 'zero')
        c.call('quatmaginv' + sfx, Z, S); c.check(S.a[0] == 0., 'inverse magnitude of the zero quaternion is %r' % S.a[0]); S.written[...] = True
        A2, B2 = c.array(a, 'q1'), c.array(b, 'q2')
        c.call('quatswap' + s2, A2, B2); out(b, 'swap', A2); out(a, 'swap', B2)
        A2 = c.array(a, 'q')
        c.call('quatnorm' + sfx, A2); out(normed(a), 'normalised', A2)
        A2 = c.array(a, 'q')
        c.call('quatnorm', A2, n); out(normed(a), 'normalised', A2)
        c.call('quatdiffsq' + sfx, A, B, S); out([((normed(a) - normed(b)) ** 2).sum()], 'squared distance', S)
        r = normed(vec(c, n))
        R = c.array(r, 'qr')
        c.call('quatrotatediffsq' + sfx, A, B, R, O, S); out(qmul(b, r), 'rotated'); out([((normed(a) - normed(qmul(b, r))) ** 2).sum()], 'squared distance', S)
        A2 = c.array(np.full(n, 5e5), 'q')
        c.call('quatset' + s2, A2, *a); out(normed(a), 'set', A2)
        th = float(c.rng.uniform(0, 2))
        T = c.array([8e8], 'theta')
        c.call('quatangl' + s2, th, T); out([(4 if n == 4 else 2) * np.arcsin(th / 2)], 'angle', T)
    x = float(c.rng.uniform(-9, 9)); X = c.array([x], 'q')
    c.call('quatnorm', X, 1); c.cl.poison = False
    c.check(X.a[0] == x, 'scalar orientation changed by quatnorm')
    c.call('quatnorm1', X); c.cl.poison = False; X.written[...] = True
    c.check(abs(X.a[0]) <= np.pi + 1e-12 and abs((X.a[0] - x) / (2 * np.pi) - round((X.a[0] - x) / (2 * np.pi))) < 1e-12, 'angle %r normalised to %r' % (x, X.a[0]))
    y = float(c.rng.uniform(-9, 9)); g = float(c.rng.uniform(-9, 9))
    S, P = c.array([3e33], 's'), c.array([3e33], 'p')
    c.call('quatdiffabs1', x, y, S); S.written[...] = True; c.cl.poison = False
    c.close(S.a, [abs(x - y)], what='angle difference')
    c.call('quatrotatediffabs1', x, y, g, P, S); S.written[...] = True; P.written[...] = True; c.cl.poison = False
    c.close(P.a, [y + g], what='rotated angle'); c.close(S.a, [abs(y + g - x)], what='rotated angle difference')

@spec('C03', n=3, flavours=('plain', 'san'))
def quat_group(c):
    """the rotations are exactly the symmetry group, number 1 is the identity, -iq is the inverse of iq"""
    for n in (4, 2, 1):
        T = table(c.lib, n)
        G = group(n)
        D = np.abs(T[:, None, :] - G[None]).max(-1) < 1e-12
        c.check((D.sum(0) == 1).all() and (D.sum(1) == 1).all(), 'rotations of length %d are not the %d group elements, once each' % (n, len(G)))
        c.check(D[0, [k for k in range(len(G)) if (abs(G[k] - (np.eye(n)[0] if n > 1 else 0)) < 1e-12).all()][0]], 'rotation 1 is not the identity')
        for k in range(6):
            q = vec(c, n)
            for iq in [i for i in range(-NROT[n], NROT[n] + 1) if i]:
                Q, P, I = c.array(q, 'q'), c.array(np.full(n, 6e6), 'qprime'), c.array([iq], 'iq', 'i')
                c.call('quatsymmrotate', Q, I, P, n, poison=False)
                P.written[...] = True; I.written[...] = True
                c.close(P.a, rotate(c.lib, q, iq), what='rotation %d' % iq, rtol=1e-13)
                # the number left behind names the same rotation
                c.check(I.a[0] == iq or np.abs(rotate(c.lib, q, int(I.a[0])) - P.a).max() < 1e-12 * np.abs(q).max(), 'rotation number after rotation %d is %d' % (iq, I.a[0]))
        if n > 1:
            A, B = c.array(np.zeros((4, 48), order='F'), 'qr'), c.array(np.zeros(48), 'conj', 'i')
            if n == 4:
                c.call('setqr', A, B, poison=False); A.written[...] = True; B.written[...] = True
                c.close(A.a.T, T, what='table', rtol=1e-13)
                c.check(all(np.abs(T[B.a[k] - 1] - conj(T[k])).max() < 1e-12 for k in range(48)), 'conjugate table wrong')

def findsymm(c, q1, q2, iq0, n):
    A, B, P, I = c.array(q1, 'q1'), c.array(q2, 'q2'), c.array(np.full(n, 6e6), 'q2p'), c.array([iq0], 'iq', 'i')
    c.call('quatfindsymm', A, B, I, P, n, poison=False)
    P.written[...] = True; I.written[...] = True
    return P.a.copy(), int(I.a[0])

@spec('C03', n=60, flavours=('plain', 'san'))
def quat_findsymm(c):
    """nearest symmetric equivalent: it is an equivalent, its number is right, no equivalent is nearer, any starting guess"""
    r = c.rng
    for n in (4, 2, 1):
        for k in range(6):
            if n == 1: q1 = r.uniform(-np.pi, np.pi, 1)
            else: q1 = normed(r.normal(size=n))
            kind = r.integers(0, 4)
            if kind == 0: q2 = r.uniform(-np.pi, np.pi, 1) if n == 1 else normed(r.normal(size=n))
            else:          # a symmetric variant of q1, slightly turned
                j = 10. ** r.uniform(-6, -0.3)
                q2 = q1 + j * r.normal(size=n)
                g = group(n)[r.integers(NROT[n])]
                if n == 1: q2 = q2 + g
                else: q2 = normed(qmul(q2, g))
                if n == 1: q2 = (q2 + np.pi) % (2 * np.pi) - np.pi
            sc = 1.
            if n > 1 and r.integers(0, 3) == 0: sc = float(r.uniform(.5, 2)); q2 = q2 * sc
            iq0 = int(r.integers(-NROT[n] - 2, NROT[n] + 3))
            p, iq = findsymm(c, q1, q2, iq0, n)
            c.features_add('n%d kind%d' % (n, kind))
            c.check(1 <= iq <= NROT[n], 'rotation number %d' % iq)
            c.close(p, rotate(c.lib, q2, iq), what='q2 rotated by the returned number', rtol=1e-12)
            d, m = dist(q1, p), mindist(q1, q2)
            c.check(d <= m + 1e-9, 'length %d: distance %r, but an equivalent at %r exists (start %d)' % (n, d, m, iq0))

def zones(nd, box):
    """side regions of the difference fields: one ghost cell in the other directions"""
    for d in range(nd):
        yield d, Box([l - (0 if t == d else 1) for t, l in enumerate(box.lo)], [h + 1 for h in box.hi])

def qfield(c, box, ng, n, **kw):
    f = Field(box, ng, n, name='q')
    f.a[...] = randq(c.rng, f.shape[:-1], n, **kw)
    return f

def iqfield(c, box, d, ng, n, neg=True):
    f = Field(box, ng, None, d, 'i', 'iq%d' % d)
    v = c.rng.integers(1, NROT[n] + 1, f.shape)
    if neg: v = np.where(c.rng.random(f.shape) < .3, -v, v)
    f.a[...] = v
    return f

def allm(f, box, s=None):
    return f.v(box, s, None)

@spec('C04', n=20)
def diffs(c):
    box = c.rbox()
    ng, ngd = c.ng(2, 3) , c.ng(1, 3)
    v = c.cell(box, ng, name='v'); D = c.sides(box, ngd, name='diff')
    c.call('diffs', box, v, ng, D, ngd, split=True)
    for d, z in zones(c.nd, box): c.expect(D[d], z, v.v(z) - v.v(z, e(c.nd, d, -1)))

@spec('C04', 'C10', n=20)
def quatdiffs(c):
    box = c.rbox(); n = c.pick([1, 2, 4])
    ng, ngd = c.ng(1, 3), c.ng(1, 3)
    q = c.cell(box, ng, n, name='q'); D = c.sides(box, ngd, n, name='diff')
    c.call('quatdiffs', box, n, q, ng, D, ngd, split=True)
    for d, z in zones(c.nd, box):
        for m in range(n): c.expect(D[d], z, q.v(z, None, m) - q.v(z, e(c.nd, d, -1), m), m)

def rotint(f, got):
    """rotation numbers may be replaced by an equivalent positive number"""
    pass

def check_iq(c, I, z, n):
    """the kernel may rewrite rotation numbers, but they must name the same rotation"""
    b, a = I.v(z), I.g(z)
    ident = np.zeros(b.shape + (n,))
    c.check((a != 0).all() and (np.abs(a) <= NROT[n]).all(), 'rotation number out of range')
    x, y = rotate(c.lib, ident + np.eye(n)[0], b), rotate(c.lib, ident + np.eye(n)[0], a)
    c.close(y, x, what='rotation number rewritten', rtol=1e-12)
    I.w(z)

@spec('C10', n=24)
def quatdiffs_symm(c):
    box = c.rbox(); n = c.pick([1, 2, 4])
    ng, ngd, ngi = c.ng(1, 3), c.ng(1, 3), c.ng(1, 3)
    q = qfield(c, box, ng, n); D = c.sides(box, ngd, n, name='diff')
    I = Sides([iqfield(c, box, d, ngi, n) for d in range(c.nd)])
    c.call('quatdiffs_symm', box, n, q, ng, D, ngd, I, ngi, split=True)
    for d, z in zones(c.nd, box):
        c.expect(D[d], z, q.v(z) - rotate(c.lib, q.v(z, e(c.nd, d, -1)), I[d].v(z)), scale=1.)
        check_iq(c, I[d], z, n)

@spec('C10', n=24, dims=(2,))
def quatdiffs_symm_new(c):
    box = c.rbox(); n = c.pick([1, 2, 4])
    ng, ngd, ngi = c.ng(1, 3), c.ng(1, 3), c.ng(1, 3)
    q = qfield(c, box, ng, n); D = c.sides(box, ngd, n, name='diff')
    I = Sides([iqfield(c, box, d, ngi, n, neg=False) for d in range(c.nd)])
    c.call('quatdiffs_symm_new', box, n, q, ng, D, ngd, I, ngi, split=True)
    for d, z in zones(c.nd, box):
        iq = I[d].v(z); a, b = q.v(z), q.v(z, e(c.nd, d, -1))
        d1 = a - rotate(c.lib, b, iq)
        d2 = rotate(c.lib, rotate(c.lib, a, -iq) - b, iq)
        if n == 1: d2 = a - T1(c, iq) - b + T1(c, iq)
        c.expect(D[d], z, .5 * (d1 + d2), scale=1.)

def T1(c, iq): return table(c.lib, 1)[iq - 1]

@spec('C04', n=20, dims=(2,))
def quatavg(c):
    box = c.rbox(); n = c.pick([1, 2, 4])
    gq, ga = c.ng(1, 3), c.ng()
    q, A = c.cell(box, gq, n, name='q'), c.cell(box, ga, n, name='avg')
    c.call('quatavg', box, n, q, box.grow(gq), A, box.grow(ga))
    for m in range(n):
        c.expect(A, box, .5 * q.v(box, None, m) + .125 * sum(q.v(box, e(c.nd, d, k), m) for d in range(c.nd) for k in (-1, 1)), m)

@spec('C03', 'C10', n=24)
def quat_symm_rotation(c):
    box = c.rbox(1, 4 if c.nd == 2 else 3); n = c.pick([1, 2, 4])
    ng, ngi = c.ng(1, 3), c.ng(1, 3)
    q = qfield(c, box, ng, n, jitter=.02)
    if n == 1: q.a[...] = (q.a + np.pi) % (2 * np.pi) - np.pi
    I = Sides([iqfield(c, box, d, ngi, n) for d in range(c.nd)])
    c.call('quat_symm_rotation', box, q, ng, n, I, ngi, poison=False)
    for d, z in zones(c.nd, box):
        iq = I[d].g(z); I[d].w(z)
        c.check((iq >= 1).all() and (iq <= NROT[n]).all(), 'rotation numbers out of range')
        a, b = q.v(z), q.v(z, e(c.nd, d, -1))
        dd = dist(a, rotate(c.lib, b, iq)) - mindist(a, b)
        c.check(dd <= 1e-9, 'direction %d: neighbour is %g farther than its nearest symmetric equivalent' % (d, dd.max()))

@spec('C03', n=24)
def quat_fundamental(c):
    box = c.rbox(1, 4 if c.nd == 2 else 3); n = c.pick([1, 2, 4])
    g = c.ng()
    q = qfield(c, box, g, n, jitter=.3, norm=c.pick([True, True, False]))
    if n == 1: q.a[...] = (q.a + np.pi) % (2 * np.pi) - np.pi
    c.call('quat_fundamental', box, q, box.grow(g), n, poison=False)
    b, a = q.v(box), q.g(box); q.w(box)
    one = np.zeros(b.shape); 
    if n > 1: one[..., 0] = 1
    dd = dist(one, a) - mindist(one, b)
    c.check(dd <= 1e-9, 'result is %g farther from the identity than the nearest equivalent' % dd.max())
    # same orientation up to symmetry, same length
    G = group(n)
    alt = b[..., None, :] + G if n == 1 else qmul(b[..., None, :], G)
    c.check(np.abs(alt - a[..., None, :]).max(-1).min(-1) < 1e-12, 'result is not a symmetric equivalent of the input')

@spec('C10', n=24)
def correctrhsquatforsymmetry(c):
    box, dx = c.rbox(), c.dx(); n = c.pick([1, 2, 4])
    ngd, ngr, ngq, ngf, ngm, ngi = c.ng(), c.ng(), c.ng(), c.ng(), c.ng(), c.ng()
    N, S = c.sides(box, ngd, n, name='nonsymm'), c.sides(box, ngd, n, name='symm')
    R, q = c.cell(box, ngr, n, name='rhs'), qfield(c, box, ngq, n, norm=c.pick([True, False]))
    F, M = c.sides(box, ngf, name='face'), c.cell(box, ngm, how='pos', name='mob')
    I = Sides([iqfield(c, box, d, ngi, n, neg=False) for d in range(c.nd)])
    for d in range(c.nd): I[d].opaque = True
    c.call('correctrhsquatforsymmetry', box, n, c.array(dx), N, S, ngd, R, ngr, q, ngq, F, ngf, M, ngm, I, ngi, split=True)
    t = 0
    for d in range(c.nd):
        u = e(c.nd, d)
        dp = S[d].v(box, u)
        if n > 1: dp = rotate(c.lib, dp, -I[d].v(box, u))
        t = t + (F[d].v(box, u)[..., None] * (N[d].v(box, u) - dp) - F[d].v(box)[..., None] * (N[d].v(box) - S[d].v(box))) / dx[d] ** 2
    Q = q.v(box)
    if n > 1: t = t - Q * ((Q * t).sum(-1) / (Q * Q).sum(-1))[..., None]
    c.expect(R, box, R.v(box) + M.v(box)[..., None] * t)
