"""scalar model functions: interpolation, wells, averages, three-phase tilting functions, pair weights, rotation matrices"""
import ctypes, itertools
import numpy as np
from harness import *
import fref, qlib

def f(c, name, *a):
    return c.call(name, *a)

def phis(c, k=12):
    r = c.rng
    return list(r.uniform(0, 1, k)) + list(r.uniform(-1.5, 2.5, k // 2)) + [0., 1., .5, 1e-14, 1 - 1e-14] + list(10. ** r.uniform(-9, -1, 3)) + list(-10. ** r.uniform(-9, -1, 2))

def full(t, c):
    """only the first letter of an option counts"""
    names = {'q': 'quadratic', 'p': 'pbg', 'h': 'harmonic', 'w': 'wang', 'l': 'linear', 'm': 'moelans', '3': '3rd', 's': 'softplus', 'c': 'constant', 'd': 'double', 'a': 'arithmetic', 't': 'tanh'}
    return t if c.pick([True, False]) else names[t]

def same(c, got, ref, what, rtol=1e-12):
    c.close(np.array(got), np.array(ref), rtol=rtol, atol=1e-14, scale=np.abs(ref), what=what)

@spec('C01', n=12, dims=(2,))
def interp_functions(c):
    """values, end points, derivative = slope of the function"""
    for t, (F, D, D2) in sorted(fref.INTERP.items()):
        x = np.array(phis(c))
        v = [f(c, 'interp_func', p, full(t, c)) for p in x]
        d = [f(c, 'deriv_interp_func', p, full(t, c)) for p in x]
        same(c, v, F(x), 'interp_func %s' % t)
        ends = np.abs(x * (1 - x)) < 1e-13
        k = ~ends if t == 'l' else np.ones(len(x), bool)
        same(c, np.array(d)[k], D(x)[k], 'deriv_interp_func %s' % t)
        if t == 'l': c.check((np.array(d)[ends] == 0) | (np.array(d)[ends] == 1), 'deriv_interp_func l at the ends')
        if D2 is not None and t != 'c' or t == 'c':
            d2 = [f(c, 'second_deriv_interp_func', p, full(t, c)) for p in x]
            same(c, d2, D2(x), 'second_deriv_interp_func %s' % t)
        if t != 'c':
            c.close(f(c, 'interp_func', 0., t), 0., atol=1e-15, what='interp %s at 0' % t)
            c.close(f(c, 'interp_func', 1., t), 1., what='interp %s at 1' % t)
        # the derivative is the slope of the function itself (independent of the closed forms)
        for p in x:
            h = 1e-5
            if min(abs(p), abs(p - 1)) < 3 * h: continue
            s = (f(c, 'interp_func', p + h, t) - f(c, 'interp_func', p - h, t)) / (2 * h)
            c.close(f(c, 'deriv_interp_func', p, t), s, rtol=1e-6, atol=1e-6, what='slope of interp %s at %r' % (t, p), kind='slope')
            if D2 is not None:
                s = (f(c, 'deriv_interp_func', p + h, t) - f(c, 'deriv_interp_func', p - h, t)) / (2 * h)
                c.close(f(c, 'second_deriv_interp_func', p, t), s, rtol=1e-6, atol=1e-5, what='slope of deriv_interp %s at %r' % (t, p), kind='slope')
        # monotone between the ends
        y = np.sort(c.rng.uniform(0, 1, 10))
        v = np.array([f(c, 'interp_func', p, t) for p in y])
        c.check(np.diff(v) >= -1e-14, 'interp %s decreases' % t)
        c.features_add(t)

@spec('C01', n=12, dims=(2,))
def well_functions(c):
    for t in 'ds':
        F, D, D2 = fref.WELL[t]
        x = np.array(phis(c))
        same(c, [f(c, 'well_func', p, full(t, c)) for p in x], F(x), 'well %s' % t)
        same(c, [f(c, 'deriv_well_func', p, full(t, c)) for p in x], D(x), 'well derivative %s' % t)
        same(c, [f(c, 'second_deriv_well_func', p, full(t, c)) for p in x], D2(x), 'well second derivative %s' % t)
        for p in x:
            h = 1e-5
            s = (f(c, 'well_func', p + h, t) - f(c, 'well_func', p - h, t)) / (2 * h)
            c.close(f(c, 'deriv_well_func', p, t), s, rtol=1e-6, atol=1e-6 * (1 + abs(p) ** 3 * 64), what='slope of well %s at %r' % (t, p), kind='slope')
            s = (f(c, 'deriv_well_func', p + h, t) - f(c, 'deriv_well_func', p - h, t)) / (2 * h)
            c.close(f(c, 'second_deriv_well_func', p, t), s, rtol=1e-6, atol=1e-6 * (1 + abs(p) ** 3 * 64), what='slope of deriv_well %s at %r' % (t, p), kind='slope')
            c.check(f(c, 'well_func', p, t) >= 0, 'well %s negative' % t)
    c.close(f(c, 'well_func', 0., 'd'), 0., what='well at 0', atol=1e-15); c.close(f(c, 'well_func', 1., 'd'), 0., what='well at 1', atol=1e-15)
    for k in range(6):
        p = c.rng.dirichlet([1, 1, 1])
        if k == 0: p = np.array([1., 0, 0])
        got = [f(c, 'deriv_triple_well_func', p[a], p[(a + 1) % 3], p[(a + 2) % 3]) for a in range(3)]
        same(c, got, [fref.triple(p[a], p[(a + 1) % 3], p[(a + 2) % 3]) for a in range(3)], 'triple well')
        c.close(sum(got), 0., atol=1e-12, what='triple well forces do not sum to zero', kind='balance')
        c.close(f(c, 'deriv_triple_well_func', p[0], p[2], p[1]), got[0], atol=1e-13, what='triple well symmetry')

@spec('C01', n=12, dims=(2,))
def average_functions(c):
    r = c.rng
    for t in 'ah':
        for k in range(20):
            a, b = r.uniform(1e-3, 2, 2)
            if k % 5 == 0: a = c.pick([0., 1e-17, -.1, 1e-8])
            if k % 7 == 0: b = c.pick([0., 1e-17, -.1, 1e-8])
            v = f(c, 'average_func', a, b, full(t, c))
            c.close(v, fref.average(a, b, t), rtol=1e-13, atol=1e-20, what='average %s(%r,%r)' % (t, a, b))
            c.close(f(c, 'average_func', b, a, t), v, rtol=1e-14, atol=1e-30, what='average %s is not symmetric' % t)
            c.check(t == 'h' or True, '')
            if a > 0 and b > 0: c.check(min(a, b) * (1 - 1e-14) <= v <= max(a, b) * (1 + 1e-14) or min(a, b) < 1e-16, 'average %s(%r,%r)=%r not between' % (t, a, b, v))
            x = abs(v) if k % 3 else c.pick([0., 1e-17])
            c.close(f(c, 'deriv_average_func', x, b, full(t, c)), fref.daverage(x, b, t), rtol=1e-12, what='derivative of average %s' % t)
            if a > 1e-4 and b > 1e-4:
                h = 1e-5 * b
                s = (f(c, 'average_func', a, b + h, t) - f(c, 'average_func', a, b - h, t)) / (2 * h)
                c.close(f(c, 'deriv_average_func', v, b, t), s, rtol=1e-6, atol=1e-9, what='slope of average %s at (%r,%r)' % (t, a, b), kind='slope')
            g2, fl, mx = 10. ** r.uniform(-8, 3), 10. ** r.uniform(-4, 0), 10. ** r.uniform(-1, 2)
            if k == 0: g2 = 0.
            for ft in 'mts':
                c.close(f(c, 'eval_grad_normi', g2, ft + 'x', fl, mx), fref.gradnormi(g2, ft, fl, mx), rtol=1e-12, what='inverse gradient norm %s' % ft)
                c.check(ft == 'm' or f(c, 'eval_grad_normi', g2, ft, fl, mx) <= max(mx, fl ** -.5) * (1 + 1e-12), 'inverse gradient norm not floored')
                if ft == 't' and g2 > 0:
                    c.close(f(c, 'eval_grad_normi', g2, 't', fl, mx), np.tanh(mx * np.sqrt(g2)) / np.sqrt(g2), rtol=1e-6, what='tanh floor')
            x = r.uniform(-2, 2) if k % 2 else c.pick([1., -1.]) * 10. ** r.uniform(-6, -2)
            if abs(abs(x) - 1e-4) > 1e-9: c.close(f(c, 'limitedinverse', x), 1 / x if abs(x) > 1e-4 else 1e4, rtol=1e-12, what='limited inverse of %r' % x)

@spec('C01', n=12, dims=(2,))
def interp_ratio(c):
    """h1(phi)/h2(phi) and (1-h1)/(1-h2), finite at the ends"""
    for p in phis(c):
        for t in 'qphwlm3sc':
            c.close(f(c, 'interp_ratio_func', p, t, t), 1., what='ratio'); c.close(f(c, 'compl_interp_ratio_func', p, t, t), 1., what='ratio')
        x = min(max(p, 0.), 1.)
        c.close(f(c, 'interp_ratio_func', p, full('p', c), full('l', c)), x * x * (10 - 15 * x + 6 * x * x), rtol=1e-12, atol=1e-16, what='ratio p/l at %r' % p)
        c.close(f(c, 'compl_interp_ratio_func', p, full('p', c), full('l', c)), (1 - x) ** 2 * (1 + 3 * x + 6 * x * x), rtol=1e-12, atol=1e-16, what='complementary ratio p/l at %r' % p)
        hp, hl = f(c, 'interp_func', p, 'p'), f(c, 'interp_func', p, 'l')
        c.close(f(c, 'interp_ratio_func', p, 'p', 'l') * hl, hp, atol=1e-14, what='ratio*h2 != h1 at %r' % p)
        c.close(f(c, 'compl_interp_ratio_func', p, 'p', 'l') * (1 - hl), 1 - hp, atol=1e-14, what='complementary ratio at %r' % p)

@spec('C01', n=2, dims=(2,))
def stiffness_index(c):
    for nd, n in ((2, 3), (3, 6)):
        k = 0
        seen = {}
        for i in range(1, n + 1):
            for j in range(i, n + 1):
                k += 1
                for a, b in ((i, j), (j, i)):
                    c.check(f(c, 'storage_index_stiffness%dd' % nd, a, b) == k, 'storage index (%d,%d) in %dd' % (a, b, nd))
        voigt = {(1, 1): 1, (2, 2): 2, (1, 2): 3} if nd == 2 else {(1, 1): 1, (2, 2): 2, (3, 3): 3, (2, 3): 4, (1, 3): 5, (1, 2): 6}
        for (i, j), v in voigt.items():
            for a, b in ((i, j), (j, i)):
                c.check(f(c, 'single_index_stiffness%dd' % nd, a, b) == v, 'Voigt index (%d,%d) in %dd' % (a, b, nd))

@spec('C03', n=24, dims=(2,))
def rotation_matrices(c):
    r = c.rng
    q = r.normal(size=4); q /= np.linalg.norm(q)
    R = c.array(np.zeros((3, 3), order='F'), 'R')
    def mat(q):
        Q, R = c.array(q, 'q'), c.array(np.full((3, 3), 5e5), 'R')
        c.call('quatrotationmatrix', Q, R, poison=False); R.written[...] = True
        return R.a.copy()
    M = mat(q)
    v = r.normal(size=3)
    w = qlib.qmul(qlib.qmul(q, np.r_[0, v]), qlib.conj(q))
    c.close(M @ v, w[1:], rtol=1e-12, what='rotation matrix does not rotate like the quaternion')
    c.close(M.T @ M, np.eye(3), rtol=1e-12, what='rotation matrix not orthogonal')
    c.close(np.linalg.det(M), 1., rtol=1e-12, what='rotation matrix determinant')
    # the map is quadratic: a central difference of step 1 is its exact derivative
    q = r.normal(size=4)
    D = c.array(np.full((3, 3, 4), 5e5), 'dR')
    c.call('derivquatrotationmatrixdq', c.array(q, 'q'), D, poison=False); D.written[...] = True
    D = D.a.copy()
    for k in range(4):
        u = np.eye(4)[k]
        c.close(D[:, :, k], .5 * (mat(q + u) - mat(q - u)), rtol=1e-12, what='derivative of the rotation matrix with respect to component %d' % (k + 1))
    z = r.normal(size=2)
    def cm(z):
        R = c.array(np.full((3, 3), 5e5), 'R'); c.call('complexrotationmatrix', c.array(z, 'q'), R, poison=False); R.written[...] = True
        return R.a.copy()
    c.close(cm(z), np.array([[z[0], -z[1], 0], [z[1], z[0], 0], [0, 0, 1]]), what='2d rotation matrix')
    D = c.array(np.full((3, 3, 2), 5e5), 'dR')
    c.call('derivcomplexrotationmatrixdq', c.array(z, 'q'), D, poison=False); D.written[...] = True
    D = D.a.copy()
    for k in range(2):
        u = np.eye(2)[k]
        c.close(D[:, :, k], .5 * (cm(z + u) - cm(z - u)), rtol=1e-12, what='derivative of the 2d rotation matrix')
    A = r.normal(size=(3, 3)); FA = c.array(A, 'R')
    for k in range(4):
        i, j, m, l = [int(x) for x in r.integers(1, 4, 4)]
        got = f(c, 'rotationtensorijkl', i, j, m, l, FA)
        c.close(got, sum(A[i - 1, n] * A[j - 1, n] * A[m - 1, n] * A[l - 1, n] for n in range(3)), rtol=1e-12, what='rotation tensor')

class CX:
    def __init__(self, lib):
        self.so = lib.so
    def __getattr__(self, n):
        try: g = getattr(self.so, n)
        except AttributeError: raise Skip('%s is gone' % n)
        if n == 'v_weights3':
            g.restype = None; g.argtypes = [ctypes.c_double] * 3 + [ctypes.c_void_p]
            def w(*a):
                o = (ctypes.c_double * 3)(9e9, 9e9, 9e9); g(*[float(x) for x in a], o); return np.array(o[:])
            return w
        g.restype = ctypes.c_double
        def h(*a):
            g.argtypes = [ctypes.c_double] * len(a)
            return g(*[float(x) for x in a])
        return h

def simplex(c):
    r = c.rng
    k = r.integers(0, 10)
    p = r.dirichlet([1, 1, 1])
    if k == 6: p = np.array([.25, .25, .5])[r.permutation(3)]
    if k == 7: p = r.integers(0, 9, 3) + np.array([1e-9, 1e-9, 1e-9]); p = p / p.sum()
    if k == 8: p = np.array([.99, .01 * p[0], .01 * (1 - p[0])])[r.permutation(3)]
    if k == 9: p = np.roll([.5, .5, 0.], r.integers(3))
    if k == 0: p = np.eye(3)[r.integers(3)]
    if k == 1: p = np.roll([0., p[0], 1 - p[0]], r.integers(3))
    if k == 2: p = r.dirichlet([20, .3, .3])[r.permutation(3)]
    if k == 3: p = np.array([1 / 3] * 3)
    if k == 4:
        e_ = 10. ** r.uniform(-9, -3); p = np.roll([1 - e_, e_ / 2, e_ / 2], r.integers(3))
    if k == 5:
        e_ = r.uniform(0, .02); p = np.roll([1 - e_, e_ * p[0], e_ * (1 - p[0])], r.integers(3))
    return p

@spec('C02', n=60, dims=(2,))
def tilting(c):
    L = CX(c.lib); c.calls += 1
    c.ctx = 'three-phase tilting case %d' % c.idx
    for nm in ('fp', 'mo'):
        g = getattr(L, 'v_%s_g0' % nm); d0 = getattr(L, 'v_%s_dg0dp0' % nm); d1 = getattr(L, 'v_%s_dg0dp1' % nm)
        for k in range(8):
            p = simplex(c)
            rot = [np.roll(p, -a) for a in range(3)]
            v = np.array([g(*q) for q in rot])
            c.close(v.sum(), 1., atol=1e-12, what='%s: tilting functions of the three phases at %s sum to' % (nm, p), kind='partition')
            c.check((v >= -1e-14) & (v <= 1 + 1e-14), '%s: outside [0,1] at %s: %s' % (nm, p, v))
            for a in range(3):
                q = rot[a]
                c.close(g(q[0], q[2], q[1]), v[a], atol=1e-14, what='%s: not symmetric in the other phases' % nm)
                if q[0] == 1.: c.close(v[a], 1., atol=1e-14, what='%s: pure phase' % nm)
                if q[0] == 0.: c.close(v[a], 0., atol=1e-14, what='%s: absent phase' % nm)
                # closed forms
                p0, p1, p2 = q
                if nm == 'fp':
                    ref = .25 * p0 ** 2 * (15 * (1 - p0) * (1 + p0 - (p2 - p1) ** 2) + p0 * (9 * p0 ** 2 - 5))
                    r0 = 2.5 * p0 * ((p2 - p1) ** 2 * (3 * p0 - 2) + (1 - p0) ** 2 * (3 * p0 + 2))
                    r1 = -.5 * 2.5 * p1 * ((p2 - p0) ** 2 * (3 * p1 - 2) + (1 - p1) ** 2 * (3 * p1 + 2)) + 7.5 * p1 ** 2 * (1 - p1) * (p2 - p0)
                else:
                    s = (q ** 2).sum(); ref = p0 ** 2 / s
                    grad = np.array([2 * p0 * (p1 ** 2 + p2 ** 2), -2 * p0 ** 2 * p1, -2 * p0 ** 2 * p2]) / s ** 2
                    r0, r1 = grad[0] - grad.mean(), grad[1] - grad.mean()
                c.close(v[a], ref, atol=1e-13, what='%s g0 at %s' % (nm, q))
                c.close(d0(*q), r0, atol=1e-12, what='%s dg0/dp0 at %s' % (nm, q))
                c.close(d1(*q), r1, atol=1e-12, what='%s dg0/dp1 at %s' % (nm, q))
                # tangential derivatives: both are the gradient projected on the plane p0+p1+p2=1
                if q.min() > 1e-3:
                    h = 1e-6
                    G = [d0(*q), d1(*q), d1(q[0], q[2], q[1])]
                    c.close(sum(G), 0., atol=1e-10, what='%s: derivatives at %s do not sum to zero' % (nm, q), kind='balance')
                    for (a_, b_) in ((0, 1), (0, 2), (1, 2)):
                        u = np.zeros(3); u[a_], u[b_] = h, -h
                        s = (g(*(q + u)) - g(*(q - u))) / (2 * h)
                        c.close(G[a_] - G[b_], s, rtol=1e-5, atol=1e-7, what='%s: slope at %s along %d-%d' % (nm, q, a_, b_), kind='slope')
            # beyond the ends: fractions that over- or undershoot, with and without a unit sum
            for m in range(6):
                r = c.rng
                q = r.dirichlet([1, 1, 1]); e_ = 10. ** r.uniform(-12, .3)
                t = int(r.integers(0, 8))
                if t == 0: q = np.array([-e_, .5, .5])
                elif t == 1: q = np.array([1 + e_, .5, .5])
                elif t == 2: s_ = r.choice([0., .5, 1., r.uniform()]); q = np.array([1 + e_, -s_ * e_, -(1 - s_) * e_])
                elif t == 3: q = np.array([-e_, q[1], 1 + e_ - q[1]])
                elif t == 4: q = np.array([q[0], -e_, 1 + e_ - q[0]])
                elif t == 5: q = np.array([-e_, 1 + e_, 0.])
                elif t == 6: q = np.array([-e_, -e_, 1 + 2 * e_])
                else: q = np.array([.5, r.choice([-e_, 1 + e_]), .4])
                if r.random() < .5: q = q[[0, 2, 1]]
                if r.random() < .2: q = r.permutation(q)
                p0, p1, p2 = q
                if nm == 'fp':
                    def DG(a, b, d): return 0. if a < 0 or a > 1 else 2.5 * a * ((d - b) ** 2 * (3 * a - 2) + (1 - a) ** 2 * (3 * a + 2))
                    ref = 0. if p0 < 0 else 1. if p0 > 1 else .25 * p0 ** 2 * (15 * (1 - p0) * (1 + p0 - (p2 - p1) ** 2) + p0 * (9 * p0 ** 2 - 5))
                    r0 = DG(p0, p1, p2)
                    r1 = 0. if min(p0, p1) < 0 or max(p0, p1) > 1 else -.5 * DG(p1, p0, p2) + 7.5 * p1 ** 2 * (1 - p1) * (p2 - p0)
                else:
                    s = (q ** 2).sum()
                    grad = np.array([2 * p0 * (p1 ** 2 + p2 ** 2), -2 * p0 ** 2 * p1, -2 * p0 ** 2 * p2]) / s ** 2
                    ref, r0, r1 = (0., 0., 0.) if p0 < 0 else (p0 ** 2 / s, grad[0] - grad.mean(), grad[1] - grad.mean())
                sc = max(1., np.abs(q).max()) ** 5
                c.close(g(*q), ref, atol=1e-12 * sc, what='%s g0 beyond the ends at %s' % (nm, q), kind='clamp')
                c.close(d0(*q), r0, atol=1e-12 * sc, what='%s dg0/dp0 beyond the ends at %s' % (nm, q), kind='clamp')
                c.close(d1(*q), r1, atol=1e-12 * sc, what='%s dg0/dp1 beyond the ends at %s' % (nm, q), kind='clamp')
    c.digest = int(c.rng.integers(1 << 30))

@spec('C02', n=60, dims=(2,))
def pair_weights(c):
    L = CX(c.lib); c.calls += 1
    c.ctx = 'pair weights case %d' % c.idx
    for k in range(20):
        p = simplex(c)
        w = L.v_weights3(*p)
        c.check(np.isfinite(w).all() & (w >= 0).all() & (w <= 1).all(), 'weights %s at %s' % (w, p))
        c.close(w.sum(), 1., rtol=1e-5, what='weights at %s sum to' % p, kind='partition')
        W = {(0, 1): w[0], (0, 2): w[1], (1, 2): w[2]}
        for perm in itertools.permutations(range(3)):
            v = L.v_weights3(*p[list(perm)])
            for (a, b), x in (((0, 1), v[0]), ((0, 2), v[1]), ((1, 2), v[2])):
                i, j = sorted((perm[a], perm[b]))
                c.close(x, W[(i, j)], atol=1e-5, what='weight of pair %d%d at %s depends on the order of the phases' % (i, j, p), kind='symmetry')
        pp = p.copy()
        m = int(np.argmax(pp))
        if pp[m] > .99:
            dl = pp[m] - .99; pp[m] = .99
            for t in range(3):
                if t != m: pp[t] += .5 * dl
        # angles of the triangle of the pair mixtures
        P = {}
        for a, b in ((0, 1), (0, 2), (1, 2)):
            x = np.zeros(3); x[a], x[b] = pp[a], pp[b]; P[(a, b)] = x / x.sum()
        ks = list(P)
        for a in ks:
            o = [x for x in ks if x != a]
            u, t = P[o[0]] - P[a], P[o[1]] - P[a]
            ang = np.arctan2(np.linalg.norm(np.cross(u, t)), u @ t) / np.pi
            c.close(W[a], ang, atol=1e-6 if min(ang, 1 - ang) < 1e-3 else 1e-10, what='weight of pair %s at %s' % (a, p))
        for t in range(3):
            if p[t] == 0. and p.max() <= .99:
                a = tuple(x for x in range(3) if x != t)
                c.close(W[a], 1., atol=1e-5, what='two-phase weight at %s' % p)
    c.digest = int(c.rng.integers(1 << 30))

@spec('C02', n=10, dims=(2,))
def array_ops(c):
    L = CX(c.lib); c.calls += 1
    for k in range(10):
        a, b = c.rng.normal(size=2)
        if k > 4: a, b = c.rng.choice([0., -1., 1e-300, 1e300, -2.5, 1., 7.]), c.rng.choice([0., 3., -1e-8, 1e8, -1., .5])
        if k == 9: a = b
        c.close(L.v_mulop(a, b), a * b, what='multiply operation'); c.close(L.v_addop(a, b), a + b, what='add operation')
    c.digest = int(c.rng.integers(1 << 30))
