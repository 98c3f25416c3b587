"""rigid-body motion and forces; multi-order and sintering evolution; orientation mobility; temperature models"""
import numpy as np
from harness import *
import fref

def cdiff(f, box, nd, d, m=None):
    return f.v(box, e(nd, d), m) - f.v(box, e(nd, d, -1), m)

def add_to(items, k):
    return items

@spec('C13', n=30)
def addrbmotion(c):
    box, dx = c.rbox(), c.dx()
    ngp, ngr = c.ng(1, 3), c.ng()
    p, r = c.cell(box, ngp, name='phase'), c.cell(box, ngr, name='rhs')
    v = c.rng.uniform(-2, 2, c.nd) * c.rng.integers(0, 2, c.nd)
    c.call('addrbmotion', box, c.array(dx), p, ngp, c.array(v), r, ngr, split=True)
    c.expect(r, box, r.v(box) - sum(.5 * v[d] / dx[d] * cdiff(p, box, c.nd, d) for d in range(c.nd)))

def forces_setup(c):
    box, dx = c.rbox(), c.dx()
    n = int(c.rng.integers(1, 5))
    ngp = c.ng(1, 3)
    p = c.cell(box, ngp, n, 'phase', 'phi')
    w = c.cell(box, 0, name='weight', how='pos')
    if c.pick([True, False]): w.a[c.rng.random(w.shape) < .3] = 0.       # cells covered by a finer level
    f0 = c.rng.uniform(-1, 1, (n, n, c.nd)) * c.rng.integers(0, 2)
    F = c.array(f0.ravel(), 'forces')
    c.features_add('phases%d' % n)
    return box, dx, n, p, ngp, w, f0, F

@spec('C13', n=30)
def phiphi_forces(c):
    box, dx, n, p, ngp, w, f0, F = forces_setup(c)
    g, m = float(c.rng.uniform(.5, 3)), float(c.rng.uniform(.5, 3))
    c.call('phiphi_forces', box, c.array(dx), p, ngp, n, g, m, w, F)
    r = f0.copy()
    for a in range(n):
        for b in range(n):
            for d in range(c.nd):
                if a != b:
                    r[a, b, d] += (g * m * p.v(box, None, a) ** 2 * p.v(box, None, b) * .5 * cdiff(p, box, c.nd, d, b) / dx[d] * w.v(box)).sum()
    F.written[...] = True
    c.close(F.a, r.ravel(), what='pair forces', scale=p_scale(p, w))
    c.cl.poison = False

def p_scale(p, w): return 1. + np.abs(w.b).max() * np.abs(p.b).max() * 3

@spec('C13', n=30)
def wang_forces(c):
    box, dx, n, p, ngp, w, f0, F = forces_setup(c)
    nc, ngc = int(c.rng.integers(1, 4)), c.ng()
    co = c.cell(box, ngc, nc, 'unit', 'conc')
    rho, th = float(c.rng.uniform(.5, 1.)), float(c.rng.uniform(.0, .4))
    c.call('wang_forces', box, c.array(dx), p, ngp, n, co, ngc, nc, rho, th, w, F)
    r = f0.copy()
    for a in range(n):
        for b in range(a):
            pp = .5 + (p.v(box, None, a) * p.v(box, None, b) - th) * 10
            k = np.where(pp > 0, fref.interp(pp, 'p'), 0.) * (np.minimum(sum(co.v(box, None, i) for i in range(nc)), 1.) - rho) * w.v(box)
            for d in range(c.nd):
                s = (k * .5 / dx[d] * (cdiff(p, box, c.nd, d, a) - cdiff(p, box, c.nd, d, b))).sum()
                r[a, b, d] += s; r[b, a, d] -= s
            if (pp > 0).any(): c.features_add('contact')
    F.written[...] = True
    c.close(F.a, r.ravel(), what='pair forces', scale=p_scale(p, w))
    # action and reaction
    g = F.a.reshape(n, n, c.nd) - f0
    c.check(np.abs(g + g.transpose(1, 0, 2)).max() <= 1e-11 * p_scale(p, w), 'force of a on b is not minus the force of b on a', 'reaction')
    c.cl.poison = False

def div(F, box, dx, nd, m=None):
    return sum((F[d].v(box, e(nd, d), m) - F[d].v(box, None, m)) / dx[d] for d in range(nd))

def orders(c, mn=1):
    box, dx = c.rbox(), c.dx()
    n = int(c.rng.integers(mn, 6))
    ngf, ngp, ngr = c.ng(), c.ng(), c.ng()
    F = c.sides(box, ngf, n, name='flux')
    phi = c.cell(box, ngp, n, 'phase', 'phi')
    s, r = c.cell(box, 0, name='phi2sum'), c.cell(box, ngr, n, name='rhs')
    c.features_add('order%d' % n)
    return box, dx, n, F, ngf, phi, ngp, s, r, ngr

@spec('C06', n=30)
def computerhsmultiorder(c):
    box, dx, n, F, ngf, phi, ngp, s, r, ngr = orders(c)
    g, m = float(c.rng.uniform(.5, 3)), float(c.rng.uniform(.5, 3))
    c.call('computerhsmultiorder', box, n, c.array(dx), F, ngf, g, m, phi, ngp, s, r, ngr, split=True)
    # the sum of squares minus the order parameter itself is what the routine couples each order parameter to
    q = sum(phi.v(box, None, k) ** 2 for k in range(n))
    c.expect(s, box, q)
    for k in range(n):
        p = phi.v(box, None, k)
        c.expect(r, box, div(F, box, dx, c.nd, k) - m * (p ** 3 - p + 2 * g * p * (q - COUPLE(p))), k)

COUPLE = lambda p: p * p

@spec('C06', n=30)
def computerhs_wang_sintering(c):
    box, dx, n, F, ngf, phi, ngp, s, r, ngr = orders(c)
    ngc = c.ng()
    co = c.cell(box, ngc, name='conc', how='phase')
    beta, b = float(c.rng.uniform(.5, 3)), float(c.rng.uniform(.5, 3))
    c.call('computerhs_wang_sintering', box, n, c.array(dx), F, ngf, beta, b, phi, ngp, co, ngc, s, r, ngr, split=True)
    q = sum(phi.v(box, None, k) ** 2 for k in range(n))
    c.expect(s, box, q)
    C = co.v(box)
    # bulk energy  B [ C^2 (1-C)^2 + s2^... ]: derivative of  b (C^2+6(1-C)sum p^2-4(2-C)sum p^3+3(sum p^2)^2)
    for k in range(n):
        p = phi.v(box, None, k)
        c.expect(r, box, beta * div(F, box, dx, c.nd, k) - b * (12 * (1 - C) * p - 12 * (2 - C) * p * p + 12 * q * p), k)

def qfunc(phi, t, alt):
    if t == 'p': return 1 - fref.interp(phi, 'p')
    if t == 'e':
        x = np.clip(phi, 0, 1)
        return 1 - (1 - np.exp(alt * x)) / (1 - np.exp(alt))
    x = np.clip(phi, 1e-6, 1)
    return np.minimum(np.maximum(0, (1 - x) / (x * x)), alt)

@spec('C14', n=60)
def quatmobility(c):
    box = c.rbox()
    ngm = c.ng(); ngp = c.ng(ngm, ngm + 2)
    p, M, D = c.cell(box, ngp, name='phase', how='phase'), c.cell(box, ngm, name='mob'), c.cell(box, ngm, name='dmob')
    t = c.pick(['p', 'P', 'pbg', 'e', 'E', 'exp', 'i', 'I', 'inverse'])
    k = t[0].lower()
    alt = float(c.rng.uniform(.5, 8) if k == 'e' else 10 ** c.rng.uniform(-.5, 6))
    mn = float(c.rng.uniform(1e-6, .1)); sc = mn + float(c.rng.uniform(.1, 3))
    if c.pick([True, False]) and k == 'i':
        p.a[c.rng.random(p.shape) < .5] = 10 ** c.rng.uniform(-7, -1)
    c.features_add(k)
    c.call('quatmobility', box, p, ngp, M, ngm, sc, mn, t, alt, split=True)
    gb = box.grow(ngm)
    c.expect(M, gb, mn + (sc - mn) * qfunc(p.v(gb), k, alt))
    mob = M.a.copy()
    c.call('quatmobilityderiv', box, p, ngp, D, ngm, sc, mn, t, alt, split=True)
    x = p.v(box)
    lo, hi = (1e-6 if k == 'i' else 0.), 1.
    y = np.clip(x, lo, hi)
    raw = (1 - y) / (y * y) if k == 'i' else None
    ex = {'p': lambda: -fref.dinterp(y, 'p'), 'e': lambda: alt * np.exp(alt * y) / (1 - np.exp(alt)),
          'i': lambda: np.where(raw < alt, (y - 2) / y ** 3, 0.)}[k]()
    ex = np.where((x < 0) | (x > 1), 0., ex)           # the function is constant there
    near = np.abs(raw - alt) < 1e-9 * alt if k == 'i' else np.zeros(x.shape, bool)
    got = D.g(box)
    c.expect(D, box, (sc - mn) * np.where(near, got / (sc - mn), ex))
    # slope: the derivative is that of the mobility (inside the range where it is smooth)
    h = 1e-6
    ok = (np.abs(x - lo) > .01) & (np.abs(x - hi) > .01) & ~near
    if k == 'i': ok &= (np.abs(raw - alt) > .05 * alt)
    num = (sc - mn) * (qfunc(x + h, k, alt) - qfunc(x - h, k, alt)) / (2 * h)
    c.check(np.abs(got - num)[ok] <= 1e-4 * (np.abs(num[ok]) + (sc - mn)), 'mobility derivative is not the slope of the mobility', 'slope')
    if k != 'i': c.check((got <= 0) | (sc < mn), 'mobility grows with the phase', 'monotone')

@spec('C08', n=30)
def source_temperature(c):
    box = c.rbox()
    a, b, d = c.ng(), c.ng(), c.ng()
    co, r, cp = c.cell(box, a, name='conc', how='unit'), c.cell(box, b, name='rhs'), c.cell(box, d, name='cp', how='pos')
    s = c.rng.uniform(-3, 3, 2)
    c.call('source_temperature', box, co, a, r, b, cp, d, c.array(s), 2, split=True)
    x = co.v(box)
    c.expect(r, box, (s[0] * x + s[1] * (1 - x)) / cp.v(box))

@spec('C08', n=40)
def heat_capacity_nkr(c):
    box = c.rbox()
    nc, npow = int(c.rng.integers(1, 4)), int(c.rng.integers(1, 5))
    a, b, d = c.ng(), c.ng(), c.ng()
    co, T, cp = c.cell(box, a, nc, name='conc', how='unit'), c.cell(box, b, name='T', how='temp'), c.cell(box, d, name='cp')
    pw = c.rng.permutation([-2, -1, 0, 1, 2])[:npow]
    k = c.rng.uniform(-1, 1, ((nc + 1), npow)) * 1000. ** (-pw[None].astype(float))
    c.call('heat_capacity_nkr', box, co, a, nc, T, b, cp, d, c.array(pw, dtype='i'), npow, c.array(k.ravel()), k.size, split=True)
    t = T.v(box)
    pure = [sum(k[m, j] * t ** float(pw[j]) for j in range(npow)) for m in range(nc + 1)]
    x = [co.v(box, None, m) for m in range(nc)]
    c.expect(cp, box, sum(pure[m] * x[m] for m in range(nc)) + pure[nc] * (1 - sum(x)), scale=sum(np.abs(q) for q in pure) * 3)

@spec('C08', n=30)
def linearmeltingline(c):
    box = c.rbox()
    a, b = c.ng(), c.ng()
    T, co = c.cell(box, a, name='temp'), c.cell(box, b, name='conc', how='unit')
    tr, cr, sl = float(c.rng.uniform(500, 1500)), float(c.rng.uniform(0, 1)), float(c.rng.uniform(-900, 900))
    c.call('linearmeltingline', box, T, a, co, b, tr, cr, sl, split=True)
    c.expect(T, box, tr + sl * (co.v(box) - cr))

def centres(f, xlo, dx):
    r = []
    for d in range(f.box.nd):
        x = xlo[d] + (np.arange(f.gbox.lo[d], f.gbox.hi[d] + 1) - f.box.lo[d] + .5) * dx[d]
        sh = [1] * f.box.nd; sh[d] = -1
        r.append(x.reshape(sh))
    return r

def dist2(c, f, xlo, dx, cen, per):
    r2 = 0.
    for d, x in enumerate(centres(f, xlo, dx)):
        a = np.abs(x - cen[d])
        if per[d] > 0: a = np.minimum(a, np.minimum(np.abs(x - cen[d] + per[d]), np.abs(x - cen[d] - per[d])))
        r2 = r2 + a * a
    return r2

def xsplit(c, xlo, dx, k):
    """a cut patch has its own lower corner"""
    def f(items, b, full):
        items = list(items)
        items[k] = c.array([xlo[d] + dx[d] * (b.lo[d] - full.lo[d]) for d in range(c.nd)])
        return items
    return f

def inner(f, a):
    sl = tuple(slice(g, s - g) for g, s in zip(f.ngs, f.gbox.shape))
    return np.broadcast_to(a, f.gbox.shape)[sl]

@spec('C08', n=40)
def gaussian_temperature(c):
    box, dx = c.rbox(), c.dx()
    L = dx * (np.array(box.shape) + c.rng.integers(0, 6, c.nd))
    xlo = c.rng.uniform(-3, 3, c.nd)
    per = L * c.rng.integers(0, 2, c.nd)
    cen = xlo + c.rng.uniform(0, 1, c.nd) * L
    sd, tb, tp = float(c.rng.uniform(.3, 2) * L.max()), float(c.rng.uniform(300, 900)), float(c.rng.uniform(300, 1900))
    a = c.ng()
    T = c.cell(box, a, name='T')
    c.features_add(*['periodic%d=%d' % (d, per[d] > 0) for d in range(c.nd)])
    c.call('initgaussian', c.array(dx), c.array(xlo), box, T, a, c.array(cen), c.array(per), sd, tb, tp, split=xsplit(c, xlo, dx, 1))
    c.expect(T, T.gbox, np.broadcast_to(tb + (tp - tb) * np.exp(-dist2(c, T, xlo, dx, cen, per) / (2 * sd * sd)), T.gbox.shape))
    b, g = c.ng(), c.ng()
    r, cp = c.cell(box, b, name='rhs'), c.cell(box, g, name='cp', how='pos')
    hp = float(c.rng.uniform(-5, 5))
    c.call('initgaussiansource', c.array(dx), c.array(xlo), box, r, b, cp, g, c.array(cen), c.array(per), sd, hp, split=xsplit(c, xlo, dx, 1))
    c.expect(r, box, hp * inner(r, np.exp(-dist2(c, r, xlo, dx, cen, per) / (2 * sd * sd))) / cp.v(box))

@spec('C08', n=30)
def gradient_temperature(c):
    box, dx = c.rbox(), c.dx()
    xlo, ref, gr = c.rng.uniform(-3, 3, c.nd), c.rng.uniform(-3, 3, c.nd), c.rng.uniform(-3, 3, c.nd) * c.rng.integers(0, 2, c.nd)
    T0 = float(c.rng.uniform(300, 900))
    a = c.ng()
    T = c.cell(box, a, name='T')
    c.call('initgradient', c.array(dx), c.array(xlo), box, T, a, c.array(ref), T0, c.array(gr), split=xsplit(c, xlo, dx, 1))
    c.expect(T, T.gbox, np.broadcast_to(T0 + sum(gr[d] * (x - ref[d]) for d, x in enumerate(centres(T, xlo, dx))), T.gbox.shape))
