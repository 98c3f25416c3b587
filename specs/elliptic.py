"""linear solver kernels for scalar elliptic equations  m div(D grad u) + s u = f"""
import numpy as np
from harness import *
import fref

def ngv(c, mn=0, mx=2): return tuple(int(x) for x in c.rng.integers(mn, mx + 1, c.nd))
def L(g): return list(g)
def fdiv(F, b, dx, nd): return sum((F[d].v(b, e(nd, d)) - F[d].v(b)) / dx[d] for d in range(nd))
def sx(c, n): return '%s%dd' % (n, c.nd)

@spec('C11', n=25)
def efo_compflux(c):
    box, dx = c.rbox(), c.dx()
    g = [ngv(c), ngv(c), ngv(c, 1)]
    F, D, u = c.sides(box, g[0], name='flux'), c.sides(box, g[1], name='D'), c.cell(box, g[2], name='u')
    if c.lib.sigs.get(sx(c, 'efo_compfluxcondc')) and c.pick([True, False]):
        k = float(c.rng.uniform(.1, 2))
        c.features_add('const')
        c.call(sx(c, 'efo_compfluxcondc'), F, L(g[0]), k, u, L(g[2]), box, c.array(dx), split=True)
        co = lambda d, sb: k
    else:
        c.call(sx(c, 'efo_compfluxvardc'), F, L(g[0]), D, L(g[1]), u, L(g[2]), box, c.array(dx), split=True)
        co = lambda d, sb: D[d].v(sb)
    for d in range(c.nd):
        sb = box.side(d)
        c.expect(F[d], sb, co(d, sb) * (u.v(sb) - u.v(sb, e(c.nd, d, -1))) / dx[d])

def system(c):
    box, dx = c.rbox(), c.dx()
    s = lambda: 0
    s.box, s.dx = box, dx
    s.gf, s.gd, s.gr, s.gs, s.gm, s.gu = ngv(c), ngv(c), ngv(c), ngv(c), ngv(c), ngv(c)
    s.F, s.D = c.sides(box, s.gf, name='flux'), c.sides(box, s.gd, name='D', how='pos')
    s.rhs, s.m, s.u = c.cell(box, s.gr, name='rhs'), c.cell(box, s.gm, name='m', how='pos'), c.cell(box, s.gu, name='u')
    s.sfv = c.cell(box, s.gs, name='sf', how=lambda r, sh: -r.uniform(0, 2, sh))
    s.sfc = -float(c.rng.uniform(0, 2))
    s.varsf, s.vard = c.pick([True, False]), c.rng.random() < .5
    s.sfa = [s.sfv, L(s.gs)] if s.varsf else [s.sfc]
    s.sf = (lambda b: s.sfv.v(b)) if s.varsf else (lambda b: s.sfc)
    s.dc = float(c.rng.uniform(.1, 2))
    c.features_add('sf%d' % s.varsf)
    s.vs = 'varsf' if s.varsf else 'consf'
    return s

def op(c, s):
    return s.m.v(s.box) * fdiv(s.F, s.box, s.dx, c.nd) + s.sf(s.box) * s.u.v(s.box)

@spec('C11', n=40)
def efo_residual_and_operator(c):
    s = system(c)
    ga = ngv(c)
    a = c.cell(s.box, ga, name='out')
    dx = c.array(s.dx)
    if c.pick([True, False]):
        c.features_add('res')
        c.call(sx(c, 'efo_compresvarsca' if s.varsf else 'efo_compresconsca'), s.F, L(s.gf), s.rhs, L(s.gr), a, L(ga), s.sfa, s.m, L(s.gm), s.u, L(s.gu), s.box, dx, split=True)
        c.expect(a, s.box, s.rhs.v(s.box) - op(c, s))
    else:
        c.features_add('acc')
        c.call(sx(c, 'accumopvarsca' if s.varsf else 'accumopconsca'), s.F, L(s.gf), a, L(ga), s.sfa, s.m, L(s.gm), s.u, L(s.gu), s.box, dx, split=True)
        c.expect(a, s.box, a.v(s.box) - op(c, s))

def colour(c, box, off):
    """cells of one colour of the checkerboard"""
    I = np.indices(box.shape)
    lo = box.lo
    if c.nd == 2: p = (lo[1] + lo[1] + I[1] + I[0]) % 2
    else: p = (lo[0] + (lo[1] + I[1]) + (lo[2] + I[2]) + I[0]) % 2
    return p == off

@spec('C11', n=50)
def efo_rbgs(c):
    s = system(c)
    off = int(c.rng.integers(0, 2))
    mr = c.array([7.], 'maxres'); mr.written[...] = True
    dca = [s.D, L(s.gd)] if s.vard else [s.dc]
    fn = sx(c, 'efo_rbgswithfluxmax%s%s' % ('vardc' if s.vard else 'condc', s.vs))
    c.features_add('d%d' % s.vard, 'off%d' % off)
    c.call(fn, s.F, L(s.gf), dca, s.rhs, L(s.gr), s.sfa, s.m, L(s.gm), s.u, L(s.gu), s.box, c.array(s.dx), off, mr)
    mr.written[...] = True
    b = s.box
    res = s.rhs.v(b) - op(c, s)
    if s.vard: dg = sum((s.D[d].v(b) + s.D[d].v(b, e(c.nd, d))) / s.dx[d] ** 2 for d in range(c.nd))
    else: dg = sum(2 * s.dc / s.dx[d] ** 2 for d in range(c.nd))
    diag = s.sf(b) - s.m.v(b) * dg
    col = colour(c, b, off)
    c.expect(s.u, b, np.where(col, s.u.v(b) + res / diag, s.u.v(b)))
    c.close(mr.a, np.array([np.abs(res[col]).max() if col.any() else 0.]), what='largest residual')

@spec('C11', n=20)
def efo_smoother_converges(c):
    """flux, red-black sweeps and residual kernels used together: error of the linear system falls sweep by sweep"""
    s = system(c)
    box, nd, dx = s.box, c.nd, s.dx
    s.gu = (1,) * nd
    s.u = c.cell(box, 1, name='u'); s.u.a[...] = 0.
    full = s.u
    full.a[full._sl(box)] = c.rng.uniform(-1, 1, box.shape)
    N = box.size
    idx = np.arange(N).reshape(box.shape)
    A = np.zeros((N, N)); b = np.zeros(N)
    dxa = c.array(dx)
    rhs = s.rhs.a[s.rhs._sl(box)]
    m = s.m.a[s.m._sl(box)]; sf = s.sfv.a[s.sfv._sl(box)] if s.varsf else np.full(box.shape, s.sfc)
    for p in np.ndindex(*box.shape):
        i = idx[p]
        A[i, i] += sf[p] / m[p]
        for d in range(nd):
            Dd = s.D[d].a[s.D[d]._sl(box.side(d))]
            for k, sg in ((p[d], -1), (p[d] + 1, 1)):
                q = list(p); q[d] = k
                w = Dd[tuple(q)] / dx[d] ** 2
                A[i, i] -= w
                r = list(p); r[d] += sg
                if 0 <= r[d] < box.shape[d]: A[i, idx[tuple(r)]] += w
        b[i] = rhs[p] / m[p]
    x = np.linalg.solve(A, b)
    en = []
    mr = c.array([0.], 'maxres')
    for it in range(12):
        err = full.a[full._sl(box)].ravel() - x
        en.append(float(-err @ A @ err))
        for off in (0, 1):
            c.call(sx(c, 'efo_compfluxvardc'), s.F, L(s.gf), s.D, L(s.gd), full, [1] * nd, box, dxa, poison=False)
            for F in s.F: F.written[...] = True
            c.call(sx(c, 'efo_rbgswithfluxmaxvardc%s' % s.vs), s.F, L(s.gf), s.D, L(s.gd), s.rhs, L(s.gr), s.sfa, s.m, L(s.gm), full, [1] * nd, box, dxa, off, mr, poison=False)
            mr.written[...] = True; full.w(box)
    err = full.a[full._sl(box)].ravel() - x
    en.append(float(-err @ A @ err))
    c.ctx = 'red-black smoother %dd case %d' % (nd, c.idx)
    c.check(all(en[k + 1] <= en[k] * (1 + 1e-9) + 1e-12 * (1 + en[0]) for k in range(len(en) - 1)), 'error of the linear system grows in a smoothing sweep: %s' % en, 'convergence')
    c.check(en[-1] <= .9 * en[0] + 1e-12, 'smoothing sweeps do not reduce the error: %s' % en, 'convergence')
    # exact solution has no residual
    full.a[full._sl(box)] = x.reshape(box.shape)
    out = c.cell(box, 0, name='out')
    c.call(sx(c, 'efo_compfluxvardc'), s.F, L(s.gf), s.D, L(s.gd), full, [1] * nd, box, dxa, poison=False)
    for F in s.F: F.written[...] = True
    c.call(sx(c, 'efo_compres%ssca' % ('var' if s.varsf else 'con')), s.F, L(s.gf), s.rhs, L(s.gr), out, [0] * nd, s.sfa, s.m, L(s.gm), full, [1] * nd, box, dxa, poison=False)
    out.w(box)
    c.check(np.abs(out.g(box)).max() <= 1e-8 * (1 + np.abs(x).max()) * (1 + np.abs(A).max() * m.max()), 'residual of the exact discrete solution is %r' % np.abs(out.g(box)).max(), 'consistency')

@spec('C11', n=60)
def efo_ewingfixflux(c):
    """coarse-fine correction of the flux on one boundary of a fine patch"""
    nd = c.nd
    r = [int(x) for x in c.rng.integers(2, 5, nd)]
    lo = [int(x) * k for x, k in zip(c.rng.integers(-3, 4, nd), r)]
    n = [int(x) * k for x, k in zip(c.rng.integers(1, 3, nd), r)]
    box = Box(lo, [l + x - 1 for l, x in zip(lo, n)])
    dx = c.dx()
    loc = c.pick(range(2 * nd)); d, up = loc // 2, loc % 2
    # boundary box: layer of ghost cells next to the face, possibly only a part of it, possibly longer than the patch
    bl, bh = list(box.lo), list(box.hi)
    for t in range(nd):
        if t == d:
            bl[t] = bh[t] = box.lo[t] - 1 if not up else box.hi[t] + 1
        else:
            k = c.pick(range(3))
            if k == 1 and n[t] > r[t]:
                if c.pick([True, False]): bl[t] += r[t]
                else: bh[t] -= r[t]
            elif k == 2: bl[t] -= r[t]; bh[t] += r[t]
    g = [ngv(c), ngv(c), ngv(c)]
    F, D, u = c.sides(box, g[0], name='flux'), c.sides(box, g[1], name='D', how='pos'), c.cell(box, g[2], name='u')
    vard = c.pick([True, False])
    k = float(c.rng.uniform(.1, 2))
    c.features_add('loc%d%d' % (loc, vard), 'r%d' % r[d])
    bl_, bu_, rr = c.array(bl, 'blower', 'i'), c.array(bh, 'bupper', 'i'), c.array(r, 'ratio', 'i')
    if vard: c.call(sx(c, 'efo_ewingfixfluxvardc'), F, L(g[0]), D, L(g[1]), u, L(g[2]), box, loc, rr, bl_, bu_, c.array(dx))
    else: c.call(sx(c, 'efo_ewingfixfluxcondc'), F, L(g[0]), k, u, L(g[2]), box, loc, rr, bl_, bu_, c.array(dx))
    rl = [max(a, b) for a, b in zip(bl, box.lo)]; rh = [min(a, b) for a, b in zip(bh, box.hi)]
    cell = box.hi[d] if up else box.lo[d]
    rl[d] = rh[d] = cell
    cb = Box(rl, rh)                       # interior cells next to the face
    fb = cb.shift(e(nd, d)) if up else cb  # the face
    w = 1. / (1 + r[d])
    uc = u.v(cb)
    ur = uc.copy()
    for t in range(nd):                    # reflected inside each coarse cell
        if t == d: continue
        ur = np.moveaxis(ur, t, 0)
        ur = ur.reshape((ur.shape[0] // r[t], r[t]) + ur.shape[1:])[:, ::-1].reshape(ur.shape)
        ur = np.moveaxis(ur, 0, t)
    dc = D[d].v(fb) if vard else k
    sg = -1. if up else 1.
    c.expect(F[d], fb, 2 * w * F[d].v(fb) + sg * w * dc * (ur - uc) / dx[d])

@spec('C11', n=30)
def setc(c):
    box = c.rbox()
    g = ngv(c)
    u, M, o = c.cell(box, g, name='phi', how='phase'), c.cell(box, 0, name='mobility', how='pos'), c.cell(box, 0, name='c')
    f = float(c.rng.uniform(.1, 2)); w = c.pick(['d', 's'])
    c.features_add(w)
    c.call(sx(c, 'setc'), u, L(g), M, f, o, box, w, split=True)
    c.expect(o, box, 1 + f * M.v(box) * fref.d2well(u.v(box), w))

@spec('C11', n=20)
def setexactandrhs(c):
    """manufactured solution of  -laplace u + 5 u = f  used to test the solvers"""
    box, dx = c.rbox(), c.dx() * .2
    xl = c.rng.uniform(-.5, .5, c.nd)
    ex, rh = c.cell(box, 1, name='exact'), c.cell(box, 0, name='rhs')
    c.call(sx(c, 'setexactandrhs'), box, ex, rh, c.array(dx), c.array(xl))
    X = np.meshgrid(*[xl[d] + dx[d] * (np.arange(box.shape[d]) + .5) for d in range(c.nd)], indexing='ij')
    s = np.prod([np.sin(np.pi * x) for x in X], axis=0)
    c.expect(ex, box, 1 + s, atol=1e-5)
    c.expect(rh, box, 5 * (1 + s) + c.nd * np.pi ** 2 * s, atol=1e-4)

@spec('C11', n=20)
def multiplyoffdiagbym(c):
    box = c.rbox()
    g, h = c.ng(), c.ng(1, 2)
    O, s = c.sides(box, g, name='off'), c.cell(box, h, name='sqrtm', how='pos')
    c.call('multiplyoffdiagbym', box, O, g, s, h, split=True)
    for d in range(c.nd):
        sb = box.side(d)
        c.expect(O[d], sb, O[d].v(sb) * s.v(sb) * s.v(sb, e(c.nd, d, -1)))

@spec('C11', 'C15', n=20)
def settozero(c):
    box = c.rbox(); g = ngv(c)
    f = c.cell(box, g, name='array')
    c.call('settozero', list(box.lo), list(box.hi), list(f.gbox.lo), list(f.gbox.hi), f)
    c.expect(f, box, 0.)
