"""free energy: per-cell density, totals over patches, and totals over composite grids (cell weights)"""
import numpy as np
from harness import *
from qlib import *
import fref

def acc(c, v=None):
    return c.array([float(c.rng.uniform(-5, 5)) if v is None else v], 'total')

def out(c, A, ref, what, scale):
    A.written[...] = True
    c.close(A.a, np.reshape(ref, A.shape), what=what, scale=scale)

def cut(c, box):
    dirs = [d for d in range(c.nd) if box.shape[d] > 1]
    if not dirs: return [box]
    d = c.pick(dirs); k = int(c.rng.integers(box.lo[d], box.hi[d]))
    return [Box(box.lo, [k if t == d else h for t, h in enumerate(box.hi)]),
            Box([k + 1 if t == d else l for t, l in enumerate(box.lo)], box.hi)]

def additive(c, name, box, items, totals, what):
    """the energies of the two halves of a patch, accumulated into one total, are the energy of the patch"""
    parts = cut(c, box)
    T = [c.array(np.zeros(t.shape), 'total') for t in totals]
    for b in parts:
        memo = {}
        def sub(it):
            if it is box: return b
            if isinstance(it, Field):
                if id(it) not in memo: memo[id(it)] = it.sub(b)
                return memo[id(it)]
            if isinstance(it, Sides): return Sides([sub(x) for x in it])
            if isinstance(it, (list, tuple)): return [sub(x) for x in it]
            for t, z in zip(totals, T):
                if it is t: return z
            return it
        Call(c.lib, name, [sub(x) for x in items]).invoke(); c.calls += 1
    for t, z, b0 in zip(totals, T, [t.b for t in totals]):
        d = t.a - b0
        c.close(z.a, d, what='%s accumulated over the parts of a cut patch' % what, scale=np.abs(d) + np.abs(b0) + 1e-3, rtol=1e-10, kind='split')
    c.features_add('parts%d' % len(parts))

def weights(c, box):
    w = c.cell(box, 0, name='weight', how='pos')
    if c.pick([True, False]): w.a[c.rng.random(w.shape) < .3] = 0.
    return w

def iface(c, box, dx, phi, n, q, qlen, eps, an, kn):
    """interfacial energy density"""
    r = 0.
    for p in range(n):
        if not an > 0:
            lap = sum((-phi.v(box, e(c.nd, d), p) + 2 * phi.v(box, None, p) - phi.v(box, e(c.nd, d, -1), p)) / dx[d] ** 2 for d in range(c.nd))
            r = r + .5 * eps * eps * lap * phi.v(box, None, p)
            continue
        g = [.5 / dx[d] * (phi.v(box, e(c.nd, d), p) - phi.v(box, e(c.nd, d, -1), p)) for d in range(c.nd)]
        g2 = sum(x * x for x in g)
        if c.nd == 2:
            big = np.abs(g[0]) > 1e-12
            th = np.where(big, np.arctan(g[1] / np.where(big, g[0], 1)), .5 * np.pi)
            ref = np.arccos(np.clip(q.v(box, None, 0), -1, 1)) * (2 if qlen == 4 else 1)
            ep = eps * (1 + an * np.cos(kn * (th - ref)))
        else:
            big = g2 > 1e-12
            nn = np.stack([0 * g2] + [x / np.sqrt(np.where(big, g2, 1)) for x in g], -1)
            Q = q.v(box)
            nq = qmul(Q, qmul(nn, conj(Q)))
            n4 = np.where(big, (nq[..., 1:] ** 4).sum(-1), 0.)
            ep = eps * (1 - 3 * an) * (1 + 4 * an / (1 - 3 * an) * n4)
        r = r + .5 * ep * ep * g2
    return r

@spec('C09', n=80)
def quatenergy(c):
    box, dx = c.rbox(), c.dx()
    r = c.rng
    n = int(r.integers(1, 4))
    an = c.pick([-1., 0., float(r.uniform(.01, .2))])
    mis = c.pick([0., -1., float(r.uniform(.1, 2))])
    if mis > 0 and c.nd == 3: n = 1
    dep = c.pick([1, 2, 4]) if c.nd == 2 else 4 if an > 0 else c.pick([1, 4])
    gg, pg, qg, tg = c.ng(), c.ng(1, 3), c.ng(), c.ng()
    G = c.sides(box, gg, (dep, c.nd), c.pick(['sym', 'sym', 'zero']), name='gradq')
    phi = c.cell(box, pg, n, 'phase', 'phi')
    if r.random() < .2: phi.a[...] = .5
    q = Field(box, qg, dep, name='q'); q.a[...] = randq(r, q.shape[:-1], dep, norm=True)
    T, w, E = c.cell(box, tg, name='T', how='temp'), weights(c, box), c.cell(box, 0, name='energy')
    ep, eq, fl, ws = [float(x) for x in r.uniform(.1, 2, 4)]; fl *= .1
    kn = int(c.pick([4, 6, 2]))
    pi_, pw = c.pick('phl'), c.pick('ds')
    o1, o2, av, ft = c.pick('qphwl'), c.pick('qphwl'), c.pick('ah'), c.pick(['s', 'smooth', 'm', 't'])
    per = int(r.integers(0, 2))
    tot = [acc(c) for _ in range(5)]
    c.features_add('aniso%d' % (an > 0), 'mis%d' % (mis > 0), 'percell%d' % per, 'depth%d' % dep, 'floor' + ft[0], 'well' + pw, 'o1' + o1, 'o2' + o2, 'avg' + av)
    items = [box, dep, c.array(dx), G, gg, phi, pg, n, q, qg, ep, eq, an, kn, mis, T, tg, ws, w, tot, E, per, pi_, pw, o1, o2, av, ft, fl]
    c.call('quatenergy', *items)
    W = w.v(box)
    ei = iface(c, box, dx, phi, n, q, dep, ep, an, kn)
    eo = eqi = 0 * W
    if mis > 0:
        f2 = fl * fl if ft[0] == 's' else 0.
        for p in range(n if c.nd == 2 else 1):
            for d in range(c.nd):
                for s in (0, 1):
                    g2 = (G[d].v(box, e(c.nd, d, s)) ** 2).sum((-1, -2))
                    a = fref.average(phi.v(box, e(c.nd, d, s - 1), p), phi.v(box, e(c.nd, d, s), p), av)
                    eo = eo + np.sqrt(g2 + f2) * fref.interp(a, o1) / (2 * c.nd) * mis * T.v(box)
                    eqi = eqi + g2 / (2 * c.nd) * .5 * eq * eq * fref.interp(phi.v(box, None, p), o2)
    ew = ws * sum(fref.well(phi.v(box, None, p), pw) for p in range(n))
    S = lambda x: 1. + (np.abs(x) * np.abs(W)).sum() + 10
    tt = [ei + eo + eqi + ew, ei, eo, eqi, ew]
    for t, x, nm in zip(tot, tt, ['total energy', 'interfacial', 'orientational', 'orientation gradient', 'well']):
        out(c, t, t.b + (x * W).sum(), nm + ' energy', S(abs(ei) + abs(eo) + abs(eqi) + abs(ew)))
    if per: c.expect(E, box, tt[0], rtol=1e-10, scale=np.abs(ei) + np.abs(eo) + np.abs(eqi) + np.abs(ew))
    else: c.features_add('no density')
    add = items
    c.cl.poison = bool(per)
    additive(c, 'quatenergy', box, items, tot, 'energy')

@spec('C09', n=40)
def bulkenergy(c):
    box = c.rbox()
    pg = c.ng()
    phi = c.cell(box, pg, how='phase', name='phi')
    fl, fa, w, E = c.cell(box, 0, name='fl'), c.cell(box, 0, name='fa'), weights(c, box), c.cell(box, 0, name='energy')
    per, t = int(c.rng.integers(0, 2)), c.pick('qphwl')
    tot = [acc(c), acc(c)]
    items = [box, phi, pg, fl, fa, w, tot, E, per, t]
    c.features_add('percell%d' % per, t)
    c.call('bulkenergy', *items)
    h = fref.interp(phi.v(box), t)
    x = (1 - h) * fl.v(box) + h * fa.v(box)
    for k in (0, 1): out(c, tot[k], tot[k].b + (x * w.v(box)).sum(), 'bulk energy', 1 + np.abs(x * w.v(box)).sum() + 10)
    if per: c.expect(E, box, E.v(box) + x)
    c.cl.poison = bool(per)
    additive(c, 'bulkenergy', box, items, tot, 'bulk energy')

@spec('C09', n=20)
def temperature_energy(c):
    box = c.rbox()
    tg = c.ng()
    T, f = c.cell(box, tg, name='T', how='temp'), c.cell(box, 0, name='f')
    tm, la = float(c.rng.uniform(400, 1600)), float(c.rng.uniform(.1, 3))
    c.call('temperature_energy', box, T, tg, f, tm, la, split=True)
    c.expect(f, box, la * (tm - T.v(box)) / tm, atol=1e-12)

@spec('C09', n=40)
def phiphi_interfacialenergy(c):
    box = c.rbox()
    n, pg = int(c.rng.integers(1, 5)), c.ng()
    phi, w, E = c.cell(box, pg, n, 'phase', 'phi'), weights(c, box), c.cell(box, 0, name='density')
    g, m = [float(x) for x in c.rng.uniform(.5, 3, 2)]
    per = int(c.rng.integers(0, 2))
    tot = c.array(c.rng.uniform(-5, 5, n * n), 'total')
    items = [box, phi, pg, n, g, m, w, E, tot, per]
    c.call('phiphi_interfacialenergy', *items)
    P = [phi.v(box, None, k) ** 2 for k in range(n)]
    W = w.v(box)
    ref = tot.b + np.array([[(.5 * g * m * P[a] * P[b] * W).sum() for b in range(n)] for a in range(n)]).ravel()
    out(c, tot, ref, 'pair energies', 10 + np.abs(ref))
    if per: c.expect(E, box, .5 * g * m * sum(P) ** 2)
    c.cl.poison = bool(per)
    additive(c, 'phiphi_interfacialenergy', box, items, [tot], 'pair energy')
