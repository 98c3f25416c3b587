"""the preconditioner of the coupled equations, applied by the real QuatModel on the stand-ins (HYPRE's: conjugate gradients to convergence)"""
import numpy as np
from harness import *
import mod, vary, mdl, fref, shadow
from mod import Model
from specs.model import deck_of, variant, first
from specs.stages import opened, geometry, on, compare
M = 'ModelParameters/'
P = 'Integrator/Preconditioner/'

def flag(m, k, df): return str(m.d.one(k, df)).strip('"').upper() == 'TRUE'

def lap(S, D, z):
    """div(D grad z); D: number or one array of lower sides per axis"""
    o = 0.
    for d in range(S.nd):
        k = D[d] if isinstance(D, (list, tuple)) else D
        f = k * (z - np.roll(z, 1, d)) / S.dx[d]
        o = o + (np.roll(f, -1, d) - f) / S.dx[d]
    return o

def div(S, o, f):
    return sum((o.nxt(f[d], d) - f[d]) / S.dx[d] for d in range(S.nd))

def coupling(S, o, z):
    """derivative of the orientation rate (without the constraint) along a change z of the order parameter, at fixed gradients; the part of
    the diffusion that does not depend on the misorientation is held fixed"""
    G = o.sides(o.diffs()); ph = S.field('phase')
    def at(x, t2):
        o.S = S.at(phase=ph + x * z); o.S.T2 = t2
        K, Mq = o.facecoef(G), o.mobility()[..., None]
        o.S = S
        return K, Mq
    full, base = at(0., S.T2)[0], at(0., 'c')[0]
    def rate(x):
        K, Mq = at(x, 'c')
        return -Mq * div(S, o, [(K[d] - base[d] + full[d])[..., None] * (o.q - o.prev(o.q, d)) / S.dx[d] for d in range(S.nd)])
    h = 1e-5 / max(np.abs(z).max(), 1e-30)
    return (8 * (rate(h) - rate(-h)) - rate(2 * h) + rate(-2 * h)) / (12 * h)

def blocks(S, gamma, z):
    """what the blocks of (I - gamma J) make of z, with the coefficients of the current state"""
    out = {}
    m = S.m
    if 'phase' in z:
        Mo = S.field('phase_mobility')[..., 0]; ph = S.field('phase')
        C = 1. + (gamma * Mo * S.ws * fref.d2well(ph, S.well)[..., 0] if ph.shape[-1] == 1 else 0.)
        out['phase'] = np.stack([C * u + Mo * lap(S, -gamma * S.eps ** 2, u) for u in np.moveaxis(z['phase'], -1, 0)], -1)
    if 'temperature' in z: out['temperature'] = z['temperature'] + lap(S, -gamma * 1e8 * S.g('Temperature/thermal_diffusivity'), z['temperature'][..., 0])[..., None]
    if 'concentration' in z:
        mb = S.g('ConcentrationModel/mobility', 1.)
        out['concentration'] = np.stack([z['concentration'][..., i] - gamma * mb * lap(S, [a.a[..., 0] for a in S.side('conc_pfm_diffusion%d' % i)], z['concentration'][..., i]) for i in range(S.nc)], -1)
    if 'quat' in z:
        o = shadow.Orient(S, m.c.lib)
        K = o.facecoef(o.sides(o.diffs())); q = z['quat']
        out['quat'] = q + gamma * S.field('quat_mobility')[..., :1] * div(S, o, [K[d][..., None] * (q - o.prev(q, d)) / S.dx[d] for d in range(S.nd)])
        if flag(m, P + 'precond_has_dquatdphi', 'TRUE'): out['quat'] = out['quat'] - gamma * coupling(S, o, z['phase'])
    return out

OPT = dict(phase='precondition_phase', quat='precondition_quat', concentration='precondition_concentration', temperature='precondition_temperature')

def run_precond(c, m):
    S = shadow.Shadow(m)
    if 'quat' in m.rhs(0., 0) and S.t('stencil_type', 'normal') == 'isotropic': raise Skip('isotropic orientation differences')
    ids = m.w.precond()
    nm = {v: k for k, v in m.w.names().items()}
    r0 = m.rhs(0., 0)
    comp = list(m.comps)
    gamma = float(10. ** c.rng.uniform(-3, 1))
    if 'phase' in comp:
        # a time step for which the phase block is positive
        Mo = S.field('phase_mobility').max()
        gamma = min(gamma / (Mo * S.eps ** 2 * 4 * sum(1 / x ** 2 for x in S.dx)), .4 / (Mo * 16 * S.ws) if S.ws else 1e99)
    res = {}
    for k, (r, z) in zip(comp, ids):
        a = c.rng.standard_normal(r0[k].shape)
        m.w.scatter(r, a); res[k] = a
    lr = int(c.pick([1, 1, 1, 2, 0]))
    rc = m.w.precond_apply(gamma, 1e-8, lr)
    if rc[0] or rc[2] != 1: raise Violation('status', '%s: set-up returns %d (flag %d), application %d' % (c.ctx, rc[0], rc[2], rc[1]), what='status')
    z = {k: m.w.gather(i) for k, (_, i) in zip(comp, ids)}
    A = blocks(S, gamma, z) if lr else None
    for k in comp:
        active = lr and flag(m, P + OPT[k], 'TRUE')
        if active and k not in A: raise Skip('not documented here: ' + k)
        a = A[k] if active else z[k]
        c.features_add(k, 'active' if active else 'passive')
        if not active: compare(c, 'component %s, not preconditioned,' % k, a, res[k], 1e-15)
        else:
            # HYPRE's part is solved to convergence; the cycles stop at a root mean square of 1e-8 or after ten of them
            e = float(np.sqrt(np.mean((a - res[k]) ** 2)))
            c.points += a.size; c.nontriv = True
            if rc[1]: c.features_add(k, 'cycles exhausted')
            if not e <= (2e-2 if rc[1] else 2e-4): raise Violation('residual', '%s: residual of the %s block after the preconditioner has root mean square %g (data: 1), status %d' % (c.ctx, k, e, rc[1]), what='residual')

@spec('C11', n=160, world=True, nogeneric=True, flavours=('plain',))
def precond_blocks(c):
    """the preconditioner solves the documented blocks"""
    dk = deck_of(c, mod.NOISE + ('CahnHilliard',))
    ed = variant(c, dk, per=47)
    def more(d, f):
        d.put(P + 'enabled', ['TRUE'])
        sym = (d.one('Symmetry/enabled', '') or '').strip('"').upper() == 'TRUE'
        d.put(M + 'use_diffs_to_compute_flux', None)         # refused together with the preconditioner
        d.put(P + 'precond_has_dquatdphi', ['FALSE' if sym or not c.pick([True, True, False]) else 'TRUE'])
        for k in ('precond_has_dTdphi', 'precond_has_dPhidT'): d.put(P + k, None)
        for k in [x for q, x in OPT.items() if q != 'temperature']: d.put(P + k, ['FALSE' if c.rng.random() < .15 else 'TRUE'])
    def go():
        n = mod.size(c.nd, c.rng)
        run_precond(c, Model(c, dk, n=n, edit=opened(ed, more), boxes=mod.cutboxes(c.rng, n, int(c.rng.integers(1, 5))), precond=True))
    first(c, True, go)

def run_linear(c, m):
    ids = m.w.precond(); r0 = m.rhs(0., 0); comp = list(m.comps)
    gamma = float(10. ** c.rng.uniform(-6, -2))
    if 'phase' in comp:
        S = shadow.Shadow(m); Mo = S.field('phase_mobility').max()
        gamma = min(gamma / (Mo * S.eps ** 2 * 4 * sum(1 / x ** 2 for x in S.dx)), .4 / (Mo * 16 * S.ws) if S.ws else 1e99)
    def apply(a):
        for k, (r, _) in zip(comp, ids): m.w.scatter(r, a[k])
        rc = m.w.precond_apply(gamma, 1e-8, 1)
        if rc[0] or rc[2] != 1: raise Violation('status', '%s: set-up returns %d (flag %d), application %d' % (c.ctx, rc[0], rc[2], rc[1]), what='status')
        if rc[1]: raise Skip('cycles exhausted')
        return {k: m.w.gather(i) for k, (_, i) in zip(comp, ids)}
    rnd = lambda: {k: c.rng.standard_normal(r0[k].shape) for k in comp}
    z = apply({k: 0. * r0[k] for k in comp})
    for k in comp: compare(c, 'correction of %s for a vanishing residual' % k, z[k], 0 * z[k], 1., scale=1e-6)
    a, b = rnd(), rnd(); x, y = c.rng.uniform(-1, 1, 2)
    za, zb, zs = apply(a), apply(b), apply({k: x * a[k] + y * b[k] for k in comp})
    for k in comp: compare(c, 'correction of %s for a combination of residuals' % k, zs[k], x * za[k] + y * zb[k], 1e-5, floor=1.)

@spec('C11', n=120, world=True, nogeneric=True, flavours=('plain',))
def precond_linear(c):
    """the preconditioner is linear whatever the boundary conditions, values other than zero included"""
    dk = deck_of(c, mod.NOISE + ('CahnHilliard',))
    ed = variant(c, dk, per=47)
    def more(d, f):
        if ed: ed(d, f)
        d.put(P + 'enabled', ['TRUE']); d.put(M + 'use_diffs_to_compute_flux', None)
        if (d.one('Symmetry/enabled', '') or '').strip('"').upper() == 'TRUE': d.put(P + 'precond_has_dquatdphi', ['FALSE'])
        for k in ('precond_has_dTdphi', 'precond_has_dPhidT'): d.put(P + k, None)
    def go():
        n = mod.size(c.nd, c.rng)
        run_linear(c, Model(c, dk, n=n, edit=more, boxes=mod.cutboxes(c.rng, n, int(c.rng.integers(1, 5))), precond=True))
    first(c, True, go)
