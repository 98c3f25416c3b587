"""reference for the stages of a run: parameters of the deck, periodic shifts, energies of the stand-in thermodynamics, documented formulas"""
import numpy as np
import fref

MP = 'ModelParameters/'
RGAS = 8.314472
T0 = [dict(a=[100., 90.], x0=[.30, .20], m=1e-4, s=3., e=1., g=-.01, tref=1000.),
      dict(a=[140., 160.], x0=[.10, .35], m=2e-4, s=5., e=2., g=-.012, tref=1000.),
      dict(a=[170., 150.], x0=[.55, .12], m=-1e-4, s=7., e=2.5, g=-.013, tref=1000.)]

class P:
    """periodic array: v(_, shift, component)"""
    def __init__(self, a): self.a = np.asarray(a)
    def v(self, box=None, s=None, m=None):
        a = self.a if m is None else self.a[..., m]
        if s is not None:
            for d, k in enumerate(s):
                if k: a = np.roll(a, -k, axis=d)
        return a

def sides(w, name, ln=0):
    """side field: entry i of axis d is the lower side of cell i (periodic domain: the last side is the first)"""
    i = w.id(name + '/CURRENT') if isinstance(name, str) else name
    out = []
    for d, a in enumerate(w.sides(i, ln)):
        out.append(P(np.take(a, range(a.shape[d] - 1), axis=d)))
    return out

def unq(x): return None if x is None else str(x).strip('"')

class Shadow:
    def __init__(s, m):
        s.m, s.d, s.nd = m, m.d, m.c.nd
        d = m.d
        g = lambda k, df=None: d.num(MP + k, df)
        t = lambda k, df=None: unq(d.one(MP + k)) if d.one(MP + k) is not None else df
        s.g, s.t = g, t
        L = [float(b) - float(a) for a, b in zip(d.get_path('Geometry/x_lo'), d.get_path('Geometry/x_up'))]
        s.dx = [l / k for l, k in zip(L, m.n)]; s.V = float(np.prod(s.dx))
        s.mp = d.get_path('ModelParameters') or {}
        s.three = t('three_phases', 'FALSE').upper() == 'TRUE'
        s.norderp = int(g('norderp', 1)); s.norderpA = int(g('norderp_A', 1 if s.norderp == 1 else s.norderp - 1))
        s.H = g('H_parameter', -1.)
        if g('Interface/sigma'):
            sg, de = g('Interface/sigma'), g('Interface/delta')
            s.eps = np.sqrt(6 * sg * de); s.ws = 3 * sg / de / 16
        else:
            s.eps = s.alias('epsilon_phi', 'epsilon_phase', 'epsilon_parameter', 'Interface/epsilon_phi'); s.ws = s.alias('phi_well_scale', 'scale_energy_well', 'Interface/phi_well_scale')
        s.an = g('epsilon_anisotropy', -1.)
        if s.an > 0 and s.H < 0: s.H = 0.
        # temperature in units of the melting temperature when its evolution is computed
        s.unsteady = t('Temperature/type') == 'heat' and t('Temperature/equation_type', 'steady') != 'steady'
        s.scale = g('Temperature/meltingT') if s.unsteady and (g('Temperature/meltingT') or -1.) > 0 else 1.
        s.H = s.H * s.scale if s.H > 0 else s.H
        s.well = (t('phi_well_func_type') or t('energy_well_func_type') or 'double')[0]
        s.ei = (t('energy_interp_func_type') or t('phi_interp_func_type') or 'pbg')[0].lower()
        s.ci = (t('conc_interp_func_type') or s.ei)[0].lower()
        s.di = t('diffusion_interp_func_type', 'linear')[0]
        s.avg = t('avg_func_type', 'harmonic')[0]
        s.davg = t('diffq_avg_func_type', s.avg)[0]
        s.cavg = t('ConcentrationModel/avg_func_type', s.avg)[0]
        s.model = t('ConcentrationModel/model'); s.conc = s.model is not None
        s.rhsform = t('ConcentrationModel/rhs_form', 'kks')
        s.nc = int(g('ConcentrationModel/nspecies', 2)) - 1 if s.conc else 0
        s.T1 = (t('orient_interp_func_type1') or 'quadratic')[0]; s.T2 = (t('orient_interp_func_type2') or 'constant')[0]
        s.epsq = s.alias('epsilon_orient', 'epsilon_q', 'epsilon_quat')
        mv = s.alias('molar_volume', 'ConcentrationModel/molar_volume')
        ml = mv or s.alias('molar_volume_liquid', 'ConcentrationModel/molar_volume_liquid')
        ma = mv or s.alias('molar_volume_solid_A', 'ConcentrationModel/molar_volume_solid_A')
        mb = mv or s.alias('molar_volume_solid_B', 'ConcentrationModel/molar_volume_solid_B') or ma
        s.vm = [ml, ma, mb]
        s.k = [1e-6 / x if x else None for x in s.vm]
    def alias(s, *ks):
        for k in ks:
            if s.g(k) is not None: return s.g(k)
    def at(s, **f):
        """the same with some fields replaced"""
        import copy
        r = copy.copy(s); r.field = lambda n, ln=0: f[n] if n in f else s.field(n, ln)
        return r
    def periodic(s): return all(int(x) for x in s.d.get_path('Geometry/periodic_dimension') or [1] * s.nd)
    def field(s, name, ln=0): return s.m.get(name, ln)
    def side(s, name, ln=0): return sides(s.m.w, name, ln)
    # --- thermodynamics
    def table(s):
        """phases of the stand-in energies, None when the deck has none"""
        if s.model in ('calphad', 'dilute'): return T0
        if s.model != 'quadratic': return None
        q = 'ConcentrationModel/Quadratic/'
        def arr(k): return [float(x) for x in s.d.get_path(MP + q + k)]
        if s.nc == 2: return [dict(a=arr('A_' + p), x0=arr('Ceq_' + p), m=0., s=0., e=0., g=0., tref=0.) for p in ('liquid', 'solid_A', 'solid_B')]
        return [dict(a=[s.g(q + 'A_' + p)], x0=[s.g(q + 'Ceq_' + p)], m=s.g(q + 'm_' + p), s=0., e=0., g=0., tref=s.g(q + 'T_ref')) for p in ('liquid', 'solid')]
    def x(s, q, i, T): return q['x0'][i] + q['m'] * (T - q['tref'])
    def f(s, p, c, T):
        """free energy density of phase p at compositions c [.., nc]"""
        q = s.table()[p]
        r = q['e'] + q['g'] * T
        for i in range(s.nc): r = r + q['a'][i] * (c[..., i] - s.x(q, i, T)) ** 2
        if s.nc > 1: r = r + q['s'] * c[..., 0] * c[..., 1]
        return r * s.k[p]
    def mu(s, p, c, T):
        q = s.table()[p]
        r = [2 * q['a'][i] * (c[..., i] - s.x(q, i, T)) + (q['s'] * c[..., 1 - i] if s.nc > 1 else 0.) for i in range(s.nc)]
        return np.stack(r, -1) * s.k[p]
    def d2(s, p, c, T):
        """second derivatives of the stand-in (which depend on their arguments)"""
        q = s.table()[p]
        if s.nc == 1: return (2. * q['a'][0] * (1 + .1 * c[..., 0] + 1e-4 * T))[..., None, None] * s.k[p]
        k = 1 + .1 * c[..., 0] + .2 * c[..., 1] + 1e-4 * T
        return np.stack([np.stack([2 * q['a'][0] * k, q['s'] * k], -1), np.stack([q['s'] * k, 2.5 * q['a'][1] * k], -1)], -2) * s.k[p]
    def hess(s, p):
        q = s.table()[p]
        if s.nc == 1: return np.array([[2. * q['a'][0]]])
        return np.array([[2. * q['a'][0], q['s']], [q['s'], 2. * q['a'][1]]])
    def nph(s): return 3 if s.m.has('conc_b') else 2
    def weights(s, phi, t=None):
        """fractions of the phases (liquid, A, B) in the composition"""
        t = t or s.ci
        if s.three: return [fref.interp(phi[..., i], t) for i in range(3)]
        if s.norderp > 1:
            if s.nph() == 3:
                q = phi ** 2; S = q.sum(-1)
                return [q[..., -1] / S, q[..., :s.norderpA].sum(-1) / S, q[..., s.norderpA:-1].sum(-1) / S]
            h = fref.interp(phi[..., :-1].sum(-1), t)
        else: h = fref.interp(phi[..., 0], t)
        return [1 - h, h]
    def melting(s):
        """melting temperature: a straight liquidus in the linear model"""
        Te = s.g('Temperature/meltingT') / s.scale
        if s.conc and s.model == 'linear': Te = Te + s.ck('liquidus_slope') / s.scale * (s.field('conc_l')[..., 0] - s.ck('average_concentration'))
        return Te
    def split(s, phi, c, T):
        """compositions of the phases: at a given ratio, the same, or at equal slopes"""
        md = s.t('ConcentrationModel/phase_concentration_model') or ('kks' if s.model in ('calphad', 'quadratic', 'dilute') else 'none')
        if md == 'partition':
            k = s.field('partition_coeff'); h = s.weights(phi)[1][..., None]
            return [c / (1 - h + k * h), k * c / (1 - h + k * h)]
        if md == 'none': return [c] * (s.nph())
        w = s.weights(phi)
        n = len(w); q = s.table()
        A, r = 0., c.astype(float).copy()
        g = []
        for p in range(n):
            I = np.linalg.inv(s.hess(p))
            gp = np.stack([2 * q[p]['a'][i] * s.x(q[p], i, T) for i in range(s.nc)], -1); g.append(gp)
            A = A + w[p][..., None, None] * I
            r = r - w[p][..., None] * (gp @ I.T)
        mu = np.linalg.solve(A, r[..., None])[..., 0]
        return [(mu + g[p]) @ np.linalg.inv(s.hess(p)).T for p in range(n)]
    # --- composition
    def sideavg(s, a, d, t): return fref.average(np.roll(a, 1, d), a, t)
    def mean(s, a, d): return .5 * (np.roll(a, 1, d) + a)
    def arr(s, D, q, T, d): return D * np.exp(-(q or 0.) / RGAS * 2. / (np.roll(T, 1, d) + T))
    def ck(s, k, df=0.): return s.g('ConcentrationModel/' + k, df)
    def groups(s, n, three):
        """order parameters of the phases (liquid, A, B)"""
        if s.three: return [[0], [1], [2]]
        if n == 1: return [[0]]
        return [[n - 1], list(range(s.norderpA if three else n - 1))] + ([list(range(s.norderpA, n - 1))] if three else [])
    def dpar(s):
        """diffusion prefactors and activation energies of the phases"""
        A = 'D_solid_A' if s.ck('D_solid_A', None) is not None else 'D_solid'
        qa = 'Q0_solid_A' if s.ck('Q0_solid_A', None) is not None else 'Q0_solid'
        return [(s.ck('D_liquid'), s.ck('Q0_liquid')), (s.ck(A), s.ck(qa)), (s.ck('D_solid_B'), s.ck('Q0_solid_B'))]
    def ebs_diffusion(s, phi, T):
        """diffusion of each phase at sides, weighted by its fraction: [phase][axis][.., i, j]"""
        three = s.nph() == 3; n = phi.shape[-1]; nd = s.nd
        G = s.groups(n, three); P = s.dpar()
        r = []
        for p in range(3 if three else 2):
            a = []
            for d in range(nd):
                if n == 1:
                    h = fref.interp(s.sideavg(phi[..., 0], d, s.avg), s.di); h = [1 - h, h][p]
                else: h = fref.interp(sum(s.sideavg(phi[..., k], d, s.avg) for k in G[p]), s.di)
                a.append(h * s.arr(*P[p], T, d))
            r.append(a)
        if n > 1:
            for i, j, k in ((1, 0, 'LA'), (1, 1, 'AA'), (2, 0, 'LB'), (2, 1, 'AB'), (2, 2, 'BB')):
                if i >= len(r) or s.ck('D0_' + k) <= 0: continue
                f = s.contacts(phi, G[i], G[j], i == j) * s.ck('D0_' + k) * np.exp(-s.ck('Q0_' + k) / RGAS / T)
                for d in range(nd):
                    r[i][d] = r[i][d] + s.mean(f, d)
                    if i != j: r[j][d] = r[j][d] + s.mean(f, d)
        return r
    def mobility_file(s):
        import deck
        return deck.parse(open(unq(s.d.one(MP + 'ConcentrationModel/Calphad/filename'))).read())['MobilityParameters']
    def atomic(s, q, x, T):
        """atomic mobility: exp(G / RT) / RT, with G from the assessed end members and interactions"""
        R = RGAS
        lin = lambda v: float(v[0]) + R * T * np.log(float(v[1]))
        G = 0.
        for i, k in enumerate('ABC'[:len(x)]):
            v = q['q' + k]; g = lin(v)
            if any(len(q['q' + z]) > 2 for z in 'ABC'[:len(x)]): g = g + (float(v[2]) * T * np.log(T) + float(v[3]) / T if len(v) > 2 else 0.)
            G = G + x[i] * g
        for i, j in ((0, 1), (0, 2), (1, 2)):
            if j >= len(x): continue
            for n in range(4 if len(x) == 2 else 2):
                v = q.get('q%d%s%s' % (n, 'ABC'[i], 'ABC'[j]))
                if v is not None: G = G + x[i] * x[j] * (x[i] - x[j]) ** n * lin(v)
        return np.exp(G / (R * T)) / (R * T)
    def mobility_matrix(s, p, x, T):
        """chemical mobilities (um^2/s mol/J), Moelans et al. Calphad 32 (2008)"""
        M = s.mobility_file(); X = [x[..., i] for i in range(s.nc)]; X.append(1 - sum(X))
        m = [s.atomic(M['Species%d' % i]['Phase' + 'LA'[p]], X, T) for i in range(s.nc + 1)]
        n = s.nc; r = np.zeros(x.shape[:-1] + (n, n))
        for i in range(n):
            for j in range(n): r[..., i, j] = 1e12 * sum(((k == i) - X[i]) * ((k == j) - X[j]) * X[k] * m[k] for k in range(n + 1))
        return r
    def ctd_diffusion(s, phi, C, T):
        """[phase][axis] diffusion matrices at sides (not weighted) and the weights"""
        r, W = [], []
        for p in range(2):
            a = []
            for d in range(s.nd):
                x = np.stack([s.mean(C[p][..., i], d) for i in range(s.nc)], -1); t = s.mean(T, d)
                a.append(s.mobility_matrix(p, x, t) @ (s.d2(p, x, t) / s.k[p]))
            r.append(a)
        for d in range(s.nd):
            h = fref.interp(s.sideavg(phi[..., 0], d, s.avg), s.di); W.append((1 - h, h))
        return r, W
    def contacts(s, phi, A, B, same):
        th, t = 1e-2, 0.
        for x, i in enumerate(A):
            for y, j in enumerate(B):
                if same and y <= x: continue
                a, b = phi[..., i], phi[..., j]
                t = t + np.where((a > th) & (b > th), (a - th) ** 2 * (b - th) ** 2, 0.)
        return t / (.5 - th) ** 4
    def dflux(s, D, c, d, st):
        """D times the derivative of c at the sides of axis d"""
        g = D * s.grad_side(c, d)
        if st == 'isotropic':
            t = [k for k in range(s.nd) if k != d]
            return ((12 - 2 * len(t)) * g + sum(np.roll(g, k, j) for j in t for k in (1, -1))) / 12
        if st == 'order4': return 1.25 * g - D * (np.roll(c, -1, d) - np.roll(c, 2, d)) / (12 * s.dx[d])
        return g
    def unit(s, a, d):
        """direction of the gradient of a at the sides of axis d, its square"""
        g = [s.grad_side(a, d) if k == d else .5 * (s.grad_cell(a, k) + np.roll(s.grad_cell(a, k), 1, d)) for k in range(s.nd)]
        n2 = sum(x * x for x in g); ok = n2 > 1e-16
        return ok, [np.where(ok, x / np.sqrt(np.where(ok, n2, 1)), 0.) for x in g]
    def antitrapping(s, phi, C, dt, d):
        """current along axis d for every species"""
        al = s.eps / np.sqrt(32 * s.ws); n = phi.shape[-1]
        if n == 1:
            ok, u = s.unit(phi[..., 0], d)
            return np.stack([al * u[d] * (s.mean(C[0][..., i], d) - s.mean(C[1][..., i], d)) * s.mean(dt[..., 0], d) for i in range(s.nc)], -1)
        if s.three:
            u = [s.unit(phi[..., k], d)[1] for k in range(3)]
            return sum(al * -sum(x * y for x, y in zip(u[0], u[k])) * u[0][d] * (s.mean(C[0][..., 0], d) - s.mean(C[k][..., 0], d)) * s.mean(dt[..., k], d) for k in (1, 2))[..., None]
        ok, u = s.unit(phi[..., -1], d)
        oks, _ = s.unit(phi[..., :-1].sum(-1), d)
        r = -al * u[d] * (s.mean(C[0][..., 0], d) - s.mean(C[1][..., 0], d)) * s.mean(dt[..., :-1].sum(-1), d)
        return np.where(oks, r, 0.)[..., None]
    # --- phase equation
    def e(s, d, k=1): return tuple(k if i == d else 0 for i in range(s.nd))
    def div(s, F, m): return sum((F[d].v(None, s.e(d), m) - F[d].v(None, None, m)) / s.dx[d] for d in range(s.nd))
    def grad_side(s, a, d): return (a - np.roll(a, 1, d)) / s.dx[d]
    def grad_cell(s, a, d): return (np.roll(a, -1, d) - np.roll(a, 1, d)) / (2 * s.dx[d])
    def flux_eps(s): return s.eps / (np.sqrt(2.) if s.norderp > 1 and not s.three else 1.)
    def divdiff(s, D, a):
        """divergence of D grad a, D: list of side arrays"""
        r = 0.
        for d in range(s.nd):
            F = D[d] * s.grad_side(a, d)
            r = r + (np.roll(F, -1, d) - F) / s.dx[d]
        return r
    def wang(s):
        sg, de = s.g('Interface/sigma'), s.g('Interface/delta')
        if sg is None: return [s.alias('ConcentrationModel/WangSintering/' + k, k) for k in ('A', 'B', 'beta')]
        return 1.25 * sg / de, .25 * sg / de, 3 * de * sg
    def flux_phase(s, a, q=None):
        """side fluxes of one order parameter: derivative of the gradient energy (full energy units)"""
        nd, e = s.nd, s.flux_eps()
        st = s.t('stencil_type', 'normal')
        r = []
        for d in range(nd):
            g = s.grad_side(a, d)
            if s.an > 0:
                G = [g if k == d else .5 * (s.grad_cell(a, k) + np.roll(s.grad_cell(a, k), 1, d)) for k in range(nd)]
                g2 = sum(x * x for x in G)
                kn, nu = int(s.g('knumber', 4)), s.an
                if nd == 2:
                    qa = .5 * (q[..., 0] + np.roll(q[..., 0], 1, d))
                    big = np.abs(G[0]) > 1e-12
                    th = np.where(big, np.arctan(G[1] / np.where(big, G[0], 1)), .5 * np.pi) - np.arccos(np.clip(qa, -1, 1)) * (2 if q.shape[-1] == 4 else 1)
                    gam, dg = e * (1 + nu * np.cos(kn * th)), -kn * e * nu * np.sin(kn * th)
                    r.append(gam * gam * G[d] + gam * dg * (-G[1] if d == 0 else G[0]))
                else:
                    from qlib import qmul, conj
                    Q = .5 * (q + np.roll(q, 1, d))
                    big = g2 > 1e-12
                    n = np.stack([0 * g2] + [x / np.sqrt(np.where(big, g2, 1)) for x in G], -1)
                    y = qmul(Q, qmul(n, conj(Q)))
                    n4 = np.where(big, (y[..., 1:] ** 4).sum(-1), 0.)
                    dg = np.stack([0 * g2] + [y[..., k] * (y[..., k] ** 2 - n4) for k in (1, 2, 3)], -1)
                    dg = qmul(conj(Q), qmul(dg, Q))[..., d + 1]
                    gam = e * (1 - 3 * nu) * (1 + 4 * nu / (1 - 3 * nu) * n4)
                    r.append(gam * gam * G[d] + np.where(big, 16 * e * gam * nu * np.sqrt(g2) * dg, 0.))
            elif st == 'isotropic' and nd == 2:
                t = 1 - d; r.append(e * e * (g * 10 + np.roll(g, 1, t) + np.roll(g, -1, t)) / 12)
            elif st == 'isotropic': r.append(None)
            else: r.append(e * e * g)
        return r
    def latent(s): return (s.g('latent_heat') or s.g('Temperature/latent_heat')) * 1e-6 / s.vm[0]
    def divs(s, F): return sum((np.roll(F[d], -1, d) - F[d]) / s.dx[d] for d in range(s.nd))
    def fields(s):
        """compositions of the phases and temperature, as the program left them"""
        ks = [k for k in 'lab' if s.m.has('conc_' + k)]
        return [s.field('conc_' + k) for k in ks]
    def driving(s, phi, T, C):
        """minus the derivative of the bulk energy with respect to every order parameter; None: not documented here"""
        n = phi.shape[-1]
        if s.conc and s.model in ('calphad', 'dilute', 'quadratic'):
            f = [s.f(p, c, T) for p, c in enumerate(C)]
            mus = [s.mu(p, c, T) for p, c in enumerate(C)]
            G = lambda mu: [f[p] - (mu[p] * C[p]).sum(-1) for p in range(len(C))]
            if s.three:
                w = G([mus[1]] * 3)
                r = []
                p = [phi[..., k] for k in range(3)]
                for k in range(3):
                    h = 0.
                    for j in range(3):
                        a, b = [q for q in range(3) if q != j]
                        if j == k: h = h + fp0(p[j], p[a], p[b]) * w[j]
                        else: h = h + fp1(p[k], p[j], p[3 - j - k]) * w[j]
                    r.append(h)
                mean = sum(r) / 3
                return np.stack([-(x - mean) for x in r], -1)
            if n > 1:
                W = s.weights(phi); w = G(mus)
                S = (phi ** 2).sum(-1)
                H = [phi[..., -1] ** 2 / S, (phi[..., :s.norderpA] ** 2).sum(-1) / S]
                if len(C) == 3: H.append((phi[..., s.norderpA:-1] ** 2).sum(-1) / S)
                else: H[1] = (phi[..., :-1] ** 2).sum(-1) / S
                mean = sum(h * x for h, x in zip(H, w))
                ph = lambda k: 0 if k == n - 1 else 1 if len(C) == 2 or k < s.norderpA else 2
                return np.stack([-2 * phi[..., k] / S * (w[ph(k)] - mean) for k in range(n)], -1)
            w = G([mus[0]] * 2 if s.model == 'quadratic' else [mus[1]] * 2)
            return (fref.dinterp(phi[..., 0], s.ei) * (w[0] - w[1]))[..., None]
        if s.model == 'linear' or s.g('bias_well_alpha'):
            # double well biased by the undercooling, m(T) phi (1 - phi)
            Te = s.melting()
            al = s.ck('alpha') if s.conc else s.g('bias_well_alpha'); ga = s.ck('gamma', -1.) if s.conc else s.g('bias_well_gamma')
            mm = al * (Te - T) if ga < 0 else al / np.pi * np.arctan(ga * (Te - T))
            return (mm * phi[..., 0] * (1 - phi[..., 0]))[..., None]
        if s.conc: return 0 * phi
        ft = s.t('FreeEnergyModel/type', 'none')
        heat = s.t('Temperature/type', '') == 'heat'
        if ft[0] == 'l':
            if n > 1: return None
            L, Tm = s.latent(), s.g('Temperature/meltingT') / s.scale
            w = T if s.t('Temperature/type') == 'frozen' else .75 * T + .25 / (2 * s.nd) * sum(np.roll(T, k, d) for d in range(s.nd) for k in (1, -1))
            return (L / Tm * (Tm - w) * fref.dinterp(phi[..., 0], s.ei))[..., None]
        if ft[0] == 'n' and not heat: return 0 * phi
        if s.m.has('f_l') and s.m.has('f_a'):
            fl, fa = s.field('f_l')[..., 0], s.field('f_a')[..., 0]
            if n > 1:
                S = (phi ** 2).sum(-1); hs = (phi[..., :-1] ** 2).sum(-1) / S
                return np.stack([2 * phi[..., k] / S * ((1 - hs) if k < n - 1 else -hs) * (fl - fa) for k in range(n)], -1)
            return (fref.dinterp(phi[..., 0], s.ei) * (fl - fa))[..., None]
        return None
    def phase_rate(s):
        """rate of the order parameters from the fields the program left; None: option not covered"""
        m = s.m
        phi = s.field('phase'); T = s.field('temperature')[..., 0] if m.has('temperature') else 0.
        K = s.field('phase_mobility')[..., :1]
        n = phi.shape[-1]
        q = s.field('quat') if m.has('quat') else None
        if s.an > 0 and q is None: return None
        F = [s.flux_phase(phi[..., k], q) for k in range(n)]
        if F[0][0] is None: return None
        D = s.driving(phi, T, s.fields()) if s.model != 'wang_sintering' else 0.
        if D is None: return None
        lap = np.stack([s.divs(x) for x in F], -1)
        if s.model == 'wang_sintering':
            B = s.wang()[1]
            C = s.field('concentration'); S2 = (phi ** 2).sum(-1, keepdims=True)
            h = s.eps * lap - 12 * B * ((1 - C) * phi - (2 - C) * phi ** 2 + S2 * phi)
        elif s.three:
            p = [phi[..., k] for k in range(3)]
            h = lap - s.ws * np.stack([fref.triple(p[k], p[(k + 1) % 3], p[(k + 2) % 3]) for k in range(3)], -1)
            h = h - h.mean(-1, keepdims=True)
        elif n > 1:
            g = s.g('gamma', 1.5)
            S = (phi ** 2).sum(-1, keepdims=True)
            h = lap - 8 * s.ws * (phi ** 3 - phi + 2 * g * phi * (S - phi ** 2))
        else:
            x = phi[..., 0]
            h = lap - s.ws * fref.dwell(phi, s.well)
            if m.has('quat') and s.H >= 0 and 'quat' in m.comps:
                M = s.field('quat_grad_modulus')[..., 0]
                eq = s.epsq or 0.
                h = h - (2 * s.H * T * fref.dinterp(x, s.T1) * M + fref.dinterp(x, s.T2) * .5 * eq * eq * M * M)[..., None]
        return (h + D) * K

def fp0(p0, p1, p2): return 2.5 * p0 * ((p2 - p1) ** 2 * (3 * p0 - 2) + (1 - p0) ** 2 * (3 * p0 + 2))
def fp1(p1, p0, p2):
    """derivative of the tilting function of p1 with respect to p0"""
    return -1.25 * p1 * ((p2 - p0) ** 2 * (3 * p1 - 2) + (1 - p1) ** 2 * (3 * p1 + 2)) + 7.5 * p1 ** 2 * (1 - p1) * (p2 - p0)

class Orient:
    """orientation of a run: differences, gradients, flux and rate, from the fields and the rotations the program chose"""
    def __init__(o, S, lib):
        from qlib import rotate
        o.S, o.nd = S, S.nd
        m = S.m
        o.q = S.field('quat'); o.n = o.q.shape[-1]
        o.sym = m.has('quat_symm_rotation')
        o.I = [x.a[..., 0].astype(int) for x in S.side('quat_symm_rotation')] if o.sym else None
        o.rot = (lambda q, i: q if q.shape[-1] == 1 else rotate(lib, q, i)) if o.sym else (lambda q, i: q)
        o.rot1 = (lambda q, i: rotate(lib, q, i)) if o.sym else (lambda q, i: q)
    def prev(o, a, d): return np.roll(a, 1, d)
    def nxt(o, a, d): return np.roll(a, -1, d)
    def plain(o): return [o.q - o.prev(o.q, d) for d in range(o.nd)]
    def diffs(o): return [o.q - o.rot1(o.prev(o.q, d), o.I[d]) for d in range(o.nd)] if o.sym else o.plain()
    def back(o, D, t):
        """difference at the upper side of axis t, in the frame of the cell"""
        return o.rot(o.nxt(D[t], t), -o.nxt(o.I[t], t)) if o.sym else o.nxt(D[t], t)
    def cells(o, D): return [.5 * (D[d] + o.back(D, d)) / o.S.dx[d] for d in range(o.nd)]
    def sides(o, D):
        """[axis of the side][component]"""
        iso = o.S.t('stencil_type', 'normal') == 'isotropic'
        r = []
        for d in range(o.nd):
            g = []
            for t in range(o.nd):
                if t == d:
                    x = D[d]
                    if iso and o.nd == 2:
                        s = 1 - d; up, lo = o.nxt(x, s), o.prev(x, s)
                        if o.sym: up, lo = o.rot(up, -o.nxt(o.I[s], s)), o.rot(lo, o.I[s])
                        x = (10. * x + lo + up) / 12
                    elif iso: return None
                else:
                    low = o.prev(o.back(D, t) + D[t], d)
                    x = .25 * ((o.rot(low, o.I[d]) if o.sym else low) + o.back(D, t) + D[t])
                g.append(x / o.S.dx[t])
            r.append(g)
        return r
    def facecoef(o, G):
        """minus the orientation diffusion at the sides; G: gradients there"""
        S = o.S
        phi, T = S.field('phase')[..., 0], S.field('temperature')[..., 0]
        fl = S.alias('orient_grad_floor', 'quat_grad_floor'); fl = 1e-2 if fl is None else fl
        r = []
        for d in range(o.nd):
            a = S.sideavg(phi, d, S.davg)
            g2 = sum((x ** 2).sum(-1) for x in G[d])
            r.append(-fref.gradnormi(g2, S.t('orient_grad_floor_type', 'max'), fl * fl, 1 / fl) * 2 * S.H * S.mean(T, d) * fref.interp(a, S.T1) - S.epsq ** 2 * fref.interp(a, S.T2))
        return r
    def mobility(o):
        S = o.S
        mx = S.alias('orient_mobility', 'quat_mobility')
        if mx is None: mx = 1 / S.g('tau_quat')
        mn = S.alias('min_orient_mobility', 'min_quat_mobility'); mn = 1e-6 if mn is None else mn
        t = (S.t('quat_mobility_func_type') or S.t('orient_mobility_func_type', 'pbg'))[0]
        x = S.field('phase')[..., 0]
        if t == 'p': h = 1 - fref.interp(x, 'p')
        elif t == 'e':
            a = S.alias('exp_scale_orient_mobility', 'exp_scale_quat_mobility'); a = 1e6 if a is None else a
            y = np.clip(x, 0, 1); h = (np.exp(a) - np.exp(a * y)) / (np.exp(a) - 1)
        else:
            a = S.alias('max_orient_mobility', 'max_quat_mobility'); a = 1e6 if a is None else a
            y = np.clip(x, 1e-6, 1); h = np.minimum(np.maximum(0, (1 - y) / y ** 2), a)
        return mn + (mx - mn) * h
    def rate(o, K, F, G, diffs):
        """rate of the orientation with side coefficients K and fluxes K times the normal gradient"""
        S = o.S
        usegrad = on_(S, 'use_diffs_to_compute_flux')
        M = S.field('quat_mobility')[..., :1]
        D = 0.
        for d in range(o.nd):
            f = K[d][..., None] * (diffs[d] / S.dx[d] if o.sym and not usegrad else G[d][d])     # the correction replaces plain two-point differences
            up = o.nxt(f, d)
            if o.sym:
                up = o.rot(up, -o.nxt(o.I[d], d))
            D = D + (up - f) / S.dx[d]
        if o.n == 1: return -M * D
        lam = -.5 * (o.q * D).sum(-1, keepdims=True) / (o.q ** 2).sum(-1, keepdims=True)
        return -M * (D + 2 * o.q * lam)

def on_(S, k): return S.t(k, 'FALSE').upper() == 'TRUE'

# --- mobility of the order parameters
def kim(S):
    """Kim's mobility from the compositions of the phases and the temperature"""
    q = 'PhaseMobility/'
    C = S.fields(); T = S.field('temperature')[..., 0]
    a2 = {'p': 47 / 60., 'h': .5}[S.ei if not S.three else 'p']
    fac = 16 * S.ws / (3 * S.eps ** 2 * a2)
    def arr(k): return [float(x) for x in S.d.get_path(MP + q + k)]
    def zfac(k):
        z = arr(k); dT = T - S.g(q + 'Tref')
        return (z[0] + z[1] * dT + z[2] * dT * dT) * S.k[0]
    beta = S.g(q + 'kinetics_coefficient', -1.)
    if beta < 0:
        im = S.g(q + 'interface_mobility', -1.)
        zk = 'zeta' if S.d.get_path(MP + q + 'zeta') is not None else 'zetaLA' if S.d.get_path(MP + q + 'zetaLA') is not None else None
    else:
        im = S.vm[0] / (RGAS * S.ck('meltingT')) * 1e6 * -S.ck('liquidus_slope') / (1 - S.ck('keq')) / beta; zk = None
    if S.three:
        A, B = fac / zfac(zk), fac / zfac('zetaLB')
        W = pairs(S.field('phase'))
        return W[0] * A + W[1] * B + W[2] * .5 * (A + B)
    if zk: z = zfac(zk)
    else:
        d = C[0] - C[1]
        z = np.einsum('...i,...ij,...j', d, S.d2(0, C[0], T), d) / (S.dpar()[0][0] * np.exp(-(S.dpar()[0][1] or 0.) / (RGAS * T)))
    if im <= 0: return fac / z
    al = 3 * np.sqrt(2.) * S.eps / np.sqrt(16 * S.ws) / im
    return 1 / (al + z / fac) if on_(S, 'ConcentrationModel/antitrapping') else 1 / al + 0 * T

def pairs(phi):
    """weights of the pairs (0,1), (0,2), (1,2): angles of the triangle of the pair compositions, over pi"""
    p = phi.astype(float).copy()
    big = p > .99
    for k in range(3):
        f = big[..., k] & ~big[..., :k].any(-1)
        r = np.where(f, .99, p[..., k]); p[..., k] = r
        d = np.where(f, .5 * (1 - p.sum(-1)), 0.)
        for j in range(3):
            if j != k: p[..., j] = p[..., j] + d
    def v(i, j):
        r = np.zeros(p.shape); s = p[..., i] + p[..., j]; r[..., i] = p[..., i] / s; r[..., j] = p[..., j] / s
        return r
    P = [v(0, 1), v(0, 2), v(1, 2)]
    def ang(a, b, c):
        x, y = b - a, c - a
        return np.arctan2(np.linalg.norm(np.cross(x, y), axis=-1), (x * y).sum(-1)) / np.pi
    return [ang(P[0], P[1], P[2]), ang(P[1], P[0], P[2]), ang(P[2], P[0], P[1])]
