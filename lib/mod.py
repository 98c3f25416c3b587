"""whole-model workloads: one run of the real QuatModel on the stand-ins, with its initial data, decomposition and fine levels chosen by
the case, and everything it computed readable as numpy arrays"""
import os, re
import numpy as np
import mdl, wd, more
from harness import Skip, Violation

# decks of the repository whose set-up is current; the others lack keys that the program requires now
D2 = '''2Ph1Sl/2d 3Ph2Sl/2d AlCu/2d AlCuMovingFrame/2d CahnHilliard/2d ChenShen98/2d ChenShen98MultiOrderP/2d ConservedVolume/2d Dendrite/2d
DiluteCuNi/2d DirectionalQuadraticMultiOrderP/2d DumpNetCDF/2d FeNbNiOrder4/2d FeNbNiWithFluctuation/2d FourCorners/2d
GaussianT/2d GradientMovingFrame/2d Heat1D/1d Heat1D/1d_rescale HeatFlow/2d KKScomposition/2d OneGrainQuadratic/2d
OneGrainQuadraticMultiOrderP/2d PlanarFront/2d PlanarFrontMovingFrame/2d Porosity/2d PureMaterials1D/1d QuadraticSolidification/2d Restart/2d
RestartConc/2d RigidBodyMotion/2d SingleGrainGrowthAuNi/2d Sintering/2d SolidifyQuaternions/2d TemperatureHistoryMovingFrame/2d
ThreePhases/2d ThreePhasesCALPHAD/2d ThreePhasesDiffusion/2d TimeDependentHeatFlow/2d TwoBilayers/2d TwoGrainsQuadratic/2d
TwoGrainsQuadraticMultiOrderP/2d WangSintering/2d examples/DendriteDiluteAlCu/2d'''.split()
D3 = [x.replace('/2d', '/3d').replace('/1d_rescale', '/-').replace('/1d', '/-') for x in D2] + ['FrozenGradientT/gradient3D']
D3 = [x for x in D3 if not x.endswith('/-')]
NOISE = ('Noise', 'Fluctuation')

def decks(nd, without=()):
    return [x for x in (D2 if nd == 2 else D3) + more.names(nd) if not any(w in x for w in without)]

def size(nd, rng=None, mn=None):
    base = [12, 10] if nd == 2 else [8, 6, 6]
    return [int(b + 2 * rng.integers(0, 3)) for b in base] if rng is not None else base

class Model:
    """c: Case; name: deck; n: cells; edit(deck, fields): changes before the start"""
    def __init__(self, c, name, n=None, edit=None, boxes=None, fine=None, dt=None, deckf=None, restart=-1, keep=False, fields=None, **kw):
        self.c, self.w, self.name = c, c.w, name
        nd = c.nd
        if n is None: n = size(nd, c.rng)
        self.n = n
        if deckf is None:
            d, f = mdl.setup(name, nd, n, c.rng, '.', **kw)
            if fields is not None: f.update(fields)
            if edit: edit(d, f)
            mdl.writenc('init.nc', n, f)
        else:
            d, f = deckf
            mdl.writenc('init.nc', n, f)
        self.d, self.f = d, f
        self.ql = mdl.qlen(d, nd)
        self.txt = d.text()
        self.start(boxes, fine, restart, 1e-9 if dt is None else dt)
    def start(self, boxes=None, fine=None, restart=-1, dt=1e-9):
        plans = []
        p = []
        if boxes is not None: p += [(0, b) for b in boxes]
        for ln, bs in enumerate(fine or [], 1): p += [(ln, b) for b in bs]
        self.plans([p] if p else [])
        self.c.calls += 1
        self.c.digest = zl(self.txt, self.c.digest)
        for k in sorted(self.f): self.c.digest = zl(np.ascontiguousarray(self.f[k]).tobytes(), self.c.digest)
        self.w.model(self.txt, self.ql, dt, restart)
        if self.d.one('Symmetry/enabled', 'FALSE').upper() == 'TRUE' and self.has('quat_symm_rotation'): self.w.value('rotations')    # as Run() does
        self.comps = None
        return self
    def plans(self, ps):
        """ps: list of plans; a plan is a list of (level, (lower, upper))"""
        i = [len(ps)]
        for p in ps:
            i.append(len(p))
            for ln, (lo, hi) in p: i += [ln] + [int(x) for x in lo] + [int(x) for x in hi]
        self.w.glue('model_plans', i=i)
    def ids(self):
        """component name -> (y id, rate id, current id), from the last rhs"""
        return self.comps
    def nlev(self): return self.w.nlevels
    def rhs(self, t=0., ln=None, jt=False):
        """dict: component -> rate on a level (all levels: list)"""
        self.c.calls += 1
        cs, rc = self.w.rhs(t, jt=jt)
        if rc not in (0, None): raise Violation('status', '%s: right-hand side reports failure %d' % (self.name, rc), what='status')
        nm = {v: k for k, v in self.w.names().items()}
        self.comps = {}
        for y, yd, cur in cs:
            self.comps[nm.get(cur, '?').split('/')[0]] = (y, yd, cur)
        levels = range(self.nlev()) if ln is None else [ln]
        out = {k: [self.w.gather(v[1], l).copy() for l in levels] for k, v in self.comps.items()}
        return out if ln is None else {k: v[0] for k, v in out.items()}
    def get(self, name, ln=0, ctx='CURRENT'):
        return self.w.gather(self.w.id('%s/%s' % (name, ctx)), ln).copy()
    def has(self, name, ctx='CURRENT'): return '%s/%s' % (name, ctx) in self.w.names()
    def state(self, ln=0):
        """evolved fields"""
        if self.comps is None: self.rhs(0.)
        return {k: self.w.gather(v[2], ln).copy() for k, v in self.comps.items()}
    def set(self, name, a, ln=0): self.w.scatter(self.w.id(name + '/CURRENT'), a, ln)
    def cycle(self, dt):
        self.c.calls += 1
        return self.w.glue('model_cycle', [dt])[0][0]
    def energy(self, t=0., gp=0):
        self.c.calls += 1
        return self.w.energy(t, gp)
    def text(self): return self.w.text()
    def time(self):
        od, oi, _ = self.w.glue('model_info'); return dict(t=od[0], dt=od[1], cycle=int(oi[0]), nlev=int(oi[1]))
    def free(self): self.w.glue('model_free', check=False)

def zl(b, h):
    import zlib
    return zlib.crc32(b if isinstance(b, bytes) else b.encode(), h)

def cutboxes(rng, n, pieces=4):
    """random decomposition of [0, n) into boxes (lower, upper)"""
    bs = [([0] * len(n), [x - 1 for x in n])]
    for _ in range(pieces - 1):
        k = int(np.argmax([np.prod([h - l + 1 for l, h in zip(*b)]) for b in bs])) if rng.random() < .6 else int(rng.integers(len(bs)))
        lo, hi = bs[k]
        ds = [d for d in range(len(n)) if hi[d] > lo[d] + 5]        # pieces stay as wide as the widest stencil's ghosts
        if not ds: continue
        d = int(rng.choice(ds)); cut = int(rng.integers(lo[d] + 2, hi[d] - 2))
        a = (list(lo), [cut if q == d else h for q, h in enumerate(hi)]); b = ([cut + 1 if q == d else l for q, l in enumerate(lo)], list(hi))
        bs[k] = a; bs.append(b)
    order = rng.permutation(len(bs))
    return [bs[int(k)] for k in order]

def differ(a, b, rtol, floor=0.):
    """first disagreement of two dicts component -> array"""
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape: return k, 'shape', x.shape, y.shape
        s = max(np.abs(x).max(), np.abs(y).max(), floor)
        bad = ~(np.abs(x - y) <= rtol * s)
        if bad.any():
            j = np.unravel_index(int(np.argmax(bad)), bad.shape)
            return k, [int(q) for q in j], x[j].item(), y[j].item()
    return None

def fresh(c, f, *a):
    """runs f(*a) in a process of its own, as every run of the program has one; returns its result"""
    import pickle, traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            n0 = c.calls, c.points
            c.digest = 0
            try: res = ('R', f(*a))
            except BaseException as e:
                try: pickle.dumps(e); res = ('X', e)
                except Exception: res = ('X', RuntimeError(traceback.format_exc()))
                if not isinstance(e, (Violation, Skip, wd.Gap, wd.GlueMissing, wd.WorldError)): res = ('X', RuntimeError(traceback.format_exc()))
            b = pickle.dumps((res, c.calls - n0[0], c.points - n0[1], c.digest, c.nontriv, c.features))
            with os.fdopen(w, 'wb') as o: o.write(b)
            if c.flavour == 'cov': c.w.lib.verif_gcov_dump()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i: b = i.read()
    st = os.waitpid(pid, 0)[1]
    if not b or st: raise Died(st)
    res, n, p, dg, nt, fe = pickle.loads(b)
    c.calls += n; c.points += p; c.digest = zl(str(dg), c.digest); c.nontriv = c.nontriv or nt; c.features |= fe
    if res[0] == 'X': raise res[1]
    return res[1]

class Died(Exception):
    """the process of a run ended before its end: what it wrote to stderr decides"""
    def __init__(self, st): super().__init__('ended with status %d' % st); self.st = st
