"""C23: the tools that make initial data write the microstructure they are asked for, and a simulation starts from exactly what its file says"""
import os, re, sys, math, subprocess, tempfile, importlib.util
import numpy as np
from harness import *
import build, mod
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UTILS = os.path.join(build.REPO, 'utils')
PY = '/usr/bin/python3'

def tool(c, script, args, ok=True):
    """runs a script of utils; what it printed, and the fields of the file it made"""
    if not os.path.exists(os.path.join(UTILS, script)): raise Skip(script + ' is gone')
    with tempfile.TemporaryDirectory(prefix='ampe_') as d:
        o = os.path.join(d, 'o.npz')
        a = [x.replace('@D', d) for x in args]
        p = subprocess.run([PY, '-B', os.path.join(HERE, 'lib', 'nctool.py'), UTILS, script, o] + a, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if not os.path.exists(o): raise Skip('no python with netCDF4: ' + p.stdout[-200:])
        z = dict(np.load(o))
    c.calls += 1
    r = {k: v for k, v in z.items() if k[0] != '@'}
    c.ctx = script + ' ' + ' '.join(args)
    c.digest = mod.zl(c.ctx, c.digest)
    if ok and int(z['@code']) != 0: raise Violation('fails', '%s: fails: %s' % (c.ctx, str(z['@err']).strip().split('\n')[-1] or 'exit %d' % int(z['@code'])), what='fails/' + script)
    c.nontriv = True
    return r, str(z['@out']), {k[4:]: list(v) for k, v in z.items() if k.startswith('@of ')}, dict(x.split('=') for x in z.get('@dims', []))

def eq(c, name, got, want, tol, mask=None):
    """field against what was asked for"""
    if got is None: raise Violation('field', '%s: no field %s in the file' % (c.ctx, name), what='field')
    want = np.broadcast_to(want, got.shape) if np.ndim(want) != 0 or True else want
    e = np.abs(got - want); bad = ~(e <= tol)
    if mask is not None: bad &= mask
    c.points += got.size
    if bad.any():
        j = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(e), np.inf, e), -1))), e.shape)
        raise Violation('value', '%s: %s is %r at (z,y,x) %s; asked for: %r' % (c.ctx, name, got[j].item(), [int(q) for q in j], float(want[j])), what=re.sub(r'\d+$', '', name))

def only(c, got, names):
    x = set(got) ^ set(names)
    if x: raise Violation('field', '%s: fields of the file: %s; asked for: %s' % (c.ctx, sorted(got), sorted(names)), what='field')

def grid(n): return np.meshgrid(*[np.arange(x) + .5 for x in n[::-1]], indexing='ij')[::-1]      # x, y, z as arrays (z,y,x)

def dist(n, ctr, per=(0, 0, 0)):
    s = 0.
    for d, x in enumerate(grid(n)):
        t = np.abs(x - ctr[d])
        if per[d]: t = np.minimum(t, np.minimum(np.abs(x - ctr[d] - n[d]), np.abs(x - ctr[d] + n[d])))
        s = s + t * t
    return np.sqrt(s)

def tail(d, w): return .5 * (1 + np.tanh(-d / (2 * w)))

def composition(c, r, args, allow=('both', 'in', 'nominal', 'out')):
    """random composition options; what they mean: (species, inside, outside, nominal)"""
    how = str(r.choice(allow)); ns = int(r.integers(1, 4))
    v = lambda: [round(float(x), 3) for x in r.uniform(.02, .3, ns)]
    s = lambda x: ','.join(map(str, x))
    ci, co, cn = v(), v(), v()
    if r.random() < .25: ci = [ci[0]] * ns; co = [co[0]] * ns; cn = [cn[0]] * ns
    if how == 'both': args += ['--concentration-in', s(ci), '--concentration-out', s(co)]; cn = None
    if how == 'in': args += ['--nomconc', s(cn), '--concentration-in', s(ci)]; co = None
    if how == 'nominal': args += ['--nomconc', s(cn)]; ci = co = None
    if how == 'out': args += ['--nomconc', s(cn), '--concentration-out', s(co)]; ci = None
    return ns, ci, co, cn

def solute(c, got, phi, comp, tol):
    """concentration fields: mixture of both compositions by phase; nominal one as mean"""
    ns, ci, co, cn = comp
    f = phi.mean()
    for s in range(ns):
        x = got.get('concentration%d' % s)
        a, b = ci and ci[s], co and co[s]
        if cn is not None and a is None and b is None: a = b = cn[s]
        elif cn is not None and b is None: b = (cn[s] - a * f) / (1 - f) if f < 1 - 1e-6 else 0.
        elif cn is not None and a is None: a = (cn[s] - b * (1 - f)) / f if f > 0 else 0.
        eq(c, 'concentration%d' % s, x, a * phi + b * (1 - phi), tol * 10 + 2e-6 * (abs(a) + abs(b)))
        if cn is not None and (0 < f < 1 - 1e-6):
            m = float(x.mean(dtype=float))
            if abs(m - cn[s]) > 2e-6 + tol: raise Violation('nominal', '%s: mean of concentration%d is %r; nominal composition: %r' % (c.ctx, s, m, cn[s]), what='nominal')
    if 'concentration%d' % ns in got: raise Violation('field', '%s: too many species' % c.ctx, what='field')

def unit(c, q, what='orientation'):
    n = np.sqrt((q.astype(float) ** 2).sum(0))
    c.points += n.size
    if not (np.abs(n - 1) < 3e-6).all(): raise Violation('unit', '%s: %s of length %r' % (c.ctx, what, float(n.flat[np.argmax(np.abs(n - 1))])), what='unit')

def quats(got, ql): return np.array([got['quat%d' % (m + 1)] for m in range(ql)])

CUBE = None
def cube():
    """the 24 rotations of the cube, with both signs"""
    global CUBE
    if CUBE is None:
        import itertools
        s = [q for q in itertools.product((-1, 0, 1), repeat=4) if sum(map(abs, q)) in (1, 2, 4)]
        CUBE = np.array([np.array(q) / np.linalg.norm(q) for q in s])
    return CUBE
def mul(a, b):
    a0, a1, a2, a3 = a; b0, b1, b2, b3 = b
    return np.array([a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3, a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2, a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1, a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0])
def images(q): return np.array([mul(q, s) for s in cube()])

@spec('C23', n=80, dims=(2,), nogeneric=True, flavours=('plain',))
def nuclei(c):
    """make_nuclei.py"""
    r = c.rng
    n = [int(x) for x in r.integers(8, 20, 3)]
    if r.random() < .5: n[2] = 1
    ng = int(c.pick([1, 1, 1, 2, 2, 3, 4, 5, 8]))
    if ng > 2: n = [int(x) for x in r.integers(22, 32, 2)] + [1 if n[2] == 1 else int(r.integers(16, 20))]
    three = r.random() < .12; w = 0. if r.random() < .5 else round(float(r.uniform(.3, 1.5)), 2)
    R = 1 if ng > 4 else int(r.integers(1, 3)) if ng > 2 else int(r.integers(2, 6))                # room for every sphere
    a = ['--nx', str(n[0]), '--ny', str(n[1]), '--nz', str(n[2]), '-r', str(R)]
    if n[2] == 1 and r.random() < .5: del a[4:6]
    if len(set(n)) == 1 and r.random() < .5: a = ['-n', str(n[0]), '-r', str(R)]
    if ng > 1 or r.random() < .5: a += ['--ngrains', str(ng)]
    ql = int(c.pick([0, 0, 1, 2, 4, 4]))
    if ql: a += ['-q', str(ql)]
    sym = ql and r.random() < .4; bain = ql == 4 and not sym and r.random() < .3
    if sym: a += ['-s']
    if bain: a += ['-b']
    if three: a += ['-3']
    if w: a += ['-w', str(w)]
    pi, po = 1., 0.
    if r.random() < .3: pi = round(float(r.uniform(.5, 1)), 3); a += ['--phase-in', str(pi)]
    if r.random() < .3 and not w and not three: po = round(float(r.uniform(0., .3)), 3); a += ['--phase-out', str(po)]
    ctr = None
    per = [0, 0, 0]
    if ng == 1 and r.random() < .7:
        ctr = [int(r.integers(0, x + 1)) if r.random() < .5 else round(float(r.uniform(0, x)), 2) for x in n]
        if n[2] == 1 and r.random() < .5: ctr[2] = 1; a += ['--center0', '%s, %s' % tuple(ctr[:2])]
        else: a += ['--center0', ', '.join(map(str, ctr))]
    if r.random() < .5: per = [int(x) for x in r.integers(0, 2, 3)]; a += ['--periodic', ','.join(map(str, per))]
    q0 = qo = None
    if ng == 1 and ql in (2, 4) and r.random() < .4:
        q0 = r.standard_normal(ql); q0 = [round(float(x), 6) for x in q0 / np.linalg.norm(q0)]; a += ['--quat0=' + ','.join(map(str, q0))]
    if ql in (2, 4) and r.random() < .25 and not w and ng == 1:
        qo = r.standard_normal(ql); qo = [round(float(x), 6) for x in qo / np.linalg.norm(qo)]; a += ['--quat-out=' + ','.join(map(str, qo))]
    comp = composition(c, r, a) if r.random() < .6 and not po and not three else None
    T = None
    if r.random() < .3: T = [round(float(x), 1) for x in r.uniform(500, 900, 2)]; a += ['--temperature-in', str(T[0]), '--temperature-out', str(T[1])]
    dbl = r.random() < .4
    if dbl: a += ['--double']
    got, out, of, dims = tool(c, 'make_nuclei.py', a + ['@D/i.nc'])
    tol = 1e-12 if dbl else 3e-7
    only(c, got, ['phase'] + ['eta'] * three + ['temperature'] * bool(T) + ['quat%d' % (k + 1) for k in range(ql)] + ['concentration%d' % s for s in range(comp[0] if comp else 0)])
    sph = [[float(x) for x in re.findall(r'[-+.\deE]+', l.split('center:')[1].replace('radius', ''))] for l in out.split('\n') if l.startswith('sphere ')]
    if len(sph) != ng: raise Violation('grains', '%s: %d spheres' % (c.ctx, len(sph)), what='grains')
    if ng == 1:
        cc = ctr if ctr else [n[0] / 2, n[1] / 2, n[2] / 2 if n[2] > 1 else 1]
        sph = [list(cc) + [R]]
    elif ng == 2: sph = [[n[0] / 3, n[1] / 3, n[2] / 2, R], [2 * n[0] / 3, 2 * n[1] / 3, n[2] / 2, 1.5 * R]]
    else:
        for i in range(ng):
            if sph[i][3] != R: raise Violation('radius', '%s: radius %r' % (c.ctx, sph[i][3]), what='radius')
            for j in range(i):
                s = sum(min((sph[i][d] - sph[j][d] + k * n[d]) ** 2 for k in (-1, 0, 1)) for d in range(3))
                if s < (4 * R) ** 2 * (1 - 1e-9): raise Violation('apart', '%s: spheres %d and %d are %r apart; at least %r wanted' % (c.ctx, i, j, math.sqrt(s), 4. * R), what='apart')
    D = np.array([dist(n, s[:3], per) for s in sph]); e = D - np.array([s[3] for s in sph])[:, None, None, None]
    edge = (np.abs(e) < 1e-7).any(0)
    # phase
    if w and not three:
        want = pi * tail(e.min(0), w)
        eq(c, 'phase', got['phase'], want, tol + .008 * (e.min(0) > 4.9 * w))
    elif not three: eq(c, 'phase', got['phase'], np.where((e < 0).any(0), pi, po), tol, ~edge)
    else:
        m = (e < (5 * w if w else 0)).any(0); g = np.argmin(e, 0)
        eq(c, 'eta', got['eta'], np.where((e < 0).any(0), g % 2, 0), tol, ((e < 0).any(0) | ~(e < (8 * w + 1)).any(0)) & ((e < 0).sum(0) < 2) & ~edge if ng == 1 or not w else (e < 0).any(0) & ~edge & ((e < 8 * w).sum(0) == 1))
    phi = got['phase'].astype(float)
    if comp: solute(c, got, phi, comp, tol)
    if T: eq(c, 'temperature', got['temperature'], np.where((e < 0).any(0), T[0], T[1]), 1e-4, ~edge)
    if ql:
        q = quats(got, ql)
        if ql > 1: unit(c, q)
        near = D.min(0); lone = np.ones_like(edge) if ng == 1 else np.sort(D, 0)[1] - near > 1e-7
        if qo is not None:
            ins = D[0] < R
            for m in range(ql): eq(c, 'quat%d' % (m + 1), q[m], np.where(ins, q0[m] if q0 else q[m][ins][0] if ins.any() else 0, qo[m]), 1e-6, ~edge)
        else:
            g = np.argmin(D, 0)
            for k in range(ng):
                at = (g == k) & lone
                if not at.any(): continue
                v = q[:, at]
                if not (np.abs(v - v[:, :1]) <= 1e-12).all(): raise Violation('grain', '%s: more than one orientation in the cells nearest to the centre of grain %d' % (c.ctx, k), what='grain')
                v = v[:, 0].astype(float)
                if q0 and not np.allclose(v, q0, atol=1e-6): raise Violation('quat0', '%s: orientation of grain 0: %s' % (c.ctx, v), what='quat0')
                if bain and not q0 and abs(v[0] - math.cos(math.pi / 8)) > 1e-6: raise Violation('bain', '%s: orientation %s' % (c.ctx, v), what='bain')
                if bain and not q0 and sorted(np.abs(v[1:]) > .1) != [False, False, True]: raise Violation('bain', '%s: orientation %s' % (c.ctx, v), what='bain')
                if sym and ql == 4 and not q0 and ng != 2 and v[0] < images(v)[:, 0].max() - 1e-6 and np.linalg.norm(v - [1, 0, 0, 0]) > 2 * math.sin(math.pi / 16): raise Violation('fundamental', '%s: orientation %s of grain %d is not the one nearest to the reference among its images' % (c.ctx, v, k), what='fundamental')
    c.features_add('n%d' % ng, 'q%d' % ql, *(['w'] if w else []))

@spec('C23', n=40, dims=(2,), nogeneric=True, flavours=('plain',))
def spheres(c):
    """make_multi_spheres.py"""
    r = c.rng
    n = [int(x) for x in r.integers(6, 20, 3)]
    if r.random() < .5: n[2] = 1
    k = int(r.integers(1, 6)); w = 0. if r.random() < .5 else round(float(r.uniform(.3, 1.5)), 2)
    rows = []; lines = []
    for i in range(k):
        x = [round(float(r.uniform(0, v)), 2) for v in n] + [round(float(r.uniform(1, 5)), 2)]
        p = str(r.choice(['A', 'B', '-']))
        rows.append((x, p)); lines.append(', '.join(map(str, x)) + (', ' + p if p != '-' else ''))
    a = ['--spheres', '@D/s.csv', '--nx', str(n[0]), '--ny', str(n[1])] + (['--nz', str(n[2])] if n[2] > 1 or r.random() < .5 else [])
    ns = int(r.integers(0, 3)); same = r.random() < .25
    v = lambda: [round(float(x), 3) for x in (r.uniform(.02, .3, ns) if not same else [float(r.uniform(.02, .3))] * ns)]
    A, B, L = v(), v(), v()
    s = lambda x: ','.join(map(str, x))
    if ns: a += ['--concentration-A', s(A), '--concentration-out', s(L)]
    if ns and any(p == 'B' for _, p in rows): a += ['--concentration-B', s(B)]
    if w: a += ['--width', str(w)]
    per = [0, 0, 0]
    if r.random() < .5: per = [int(x) for x in r.integers(0, 2, 3)]; a += ['--periodic', ','.join(map(str, per))]
    got, out, of, dims = tool_with(c, 'make_multi_spheres.py', a + ['@D/i.nc'], {'s.csv': '\n'.join(lines) + '\n'})
    only(c, got, ['phase%d' % i for i in range(k)] + ['concentration%d' % i for i in range(ns)])
    cw = [np.full(n[::-1], x) for x in L]; sure = np.ones(n[::-1], bool)
    for i, (x, p) in enumerate(rows):
        ctr = x[:3] if n[2] > 1 else x[:2] + [1]
        e = dist(n, ctr, per) - x[3]
        if w: eq(c, 'phase%d' % i, got['phase%d' % i], tail(e, w), 3e-7 + .008 * (np.abs(e) > 4.9 * w))
        else: eq(c, 'phase%d' % i, got['phase%d' % i], e < 0, 0, np.abs(e) > 1e-7)
        sure &= np.abs(e) > 1e-7
        for q in range(ns): cw[q] = np.where(e < 0, (B if p == 'B' else A)[q], cw[q])
    for q in range(ns): eq(c, 'concentration%d' % q, got['concentration%d' % q], cw[q], 1e-7, sure)
    c.features_add('k%d' % k, 'ns%d' % ns)

def tool_with(c, script, args, files):
    """the same, with files beside it"""
    with tempfile.TemporaryDirectory(prefix='ampe_') as d:
        for k, v in files.items(): open(os.path.join(d, k), 'w').write(v)
        c2 = [x.replace('@D/' + k, os.path.join(d, k)) for x in args for k in [next(iter(files))]]
        r = tool(c, script, c2)
        c.ctx = script + ' ' + ' '.join(args) + ' with ' + '; '.join('%s: %r' % kv for kv in files.items())
        c.digest = mod.zl(c.ctx, 0)
    return r

@spec('C23', n=70, dims=(2,), nogeneric=True, flavours=('plain',))
def bilayer(c):
    """make_bilayer.py"""
    r = c.rng
    n = [int(x) for x in r.integers(8, 24, 3)]
    if r.random() < .5: n[2] = 1
    two = r.random() < .45
    d = int(r.integers(0, 2 if n[2] == 1 else 3))
    a = ['--nx', str(n[0]), '--ny', str(n[1]), '--nz', str(n[2])]
    if len(set(n)) == 1: a = ['-n', str(n[0])]
    if two: a += ['-2']
    elif r.random() < .2: a += ['-1']
    if d or r.random() < .5: a += ['--orient', 'xyz'[d]]
    R = n[d] / (8 if two else 4)
    if r.random() < .8: R = int(r.integers(1, max(2, n[d] // (5 if two else 3)))); a += ['-r', str(R)]
    ratio = 1.
    if two and r.random() < .4: ratio = round(float(r.uniform(.5, 1.5)), 2); a += ['--ratio', str(ratio)]
    dl = 0
    if r.random() < .6: dl = int(r.integers(1, 4)); a += ['-d', str(dl)]
    ctr = [x / 2 for x in n]
    for i in range(3):
        if r.random() < .25: ctr[i] = round(float(r.uniform(0, n[i])), 1); a += ['--center' + 'xyz'[i], str(ctr[i])]
    pi, po = 1., 0.
    if r.random() < .3: pi = round(float(r.uniform(.5, 1)), 3); a += ['--phase-in', str(pi)]
    if r.random() < .3: po = round(float(r.uniform(0, .3)), 3); a += ['--phase-out', str(po)]
    ql = int(c.pick([4, 4, 2, 1]))
    if ql != 4 or r.random() < .5: a += ['--qlen', str(ql)]
    Q = lambda: (lambda x: [round(float(y), 6) for y in x / np.linalg.norm(x)])(r.standard_normal(ql))
    s = lambda x: ','.join(map(str, x))
    if r.random() < .5 and ql > 1:
        q1, q2, qo = Q(), Q(), Q()
        if two: a += ['--quat-in=' + s(q1), '--quat-in-two=' + s(q2), '--quat-out=' + s(qo)]
        else: a += ['--quat-in=' + s(q1), '--quat-out=' + s(qo)]
    elif r.random() < .5 and ql == 1:
        t = [round(float(x), 2) for x in r.uniform(-90, 90, 3)]
        a += ['--angle-in=%r' % t[0], '--angle-out=%r' % t[2]] + (['--angle-in-two=%r' % t[1]] if two else [])
        q1, q2 = [math.radians(t[0])], [math.radians(t[1])]
    else:
        an = 44.
        if r.random() < .6: an = round(float(r.uniform(5, 60)), 1); a += ['--angle', str(an)]
        t = math.radians(an)
        q1 = [0.] if ql == 1 else [1.] + [0.] * (ql - 1)
        q2 = [t] if ql == 1 else [math.cos(t), math.sin(t)] if ql == 2 else [math.cos(t / 2), math.sin(t / 2), 0., 0.]
    comp = composition(c, r, a) if r.random() < .6 else None
    T = gx = None
    if r.random() < .4:
        T = round(float(r.uniform(500, 900)), 1); a += ['--temperature0', str(T)]
        if r.random() < .5: gx = round(float(r.uniform(-2, 2)), 2); a += ['--gradxT=%r' % gx]
    got, out, of, dims = tool(c, 'make_bilayer.py', a + ['@D/i.nc'])
    only(c, got, ['phase'] + ['temperature'] * (T is not None) + ['quat%d' % (k + 1) for k in range(ql)] + ['concentration%d' % i for i in range(comp[0] if comp else 0)])
    x = grid(n)[d]
    c1 = ctr[d] / 2 if two else ctr[d]; c2 = 1.5 * ctr[d]
    e1 = np.abs(x - c1) - R; e2 = np.abs(x - c2) - R * ratio
    prof = lambda e: tail(e, dl) if dl else (e < 1e-9) * 1.
    phi = np.maximum(prof(e1), prof(e2)) if two else prof(e1)
    edge = np.abs(e1) < 1e-7
    if two: edge |= np.abs(e2) < 1e-7
    if dl: edge[...] = False
    if two and dl: edge = np.abs(prof(e1) - prof(e2)) < 1e-9                                        # either may be meant
    eq(c, 'phase', got['phase'], phi * pi + (1 - phi) * po, 3e-7, ~edge)
    if comp:
        ns, ci, co, cn = comp
        if cn is None:
            for k in range(ns): eq(c, 'concentration%d' % k, got['concentration%d' % k], phi * ci[k] + (1 - phi) * co[k], 1e-6, ~edge)
        elif not edge.any() or ci is None and co is None: solute(c, got, phi, comp, 1e-6)
    if T is not None: eq(c, 'temperature', got['temperature'], T + (0 if gx is None else gx * (grid(n)[0] - .5 * n[0])), 1e-4)
    q = quats(got, ql)
    u1, u2 = np.array(q1), np.array(q2)
    if two:
        at1 = (e1 < 0) & (np.abs(x - c1) < np.abs(x - c2) - 1e-7); at2 = (e2 < 0) & (np.abs(x - c2) < np.abs(x - c1) - 1e-7)
        for m in range(ql):
            eq(c, 'quat%d' % (m + 1), q[m], u1[m], 3e-6, at1); eq(c, 'quat%d' % (m + 1), q[m], u2[m], 3e-6, at2)
            lo, hi = min(u1[m], u2[m]), max(u1[m], u2[m])
            if q[m].min() < lo - 3e-6 or q[m].max() > hi + 3e-6: raise Violation('between', '%s: orientation component %d outside the range of both grains' % (c.ctx, m), what='between')
    else:
        for m in range(ql): eq(c, 'quat%d' % (m + 1), q[m], u1[m], 3e-6)
    c.features_add('two%d' % two, 'q%d' % ql, 'dir%d' % d, 'delta%d' % bool(dl))

@spec('C23', n=30, dims=(2,), nogeneric=True, flavours=('plain',))
def sphere(c):
    """make_sphere.py"""
    r = c.rng
    n = [int(x) for x in r.integers(6, 20, 3)]
    if r.random() < .5: n[2] = 1
    two = r.random() < .4
    a = ['-x', str(n[0]), '-y', str(n[1]), '-z', str(n[2])]
    R = n[0] / (8 if two else 4)
    if r.random() < .7: R = int(r.integers(1, max(2, n[0] // 4))); a += ['-r', str(R)]
    ratio = 1.5
    if two: a += ['-2']
    if two and r.random() < .5: ratio = round(float(r.uniform(.5, 1.5)), 2); a += ['--ratio', str(ratio)]
    ctr = [x / 2 for x in n]
    if not two:
        for i in range(3):
            if r.random() < .4: ctr[i] = int(r.integers(0, n[i] + 1)); a += ['--c' + 'xyz'[i], str(ctr[i])]
        sph = [ctr + [R]]
    else: sph = [[n[0] / 4, n[1] / 4, n[2] / 2, R], [3 * n[0] / 4, 3 * n[1] / 4, n[2] / 2, R * ratio]]
    pi, po = 1., 0.
    if r.random() < .3: pi = round(float(r.uniform(.5, 1)), 3); a += ['--phase-in', str(pi)]
    if r.random() < .3: po = round(float(r.uniform(0, .3)), 3); a += ['--phase-out', str(po)]
    ci, co = .1, .06
    if r.random() < .5: ci = round(float(r.uniform(.02, .3)), 3); a += ['-c', str(ci)]
    if r.random() < .5: co = round(float(r.uniform(.02, .3)), 3); a += ['--concentration-out', str(co)]
    ql = int(c.pick([4, 1, 2]))
    a += ['--qlen', str(ql)]
    Q = lambda: (lambda x: [round(float(y), 6) for y in x / np.linalg.norm(x)])(r.standard_normal(ql))
    s = lambda x: ','.join(map(str, x))
    if ql > 1 and r.random() < .6:
        qs = [Q(), Q()]; qo = Q()
        a += ['--quat-in=' + s(qs[0]), '--quat-out=' + s(qo)] + (['--quat-in-two=' + s(qs[1])] if two else [])
    elif ql == 1 and r.random() < .6:
        t = [round(float(x), 2) for x in r.uniform(-90, 90, 3)]
        a += ['--angle-in=%r' % t[0], '--angle-out=%r' % t[2]] + (['--angle-in-two=%r' % t[1]] if two else [])
        qs = [[math.radians(t[0])], [math.radians(t[1])]]; qo = [math.radians(t[2])]
    else:
        an = 44.
        if r.random() < .6: an = round(float(r.uniform(5, 60)), 1); a += ['--angle', str(an)]
        qs = qo = None
    got, out, of, dims = tool(c, 'make_sphere.py', a + ['@D/i.nc'])
    only(c, got, ['phase', 'concentration'] + ['quat%d' % (k + 1) for k in range(ql)])
    e = np.array([dist(n, x[:3]) - x[3] for x in sph]); edge = (np.abs(e) < 1e-7).any(0)
    ins = (e < 0).any(0)
    eq(c, 'phase', got['phase'], np.where(ins, pi, po), 1e-12, ~edge)
    eq(c, 'concentration', got['concentration'], np.where(ins, ci, co), 1e-12, ~edge)
    q = quats(got, ql)
    if ql > 1: unit(c, q)
    if qs is None:                                                   # an angle between the inside and the outside
        t = math.radians(an)
        qo = [0.] if ql == 1 else [1.] + [0.] * (ql - 1)
        one = [t] if ql == 1 else [math.cos(t / 2), math.sin(t / 2)] + [0.] * (ql - 2)
        qs = [one] + ([[-t] if ql == 1 else [one[0], -one[1]] + one[2:]] if two else [])
    for m in range(ql):
        eq(c, 'quat%d' % (m + 1), q[m], qo[m], 3e-6, ~ins & ~edge)
        for k in range(len(sph)):
            eq(c, 'quat%d' % (m + 1), q[m], qs[k][m], 3e-6, (e[k] < 0) & ~edge & ((k == len(sph) - 1) | ~(e[-1] < 0)))
    c.features_add('two%d' % two, 'q%d' % ql)

@spec('C23', n=8, dims=(2,), nogeneric=True, flavours=('plain',))
def corners(c):
    """make4corners.py"""
    r = c.rng
    n = [int(x) for x in r.integers(4, 16, 2) * 2] + [int(r.choice([1, 1, 3]))]
    a = ['--nx', str(n[0]), '--ny', str(n[1]), '--nz', str(n[2])]
    got, out, of, dims = tool(c, 'make4corners.py', a + ['@D/i.nc'])
    only(c, got, ['phase'] + ['quat%d' % (k + 1) for k in range(4)])
    x, y, z = grid(n)
    e = np.array([np.sqrt((x - i) ** 2 + (y - j) ** 2 + (z - .5) ** 2) - n[0] / 2 for i in (0, n[0]) for j in (0, n[1])])
    eq(c, 'phase', got['phase'], (e <= 0).any(0), 0, ~(np.abs(e) < 1e-6).any(0))
    q = quats(got, 4)
    unit(c, q)
    left = x < n[0] / 2; low = y < n[0] / 2
    for at in (left & low, left & ~low, ~left & low, ~left & ~low):
        if at.any() and np.ptp(q[:, at], axis=1).max() > 0: raise Violation('grain', '%s: more than one orientation in one corner' % c.ctx, what='grain')

@spec('C23', n=50, dims=(2,), nogeneric=True, flavours=('plain',))
def front(c):
    """make_initial_grains_on_boundary.py"""
    r = c.rng
    n = [int(x) for x in r.integers(8, 26, 3)]
    dim = 3
    if r.random() < .5: n[2] = 1; dim = 2
    plane = int(r.integers(0, 3 if n[2] > 1 else 2)) if r.random() < .6 else 1
    if plane == 2 and n[2] == 1: plane = 1
    d0, d1, d2 = {0: (1, 0, 2), 1: (0, 1, 2), 2: (0, 2, 1)}[plane]
    ng = int(r.integers(1, 5)) if r.random() < .7 else 1
    a = ['--nx', str(n[0]), '--ny', str(n[1]), '--nz', str(n[2])]
    if dim == 2: a += ['-d', '2']
    if plane != 1 or r.random() < .3: a += ['--plane', str(plane)]
    if ng > 1 or r.random() < .5: a += ['--ngrains', str(ng)]
    sf = 1. / 60
    if r.random() < .8: sf = round(float(r.uniform(.1, .6)), 3); a += ['--solid-fraction', str(sf)]
    w = 5.
    if r.random() < .8: w = 0. if r.random() < .3 else round(float(r.uniform(.5, 3)), 2); a += ['--width', str(w)]
    fl = 0.
    if r.random() < .4: fl = round(float(r.uniform(.01, .1)), 3); a += ['--fluctuation', str(fl)]
    ql = int(c.pick([0, 1, 2, 4, 4]))
    if ql: a += ['--qlen', str(ql)]
    sm = 1
    if r.random() < .6: sm = int(r.integers(0, 2)); a += ['--smooth', str(sm)]
    per = [0, 0, 0]
    for i in range(3):
        if r.random() < .4: per[i] = int(r.integers(0, 2)); a += ['--periodic' + 'xyz'[i], str(per[i])]
    q0 = None
    if ng == 1 and ql in (2, 4) and r.random() < .5:
        q0 = r.standard_normal(ql); q0 = [round(float(x), 6) for x in q0 / np.linalg.norm(q0)]; a += ['--quatin=' + ','.join(map(str, q0))]
    comp = None
    if r.random() < .6: comp = composition(c, r, a, ('both', 'in', 'nominal'))
    if not ql and not sm: sm = 1
    got, out, of, dims = tool(c, 'make_initial_grains_on_boundary.py', a + ['@D/i.nc'])
    only(c, got, ['phase'] + ['quat%d' % (k + 1) for k in range(ql)] + ['concentration%d' % i for i in range(comp[0] if comp else 0)])
    X = [x / m for x, m in zip(grid(n), n)]
    e = X[d1] - sf + (fl * np.sin(2 * math.pi * X[d0]) if fl else 0.)
    want = tail(e, w / n[d1] / 6) if w else (e < 0) * 1.
    cut = w > 0 and .5 * (1 + math.tanh(-3 * .1 / (w / n[d1])))
    for g in range(1, ng):
        dx = np.abs(X[d0] - g / ng)
        want = np.where(n[d0] * dx < 5 - 1e-9, want * np.sin(.5 * math.pi * dx * n[d0] / 5) ** 2, want)
    eq(c, 'phase', got['phase'], want, 4e-7 + (e > .1 - 1e-9) * cut, (np.abs(e) > 1e-7) | (w > 0))
    phi = got['phase'].astype(float)
    if comp:
        ns, ci, co, cn = comp
        for s in range(ns):
            i = ci[s] if ci else cn[s]; o = co[s] if co else (cn[s] - i * sf) / (1 - sf)
            eq(c, 'concentration%d' % s, got['concentration%d' % s], i * phi + o * (1 - phi), 1e-6)
    if ql:
        q = quats(got, ql).astype(float)
        if sm == 0 and ql > 1: unit(c, q)
        g = np.minimum((X[d0] * ng).astype(int), ng - 1)
        ax = 2 - d0
        sure = np.abs(X[d0] * ng - np.round(X[d0] * ng)) > 1e-6
        if sm == 0: at0 = phi > .1 + 1e-6
        else: at0 = np.ones_like(sure)
        if sm and ng == 1:
            for m in range(ql):
                if np.ptp(q[m]) > 1e-6: raise Violation('grain', '%s: one grain has more than one orientation' % c.ctx, what='grain')
        if sm == 0:
            for k in range(ng):
                v = q[:, (g == k) & at0 & sure]
                if v.size and np.ptp(v, axis=1).max() > 0: raise Violation('grain', '%s: more than one orientation in grain %d' % (c.ctx, k), what='grain')
                if v.size and q0 and not np.allclose(v[:, 0], q0, atol=2e-6): raise Violation('quatin', '%s: orientation %s' % (c.ctx, v[:, 0]), what='quatin')
        # the orientations it chose, and three smoothings of them
        chosen = [np.array([float(x) for x in l.split('[')[1].strip(' ]').split()])[:ql] for l in re.findall(r'--- q=(\[[^\]]*)', out)] if not q0 else [np.array(q0)]
        if len(chosen) != ng: raise Violation('grains', '%s: %d orientations for %d grains' % (c.ctx, len(chosen), ng), what='grains')
        for k in chosen:
            if ql > 1 and abs(np.linalg.norm(k) - 1) > 1e-5: raise Violation('unit', '%s: orientation %s' % (c.ctx, k), what='unit')
        ref = np.array([[k[m] for k in chosen] for m in range(ql)])[:, g] if ng else None
        if not sure.all(): return
        if sm:
            core = np.ones(n[::-1], bool)
            for i in range(3):
                if not per[i] and n[i] > 1:
                    sl = [slice(None)] * 3; sl[2 - i] = [0, -1]; core[tuple(sl)] = False
            if n[2] > 1 and not per[2]: pass
            for it in range(3):
                new = .25 * ref + .125 * sum(np.roll(ref, s, 1 + i) for i in range(3) for s in (1, -1))
                ref = np.where(core, new, ref)
        for m in range(ql): eq(c, 'quat%d' % (m + 1), q[m], ref[m], 2e-5 if q0 is None else 3e-6, at0)
    c.features_add('g%d' % ng, 'plane%d' % plane, 'q%d' % ql, 'sm%d' % sm)

_q = None
def quat_module():
    global _q
    if _q is None:
        p = os.path.join(UTILS, 'quat.py')
        if not os.path.exists(p): raise Skip('quat.py is gone')
        sys.dont_write_bytecode = True
        s = importlib.util.spec_from_file_location('ampe_quat', p); _q = importlib.util.module_from_spec(s); s.loader.exec_module(_q)
    return _q

@spec('C23', n=40, dims=(2,), nogeneric=True, flavours=('plain',))
def quaternions(c):
    """quat.py: algebra and crystal symmetry of the tools"""
    Q = quat_module(); r = c.rng
    c.ctx = 'quat.py'; c.calls += 1; c.nontriv = True
    U = lambda n=4: (lambda x: x / np.linalg.norm(x))(r.standard_normal(n))
    def same(what, got, want, tol=1e-12):
        c.points += 1
        if got is None or not np.allclose(np.asarray(got, float), want, rtol=0, atol=tol): raise Violation('quat', 'quat.py: %s: %s; it is %s' % (what, got, want), what=what.split('(')[0])
    for k in range(20):
        a, b = r.standard_normal(4), r.standard_normal(4)
        p = np.zeros(4) + 7; Q.multiplyQuat(a, b, p); same('multiplyQuat(%s, %s)' % (a, b), p, mul(a, b))
        same('rotateQuat(%s, %s)' % (a, b), Q.rotateQuat(a, b), mul(a, b))
        x = a.copy(); Q.multiplyQuat(x, b, x); same('multiplyQuat in place', x, mul(a, b))
        u, v = r.standard_normal(2), r.standard_normal(2)
        p = np.zeros(2) + 3; Q.multiplyQuat(u, v, p); z = complex(*u) * complex(*v); same('multiplyQuat(%s, %s)' % (u, v), p, [z.real, z.imag])
        p = np.zeros(4); Q.addQuat(a, b, p); same('addQuat', p, a + b); Q.subtractQuat(a, b, p); same('subtractQuat', p, a - b)
        same('quatMagnitude(%s)' % a, Q.quatMagnitude(a), np.linalg.norm(a)); same('duplicateQuat', Q.duplicateQuat(a), a)
        x = a.copy(); Q.normalizeQuat(x); same('normalizeQuat(%s)' % a, x, a / np.linalg.norm(a))
        same('makeNormalizedQuat', Q.makeNormalizedQuat(*a), a / np.linalg.norm(a)); same('makeNormalizedQuat2', Q.makeNormalizedQuat2(*u), u / np.linalg.norm(u))
        t = float(r.uniform(-math.pi, math.pi)); same('quatAngle', Q.quatAngle(2 * math.sin(abs(t) / 4)), abs(t), 1e-7); same('quatAngle2', Q.quatAngle2(2 * math.sin(abs(t) / 2)), abs(t), 1e-6)
        g = np.array(Q.getQuatRandom(t, 4)); same('length of getQuatRandom', np.linalg.norm(g), 1.)
        same('getQuatRandom(%r, 2)' % t, np.array(Q.getQuatRandom(t, 2))[:2], [math.cos(t), math.sin(t)])
        # symmetry: an image under the group; the nearest one, or within an eighth of a turn of it
        q1, q2 = U(), U()
        s = Q.quatSymm(q1, q2)
        im = images(q2); d = np.linalg.norm(im - q1, axis=1)
        if np.linalg.norm(im - s, axis=1).min() > 1e-12: raise Violation('quat', 'quat.py: quatSymm(%s, %s) = %s is not equivalent to the second' % (q1, q2, s), what='quatSymm')
        c.points += 1
        ds = np.linalg.norm(s - q1)
        if ds > d.min() + 1e-12 and ds > 2 * math.sin(math.pi / 16) + 1e-12: raise Violation('quat', 'quat.py: quatSymm(%s, %s) = %s at distance %r; the nearest image is at %r' % (q1, q2, s, ds, d.min()), what='quatSymm')
        f = Q.quatMakeFundamental(q2)
        if np.linalg.norm(im - f, axis=1).min() > 1e-12 or abs(f[0]) < np.abs(im[:, 0]).max() - 1e-12 and np.linalg.norm(f - [1, 0, 0, 0]) > 2 * math.sin(math.pi / 16) + 1e-12: raise Violation('quat', 'quat.py: quatMakeFundamental(%s) = %s' % (q2, f), what='quatMakeFundamental')
        u1, u2 = U(2), U(2)
        s = Q.quatSymm(u1, u2); im = np.array([(lambda z: [z.real, z.imag])(complex(*u2) * 1j ** k) for k in range(4)])
        d = np.linalg.norm(im - u1, axis=1)
        if np.linalg.norm(im - s, axis=1).min() > 1e-12 or np.linalg.norm(s - u1) > max(d.min(), 2 * math.sin(math.pi / 8)) + 1e-12: raise Violation('quat', 'quat.py: quatSymm(%s, %s) = %s' % (u1, u2, s), what='quatSymm')
    n = Q.getNumberSymmetryRotations(4)
    R = np.array([Q.getQuatSymmetryRotation(k, 4) for k in range(n)])
    c.points += n
    if n != 48 or any(np.linalg.norm(R - s, axis=1).min() > 1e-12 for s in cube()): raise Violation('quat', 'quat.py: its rotations are not those of the cube', what='group')
    for ql, m in ((4, n), (2, Q.getNumberSymmetryRotations(2))):
        for k in range(m):
            s = Q.getQuatSymmetryRotation(k, ql); t = Q.getQuatSymmetryRotationConjugate(k, ql)
            p = np.zeros(ql); Q.multiplyQuat(np.array(s), np.array(t), p)
            same('rotation %d of %d components times its conjugate' % (k, ql), p, [1.] + [0.] * (ql - 1))
            same('conjugate index', Q.getQuatSymmetryRotation(Q.getQuatSymmetryRotationConjugateIdx(k, ql), ql), t)
    for k in range(Q.getNumberSymmetryRotations(1)): same('rotation of an angle and its conjugate', Q.getQuatSymmetryRotation(k, 1) + Q.getQuatSymmetryRotationConjugate(k, 1), 0.)

@spec('C23', n=24, dims=(2,), nogeneric=True, flavours=('plain',))
def substitutes(c):
    """an input file with one parameter given another value: nothing else changes"""
    r = c.rng
    keys = ['interval', 'end_time', 'epsilon_phi', 'max_timesteps', 'filename', 'phi_mobility', 'interval_type']
    lines = []; ind = 0
    for _ in range(int(r.integers(3, 30))):
        q = r.random()
        if q < .12: lines.append(''); continue
        if q < .22: lines.append(' ' * ind + '// ' + str(r.choice(keys)) + ' is in um'); continue
        if q < .32 and ind < 6: lines.append(' ' * ind + 'Block%d{' % r.integers(9)); ind += 3; continue
        if q < .4 and ind: ind -= 3; lines.append(' ' * ind + '}'); continue
        lines.append(' ' * ind + str(r.choice(keys)) + ' = ' + str(r.choice(['1.e-3', '"init.nc"', '12', 'TRUE'])) + str(r.choice(['', '  // [s]', ' // old = 3'])))
    key = str(r.choice(keys)); val = str(r.choice(['2.5', '"other.nc"', '100', 'FALSE']))
    got, out, _, _ = tool_with(c, 'substituteInputParameter.py', ['@D/input', key, val], {'input': '\n'.join(lines) + '\n'})
    res = out.split('\n')
    if res and res[-1] == '': res.pop()
    c.points += len(lines); c.nontriv = any(l.split()[:1] == [key] for l in lines)
    if len(res) != len(lines): raise Violation('lines', '%s: %d lines become %d' % (c.ctx, len(lines), len(res)), what='lines')
    for a, b in zip(lines, res):
        w = a.split()
        if w[:1] == [key]: w[2] = val
        if b.split() != w: raise Violation('line', '%s: the line %r of %r becomes %r' % (c.ctx, a, lines, b), what='line')

@spec('C23', n=24, dims=(2,), nogeneric=True, flavours=('plain',))
def fractions(c):
    """volume fractions printed by a run against time"""
    r = c.rng
    lines = ['Read parameters']; t = 0.; want = []
    first = r.random() < .5
    def block():
        for k in range(int(r.integers(1, 40))): lines.append(str(r.choice(['  Total energy = 1.e-3', 'Energies:', '  Integral concentration = 0.2', '    Number of subcyles = 3'])))
    for n in range(int(r.integers(1, 8))):
        if n or first: lines.append('cycle # %d : t = %s' % (n, repr(t)))
        if n or first or r.random() < .5:
            for w in ([['solid'], ['0', '1', '2'], ['solid', 'eta']][int(r.integers(3))]):
                block()
                v = float('%.6g' % r.random()); lines.append('  Volume fraction of %s = %s' % ('phase ' + w if w.isdigit() else w + ' phase', repr(v))); want.append((t, v))
        if r.random() < .3: block()
        t = float('%.6g' % (t + r.random() * 10. ** r.integers(-6, 3)))
    got, out, _, _ = tool_with(c, 'volfracvstime.py', ['@D/log'], {'log': '\n'.join(lines) + '\n'})
    res = [l for l in out.split('\n') if l and l[0] != '#']
    c.points += len(want); c.nontriv = True
    have = [tuple(float(x) for x in l.split(',')) for l in res]
    if have != want: raise Violation('series', '%s: the run printed (time, fraction) %s; the table has %s' % (c.ctx, want[:8], have[:8]), what='series')

# ------------------------------------------------------------------------------------------ what a simulation reads and writes
from mod import Model
import mdl, wd
from specs.model import deck_of, variant, finite, step_for
from scipy.io import netcdf_file

def single(fn):
    """the file in single precision, its names spelt the other way round"""
    f = netcdf_file(fn, 'r', mmap=False); v = {k: (x.data.copy(), x.dimensions) for k, x in f.variables.items()}; dims = dict(f.dimensions); f.close()
    return v, dims

def rewrite(fn, kind, v, dims):
    f = netcdf_file(fn, 'w')
    for k, n in dims.items(): f.createDimension(k, n)
    for k, (x, d) in v.items(): f.createVariable(k, kind, d)[:] = x
    f.close()

def wanted(c, m, f, ic, dep):
    """fields of a model according to its initial data: name -> depth -> array"""
    w = {}
    g = lambda k: [np.float32(float(x)) for x in ic[k]] if k in ic else None
    if m.has('phase'):
        n = dep['phase']; ph = []
        for i in range(n):
            if 'phase' in f: ph.append(f['phase'])
            elif 'phase%d' % i in f: ph.append(f['phase%d' % i])
            else: ph.append(1. - sum(ph))
        w['phase'] = ph
    if m.has('eta'): w['eta'] = [f['eta']]
    if m.has('quat') and m.has('concentration') is not None:
        q = g('init_q'); w['quat'] = [np.full(m.n, q[i]) if q else f['quat%d' % (i + 1)] for i in range(dep['quat'])]
    if m.has('concentration'):
        q = g('init_c'); n = dep['concentration']
        w['concentration'] = [np.full(m.n, q[i]) if q else f['concentration%d' % i if n > 1 or 'concentration' not in f else 'concentration'] for i in range(n)]
    if m.has('temperature'):
        q = g('init_t'); w['temperature'] = [np.full(m.n, q[0]) if q else f['temperature']]
    return w

@spec('C23', n=94, world=True, nogeneric=True, flavours=('plain',))
def reads(c):
    """fields at the start against the arrays of the file and the uniform values of the input"""
    r = c.rng
    name = deck_of(c, mod.NOISE)
    n = mod.size(c.nd, r)
    uni = [k for k in ('init_q', 'init_c', 'init_t') if r.random() < .3]
    kind = 'f' if r.random() < .4 else 'd'
    alt = r.random() < .5
    def edit(d, f):
        ic = d['InitialConditions']
        for k in ('init_q', 'init_c', 'init_t'):
            if not (k == 'init_t' and name in PHASELESS): ic.pop(k, None)
        if 'init_q' in uni:
            ql = mdl.qlen(d, c.nd); q = r.standard_normal(ql); ic['init_q'] = ['%.6f' % x for x in q / np.linalg.norm(q)]
        if 'init_c' in uni: pass
        if 'init_t' in uni: ic['init_t'] = ['%.3f' % r.uniform(.9 * f['temperature'].max(), 1.1 * f['temperature'].max())]
        ns = max(1, nspecies(d))
        if 'init_c' in uni: ic['init_c'] = ['%.6f' % x for x in r.uniform(.05, .2, ns)]
        if alt:
            if 'phase' in f and 'phase0' in f: f.pop('phase')
            if ns == 1 and 'concentration' in f: f.pop('concentration')
        elif ns == 1: f.pop('concentration0', None)
        if ns > 1: f.pop('concentration', None)
        if 'phase' in f: f.pop('phase0', None)
    boxes = mod.cutboxes(r, n) if r.random() < .6 else None
    st = c.rng.bit_generator.state
    import mdl as _m
    d, f = _m.setup(name, c.nd, n, r, '.')
    edit(d, f)
    if kind == 'f': f = {k: np.asarray(v, np.float32).astype(float) for k, v in f.items()}
    c.ctx += ' %s%s %s' % (kind, '' if not uni else ' uniform ' + ' '.join(uni), '' if boxes is None else '%d patches' % len(boxes))
    import mod as M
    old = _m.writenc
    if kind == 'f':
        def wr(fn, n_, f_):
            old(fn, n_, f_); rewrite(fn, 'f', *single(fn))
        _m.writenc = wr
    try: m = Model(c, name, n=n, deckf=(d, f), boxes=boxes)
    finally: _m.writenc = old
    check(c, m, d, f, d['InitialConditions'], 3e-7 if kind == 'f' or uni or name in PHASELESS else 1e-14)
    c.features_add(kind, *uni)

READ = "import sys, numpy, netCDF4; numpy.savez(sys.argv[2], **{k: numpy.ma.filled(v[...], numpy.nan) for k, v in netCDF4.Dataset(sys.argv[1]).variables.items()})"
def readnc(fn):
    """variables of a file as [i, j(, k)] in double"""
    with tempfile.TemporaryDirectory(prefix='ampe_') as d:
        o = os.path.join(d, 'o.npz')
        p = subprocess.run([PY, '-Bc', READ, fn, o], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if not os.path.exists(o): raise Skip('no python with netCDF4: ' + p.stdout[-200:])
        v = {k: np.asarray(x, float).transpose(2, 1, 0) for k, x in np.load(o).items()}
    return v

@spec('C23', n=94, world=True, nogeneric=True, flavours=('plain',))
def writes(c):
    """the file of initial data a run writes at its end against the fields it is taken from; and a run started from that file"""
    r = c.rng
    name = deck_of(c, mod.NOISE)
    n = mod.size(c.nd, r)
    boxes, boxes2 = [mod.cutboxes(r, n) if r.random() < .6 else None for _ in range(2)]
    steps = int(r.integers(0, 3))
    c.ctx += ' %d patches, %d steps' % (1 if boxes is None else len(boxes), steps)
    d, f = mdl.setup(name, c.nd, n, r, '.')
    def one():
        m = Model(c, name, n=n, deckf=(d, f), boxes=boxes)
        dt = step_for(m.rhs(0., ln=0), m.state()) if steps else 0
        for _ in range(steps): m.cycle(dt)
        m.w.value('write', 0)
        return {k: m.get(k) for k in ('phase', 'eta', 'temperature', 'quat', 'concentration') if m.has(k)}
    a = mod.fresh(c, one)
    s = scale(d)
    want = {}
    for k, x in a.items():
        for j in range(x.shape[-1]):
            want[{'quat': 'quat%d' % (j + 1)}.get(k, k + str(j) if x.shape[-1] > 1 else k)] = x[..., j] * (s if k == 'temperature' else 1)
    got = readnc('observed.nc')
    for k, x in want.items():
        if k not in got: raise Violation('lost', '%s: the file of initial data has no %s (it has %s)' % (c.ctx, k, ' '.join(sorted(got))), what=k)
        g = got[k].reshape(x.shape)
        e = np.abs(g - x); c.points += e.size; c.nontriv = True
        if not (e <= 3e-7 * (1 + np.abs(x))).all():
            j = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
            raise Violation('written', '%s: %s is written as %r at cell %s where the run has %r' % (c.ctx, k, float(g[j]), [int(q) for q in j], float(x[j])), what=k)
    d2 = d.copy() if hasattr(d, 'copy') else d
    ic = d2['InitialConditions']
    for k in ('init_q', 'init_c', 'init_t'):
        if not (k == 'init_t' and name in PHASELESS): ic.pop(k, None)
    ic['filename'] = ['"observed.nc"']
    def two():
        m = Model(c, name, n=n, deckf=(d2, f), boxes=boxes2)
        return {k: m.get(k) for k in a}
    b = mod.fresh(c, two)
    for k, x in a.items():
        if k == 'temperature' and not constant(d): continue
        if b[k].shape != x.shape: raise Violation('again', '%s: %s has %d components, %d when started from the file it wrote' % (c.ctx, k, x.shape[-1], b[k].shape[-1]), what=k)
        e = np.abs(b[k] - x)
        if k == 'phase' and x.shape[-1] > 1: e = np.where(np.arange(x.shape[-1]) == x.shape[-1] - 1, 0 * e, e)      # the last one may be what the others leave
        if not (e <= 1e-6 * (1 + np.abs(x))).all():
            j = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
            raise Violation('again', '%s: a run started from the file another one wrote has %s %r at %s; the other had %r' % (c.ctx, k, float(b[k][j]), [int(q) for q in j], float(x[j])), what=k)

PHASELESS = {x for x in list(mod.D2) + list(mod.D3) if 'CahnHilliard' in x}

def nspecies(d):
    """number of compositions"""
    k = d.get_path('ModelParameters/ConcentrationModel')
    return int(float(k['nspecies'][0])) - 1 if k and 'nspecies' in k else 1

def check(c, m, d, f, ic, tol):
    dep = {k: m.get(k).shape[-1] for k in ('phase', 'eta', 'temperature', 'quat', 'concentration') if m.has(k)}
    w = wanted(c, m, f, ic, dep)
    for k, v in w.items():
        a = m.get(k)
        if k == 'temperature':
            if not constant(d): continue
            s = scale(d)
            v = [x / s for x in v]
        for i, x in enumerate(v):
            e = np.abs(a[..., i] - x); c.points += e.size; c.nontriv = True
            if not (e <= tol * (1 + np.abs(x))).all():
                j = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
                raise Violation('initial', '%s: %s, component %d, starts from %r at cell %s; the initial data say %r' % (c.ctx, k, i, float(a[..., i][j]), [int(q) for q in j], float(np.broadcast_to(x, e.shape)[j])), what=k)

def scale(d):
    """what the program divides temperatures by"""
    t = d.get_path('ModelParameters/Temperature') or {}
    T = float(t['meltingT'][0]) if 'meltingT' in t else -1.
    return T if unsteady(t) and T > 0 else 1.

def text(t, k, v): return t[k][0].strip('"') if k in t else v
def unsteady(t): return text(t, 'type', 'scalar') == 'heat' and text(t, 'equation_type', 'steady') != 'steady'
def constant(d):
    """whether the temperature starts from the initial data"""
    t = d.get_path('ModelParameters/Temperature') or {}
    return text(t, 'type', 'scalar') in ('constant', 'file') or unsteady(t)
