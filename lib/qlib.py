"""reference quaternion algebra (written from the mathematics; the group table is built here, and matched to the
library's rotation numbers by asking the library to rotate the identity)"""
import numpy as np, itertools
from harness import Call, Arr

def qmul(a, b):
    n = a.shape[-1]
    if n == 4:
        a0, a1, a2, a3 = [a[..., k] for k in range(4)]
        b0, b1, b2, b3 = [b[..., k] for k in range(4)]
        return np.stack([a0*b0-a1*b1-a2*b2-a3*b3, a0*b1+a1*b0+a2*b3-a3*b2, a0*b2-a1*b3+a2*b0+a3*b1, a0*b3+a1*b2-a2*b1+a3*b0], -1)
    return np.stack([a[..., 0]*b[..., 0]-a[..., 1]*b[..., 1], a[..., 0]*b[..., 1]+a[..., 1]*b[..., 0]], -1)

def conj(a):
    r = -a; r[..., 0] = a[..., 0]
    return r

def group(n):
    """all symmetry operations (rows)"""
    if n == 4:
        g = set()
        for s in (1, -1):
            for k in range(4):
                v = [0] * 4; v[k] = s; g.add(tuple(v))
        for i, j in itertools.combinations(range(4), 2):
            for s in itertools.product((1, -1), repeat=2):
                v = [0] * 4; v[i], v[j] = s; g.add(tuple(v))
        for s in itertools.product((1, -1), repeat=4): g.add(s)
        G = np.array(sorted(g), float)
        return G / np.linalg.norm(G, axis=1)[:, None]
    if n == 2: return np.array([[1., 0], [0, 1], [-1, 0], [0, -1]])
    return np.array([0, .5, -.5, 1, -1, 1.5, -1.5, 2, -2])[:, None] * np.pi

NROT = {4: 48, 2: 4, 1: 9}
_cache = {}
def table(lib, n):
    """rotation of every positive number, as the library numbers them: row iq-1"""
    k = (id(lib), n)
    if k not in _cache:
        rows = []
        ident = np.zeros(n)
        if n > 1: ident[0] = 1
        for iq in range(1, NROT[n] + 1):
            q, p, i = Arr((0,), (n,)), Arr((0,), (n,)), Arr((0,), (1,), 'i')
            q.a[:] = ident; p.a[:] = 9e9; i.a[:] = iq
            Call(lib, 'quatsymmrotate', [q, i, p, n]).invoke()
            rows.append(p.a.copy())
        _cache[k] = np.array(rows)
    return _cache[k]

def rotate(lib, q, iq):
    """q (...,n) rotated by symmetry number iq (...): q*qr ; negative = inverse"""
    n = q.shape[-1]
    T = table(lib, n)
    iq = np.asarray(iq)
    r = T[np.abs(iq) - 1]
    if n == 1: return q + np.where(iq[..., None] < 0, -r, r)
    r = np.where(iq[..., None] < 0, conj(r), r)
    return qmul(q, r)

def normed(q):
    if q.shape[-1] == 1: return q
    m = np.linalg.norm(q, axis=-1, keepdims=True)
    return np.where(m < 1e-15, 0., q / np.where(m < 1e-15, 1., m))

def mindist(q1, q2):
    """smallest distance between q1 and any symmetric equivalent of q2 (both normalised)"""
    n = q1.shape[-1]
    G = group(n)
    if n == 1: return np.min(np.abs(q2[..., None, 0] + G[:, 0] - q1[..., None, 0]), -1)
    c = qmul(normed(q2)[..., None, :], G)
    return np.min(np.linalg.norm(c - normed(q1)[..., None, :], axis=-1), -1)

def dist(q1, q2):
    if q1.shape[-1] == 1: return np.abs(q1 - q2)[..., 0]
    return np.linalg.norm(normed(q1) - normed(q2), axis=-1)

def randq(rng, shape, n, grains=None, jitter=.05, norm=True):
    """random orientation field: few grains, jitter, random symmetric variants"""
    g = grains or int(rng.integers(1, 4))
    if n == 1:
        base = rng.uniform(-3, 3, (g, 1))
    else:
        base = normed(rng.normal(size=(g, n)))
    k = rng.integers(0, g, shape)
    q = base[k] + jitter * rng.normal(size=tuple(shape) + (n,))
    G = group(n)
    sym = rng.integers(0, len(G), shape)
    use = rng.random(shape) < .5
    if n == 1: qs = q + G[sym]
    else: qs = qmul(q, G[sym])
    q = np.where(use[..., None], qs, q)
    if norm and n > 1: q = normed(q)
    return q
