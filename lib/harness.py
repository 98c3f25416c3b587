"""Monitors around calls of AMPE kernels.

A *spec* is a function spec(c) that, for a Case c (dimension c.nd, random generator c.rng), makes inputs, calls the
real code through c.call(...) and states what must be observed with c.expect(...)/c.check(...).  Around every call the
Case also runs generic monitors:
  footprint   every array element outside the expected output region keeps its bits (inputs are not modified)
  canary      guard elements before and after every array keep their bits
  poison      elements the reference never read are replaced by NaN (outputs included) and the call is repeated: the
              outputs must not change (the kernel needs no other ghost cells, and leaves no output element unwritten)
  split       (where the kernel is local) the same call on the two halves of the box gives the same bits-up-to-rounding
"""
import ctypes, zlib, json, os, sys, math, itertools
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
SIGS = json.load(open(os.path.join(HERE, 'sigs.json')))
CANARY = 0x7ff4dead12345678
PAD = 32

class Skip(Exception):
    """the routine is gone or takes other arguments now: nothing to observe"""

class Violation(Exception):
    def __init__(self, kind, msg, **kw):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.kw = kind, msg, kw
    def __reduce__(self): return (_violation, (self.kind, self.msg, self.kw))

def _violation(k, m, kw): return Violation(k, m, **kw)

# ------------------------------------------------------------------------------------------ boxes
class Box:
    """cell index box; tuple of lo, tuple of hi (inclusive)"""
    def __init__(self, lo, hi):
        self.lo, self.hi = tuple(int(x) for x in lo), tuple(int(x) for x in hi)
    @property
    def nd(self): return len(self.lo)
    def grow(self, n, d=None):
        return Box([l - n if d is None or d == i else l for i, l in enumerate(self.lo)],
                   [h + n if d is None or d == i else h for i, h in enumerate(self.hi)])
    def ext(self, d, lo=0, hi=1):
        return Box([l - (lo if i == d else 0) for i, l in enumerate(self.lo)],
                   [h + (hi if i == d else 0) for i, h in enumerate(self.hi)])
    side = ext  # side box in direction d: one more in d
    def shift(self, s):
        return Box([l + x for l, x in zip(self.lo, s)], [h + x for h, x in zip(self.hi, s)])
    @property
    def shape(self): return tuple(h - l + 1 for l, h in zip(self.lo, self.hi))
    @property
    def size(self): return int(np.prod(self.shape))
    def ints(self):
        r = []
        for l, h in zip(self.lo, self.hi): r += [l, h]
        return r
    def __repr__(self): return 'Box(%s,%s)' % (list(self.lo), list(self.hi))
    def indices(self):
        return itertools.product(*[range(l, h + 1) for l, h in zip(self.lo, self.hi)])
    def coarsen(self, r):
        return Box([l // r for l in self.lo], [h // r for h in self.hi])

class GBox(Box):
    """index box of an array: a box with ghosts (follows its base box when a patch is cut)"""
    def __init__(self, base, n):
        b = base.grow(n); Box.__init__(self, b.lo, b.hi)
        self.base, self.n = base, n

def e(nd, d, n=1):
    """unit shift"""
    t = [0] * nd; t[d] = n
    return tuple(t)

# ------------------------------------------------------------------------------------------ arrays
_libc = ctypes.CDLL(None)
_libc.malloc.restype = ctypes.c_void_p
_libc.malloc.argtypes = [ctypes.c_size_t]
_libc.free.argtypes = [ctypes.c_void_p]

class Arr:
    """an array handed to Fortran: exact-size malloc'ed in sanitizer mode, canary-padded otherwise"""
    SAN = False
    def __init__(self, lb, shape, dtype='d', name=''):
        self.lb = tuple(lb); self.shape = tuple(int(s) for s in shape); self.name = name
        self.dt = np.dtype({'d': np.float64, 'i': np.int32}[dtype])
        n = int(np.prod(self.shape)) if self.shape else 1
        self.n = n
        if Arr.SAN:
            self.ptr = _libc.malloc(max(1, n * self.dt.itemsize))
            self._raw = None
            buf = (ctypes.c_char * (n * self.dt.itemsize)).from_address(self.ptr)
            flat = np.frombuffer(buf, dtype=self.dt)
        else:
            pad = PAD * 8 // self.dt.itemsize
            self._raw = np.empty(n + 2 * pad, dtype=self.dt)
            rb = self._raw.view(np.uint64 if self.dt.itemsize == 8 else np.uint32)
            rb[:pad] = CANARY & (0xffffffffffffffff if self.dt.itemsize == 8 else 0xffffffff)
            rb[n + pad:] = rb[0]
            self._pad = pad
            flat = self._raw[pad:pad + n]
            self.ptr = self._raw.ctypes.data + pad * self.dt.itemsize
        self.flat = flat
        self.a = flat.reshape(self.shape, order='F')
        self.b = None                      # before-call copy
        self.read = np.zeros(self.shape, bool, order='F')
        self.written = np.zeros(self.shape, bool, order='F')
        self.opaque = False                # reference does not track reads
    def __del__(self):
        if Arr.SAN and getattr(self, 'ptr', None):
            self.a = self.flat = None
            _libc.free(self.ptr)
    def canary_ok(self):
        if self._raw is None: return True
        rb = self._raw.view(np.uint64 if self.dt.itemsize == 8 else np.uint32)
        c = CANARY & (0xffffffffffffffff if self.dt.itemsize == 8 else 0xffffffff)
        return bool((rb[:self._pad] == c).all() and (rb[self._pad + self.n:] == c).all())
    def bits(self, a=None):
        a = self.a if a is None else a
        return a.view(np.uint64 if self.dt.itemsize == 8 else np.uint32)
    def snap(self):
        self.b = self.a.copy(order='F')
    def fill(self, v):
        self.a[...] = v
        return self

class Field(Arr):
    """Arr over a box with ghosts; cell centred (side=None) or side centred (side=d); optional depth"""
    def __init__(self, box, ng=0, depth=None, side=None, dtype='d', name=''):
        ng = (ng,) * box.nd if isinstance(ng, int) else tuple(ng)
        gb = Box([l - g for l, g in zip(box.lo, ng)], [h + g for h, g in zip(box.hi, ng)])
        if side is not None: gb = gb.ext(side)
        self.box, self.gbox, self.side_dir, self.depth = box, gb, side, depth
        self.ngs = ng; self.ng = ng[0]
        dp = () if depth is None else tuple(depth) if isinstance(depth, (tuple, list)) else (depth,)
        Arr.__init__(self, gb.lo + (1,) * len(dp), gb.shape + dp, dtype, name)
    def _sl(self, box, s=None):
        lo, hi = box.lo, box.hi
        if s is not None:
            lo = [l + x for l, x in zip(lo, s)]; hi = [h + x for h, x in zip(hi, s)]
        sl = []
        for d in range(box.nd):
            a, z = lo[d] - self.gbox.lo[d], hi[d] - self.gbox.lo[d] + 1
            if a < 0 or z > self.gbox.shape[d]:
                raise IndexError('%s: reference reads outside array: %s shift %s in %s' % (self.name, box, s, self.gbox))
            sl.append(slice(a, z))
        return tuple(sl)
    def _full(self, sl, m):
        if self.depth is None: return sl
        if m is None: return sl
        return sl + (tuple(m) if isinstance(m, (tuple, list)) else (m,))
    def v(self, box, s=None, m=None):
        """input values (before the call) on box shifted by s, component m (0-based)"""
        sl = self._full(self._sl(box, s), m)
        self.read[sl] = True
        return (self.a if self.b is None else self.b)[sl]
    def g(self, box, s=None, m=None):
        """values after the call"""
        return self.a[self._full(self._sl(box, s), m)]
    def w(self, box, m=None):
        self.written[self._full(self._sl(box), m)] = True
    def sub(self, box):
        """copy of the part that belongs to a sub-box (same ghosts)"""
        f = Field(box, self.ngs, self.depth, self.side_dir, 'i' if self.dt == np.int32 else 'd', self.name)
        src = self.a if self.b is None else self.b
        f.a[...] = src[self._full(self._sl(f.gbox), None)]
        return f
    def coords(self, dx, x0=None):
        """coordinates of the element centres"""
        r = []
        for d in range(self.box.nd):
            x = (np.arange(self.gbox.shape[d]) + self.gbox.lo[d] + (0. if self.side_dir == d else .5)) * dx[d]
            sh = [1] * (self.box.nd); sh[d] = -1
            r.append(np.broadcast_to(x.reshape(sh), self.gbox.shape))
        return r

class Sides(list):
    """one side field per direction; expands to nd consecutive arguments"""

# ------------------------------------------------------------------------------------------ library
class Lib:
    def __init__(self, nd, path):
        self.nd = nd
        self.so = ctypes.CDLL(path, mode=os.RTLD_NOW | os.RTLD_LOCAL)
        self.sigs = dict(SIGS['common']); self.sigs.update(SIGS[str(nd)])
        self.used = set()
        p = os.path.join(os.path.dirname(path), 'interface.json')
        self.ifc = json.load(open(p)) if os.path.exists(p) else {}
    def sym(self, n):
        try:
            return getattr(self.so, n)
        except AttributeError:
            raise Skip('symbol %s is gone' % n)

def flatten(items):
    for it in items:
        if isinstance(it, Box):
            for x in it.ints(): yield x
        elif isinstance(it, (list, tuple)) and not isinstance(it, Sides) or isinstance(it, Sides):
            for x in flatten(it): yield x
        else:
            yield it

CMPOPS = {}

class Call:
    """one recorded kernel call: name + items; can be repeated"""
    def __init__(self, lib, name, items):
        self.lib, self.name, self.items = lib, name, items
        sig = lib.sigs[name]
        self.sig = sig
        ifc = lib.ifc.get(name)
        if isinstance(ifc, str): raise Skip('%s is %s' % (name, ifc))
        vals = list(flatten(items))
        args = sig['args']
        if len(vals) != len(args):
            raise RuntimeError('%s: %d values for %d arguments: %s' % (name, len(vals), len(args), [a[0] for a in args]))
        self.vals = vals
        self.arrs = []
        env = {}
        for v, (an, k, dims) in zip(vals, args):
            if dims is None and k == 'i' and not isinstance(v, Arr): env[an] = int(v)
        self.cargs, strs = [], []
        self.keep = []
        for v, (an, k, dims) in zip(vals, args):
            if isinstance(v, np.ndarray):
                a = Arr((0,) * v.ndim, v.shape, 'i' if k == 'i' else 'd', an)
                a.a[...] = v; a.opaque = True; v = a
            if isinstance(v, Arr):
                if k == 's' or (k == 'i') != (v.dt == np.int32): raise RuntimeError('%s: %s kind' % (name, an))
                if dims is not None and '*' not in ''.join(d for d in dims if d.endswith('*') and len(d) == 1):
                    shp = []
                    try:
                        if list(dims) == ['1'] and v.n > 1: raise NameError   # old style assumed size
                        for dd in dims:
                            if ':' in dd:
                                l, h = dd.split(':'); shp.append(eval(h, {}, env) - eval(l, {}, env) + 1)
                            else: shp.append(eval(dd, {}, env))
                        if int(np.prod(shp)) != v.n:
                            raise RuntimeError('%s: %s has %s elements, interface wants %s' % (name, an, v.shape, shp))
                    except NameError:
                        pass
                if not v.name: v.name = an
                self.arrs.append(v)
                self.cargs.append(ctypes.c_void_p(v.ptr))
            elif k == 's':
                b = v.encode(); buf = ctypes.create_string_buffer(b); self.keep.append(buf)
                self.cargs.append(buf); strs.append(ctypes.c_size_t(len(b)))
            elif k == 'i':
                if not isinstance(v, (int, np.integer)): raise RuntimeError('%s: %s int wanted, got %r' % (name, an, v))
                x = ctypes.c_int(int(v)); self.keep.append(x); self.cargs.append(ctypes.byref(x))
            elif k == 'd':
                if isinstance(v, (int, np.integer)) and not isinstance(v, bool) : v = float(v)
                x = ctypes.c_double(float(v)); self.keep.append(x); self.cargs.append(ctypes.byref(x))
            else:
                raise RuntimeError('%s: %s kind %s' % (name, an, k))
        self.scal = self.keep
        if ifc: self.cargs = [self.cargs[k] for k in ifc]
        self.cargs += strs
        f = lib.sym(name + '_')
        f.restype = {'d': ctypes.c_double, 'i': ctypes.c_int}.get(sig.get('ret'), None)
        self.f = f
    def invoke(self):
        self.lib.used.add(self.name)
        sys.stdout.flush()
        return self.f(*self.cargs)

def fname(x):
    return x

class Case:
    """monitored execution context"""
    RTOL = 1e-11
    def __init__(self, lib, spec, seed, idx, flavour, mode=None):
        self.lib, self.nd, self.spec, self.idx, self.flavour = lib, lib.nd, spec, idx, flavour
        self.rng = np.random.default_rng([seed & 0x7fffffff, zlib.crc32(spec.encode()), lib.nd, idx])
        self.seed, self.sid, self.npick = seed & 0x7fffffff, zlib.crc32(spec.encode()), 0
        self.calls = 0
        self.obs = {}
        self.log = []
        self.points = 0
        self.features = set()
        self.cl = None
        self.ctx = spec
        self.mode = mode                   # None: everything; 'memory': only the generic monitors; 'split': only patch decomposition
        self.digest = 0
        self.nontriv = False
    # -------- generators
    def pick(self, seq):
        """random choice, stratified over the cases: n consecutive cases see each of n values once"""
        n = len(seq)
        self.npick += 1
        if n > 24 or self.npick > 60: return seq[int(self.rng.integers(n))]
        p = np.random.default_rng([self.seed, self.sid, self.nd, 7919 + self.npick, self.idx // n, n]).permutation(n)
        return seq[int(p[self.idx % n])]
    def rbox(self, mn=1, mx=None):
        mx = mx or (6 if self.nd == 2 else 4)
        lo = self.rng.integers(-7, 9, self.nd)
        ext = self.rng.integers(mn, mx + 1, self.nd)
        return Box(lo, lo + ext - 1)
    def dx(self):
        return np.round(self.rng.uniform(0.2, 1.7, self.nd), 3)
    def values(self, shape, how=None):
        r = self.rng
        if how is None: how = 'sym'
        if how == 'sym': return r.uniform(-1, 1, shape)
        if how == 'pos': return r.uniform(0.05, 2., shape)
        if how == 'temp': return r.uniform(300., 1500., shape)
        if how == 'unit': return r.uniform(0, 1, shape)
        if how == 'phase':        # order parameter incl. exact ends, slight under/overshoot
            x = r.uniform(-0.15, 1.15, shape)
            k = r.integers(0, 10, shape)
            x = np.where(k == 0, 0., x); x = np.where(k == 1, 1., x)
            return x
        if how == 'zero': return np.zeros(shape)
        if callable(how): return how(r, shape)
        raise ValueError(how)
    def cell(self, box, ng=0, depth=None, how=None, name='', dtype='d'):
        f = Field(box, ng, depth, None, dtype, name)
        f.a[...] = self.values(f.shape, how) if dtype == 'd' else 0
        return f
    def side(self, box, d, ng=0, depth=None, how=None, name='', dtype='d'):
        f = Field(box, ng, depth, d, dtype, name)
        f.a[...] = self.values(f.shape, how) if dtype == 'd' else 0
        return f
    def sides(self, box, ng=0, depth=None, how=None, name='', dtype='d'):
        return Sides([self.side(box, d, ng, depth, how, '%s%d' % (name, d), dtype) for d in range(self.nd)])
    def ng(self, mn=0, mx=None):
        return int(self.rng.integers(mn, (mn + 2 if mx is None else mx) + 1))
    def array(self, vals, name='', dtype='d'):
        vals = np.asarray(vals, dtype=np.float64 if dtype == 'd' else np.int32)
        a = Arr((0,) * vals.ndim, vals.shape, dtype, name); a.a[...] = vals; a.opaque = True
        return a
    # -------- calls and verdicts
    def call(self, name, *items, poison=True, split=None, keep=()):
        """call the kernel once (unmonitored inputs are snapshotted); finish() verifies footprint etc."""
        self.finish()
        cl = Call(self.lib, name, items)
        self.cl = cl
        cl.poison, cl.split = poison, split
        seen = {}
        for a in cl.arrs:
            seen[id(a)] = a
        cl.uarrs = list(seen.values())
        if len(self.log) < 4:
            self.log.append({'fn': name, 'scalars': [repr(x) for x in flatten(items) if isinstance(x, (int, float, str, np.integer, np.floating))][:40],
                             'arrays': ['%s%s' % (a.name, list(a.shape)) for a in cl.uarrs]})
        for a in cl.uarrs:
            self.digest = zlib.crc32(a.a.tobytes(), self.digest)
            a.snap(); a.read[...] = False; a.written[...] = False
        self.ctx = '%s %dd case %d' % (name, self.nd, self.idx)
        cl.expects = []
        cl.ret = cl.invoke()
        self.calls += 1
        for a in cl.uarrs:
            if self.mode != 'split' and not a.canary_ok():
                raise Violation('canary', '%s: memory outside array %s was written' % (self.ctx, a.name))
        return cl.ret
    def features_add(self, *fs):
        for f in fs: self.features.add(str(f))
    def expect(self, arr, box, ref, m=None, rtol=None, atol=0., scale=None, what=''):
        """after the call, arr on box (component m) must equal ref"""
        got = arr.g(box, None, m)
        arr.w(box, m)
        self.cl.expects.append((arr, box, m))
        self.close(got, ref, rtol, atol, scale, what or '%s of %s' % (arr.name, self.cl.name), box)
    def close(self, got, ref, rtol=None, atol=0., scale=None, what='', box=None, kind='value'):
        if self.mode and not (self.mode == 'split' and kind == 'split'):
            self.nontriv = self.nontriv or self.mode == 'memory'
            self.points += self.mode == 'memory'
            return
        got = np.asarray(got); ref = np.asarray(ref)
        ref = np.broadcast_to(ref, got.shape)
        self.points += got.size
        rtol = self.RTOL if rtol is None else rtol
        if got.size == 0: return
        if (ref != 0).any(): self.nontriv = True
        if not np.isfinite(ref).all(): raise RuntimeError('%s: reference is not finite (%s)' % (self.ctx, what))
        sc = (np.abs(ref).max() if scale is None else np.maximum(scale, np.abs(ref)))
        tol = rtol * sc + atol + 1e-290
        if got.dtype.kind in 'iu': bad = got != ref
        else: bad = ~(np.abs(got - ref) <= tol)
        if bad.any():
            k = np.unravel_index(int(np.argmax(bad)), bad.shape)
            where = ''
            if box is not None: where = ' at index %s' % ([int(l) + int(x) for l, x in zip(box.lo, k)],)
            raise Violation(kind, '%s: %s%s: got %r, expected %r (%d of %d wrong)' % (
                getattr(self, 'ctx', ''), what, where, got[k].item(), ref[k].item(), int(bad.sum()), bad.size),
                what=what, fn=getattr(getattr(self, 'cl', None), 'name', ''))
    def check(self, cond, msg, kind='invariant'):
        if self.mode: return
        self.points += 1
        self.nontriv = True
        if not bool(np.all(cond)):
            raise Violation(kind, '%s: %s' % (getattr(self, 'ctx', ''), msg), what=kind)
    def finish(self):
        """footprint + poison (+ split) for the last call"""
        cl, self.cl = self.cl, None
        if cl is None: return
        if self.mode == 'split':
            if cl.split: self.nontriv = True; self.split_check(cl)
            return
        for a in cl.uarrs:
            ch = (a.bits() != a.bits(a.b)) & ~a.written
            if ch.any():
                k = np.unravel_index(int(np.argmax(ch)), ch.shape)
                raise Violation('footprint', '%s: %s changed outside its output region at %s (%r -> %r)' % (
                    self.ctx, a.name, [int(x) + int(l) for x, l in zip(k, a.lb)], a.b[k].item(), a.a[k].item()),
                    what='footprint')
        if cl.poison and cl.expects:
            first = [x[0].g(x[1], None, x[2]).copy() for x in cl.expects]
            after = {}
            for a in cl.uarrs:
                after[id(a)] = a.a.copy(order='F')
                a.a[...] = a.b
                if not a.opaque and a.dt == np.float64:
                    a.a[~a.read] = np.nan
            cl.invoke(); self.calls += 1
            for x, f in zip(cl.expects, first):
                g = x[0].g(x[1], None, x[2])
                sc = np.abs(f).max() if f.size else 0.
                bad = ~(np.abs(g - f) <= 1e-12 * sc + 1e-300)
                if bad.any():
                    k = np.unravel_index(int(np.argmax(bad)), bad.shape)
                    raise Violation('poison', '%s: %s depends on data outside its stencil, or is left unset: %r instead of %r'
                                    % (self.ctx, x[0].name, g[k].item(), f[k].item()), what='poison')
            for a in cl.uarrs:
                a.a[...] = after[id(a)]
        if cl.split and self.mode != 'memory':
            self.split_check(cl)
    def partition(self, box):
        """random decomposition of a box: two halves, or (in 'split' mode) up to three pieces per direction, down to single cells"""
        if self.mode != 'split':
            dirs = [d for d in range(self.nd) if box.shape[d] > 1]
            if not dirs: return []
            d = self.pick(dirs)
            cut = int(self.rng.integers(box.lo[d], box.hi[d]))
            return [Box(box.lo, [cut if i == d else h for i, h in enumerate(box.hi)]),
                    Box([cut + 1 if i == d else l for i, l in enumerate(box.lo)], box.hi)]
        ends = []
        for d in range(self.nd):
            k = min(int(self.rng.integers(0, 3)), box.shape[d] - 1)
            cuts = sorted(self.rng.choice(box.shape[d] - 1, k, replace=False) + box.lo[d]) if k > 0 else []
            lo = [box.lo[d]] + [int(x) + 1 for x in cuts]; hi = [int(x) for x in cuts] + [box.hi[d]]
            ends.append(list(zip(lo, hi)))
        ps = [Box([x[0] for x in t], [x[1] for x in t]) for t in itertools.product(*ends)]
        return ps if len(ps) > 1 else []
    def split_check(self, cl):
        """repeat the call on the pieces of a decomposition of its (first) box; outputs must agree"""
        box = next(it for it in cl.items if isinstance(it, Box))
        parts = self.partition(box)
        if not parts: return
        gbs = {id(a.gbox): a for a in cl.uarrs if isinstance(a, Field) and a.box is box}
        def sub(it, b, memo):
            if id(it) in gbs: return sub(gbs[id(it)], b, memo).gbox
            if isinstance(it, GBox) and it.base is box: return GBox(b, it.n)
            if isinstance(it, Box): return b if it is box else it
            if isinstance(it, Field):
                if it.box is not box: return it
                if id(it) not in memo: memo[id(it)] = it.sub(b)
                return memo[id(it)]
            if isinstance(it, Sides): return Sides([sub(x, b, memo) for x in it])
            if isinstance(it, (list, tuple)): return [sub(x, b, memo) for x in it]
            return it
        for b in parts:
            memo = {}
            items = [sub(it, b, memo) for it in cl.items]
            if callable(cl.split): items = cl.split(items, b, box)
            c2 = Call(self.lib, cl.name, items)
            c2.invoke(); self.calls += 1
            for (arr, ebox, m) in cl.expects:
                if id(arr) not in memo: continue
                s = memo[id(arr)]
                sd = arr.side_dir
                lo, hi = list(ebox.lo), list(ebox.hi)
                for d in range(self.nd):       # the output region of the piece keeps its distance to an interior cut
                    if b.hi[d] < box.hi[d]: hi[d] = min(hi[d], b.hi[d] + (1 if sd == d else 0))
                    if b.lo[d] > box.lo[d]: lo[d] = max(lo[d], b.lo[d])
                if any(l > h for l, h in zip(lo, hi)): continue
                eb = Box(lo, hi)
                g, f = s.g(eb, None, m), arr.g(eb, None, m)
                sc = np.abs(f).max() if f.size else 0.
                bad = ~(np.abs(g - f) <= 1e-12 * sc)
                self.points += f.size; self.splits = getattr(self, 'splits', 0) + 1
                if bad.any():
                    k = np.unravel_index(int(np.argmax(bad)), bad.shape)
                    raise Violation('split', '%s: %s differs when the patch %s is cut and %s is one of the pieces: %r vs %r at %s'
                                    % (self.ctx, arr.name, box, b, g[k].item(), f[k].item(), [int(x) + l for x, l in zip(k, eb.lo)]), what='split')

REG = {}
def spec(*props, dims=(2, 3), n=30, thorough=6, **kw):
    def dec(f):
        REG[f.__name__] = dict(f=f, props=props, dims=dims, n=n, thorough=thorough, mod=f.__module__, **kw)
        return f
    return dec
