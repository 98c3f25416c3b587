"""numpy access to the C++ layer built by world.py"""
import ctypes, json, os
import numpy as np

class GlueMissing(Exception): pass
class Gap(Exception): pass
class WorldError(Exception):
    def __init__(self, code, msg): super().__init__(code, msg); self.code, self.msg = code, msg
    def __str__(self): return self.msg
    @property
    def is_assert(self): return self.code == -2

class World:
    def __init__(self, so, nd, kern=None, lib=None):
        self.nd = nd
        self.lib = lib or ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_GLOBAL)
        L = self.lib
        L.mw_error.restype = ctypes.c_char_p; L.mw_varname.restype = ctypes.c_char_p; L.mw_ptr.restype = ctypes.c_void_p
        self.keep = []

    def raw(self, name):
        try: return getattr(self.lib, name)
        except AttributeError: raise GlueMissing(name)

    def err(self): return self.lib.mw_error().decode(errors='replace')

    def glue(self, name, d=(), i=(), s='', nod=64, noi=64, check=True, wide=None):
        """runs a driver; returns (doubles, ints, return value)"""
        f = self.raw(name)
        da = np.asarray(list(d) if not isinstance(d, np.ndarray) else d, np.float64).ravel(); da = np.concatenate([da, [0.]])
        ia = np.asarray(list(i), np.int32).ravel(); ia = np.concatenate([ia, np.zeros(1, np.int32)]).astype(np.int32)
        od = np.full(nod, np.nan); oi = np.full(noi, -99, np.int32)
        r = f(da.ctypes.data_as(ctypes.c_void_p), ia.ctypes.data_as(ctypes.c_void_p), s.encode(), od.ctypes.data_as(ctypes.c_void_p), oi.ctypes.data_as(ctypes.c_void_p))
        if r == -9: raise Gap(self.err())
        if r < 0 and check: raise WorldError(r, self.err())
        return od, oi, r

    def reset(self): self.lib.mw_reset()

    def domain(self, lo, hi, xlo, xhi, per, maxlev=1):
        dom = np.array(list(lo) + list(hi), np.int32); a = np.array(xlo, float); b = np.array(xhi, float); p = np.array(per, np.int32)
        self._c(self.lib.mw_domain(*[x.ctypes.data_as(ctypes.c_void_p) for x in (dom, a, b, p)], maxlev))
    def level(self, ln, ratio, boxes):
        r = np.array(ratio, np.int32); b = np.array(boxes, np.int32).ravel()
        self._c(self.lib.mw_level(ln, r.ctypes.data_as(ctypes.c_void_p), len(b) // (2 * self.nd), b.ctypes.data_as(ctypes.c_void_p)))
    def var(self, name, kind='cell', depth=1, ghosts=0):
        g = np.array([ghosts] * self.nd if np.isscalar(ghosts) else ghosts, np.int32)
        return self._c(self.lib.mw_var(name.encode(), dict(cell=0, side=1, node=2, icell=3)[kind], depth, g.ctypes.data_as(ctypes.c_void_p)))
    def _c(self, r):
        if r < 0: raise WorldError(r, self.err())
        return r

    @property
    def nlevels(self): return self.lib.mw_nlevels()
    def npatches(self, ln=0): return self.lib.mw_npatches(ln)
    def patchbox(self, ln, pn):
        b = np.zeros(2 * self.nd, np.int32); self.lib.mw_patchbox(ln, pn, b.ctypes.data_as(ctypes.c_void_p)); return b[:self.nd].copy(), b[self.nd:].copy()
    def names(self):
        return {self.lib.mw_varname(k).decode(): k for k in range(self.lib.mw_nvars())}
    def id(self, name):
        n = self.names()
        if name not in n: raise KeyError(name)
        return n[name]

    def view(self, vid, ln=0, pn=0, array=0):
        """(numpy view [i, j(, k), depth] over the ghost box, lower corner) of a patch's data, or None when not allocated"""
        b = np.zeros(2 * self.nd, np.int32); dep, arrs, size = (ctypes.c_int() for _ in range(3))
        p = self.lib.mw_ptr(vid, ln, pn, array, b.ctypes.data_as(ctypes.c_void_p), ctypes.byref(dep), ctypes.byref(arrs), ctypes.byref(size))
        if not p: return None
        shape = [int(b[self.nd + k] - b[k] + 1) for k in range(self.nd)] + [dep.value]
        n = int(np.prod(shape))
        ty = ctypes.c_double if size.value == 8 else ctypes.c_int
        a = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ty)), (n,)).reshape(shape, order='F')
        return a, b[:self.nd].copy()

    def interior(self, vid, ln=0, pn=0, array=0):
        """view of the interior (cells, or the sides of one axis)"""
        a, lo = self.view(vid, ln, pn, array)
        plo, phi = self.patchbox(ln, pn)
        arrs = self.narrays(vid, ln, pn)
        s = [slice(int(plo[k] - lo[k]), int(phi[k] - lo[k] + 1 + (1 if arrs == self.nd and k == array else 0))) for k in range(self.nd)]
        return a[tuple(s)]

    def narrays(self, vid, ln=0, pn=0):
        b = np.zeros(2 * self.nd, np.int32); dep, arrs, size = (ctypes.c_int() for _ in range(3))
        self.lib.mw_ptr(vid, ln, pn, 0, b.ctypes.data_as(ctypes.c_void_p), ctypes.byref(dep), ctypes.byref(arrs), ctypes.byref(size))
        return arrs.value

    def levelbox(self, ln=0):
        bs = [self.patchbox(ln, p) for p in range(self.npatches(ln))]
        return np.min([b[0] for b in bs], 0), np.max([b[1] for b in bs], 0)

    def gather(self, vid, ln=0, fill=np.nan):
        """cell data of a whole level as one array (interiors)"""
        lo, hi = self.levelbox(ln)
        out = None
        for p in range(self.npatches(ln)):
            v = self.interior(vid, ln, p)
            if out is None: out = np.full([int(hi[k] - lo[k] + 1) for k in range(self.nd)] + [v.shape[-1]], fill)
            plo, phi = self.patchbox(ln, p)
            out[tuple(slice(int(plo[k] - lo[k]), int(phi[k] - lo[k] + 1)) for k in range(self.nd))] = v
        return out
    def scatter(self, vid, arr, ln=0):
        lo, hi = self.levelbox(ln)
        for p in range(self.npatches(ln)):
            plo, phi = self.patchbox(ln, p)
            self.interior(vid, ln, p)[...] = arr[tuple(slice(int(plo[k] - lo[k]), int(phi[k] - lo[k] + 1)) for k in range(self.nd))]

    def sides(self, vid, ln=0):
        """side data of a whole level: one array per axis (lower side of cell i is entry i)"""
        lo, hi = self.levelbox(ln)
        out = []
        for d in range(self.narrays(vid, ln, 0)):
            o = None
            for p in range(self.npatches(ln)):
                v = self.interior(vid, ln, p, d)
                plo, phi = self.patchbox(ln, p)
                if o is None: o = np.full([int(hi[k] - lo[k] + 1 + (k == d)) for k in range(self.nd)] + [v.shape[-1]], np.nan)
                o[tuple(slice(int(plo[k] - lo[k]), int(phi[k] - lo[k] + 1 + (k == d))) for k in range(self.nd))] = v
            out.append(o)
        return out

    # --- whole model
    def model(self, deck, qlen=4, dt=1e-6, restart=-1):
        self.reset()
        return self.glue('model_new', [dt], [qlen, restart], deck)
    def text(self):
        f = self.raw('model_text'); f.restype = ctypes.c_char_p; return f().decode(errors='replace')
    def rhs(self, t=0., fresh=True, jt=False):
        od, oi, r = self.glue('model_rhs', [t], [0 if fresh else 1, int(jt)])
        n = oi[0]
        return [tuple(int(x) for x in oi[1 + 3 * k:4 + 3 * k]) for k in range(n)], int(oi[20])
    def precond(self):
        """vectors for the preconditioner: per component the ids of residual and solution"""
        od, oi, r = self.glue('model_precond', [0.], [0])
        return [tuple(int(x) for x in oi[1 + 2 * k:3 + 2 * k]) for k in range(int(oi[0]))]
    def precond_apply(self, gamma, delta, lr=1, t=0.):
        od, oi, r = self.glue('model_precond', [t, gamma, delta], [1, lr])
        return [int(x) for x in oi[:3]]
    def energy(self, t=0., gp=0): return self.glue('model_energy', [t], [gp])[0][:7].copy()
    def value(self, name, *i, t=0.): return self.glue('model_value', [t], list(i), name)[0][0]
