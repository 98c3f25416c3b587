"""C22: a run does what its input schedules, and goes on from a restart file as if it had not stopped"""
import re
import numpy as np
from fractions import Fraction as F
from collections import Counter
from harness import *
import mod, vary, wd, mdl
from mod import Model
from specs.model import deck_of, variant, first, finite, step_for
M = 'ModelParameters/'
FIELDS = ('phase', 'eta', 'temperature', 'quat', 'concentration', 'conc_l', 'conc_a', 'conc_b')
KINDS = ('step', 'cycle', 'time', 'dt')

class Interval:
    """what the input asks for: at the start, in every so many steps or each time a multiple of a time is passed, at the end; once at a time"""
    def __init__(self, o, default=0., dtype='step', first=False, last=True):
        o = o or {}
        g = lambda k, v: o[k][0].strip('"') if k in o else v
        self.time = g('interval_type', dtype) in ('time', 'dt')
        v = g('interval', None)
        self.v = F(float(v)) if v is not None else F(default) if self.time else F(int(default + .5))
        self.first = g('include_first_step', 'TRUE' if first else 'FALSE') == 'TRUE'
        self.last = g('include_last_step', 'TRUE' if last else 'FALSE') == 'TRUE'
        self.active = self.v > 0
        self.at = None; self.prev = None
    def hit(self, due, t):
        due = bool(self.active and due and self.at != t)
        if due: self.at = t
        self.prev = t
        return due
    def start(self, t): return self.hit(self.first, t)
    def end(self, t): return self.hit(self.last, t)
    def step(self, n, t):
        if not self.active: return self.hit(False, t)
        if self.time: return self.hit(self.prev is not None and t // self.v > self.prev // self.v, t)
        return self.hit(n % int(self.v) == 0, t)

def entry(r, step, always=False):
    """random input of one interval; times are multiples of 2^-k of the step"""
    o = {}
    ty = str(r.choice(KINDS))
    if r.random() < .85: o['interval_type'] = ['"%s"' % ty]
    else: ty = 'step'
    if ty in ('time', 'dt'):
        v = F(int(r.integers(1, 40)), 8) * F(step)
        o['interval'] = ['%.17g' % float(v)] if r.random() < .93 or always else ['%.17g' % -float(v)]
        if '.' not in o['interval'][0] and 'e' not in o['interval'][0]: o['interval'][0] += '.0'
    else: o['interval'] = [str(int(r.integers(1 if always else 0, 5)) if r.random() < .96 or always else -2)]
    for k in ('include_first_step', 'include_last_step'):
        if r.random() < .6: o[k] = ['TRUE' if r.random() < .6 else 'FALSE']
    return o

def show(name, o): return name + ' { ' + ' '.join('%s = %s' % (k, v[0]) for k, v in o.items()) + ' }' if o else ''

@spec('C22', n=60, world=True, nogeneric=True, flavours=('plain', 'san'))
def intervals(c):
    """one interval against the definition of when it is due"""
    r = c.rng
    for q in range(40):
        step = 2. ** int(r.integers(-30, 6))
        o = entry(r, step) if r.random() < .9 else {}
        default, dtime = (float(r.integers(0, 4)), 0) if r.random() < .6 else (step * int(r.integers(0, 4)), 1)
        fi, la = bool(r.random() < .5), bool(r.random() < .5)
        ref = Interval(o, default, 'time' if dtime else 'step', fi, la)
        if o and 'interval_type' not in o and dtime:                       # the kind is then the default one
            if '.' in o['interval'][0] or 'e' in o['interval'][0]: ref.time = True
            else: o['interval'] = ['%.17g' % (step * 3 / 2)] if step != 2 else ['3.5']; ref = Interval(o, default, 'time', fi, la)
        n0 = int(r.integers(0, 50)) if r.random() < .5 else 0
        t = F(step) * int(r.integers(0, 200)) if r.random() < .5 else F(0)
        ev = [(0, n0, t)]
        for k in range(int(r.integers(0, 25))):
            n0 += 1; t += F(step) * F(int(r.integers(1, 17)), 8)
            ev.append((1, n0, t))
            if r.random() < .1: ev.append((1, n0, t))                      # asked again at the same time
        ev.append((2, n0, t))
        ev = ev[:20] if len(ev) <= 20 else ev[:19] + [ev[-1]]
        want = []; at = None
        for kind, n, tt in ev:
            h = ref.start(tt) if kind == 0 else ref.step(n, tt) if kind == 1 else ref.end(tt)
            want.append(int(h) + 2 * int(ref.active and ref.at == tt))
        c.calls += 1
        txt = show('It', o)
        oi = c.w.glue('event_interval', [default] + [float(e[2]) for e in ev], [int(fi), int(la), len(ev), dtime] + [x for e in ev for x in e[:2]], txt)[1]
        c.digest = mod.zl(txt + repr(ev) + repr((default, dtime, fi, la)), c.digest)
        c.points += len(ev) + 1; c.nontriv = True
        if bool(oi[0]) != ref.active: raise Violation('active', 'interval %r (default %r): active is %d' % (txt, default, oi[0]), what='active')
        for k, w in enumerate(want):
            if oi[1 + k] != w:
                kind, n, tt = ev[k]
                raise Violation('due', 'interval %r (default %r %s, first %d, last %d): %s of cycle %d at time %r (before: %s): %s, but it is %s' %
                                (txt, default, 'time' if dtime else 'steps', fi, la, ('start', 'step', 'end')[kind], n, float(tt), [float(e[2]) for e in ev[:k]][-3:],
                                 'due' if oi[1 + k] & 1 else 'not due' if not oi[1 + k] & 2 else 'has occurred', 'due' if w & 1 else 'not due'), what='due')

NAMES = {'TimestepOutput': (1., False, True), 'Restart': (0., False, True), 'Visit': (0., True, True), 'GrainDiagnostics': (0., False, True), 'ScalarDiagnostics': (0., False, True)}

def schedule(c, d, step, t0, n0=0, restarts=False):
    """random schedule put into the deck; returns what each part of it asks for"""
    r = c.rng
    o = {}
    for k in NAMES:
        v = entry(r, step, always=restarts and k == 'Restart')
        if k == 'Restart' and restarts: v = {'interval_type': ['"step"'], 'interval': ['1']}
        elif r.random() < .25: v = None
        if k == 'TimestepOutput' and v is None and r.random() < .5: v = None
        if v is not None:
            if k == 'Restart' and r.random() < .4 and not restarts: v['dirname'] = ['"r.other"']
            if k == 'Visit':
                for w in ('extra_output', 'energy_output', 'rhs_output'):
                    if r.random() < .3: v[w] = ['TRUE']
            if k == 'ScalarDiagnostics' and r.random() < .3: v['extra_energy_detail'] = ['TRUE']
        d.put(k, v); o[k] = v
    end = t0 + F(step) * F(int(r.integers(0, 70)), 8)
    mx = int(r.integers(0, 9))
    key = str(r.choice(['max_cycles', 'max_timesteps', 'max_delta_cycles', '-']))
    for k in ('max_cycles', 'max_timesteps', 'max_delta_cycles'): d.put(k, None)
    if key != '-': d.put(key, [str(mx)])
    else: mx = 10 ** 9
    d.put('start_time', ['%.17g' % float(t0)] if t0 else None)
    d.put('end_time', ['%.17g' % float(end) if '.' in '%.17g' % float(end) or 'e' in '%.17g' % float(end) else '%d.0' % float(end)])
    if t0 and not ('.' in d.one('start_time') or 'e' in d.one('start_time')): d.put('start_time', [d.one('start_time') + '.0'])
    return o, end, mx

def expected(o, step, t0, end, mx, orient, n0=0):
    """per part of the run (before the first step, after each step): how often each thing happens; and the cycle and time of each part"""
    it = {k: Interval(o.get(k), *((NAMES[k][0], 'step') + NAMES[k][1:])) for k in NAMES}
    t, n = t0, n0
    out = []; when = [(n, t)]
    def do(w, f):
        e = Counter()
        hit = {k: f(k) for k in ('TimestepOutput', 'Restart', 'Visit', 'GrainDiagnostics', 'ScalarDiagnostics') if not (w == 'end' and k in ('TimestepOutput', 'GrainDiagnostics'))}
        if hit.get('Restart'): e['restart'] += 1
        if hit.get('Visit'): e['visit'] += 1
        if hit.get('GrainDiagnostics') and orient: e['grains'] += 1
        if hit.get('ScalarDiagnostics'): e['scalars'] += 1
        if hit.get('TimestepOutput'): e['cycle'] += 1
        if hit.get('ScalarDiagnostics'):                            # says which cycle it is of unless that was said before
            if it['TimestepOutput'].at != t or w == 'start' and hit.get('TimestepOutput'): e['cycle'] += 1
        return e
    out.append(do('start', lambda k: it[k].start(t)))
    while t < end and n < mx:
        n += 1; t = min(t + F(step), end)
        out.append(do('step', lambda k: it[k].step(n, t)))
        when.append((n, t))
    out[-1] += do('end', lambda k: it[k].end(t) if not (k == 'Visit' and len(out) == 1) else False)
    return out, when

def parts(text):
    """the same from what the run says"""
    got = []
    for p in text.split('@step\n'):
        e = Counter()
        e['restart'] = len(re.findall(r'^@restart ', p, re.M)); e['visit'] = len(re.findall(r'^@visit ', p, re.M))
        e['grains'] = len(re.findall(r'^Computing grain diagnostics', p, re.M)); e['scalars'] = len(re.findall(r'^\s*Total energy \[pJ\]', p, re.M))
        e['cycle'] = len(re.findall(r'^cycle # ', p, re.M))
        got.append((+e, p))
    return got

def judge(c, text, want, when, run, skipvisit=False):
    got = parts(text)
    c.nontriv = True; c.points += sum(sum(w.values()) for w in want) + len(want)
    if len(got) != len(want): raise Violation('steps', '%s: %s takes %d steps; its input asks for %d' % (c.ctx, run, len(got) - 1, len(want) - 1), what='steps')
    for k, ((g, p), w) in enumerate(zip(got, want)):
        n, t = when[k]
        for x in set(g) | set(w):
            if x == 'visit' and skipvisit and k == 0 and len(want) == 1: continue
            if g[x] != w[x]:
                what = {'restart': 'restart file', 'visit': 'Visit dump', 'grains': 'grain diagnostics', 'scalars': 'scalar diagnostics', 'cycle': 'line of the cycle'}[x]
                raise Violation('schedule', '%s: %s: %s %d times after cycle %d (time %r), %d times asked for' % (c.ctx, run, what, g[x], n, float(t), w[x]), what=x)
        for l in re.findall(r'^@restart (\S+) (\d+)', p, re.M):
            if int(l[1]) != n: raise Violation('label', '%s: restart file of cycle %s after cycle %d' % (c.ctx, l[1], n), what='label')
        for l in re.findall(r'^@visit (\d+) (\S+) (\d+) (\d+) ?(.*)$', p, re.M):
            if int(l[0]) != n or float(l[1]) != float(t): raise Violation('label', '%s: Visit dump labelled cycle %s time %s after cycle %d time %r' % (c.ctx, l[0], l[1], n, float(t)), what='label')
            if int(l[3]): raise Violation('nodata', '%s: %s of the %s quantities of the Visit dump have no data: %s' % (c.ctx, l[3], l[2], l[4]), what='nodata')
        for l in re.findall(r'^cycle # (\d+) : t = (\S+?)(?: : dt = (\S+))?$', p, re.M):
            ok = int(l[0]) == n and abs(float(l[1]) - float(t)) <= 1e-5 * abs(float(t))
            if ok and l[2]: dt = float(t - when[k - 1][1]); ok = abs(float(l[2]) - dt) <= 1e-5 * dt
            if not ok: raise Violation('label', '%s: says cycle %s, time %s, step %s after cycle %d, time %r' % (c.ctx, l[0], l[1], l[2], n, float(t)), what='label')
    if 'Run complete' not in text: raise Violation('end', '%s: %s does not say that it is complete' % (c.ctx, run), what='end')

def probe(c, name, n, ed, st):
    c.rng.bit_generator.state = st
    m = Model(c, name, n=n, edit=ed)
    r = m.rhs(0., 0); finite(c, r, 'rate')
    return step_for(r, m.state(), .01)

def whole(c, name, n, edit, boxes, step, load=None, save=()):
    st = c.rng.bit_generator.state
    if load is not None: c.w.glue('model_restart_load', i=[load], s='r.run')
    m = Model(c, name, n=n, edit=edit, boxes=boxes, dt=step, restart=-1 if load is None else load)
    m.text()
    before = None
    held = lambda: {k: m.get(k) for k in FIELDS if m.has(k)}
    if load is not None: before = (m.time(), held())
    m.w.glue('model_run'); t = m.text()
    for k in save: m.w.glue('model_restart_save', i=[k], s='r.run')
    ti = m.time()
    return t, ti, held(), before

@spec('C22', n=141, world=True, nogeneric=True, flavours=('plain', 'san'))
def runs(c):
    """whole runs with random schedules: each output exactly when asked for, and the end of the run"""
    name = deck_of(c, mod.NOISE)
    n = mod.size(c.nd, c.rng)
    st = c.rng.bit_generator.state
    dt = first(c, False, probe, c, name, n, None, st)
    step = 2. ** np.floor(np.log2(dt)) if 0 < dt < 1e3 else 2. ** -30
    t0 = F(step) * F(int(c.rng.integers(1, 100)), 8) if c.rng.random() < .4 else F(0)
    box = {}
    s = int(c.rng.integers(1 << 30))
    def edit(d, f):
        c.rng = np.random.default_rng(s)
        box['o'], box['end'], box['mx'] = schedule(c, d, step, t0)
        if c.rng.random() < .3: d.put('Verbosity', {'level': ['1']})
    def job():
        c.rng.bit_generator.state = st
        t, ti, s_, _ = whole(c, name, n, edit, None, step)
        return t, ti, dict(box, orient='quat' in s_)
    t, ti, b = mod.fresh(c, job)
    want, when = expected(b['o'], step, t0, b['end'], b['mx'], b['orient'])
    judge(c, t, want, when, 'the run')
    n_, t_ = when[-1]
    if ti['cycle'] != n_ or ti['t'] != float(t_): raise Violation('end', '%s: ends at cycle %d, time %r; asked for: %d, %r' % (c.ctx, ti['cycle'], ti['t'], n_, float(t_)), what='end')
    c.features_add('steps%d' % min(len(want) - 1, 8))
    for w in want: c.features_add(*w)


def agree(c, a, b, what, tol, keys=FIELDS):
    for k in keys:
        if k in a or k in b:
            if k not in a or k not in b: raise Violation('field', '%s: %s only %s' % (c.ctx, k, what), what='field')
            x, y = a[k], b[k]; c.points += x.size; c.nontriv = True
            s = np.abs(x).reshape(-1, x.shape[-1]).max(0) + 1e-300
            e = np.abs(x - y) / s
            if not np.all((e <= tol) | (x == y)):
                j = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
                raise Violation('differs', '%s: %s %s: %r, without it %r at %s (tolerance %g)' % (c.ctx, k, what, y[j].item(), x[j].item(), [int(q) for q in j], tol), what=k)

@spec('C22', n=141, world=True, nogeneric=True, flavours=('plain',))
def restarts(c):
    """a run that goes on from any of its restart files against the run that was not stopped"""
    name = deck_of(c, mod.NOISE)
    n = mod.size(c.nd, c.rng)
    ed = variant(c, name)
    st = c.rng.bit_generator.state
    dt = first(c, ed is not None, probe, c, name, n, ed, st)
    step = 2. ** np.floor(np.log2(dt)) if 0 < dt < 1e3 else 2. ** -30
    t0 = F(step) * F(int(c.rng.integers(1, 100)), 8) if c.rng.random() < .3 else F(0)
    s = int(c.rng.integers(1 << 30))
    k = int(c.rng.integers(1, 6)); part = F(int(c.rng.integers(0, 8)), 8)
    r = int(c.rng.integers(0, k + 1))
    boxes = mod.cutboxes(c.rng, n, int(c.rng.integers(1, 4))) if c.rng.random() < .6 else None
    how = str(c.rng.choice(['same', 'kept', 'delta']))
    delta = int(c.rng.integers(0, 4))
    box = {}
    def put(d, k, v): d.put(k, ['%.17g' % float(v)] if re.search(r'[.e]', '%.17g' % float(v)) else ['%.1f' % float(v)])
    end = t0 + F(step) * (k - part if k > 1 else k)
    def edit(d, f, again=False):
        if ed: ed(d, f)
        c.rng = np.random.default_rng(s)
        o, _, _ = schedule(c, d, step, t0, restarts=True)
        o['Restart']['include_first_step'] = ['TRUE']
        box['o'] = o
        box['rotations'] = str(d.one('Symmetry/enabled')).upper() == 'TRUE'       # frozen between the times they are set; set anew by a restart
        for q in ('max_cycles', 'max_timesteps', 'max_delta_cycles'): d.put(q, None)
        put(d, 'end_time', end); put(d, 'start_time', t0)
        if again and how == 'kept': d.put('end_time', None); d.put('start_time', None)
        if again and how == 'delta': d.put('max_delta_cycles', [str(delta)])
    def one():
        c.rng.bit_generator.state = st
        t, ti, s_, _ = whole(c, name, n, edit, boxes, step, save=range(k + 1))
        return t, ti, s_, dict(box)
    def two(load, at):
        c.rng.bit_generator.state = st
        return whole(c, name, n, lambda d, f: edit(d, f, True), boxes, step, load=load)
    t, ti, final, b = mod.fresh(c, one); b0 = b
    want, when = expected(b['o'], step, t0, end, 10 ** 9, 'quat' in final)
    judge(c, t, want, when, 'the first run')
    t2, ti2, final2, (time, state) = mod.fresh(c, two, r, when[r][1])
    if time['cycle'] != r or time['t'] != float(when[r][1]): raise Violation('clock', '%s: restart from cycle %d, time %r, is at cycle %d, time %r' % (c.ctx, r, float(when[r][1]), time['cycle'], time['t']), what='clock')
    mx = r + delta if how == 'delta' else 10 ** 9
    want2, when2 = expected(b['o'], step, when[r][1], end, mx, 'quat' in final, r)
    judge(c, t2, want2, when2, 'the run restarted from cycle %d of %d' % (r, len(when) - 1))
    c.features_add(how, 'cut%d' % r)
    tol = 1e-10
    if r == len(when) - 1: agree(c, final, state, 'read from the restart file', tol, [k for k in FIELDS if not k.startswith('conc_') and k != 'temperature'])
    # a prescribed temperature is the one of the time at which the run starts
    def early(load):
        c.rng.bit_generator.state = st
        if load is not None: c.w.glue('model_restart_load', i=[load], s='r.run')
        m = Model(c, name, n=n, edit=lambda d, f: edit(d, f, load is not None), boxes=boxes, dt=step, restart=-1 if load is None else load)
        T = m.get('temperature'); m.rhs(m.time()['t'], 0)
        return {'temperature': T}, {'temperature': m.get('temperature')}
    a, b = mod.fresh(c, early, None if c.rng.random() < .4 else r)
    agree(c, b, a, 'at the start', tol)
    if when2[-1] == when[-1] and r < len(when) - 1 and not b0['rotations']: agree(c, final, final2, 'after the restart from cycle %d of %d' % (r, len(when) - 1), tol)
