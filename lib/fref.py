"""reference scalar functions (vectorised)"""
import numpy as np
c01 = lambda x: np.clip(x, 0., 1.)
c0 = lambda x: np.maximum(x, 0.)
GAM = 10.
LC = np.log(np.cosh(GAM))
INTERP = {
 'q': (lambda x: c0(x)**2, lambda x: 2*c0(x), lambda x: np.where(x >= 0, 2., 0.)),
 'p': (lambda x: c01(x)**3*(10-15*c01(x)+6*c01(x)**2), lambda x: 30*c01(x)**2*(1-c01(x))**2, lambda x: 60*c01(x)*(1-3*c01(x)+2*c01(x)**2)),
 'h': (lambda x: c01(x)**2*(3-2*c01(x)), lambda x: 6*c01(x)*(1-c01(x)), lambda x: np.where((x >= 0) & (x <= 1), 6*(1-2*x), 0.)),
 'w': (lambda x: c0(x)**2*(2-c0(x)), lambda x: c0(x)*(4-3*c0(x)), lambda x: np.where(x >= 0, 4-6*x, 0.)),
 'l': (lambda x: c01(x), lambda x: np.where((x > 0) & (x < 1), 1., 0.), lambda x: 0*x),
 'm': (lambda x: c01(x)**2/(c01(x)**2+(1-c01(x))**2), lambda x: 2*c01(x)*(1-c01(x))/(c01(x)**2+(1-c01(x))**2)**2, None),
 '3': (lambda x: c0(x)**3, lambda x: 3*c0(x)**2, None),
 's': (lambda x: np.log(np.cosh(GAM*c0(x)))/LC, lambda x: GAM*np.tanh(GAM*c0(x))/LC, None),
 'c': (lambda x: 0*x+1., lambda x: 0*x, lambda x: 0*x),
}
WELL = {
 'd': (lambda x: 16*x**2*(1-x)**2, lambda x: 32*x*(1-x)*(1-2*x), lambda x: 32*(1-6*x*(1-x))),
 's': (lambda x: (1-x)**2, lambda x: 2*(x-1), lambda x: 0*x+2.),
}
def interp(x, t): return INTERP[t[0]][0](np.asarray(x, float))
def dinterp(x, t): return INTERP[t[0]][1](np.asarray(x, float))
def well(x, t): return WELL[t[0]][0](np.asarray(x, float))
def dwell(x, t): return WELL[t[0]][1](np.asarray(x, float))
def d2well(x, t): return WELL[t[0]][2](np.asarray(x, float))
def average(a, b, t):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if t[0] == 'a': return .5*(a+b)
    ok = (a >= 1e-16) & (b >= 1e-16)
    with np.errstate(all='ignore'):
        return np.where(ok, 2/(1/np.where(ok, a, 1)+1/np.where(ok, b, 1)), 0.)
def daverage(avg, x, t):
    """derivative of the average with respect to one argument: (average, that argument)"""
    avg, x = np.asarray(avg, float), np.asarray(x, float)
    if t[0] == 'a': return 0*avg+.5
    ok = (avg >= 1e-16) & (x >= 1e-16)
    return np.where(ok, .5*avg**2/np.where(ok, x, 1)**2, 0.)
def gradnormi(g2, t, floor2, mx):
    g2 = np.asarray(g2, float)
    with np.errstate(all='ignore'):
        if t[0] == 'm': return np.where(g2 > floor2, np.where(g2 > floor2, g2, 1)**-.5, mx)
        if t[0] == 's': return (g2+floor2)**-.5
        x = mx*np.sqrt(g2)
        big = mx*np.tanh(x)/np.where(x > 0, x, 1)
        y = x*x
        return np.where(y > .01, big, mx*(1-y/3+2*y*y/15))
def triple(p0, p1, p2):
    f = lambda p: p*(1-p)*(1-2*p)
    return 32./3*(2*f(p0)-f(p1)-f(p2))
