"""U01: special functions, rotations and tidal ellipses"""
import math
import numpy as np
import scipy.special
import pyTMD.math as pm
from pyTMD.ellipse import ellipse, inverse
from vmon.core import Check, Skip
from vmon import gen

check = Check('U01', 'Special functions, rotations and ellipses follow their definitions',
    'a case counts when values were compared with their definition; key = function, degree or shape')
LD = np.longdouble


@check.scenario(quick=2500, thorough=50000, floor=1200)
def ellipses(case):
    """the current turns along the ellipse it was given"""
    r = case.rng
    n = gen.size(r, 1, 16)
    amp = 10**r.uniform(-3, 3)
    u = (r.normal(size=n) + 1j*r.normal(size=n))*amp
    v = (r.normal(size=n) + 1j*r.normal(size=n))*amp
    k = r.random(n)
    # along one axis, round, still, along a diagonal
    v[k < 0.1] = 0.0
    u[(k >= 0.1) & (k < 0.2)] = 0.0
    i = (k >= 0.2) & (k < 0.3)
    v[i] = u[i]*r.choice([1j, -1j], int(i.sum()))
    i = (k >= 0.3) & (k < 0.35)
    u[i] = v[i] = 0.0
    i = (k >= 0.35) & (k < 0.5)
    v[i] = u[i]*r.choice([1.0, -1.0, 0.5, -2.0], int(i.sum()))
    u, v = gen.dress(r, u, 0.2), gen.dress(r, v, 0.2)
    shape = 'vector'
    mask = None
    if r.random() < 0.2 and n % 2 == 0:
        shape = 'matrix'
        u, v = u.reshape(2, -1), v.reshape(2, -1)
    if r.random() < 0.2:
        shape += 'masked'
        mask = r.random(u.shape) < 0.3
        u, v = np.ma.array(u, mask=mask), np.ma.array(v, mask=mask)
    elif r.random() < 0.1:
        shape = 'scalar'
        u, v = complex(u.flat[0]), complex(v.flat[0])
    case.note(u=np.ma.filled(u, 0), v=np.ma.filled(v, 0), shape=shape)
    keep = np.ma.copy(u), np.ma.copy(v)
    ok, got = case.quietly('ellipse', ellipse, u, v)
    if not ok:
        return
    case.expect(np.array_equal(np.ma.filled(keep[0], 9), np.ma.filled(u, 9)) and
        np.array_equal(np.ma.filled(keep[1], 9), np.ma.filled(v, 9)), 'inputs-changed')
    U, V = np.atleast_1d(u), np.atleast_1d(v)
    if not case.expect(all(np.shape(g) == U.shape for g in got), 'ellipse:shape'):
        return
    if mask is not None:
        case.expect(all(np.array_equal(np.ma.getmaskarray(g), mask) for g in got), 'ellipse:mask')
    valid = ~np.ma.getmaskarray(U)
    M, m, inc, ph = [np.asarray(np.ma.filled(g, 0.0))[valid] for g in got]
    U, V = np.asarray(np.ma.filled(U, 0.0))[valid], np.asarray(np.ma.filled(V, 0.0))[valid]
    S = np.maximum(np.abs(U), np.abs(V)) + 1e-300
    at = lambda w: ((U*np.exp(1j*w)).real, (V*np.exp(1j*w)).real)
    d = np.pi/180
    x, y = at(ph*d)
    # the largest current, a phase after the potential
    case.close(x/S, M*np.cos(inc*d)/S, 'ellipse:major', rtol=0, atol=2e-14)
    case.close(y/S, M*np.sin(inc*d)/S, 'ellipse:major', rtol=0, atol=2e-14)
    # and the smallest, a quarter later and to the left if it turns to the left
    x, y = at(ph*d + np.pi/2)
    case.close(x/S, -m*np.sin(inc*d)/S, 'ellipse:minor', rtol=0, atol=2e-14)
    case.close(y/S, m*np.cos(inc*d)/S, 'ellipse:minor', rtol=0, atol=2e-14)
    for w in r.uniform(0, 2*np.pi, 8):
        x, y = at(w)
        sp = np.hypot(x, y)
        case.expect(np.all(sp <= M + 1e-13*S) and np.all(sp >= np.abs(m) - 1e-13*S), 'ellipse:bounds')
    case.expect(np.all(M >= np.abs(m) - 1e-14*S), 'ellipse:axes')
    case.expect(np.all((inc >= 0) & (inc <= 180) & (ph >= 0) & (ph <= 360)), 'ellipse:range', f'{inc} {ph}')
    # and back
    ok, back = case.quietly('inverse', inverse, *got)
    if ok:
        for g, w, nm in zip(back, (U, V), 'uv'):
            g = np.asarray(np.ma.filled(g, 0.0))[valid]
            case.close(g/S, w/S, 'inverse', rtol=0, atol=2e-14, message=nm)
        if mask is not None:
            case.expect(all(np.array_equal(np.ma.getmaskarray(g), mask) for g in back), 'inverse:mask')
    # any set of parameters describes the same ellipse again
    M, inc, ph = r.uniform(0.1, 2), r.uniform(-360, 360), r.uniform(-360, 720)
    m = M*r.uniform(-0.9, 0.9)
    ok, uv = case.quietly('inverse', inverse, M, m, inc, ph)
    if ok:
        ok, e = case.quietly('ellipse', ellipse, *uv)
        if ok:
            case.close([e[0][0], e[1][0]], [M, m], 'inverse:axes', rtol=0, atol=1e-13)
            di = (e[2][0] - inc + 90) % 180 - 90
            case.close(di, 0.0, 'inverse:inclination', rtol=0, atol=1e-10)
            half = np.round((e[2][0] - inc)/180.0)
            case.close((e[3][0] - ph - 180*half + 180) % 360 - 180, 0.0, 'inverse:phase', rtol=0, atol=1e-10)
    case.nontrivial('ellipse', shape, n)


@check.scenario(quick=800, thorough=16000, floor=400)
def legendre(case):
    r = case.rng
    n = gen.size(r, 1, 12)
    x = r.uniform(-1, 1, n)
    x[r.random(n) < 0.2] = 1.0
    x[r.random(n) < 0.2] = -1.0
    x[r.random(n) < 0.1] = 0.0
    l = int(r.integers(0, 4))
    m = int(r.integers(0, l+1))
    scalar = r.random() < 0.2
    X = float(x[0]) if scalar else x
    case.note(x=x, l=l, m=m)
    ok, g = case.quietly('legendre', pm.legendre, l, X, **({} if m == 0 and r.random() < 0.5 else dict(m=m)))
    if ok:
        case.close(g, scipy.special.lpmv(m, l, X), 'legendre', rtol=0, atol=1e-13)
    for bad in ((4, 0), (-1, 0), (2, 3), (2, -1)):
        case.raises(AssertionError, 'legendre:degree', pm.legendre, bad[0], X, m=bad[1])
    lmax = int(r.choice([0, 1, 2, 3, 5, 10, 20, 60]))
    ok, P = case.quietly('assoc', pm.assoc_legendre, lmax, X)
    if ok and case.expect(np.shape(P) == (lmax+1, lmax+1) + np.shape(X), 'assoc:shape', f'{np.shape(P)}'):
        # the sum of squares of each degree does not depend on the place
        for q in range(lmax+1):
            case.close(np.sum(P[q]**2, axis=0), np.full(np.shape(X), 2*q+1.0), 'assoc:addition', rtol=1e-11, atol=0)
            case.expect(np.all(P[q, q+1:] == 0), 'assoc:triangle')
        for q in range(min(lmax, 20)+1):
            for o in range(q+1):
                w = math.sqrt((2 - (o == 0))*(2*q+1)*math.exp(math.lgamma(q-o+1) - math.lgamma(q+o+1)))
                w = w*(-1)**o*scipy.special.lpmv(o, q, X)
                case.close(P[q, o], w, 'assoc', rtol=1e-9, atol=1e-10)
    if not hasattr(pm, 'sph_harm'):
        raise Skip('not part of the module')
    th = np.arccos(x)
    ph = r.uniform(-2*np.pi, 2*np.pi, n)
    a = (float(th[0]), float(ph[0])) if scalar else (th, ph)
    ok, Y = case.quietly('harmonic', pm.sph_harm, l, *a, m=m)
    if ok and case.expect(np.shape(Y) == np.shape(X), 'harmonic:shape'):
        case.close(Y, scipy.special.sph_harm_y(l, m, *a), 'harmonic', rtol=0, atol=1e-13)
    # orthonormal on the sphere
    g, w = np.polynomial.legendre.leggauss(8)
    lon = np.arange(8)*np.pi/4
    T, L = [v.ravel() for v in np.meshgrid(np.arccos(g), lon, indexing='ij')]
    W = np.repeat(w, 8)*np.pi/4
    l2 = int(r.integers(0, 4))
    m2 = int(r.integers(0, l2+1))
    A, B = pm.sph_harm(l, T, L, m=m), pm.sph_harm(l2, T, L, m=m2)
    case.close(np.sum(W*A*np.conj(B)), 1.0*((l, m) == (l2, m2)), 'harmonic:orthonormal', rtol=0, atol=1e-12)
    case.nontrivial('legendre', l, m, lmax, scalar)


@check.scenario(quick=1500, thorough=30000, floor=700)
def angles(case):
    r = case.rng
    n = gen.size(r, 1, 10)
    # polynomials
    deg = int(r.integers(1, 8))
    c = r.normal(size=deg)*10**r.uniform(-3, 5)
    t = r.uniform(-2, 2, n)*10**r.uniform(-2, 2)
    if r.random() < 0.2:
        t = float(t[0])
    cc = [c, list(c), tuple(c)][int(r.integers(0, 3))]
    case.note(c=c, t=t)
    ok, g = case.quietly('polynomial', pm.polynomial_sum, cc, t)
    if ok:
        T = np.atleast_1d(np.asarray(t, dtype=LD))
        w, s = np.zeros(T.shape, dtype=LD), np.zeros(T.shape)
        for v in c[::-1]:
            w = w*T + LD(v)
            s = s*np.abs(T.astype(float)) + abs(v)
        case.expect(np.all(np.abs(g - w) <= 1e-14*s*(deg+1)), 'polynomial', f'{g} {w}')
    # angles within the circle
    circle = float(r.choice([360.0, 2*np.pi, 24.0, 86400.0]))
    a = r.uniform(-1e4, 1e4, n)
    a[r.random(n) < 0.2] = circle*2
    if r.random() < 0.2:
        a = float(a[0])
    kw = {} if circle == 360.0 else dict(circle=circle)
    ok, g = case.quietly('normalize', pm.normalize_angle, a, **kw)
    if ok:
        case.expect(np.all((np.asarray(g) >= 0) & (np.asarray(g) <= circle)), 'normalize:range')
        q = (np.asarray(a) - g)/circle
        case.close(q, np.round(q), 'normalize', rtol=0, atol=1e-10)
    # the axes turn, and points keep their place
    th = r.uniform(-7, 7, n)
    th[r.random(n) < 0.2] = np.pi/2
    th[r.random(n) < 0.1] = 0.0
    if r.random() < 0.2:
        th = float(th[0])
    ax = int(r.integers(0, 3))
    name = 'xyz'[ax] if r.random() < 0.8 else 'XYZ'[ax]
    ok, R = case.quietly('rotate', pm.rotate, th, name)
    TH = np.atleast_1d(th)
    if ok and case.expect(np.shape(R) == (3, 3, TH.size), 'rotate:shape'):
        j, k = (ax+1) % 3, (ax+2) % 3
        for i, q in enumerate(TH):
            W = np.zeros((3, 3))
            W[ax, ax] = 1
            W[j, j] = W[k, k] = math.cos(q)
            W[j, k], W[k, j] = math.sin(q), -math.sin(q)
            case.close(R[:, :, i], W, 'rotate', rtol=0, atol=1e-15)
    case.raises(ValueError, 'rotate:axis', pm.rotate, th, str(r.choice(['w', 'xy', ''])))
    # a signal sampled too slowly looks like its alias
    fs = 10**r.uniform(-2, 2)
    f = fs*r.uniform(0, 20)
    ok, fa = case.quietly('aliasing', pm.aliasing, f, fs)
    if ok:
        case.expect(0 <= fa <= fs/2*(1+1e-12), 'aliasing:range', f'{f} {fs} {fa}')
        i = np.arange(50)
        case.close(np.cos(2*np.pi*fa*i/fs), np.cos(2*np.pi*f*i/fs), 'aliasing', rtol=0, atol=1e-9)
    case.nontrivial('angles', deg, circle, name.lower(), np.ndim(th), np.ndim(t))
