"""P05: astronomical arguments, positions of sun and moon, Earth rotation"""
import io
import struct
import numpy as np
import timescale
import pyTMD.astro as astro
from vmon.core import Check
from vmon import gen, ref_tides as ref, ref_astro as ra

check = Check('P05', 'Astronomical arguments, sun, moon and Earth rotation',
    'a case counts when at least one epoch was compared with the reference',
    ['sidereal time, delta-T and polar motion come from the timescale package',
     'reference: Meeus, Montenbruck & Gill, IERS Conventions 2010 (private copy of tables 5.2e, 5.3a, 5.3b)'])


def epochs(r, n, lo=46000., hi=60900.):
    return r.choice([r.uniform(lo, hi, n), np.round(r.uniform(lo, hi, n)),
        np.round(r.uniform(lo, hi, n)) + 0.5, r.uniform(lo, hi) + np.arange(n)/24.])


def angle(case, got, want, kind, tol, circle):
    d = (np.asarray(got) - want + circle/2) % circle - circle/2
    case.expect(np.abs(d).max() < tol, kind, f'differs by {d}')
    g = np.asarray(got)
    case.expect(np.all(g >= 0) and np.all(g <= circle*(1+1e-15)), kind+'-range', f'{g}')


@check.scenario(quick=120, thorough=1200, floor=80)
def longitudes(case):
    r = case.rng
    n = int(r.integers(1, 10))
    mjd = gen.dress(r, epochs(r, n, 15000, 88000), 0.3)
    case.note(mjd=mjd)
    for m, kw in (('cartwright', {}), ('astro5', dict(ASTRO5=True)), ('meeus', dict(MEEUS=True))):
        got = astro.mean_longitudes(mjd, **kw)
        want = np.array([ref.mean_longitudes(float(x), m) for x in mjd]).T
        for a, b, nm in zip(got, want, 'SHPNp'):
            a = np.broadcast_to(a, b.shape)
            d = (a-b+180) % 360 - 180
            case.expect(np.abs(d).max() < 1e-7, f'longitude:{m}:{nm}', f'{d} degrees')
            if nm != 'p':
                case.expect(np.all((a >= 0) & (a <= 360)), f'range:{m}:{nm}', '')
        one = astro.mean_longitudes(float(mjd[0]), **kw)
        for a, b in zip(one, got):
            case.close(np.ravel(a)[0], np.broadcast_to(b, mjd.shape)[0], f'scalar:{m}', rtol=1e-12, atol=1e-9)
        case.nontrivial(m, int(mjd[0])//2000)
    # the schemes are the same quantity: they agree to a hundredth of a degree
    # over the years they are for
    t = epochs(r, 5, 47892., 55562.)
    A = [astro.mean_longitudes(t, **k) for k in ({}, dict(ASTRO5=True), dict(MEEUS=True))]
    for k in range(4):
        for x in A[1:]:
            d = (x[k]-A[0][k]+180) % 360 - 180
            case.expect(np.abs(d).max() < 0.01, f'schemes-agree:{k}', f'{d}')


@check.scenario(quick=80, thorough=800, floor=50)
def phases(case):
    """Doodson and Delaunay arguments"""
    r = case.rng
    n = int(r.integers(1, 8))
    # secular terms show over a century
    far = bool(r.random() < 0.6)
    mjd = epochs(r, n, 15000, 88000) if far else epochs(r, n)
    T = (mjd - 51544.5)/36525
    P = np.polynomial.polynomial.polyval
    S0 = P(T, [218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6, -1.53388e-8])
    H = P(T, [280.46645, 36000.7697489, 3.0322222e-4, 2.0e-8, -6.54e-9])
    Pm = P(T, [83.3532465, 4069.0137287, -1.032172222e-2, -1.24991e-5, 5.263e-8])
    Np = P(T, [234.95544499, 1934.13626197, -2.07561111e-3, -2.13944e-6, 1.65e-8])
    Ps = P(T, [282.93734098, 1.71945766667, 4.5688889e-4, -1.778e-8, -3.34e-9])
    prec = P(T, [0.0, 1.396971278, 3.08889e-4, 2.1e-8, 7.0e-9])
    lam = P(T, [280.4606184, 36000.7700536, 3.8793e-4, -2.58e-8])
    ts = None if far else timescale.time.Timescale(MJD=mjd)
    for eq in (False,) if far else (False, True):
        for corr in (True, False):
            got = astro.doodson_arguments(mjd, equinox=eq, apply_correction=corr)
            tau = 360*ts.st + 180 - S0 if eq else (mjd % 1)*360 - S0 + lam
            want = (tau, S0 + (prec if corr else 0), H, Pm, Np, Ps)
            for a, b, nm in zip(got, want, ('tau', 's', 'h', 'p', "n'", 'ps')):
                angle(case, a, np.radians(b), f'doodson:{nm}', 1e-10 if not (eq and nm == 'tau') else 1e-8, 2*np.pi)
    got = astro.delaunay_arguments(mjd)
    want = np.array([ra.delaunay(x) for x in T]).T
    for a, b, nm in zip(got, want, ('l', 'lp', 'F', 'D', 'N')):
        angle(case, a, b, f'delaunay:{nm}', 1e-10, 2*np.pi)
    case.close(astro.mean_obliquity(mjd), [ra.obliquity(x) for x in T], 'obliquity', rtol=1e-13)
    # relations between the sets of arguments: F = s - N, D = s - h
    a = astro.doodson_arguments(mjd, apply_correction=False)
    L = astro.delaunay_arguments(mjd)
    for nm, x in (('F', a[1] + a[4] - L[2]), ('D', a[1] - a[2] - L[3]),
            ('l', a[1] - a[3] - L[0]), ('N', -a[4] - L[4]), ("l'", a[2] - a[5] - L[1])):
        d = np.arctan2(np.sin(x), np.cos(x))
        # arguments of different theories agree within 0.02 degree
        case.expect(np.abs(d).max() < 4e-4*(20 if nm == "l'" else 1), f'relation:{nm}', f'{d}')
    case.nontrivial(int(mjd[0])//100)


@check.scenario(quick=80, thorough=800, floor=50)
def bodies(case):
    r = case.rng
    n = int(r.integers(1, 9))
    mjd = gen.dress(r, epochs(r, n), 0.3)
    case.note(mjd=mjd)
    keep = mjd.copy()
    for nm, fn, f2, w in (('sun', astro.solar_ecef, astro.solar_approximate, ra.sun),
            ('moon', astro.lunar_ecef, astro.lunar_approximate, ra.moon)):
        got = np.array(fn(mjd, ephemerides=str(r.choice(['approximate', 'Approximate']))))
        want = np.array([w(float(x)) for x in mjd]).T
        dist = np.sqrt((want**2).sum(axis=0))
        if case.expect(got.shape == want.shape, nm+'-shape', f'{got.shape}'):
            case.expect(np.all(np.abs(got-want) < 2e-9*dist), nm,
                f'{np.abs(got-want).max()} m')
        case.close(f2(mjd), got, nm+'-wrapper', rtol=1e-12)
        lim = (1.47e11, 1.521e11) if nm == 'sun' else (3.56e8, 4.07e8)
        R = np.sqrt((got**2).sum(axis=0))
        case.expect(np.all((R > lim[0]) & (R < lim[1])), nm+'-distance', f'{R}')
        lat = np.degrees(np.arcsin(got[2]/R))
        case.expect(np.abs(lat).max() < (23.45 if nm == 'sun' else 28.9), nm+'-declination', f'{lat}')
        p = r.permutation(n)
        case.close(np.array(fn(mjd[p])), got[:, p], nm+'-order', rtol=1e-9, atol=1)
        case.nontrivial(nm, int(mjd[0])//10)
    case.expect(np.array_equal(mjd, keep), 'inputs-changed')


@check.scenario(quick=12, thorough=120, floor=9)
def many(case):
    """large batches of a few epochs, in any order"""
    r = case.rng
    n = int(r.integers(2, 8))
    mjd = epochs(r, n)
    i = gen.many(r, n)
    for nm, fn, kw, tol in (('sun', astro.solar_ecef, {}, 10), ('moon', astro.lunar_ecef, {}, 0.1),
            ('longitudes', astro.mean_longitudes, dict(ASTRO5=True), 1e-9),
            ('longitudes', astro.mean_longitudes, dict(MEEUS=True), 1e-9),
            ('longitudes', astro.mean_longitudes, {}, 1e-9),
            ('doodson', astro.doodson_arguments, dict(equinox=True, apply_correction=bool(r.integers(0, 2))), 1e-9),
            ('delaunay', astro.delaunay_arguments, {}, 1e-9), ('obliquity', lambda x: [astro.mean_obliquity(x)], {}, 1e-12)):
        few, all = fn(mjd, **kw), fn(mjd[i], **kw)
        for k, (a, b) in enumerate(zip(all, few)):
            if np.ndim(b) == 0:
                b = np.full(n, b)
                a = np.broadcast_to(a, i.shape)
            if case.expect(np.shape(a) == i.shape, f'many-shape:{nm}', f'{np.shape(a)}'):
                case.close(a, np.asarray(b)[i], f'many:{nm}:{k}', rtol=0, atol=tol)
    T = (mjd - 51544.5)/36525
    k = i[:120]
    case.close(astro.itrs(T[k]), astro.itrs(T)[:, :, k], 'many:itrs', rtol=0, atol=1e-12)
    case.nontrivial('many', len(i))


@check.scenario(quick=24, thorough=240, floor=16)
def rotation(case):
    r = case.rng
    mjd = epochs(r, int(r.integers(1, 3)))
    T = (mjd - 51544.5)/36525
    M = astro.itrs(T)
    case.note(mjd=mjd)
    case.expect(np.shape(M) == (3, 3, len(mjd)), 'itrs-shape', str(np.shape(M)))
    g = astro.gast(T)
    for i, x in enumerate(mjd):
        m = M[:, :, i]
        case.close(m @ m.T, np.eye(3), 'orthogonal', rtol=0, atol=1e-12)
        case.expect(abs(np.linalg.det(m) - 1) < 1e-12, 'proper', '')
        d = min(np.abs(m-ra.gcrs_to_itrs(float(x), *v)).max() for v in ra.VARIANTS)
        case.expect(d < 1e-10, 'itrs', f'{d}')
        d = min(abs((g[i]*2*np.pi - ra.gast(float(x), *v) + np.pi) % (2*np.pi) - np.pi) for v in ra.VARIANTS)
        case.expect(d < 2e-11, 'gast', f'{d} rad')
        case.expect(0 <= g[i] < 1, 'gast-range', str(g[i]))
        case.nontrivial(int(x))
    ts = timescale.time.Timescale(MJD=mjd)
    case.close(astro._precession_matrix(ts.T)[:, :, 0], ra.precession(ts.T[0]), 'precession', rtol=0, atol=1e-13)
    case.close(astro._frame_bias_matrix(), ra.bias(), 'bias', rtol=0, atol=1e-13)
    got = np.array(astro._nutation_angles(T))[:, 0]
    d = min(np.abs(got-ra.nutation(float(ts.T[0]), v)).max() for v in (True, False))
    case.expect(d < 1e-11, 'nutation', f'{d} rad')


@check.scenario(quick=1, thorough=1, floor=1)
def anchor(case):
    """published SOFA result for 2007-04-05 12:00 UTC and Meeus' moon example"""
    m = astro.itrs(np.array([(54195.5-51544.5)/36525]))[:, :, 0]
    want = [[+0.973104317697536, +0.230363826239128, -0.000703163481769],
        [-0.230363800456036, +0.973104570632801, +0.000118545368117],
        [+0.000711560162594, +0.000046626402444, +0.999999745754024]]
    case.close(m, want, 'sofa', rtol=0, atol=1e-8)
    # sun and moon: longitude, latitude and distance at 1992-04-12 (Meeus ex. 47.a)
    mjd = np.array([48724.0-58.2/86400])
    ts = timescale.time.Timescale(MJD=mjd)
    x = ra.R('x', 23.43929111*ra.D2R) @ ra.R('z', -float(ts.gha[0])*ra.D2R) @ np.array(astro.lunar_approximate(mjd))[:, 0]
    R = np.sqrt((x**2).sum())
    case.expect(abs(np.degrees(np.arctan2(x[1], x[0])) - 133.162655) < 0.02, 'meeus-longitude', '')
    case.expect(abs(np.degrees(np.arcsin(x[2]/R)) + 3.229126) < 0.02, 'meeus-latitude', '')
    case.expect(abs(R/1e3 - 368409.7) < 200, 'meeus-distance', str(R))
    case.nontrivial('anchor')


def kernel(path, r):
    """write a small SPK kernel (type 2) with known polynomials"""
    from jplephem.daf import DAF, FTPSTR
    jd0, jd1 = 2451545.0 - 6000, 2451545.0 + 10000
    t0, t1 = (jd0-2451545.0)*86400, (jd1-2451545.0)*86400
    rec = b'DAF/SPK ' + struct.pack('<II', 2, 6) + b'synthetic'.ljust(60) + \
        struct.pack('<III', 2, 2, 1 + 3*128) + b'LTL-IEEE'
    rec = rec.ljust(699, b'\0') + FTPSTR
    rec = rec.ljust(1024, b'\0')
    with open(path, 'w+b') as f:
        f.write(rec)
        f.write(struct.pack('<ddd', 0, 0, 0).ljust(1024, b'\0'))
        f.write(b' '*1024)
        d = DAF(f)
        coef = {}
        for target, center, scale in ((10, 0, 1e6), (3, 0, 1.5e8), (399, 3, 4e3), (301, 3, 4e5)):
            c = r.normal(size=(3, 4))*scale*np.array([1, .5, .1, .05])
            coef[center, target] = c
            mid, rad = (t0+t1)/2, (t1-t0)/2
            arr = np.r_[mid, rad, c.ravel(), t0, t1-t0, 2+12, 1]
            d.add_array(b'x', (t0, t1, target, center, 1, 2), arr)
    def position(key, jd):
        x = (jd-2451545.0)*86400
        return np.polynomial.chebyshev.chebval((x-(t0+t1)/2)/((t1-t0)/2), coef[key].T)
    return position


@check.scenario(quick=8, thorough=80, floor=6)
def jpl(case):
    """positions from a JPL kernel are rotated to the terrestrial frame"""
    r = case.rng
    path = case.tmp / 'kernel.bsp'
    pos = kernel(path, r)
    mjd = epochs(r, 2, 50000, 60000)
    ts = timescale.time.Timescale(MJD=mjd)
    S = np.array(astro.solar_ecef(mjd, ephemerides='JPL', kernel=path))
    L = np.array(astro.lunar_ecef(mjd, ephemerides='jpl', kernel=path))
    for i in range(len(mjd)):
        jd = float(ts.tt[i])
        M = ra.gcrs_to_itrs(float(mjd[i]))
        s = 1e3*(pos((0, 10), jd) - pos((0, 3), jd) - pos((3, 399), jd))
        m = 1e3*(pos((3, 301), jd) - pos((3, 399), jd))
        case.close(S[:, i], M @ s, 'jpl-sun', rtol=5e-8, scale=np.abs(s).max())
        case.close(L[:, i], M @ m, 'jpl-moon', rtol=5e-8, scale=np.abs(m).max())
    case.nontrivial(int(mjd[0]))
