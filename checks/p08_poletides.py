"""P08: load and ocean pole tides"""
import gzip
import numpy as np
import pyTMD.predict
import pyTMD.io.IERS
import timescale
from vmon.core import Check
from vmon import gen

check = Check('P08', 'Load and ocean pole tide displacements follow the IERS conventions',
    'a case counts when displacements were compared with the direct formula; '
    'key = kind, convention, pairing / interpolation method',
    ['polar motion and mean pole are those of the timescale package',
     'IERS Conventions (2010) section 7.1.4 and 7.1.5'])

CONV = ['2003', '2010', '2015', '2018']
ASEC = np.pi/648000.0


def pole(t, dt, conv):
    """wobble parameters (arcseconds) at a time in days since 1992"""
    mjd = t + dt + 48622.0
    # calendar year and day of year, without the code under test
    day = np.floor(mjd)
    date = np.datetime64('1858-11-17') + np.timedelta64(int(day), 'D')
    year = date.astype('datetime64[Y]')
    y0 = (year.astype('datetime64[D]') - np.datetime64('1858-11-17')).astype(int)
    y1 = ((year+1).astype('datetime64[D]') - np.datetime64('1858-11-17')).astype(int)
    dec = int(str(year)) + (mjd - y0)/(y1 - y0)
    mx, my, _ = timescale.eop.iers_mean_pole(np.array([dec]), convention=conv)
    px, py = timescale.eop.iers_polar_motion(np.array([mjd]), k=3, s=0)
    return float(px[0]-mx[0]), -float(py[0]-my[0])


def points(r, n):
    lat = r.uniform(-89.9, 89.9, n)
    lon = r.choice([r.uniform(-180, 180, n), r.uniform(0, 360, n)])
    rad = 6371e3 + r.uniform(-20e3, 20e3, n)
    la, lo = np.radians(lat), np.radians(lon)
    return np.c_[rad*np.cos(la)*np.cos(lo), rad*np.cos(la)*np.sin(lo), rad*np.sin(la)]


def load_ref(m, P, g, w, h2, l2):
    r = np.sqrt((P**2).sum())
    x, y, z = P
    rho = np.hypot(x, y)
    ct, st, cl, sl = z/r, rho/r, x/rho, y/rho
    k = ASEC*(w*r)**2/g
    a = m[0]*cl + m[1]*sl
    b = m[0]*sl - m[1]*cl
    Sr = -h2*k/2.0*(2*st*ct)*a
    St = -l2*k*(ct*ct - st*st)*a
    Sl = l2*k*ct*b
    up = np.array([st*cl, st*sl, ct])
    south = np.array([ct*cl, ct*sl, -st])
    east = np.array([-sl, cl, 0])
    return Sr*up + St*south + Sl*east


def times(r, n):
    # polar motion is tabulated from 1973, conventional mean poles are from 1975
    t = r.uniform(400 if r.random() < 0.6 else -5800, 11000, n)
    return np.where(r.random(n) < 0.2, np.round(t), t)


@check.scenario(quick=120, thorough=2000, floor=90)
def load(case):
    r = case.rng
    conv = CONV[case.index % 4]
    pair = ['same', 'one-time', 'one-point'][case.index % 3]
    n = int(r.integers(2, 12))
    nt, npt = (1 if pair == 'one-time' else n), (1 if pair == 'one-point' else n)
    t, P = gen.dress(r, times(r, nt), 0.3), gen.dress(r, points(r, npt), 0.3)
    dt = gen.deltat(r, nt)
    dt = gen.dress(r, dt, 0.3) if np.ndim(dt) else dt
    kw = {}
    if r.random() < 0.5:
        kw = dict(gamma_0=9.78, omega=7.29e-5*r.uniform(0.9, 1.1), h2=r.uniform(0.5, 0.7), l2=r.uniform(0.05, 0.1))
    case.note(t=t, XYZ=P, deltat=dt, convention=conv, pair=pair, **kw)
    P0, t0 = P.copy(), t.copy()
    got = pyTMD.predict.load_pole_tide(t, P, deltat=dt, convention=conv, **kw)
    case.expect(np.array_equal(P, P0) and np.array_equal(t, t0), 'inputs-changed')
    k = dict(gamma_0=9.80665, omega=7.2921151467e-5, h2=0.6207, l2=0.0836)
    k.update(kw)
    want = np.array([load_ref(pole(t[i % nt], gen.at(dt, i % nt), conv), P[i % npt],
        k['gamma_0'], k['omega'], k['h2'], k['l2']) for i in range(n)])
    case.close(got, want, 'load-pole-tide', rtol=0, atol=2e-9)
    case.nontrivial('load', conv, pair)
    case.event('displacements', n)
    # linear in the Love numbers, separable into radial and horizontal parts
    a = pyTMD.predict.load_pole_tide(t, P, deltat=dt, convention=conv, **{**k, 'l2': 0.0})
    b = pyTMD.predict.load_pole_tide(t, P, deltat=dt, convention=conv, **{**k, 'h2': 0.0})
    case.close(a+b, got, 'love-linear', rtol=0, atol=1e-15)
    rad = np.abs((b*P).sum(axis=1))
    case.expect(rad.max() < 1e-9*6.4e6, 'horizontal', f'{rad}')


@check.scenario(quick=24, thorough=240, floor=18)
def many(case):
    """large batches of a few places and epochs, in any order"""
    r = case.rng
    conv = CONV[case.index % 4]
    n = int(r.integers(2, 9))
    t, P, dt = times(r, n), points(r, n), gen.deltat(r, n)
    U = r.normal(size=(n, 3)) + 1j*r.normal(size=(n, 3))
    i = gen.many(r, n)
    di = dt[i] if np.ndim(dt) else dt
    for nm, fn, U1 in (('load', pyTMD.predict.load_pole_tide, None), ('ocean', pyTMD.predict.ocean_pole_tide, U)):
        a = (P,) if U1 is None else (P, U)
        few = fn(t, *a, deltat=dt, convention=conv)
        all = fn(t[i], *[x[i] for x in a], deltat=di, convention=conv)
        if case.expect(np.shape(all) == (len(i), 3), f'many:{nm}', f'shape {np.shape(all)}'):
            case.close(all, few[i], f'many:{nm}', rtol=0, atol=1e-14)
    case.nontrivial('many', conv, len(i))


@check.scenario(quick=120, thorough=2000, floor=90)
def ocean(case):
    r = case.rng
    conv = CONV[case.index % 4]
    pair = ['same', 'one-time', 'one-point'][case.index % 3]
    n = int(r.integers(2, 12))
    nt, npt = (1 if pair == 'one-time' else n), (1 if pair == 'one-point' else n)
    t, P = gen.dress(r, times(r, nt), 0.3), gen.dress(r, points(r, npt), 0.3)
    U = gen.dress(r, r.normal(size=(npt, 3)) + 1j*r.normal(size=(npt, 3)), 0.3)
    dt = gen.deltat(r, nt)
    k = dict(gamma_0=9.780325, a_axis=6378136.3, GM=3.986004418e14,
        omega=7.2921151467e-5, rho_w=1025.0, g2=0.6870+0.0036j)
    kw = {}
    if r.random() < 0.5:
        kw = dict(gamma_0=9.79, a_axis=6378137.0, GM=3.98e14, omega=7.3e-5,
            rho_w=1030.0, g2=complex(r.uniform(0.5, 0.8), r.uniform(-0.2, 0.2)))
    k.update(kw)
    case.note(t=t, XYZ=P, U=U, deltat=dt, convention=conv, pair=pair, **kw)
    U0 = U.copy()
    got = pyTMD.predict.ocean_pole_tide(t, P, U, deltat=dt, convention=conv, **kw)
    case.expect(np.array_equal(U, U0), 'inputs-changed')
    Hp = np.sqrt(8*np.pi/15)*k['omega']**2*k['a_axis']**4/k['GM']
    K = 4*np.pi*6.67430e-11*k['a_axis']*k['rho_w']*Hp/(3*k['gamma_0'])
    want = np.zeros((n, 3))
    for i in range(n):
        m1, m2 = pole(t[i % nt], gen.at(dt, i % nt), conv)
        # equation 7.29
        gr, gi = k['g2'].real, k['g2'].imag
        u = U[i % npt]
        want[i] = K*ASEC*((m1*gr + m2*gi)*u.real + (m2*gr - m1*gi)*u.imag)
    case.close(got, want, 'ocean-pole-tide', rtol=0, atol=2e-9*np.abs(U).max())
    case.nontrivial('ocean', conv, pair)
    case.event('displacements', n)


def write_map(path, r, fn, order):
    lon = np.arange(0.25, 360, 0.5)
    lat = np.arange(89.75, -90, -0.5)
    LN, LT = np.meshgrid(lon, lat)
    cols = [LN, LT] + [f(LN, LT) for f in fn]
    A = np.column_stack([c.ravel() for c in cols])
    if order == 'shuffled':
        A = A[r.permutation(len(A))]
    elif order == 'south-up':
        A = A[::-1]
    with gzip.open(path, 'wt', compresslevel=1) as f:
        for i in range(int(r.integers(3, 16))):
            f.write(f' header line {i} -- text 1 2 3\n')
        f.write('-'*60 + '\n')
        np.savetxt(f, A, fmt='%9.4f')


@check.scenario(quick=8, thorough=48, chunk=1, floor=6)
def coefficients(case):
    """the map of Desai (2002) interpolated at any longitude convention"""
    r = case.rng
    path = case.tmp/'opole.txt.gz'
    fn = []
    for i in range(6):
        a, b, c, k = r.normal(), r.normal(), r.normal(), int(r.integers(1, 3))
        fn.append(lambda ln, lt, a=a, b=b, c=c, k=k: a*np.cos(np.radians(k*ln + 30*c))*np.cos(np.radians(lt))
            + b*np.sin(np.radians(lt)))
    order = ['table', 'shuffled', 'south-up'][case.index % 3]
    write_map(path, r, fn, order)
    n = 60
    lat = r.uniform(-89.7, 89.7, n)
    lon = r.uniform(-180, 180, n)
    lon[:8] = [0.0, -180.0, 180.0, 179.9, -179.9, 0.1, -0.1, 90.25]
    all4 = ['spline', 'linear', 'nearest', 'bilinear']
    pick = [all4[case.index % 4], all4[(case.index + 1 + case.index//4) % 4]]
    for method in pick:
        tol = 0.05 if method == 'nearest' else 3e-4
        tol *= 8
        case.note(order=order, method=method)
        ok, got = case.quietly(f'coefficients-{method}', pyTMD.io.IERS.extract_coefficients,
            lon, lat, model_file=path, method=method)
        if not ok:
            continue
        for i, g in enumerate(got):
            g = np.asarray(g, dtype=complex)
            want = fn[2*i](lon, lat) + 1j*fn[2*i+1](lon, lat)
            case.close(g, want, f'coefficients-{method}', atol=tol, message='RNE'[i])
        # 0-360 and -180-180 are the same meridians
        g2 = pyTMD.io.IERS.extract_coefficients(np.mod(lon, 360.0), lat, model_file=path, method=method)
        for a, b in zip(got, g2):
            keep = np.ones(n, bool) if method != 'nearest' else np.abs(np.mod(lon*2, 1.0)) > 1e-3
            case.close(np.asarray(b, complex)[keep], np.asarray(a, complex)[keep],
                'longitude-convention', atol=1e-6, message=method)
        case.nontrivial(order, method)
    # grid nodes are reproduced exactly
    ln = np.arange(0.25, 360, 0.5)[r.integers(0, 720, 40)]
    lt = np.arange(89.75, -90, -0.5)[r.integers(0, 360, 40)]
    for method in [m for m in pick if m != 'bilinear'][:1]:
        got = pyTMD.io.IERS.extract_coefficients(np.where(ln > 180, ln-360, ln), lt, model_file=path, method=method)
        for i, g in enumerate(got):
            case.close(np.asarray(g, complex), np.round(fn[2*i](ln, lt), 4) + 1j*np.round(fn[2*i+1](ln, lt), 4),
                'node-'+method, atol=1e-6)
