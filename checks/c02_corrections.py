"""C02: equilibrium, pole and solid Earth tides at points and times"""
import os
import pathlib
import tempfile
import atexit
import shutil
import numpy as np
import pyTMD.compute
import pyTMD.astro
import pyTMD.io.IERS
import timescale.time
from vmon.core import Check, Skip
from vmon import gen, computing, ref_tides as ref, ref_set

from checks import p08_poletides as P08

check = Check('C02', 'Computed equilibrium, pole and solid Earth tides are the predictions at each point and time',
    'a case counts when values were compared with the reference; '
    'key = correction, input type, time standard, projection, convention',
    ['references as for P05-P08', 'ellipsoid parameters as published'])

ELL = {'WGS84': (6378137.0, 298.257223563, 3.986004418e14, 7.292115e-5),
    'GRS80': (6378137.0, 298.257222101, 3.986005e14, 7.292115e-5),
    'WGS72': (6378135.0, 298.26, 3.986004418e14, 7.292115e-5),
    'IERS': (6378136.6, 298.25642, 3.986004418e14, 7.292115e-5),
    'TOPEX': (6378136.3, 298.257, 3.986004415e14, 7.292115e-5),
    'EGM96': (6378136.3, 298.256415099, 3.986004415e14, 7.292115e-5),
    'GRS67': (6378160.0, 298.247167427, 3.98603e14, 7.2921151467e-5)}


def cartesian(lon, lat, a, rf):
    f = 1/rf
    e2 = 2*f - f*f
    la, lo = np.radians(lat), np.radians(lon)
    N = a/np.sqrt(1 - e2*np.sin(la)**2)
    return np.c_[N*np.cos(la)*np.cos(lo), N*np.cos(la)*np.sin(lo), N*(1-e2)*np.sin(la)]


def somigliana(lat, a, rf, GM, w):
    """normal gravity on the ellipsoid, Heiskanen and Moritz 2-78, 2-73, 2-74"""
    f = 1/rf
    b = a*(1-f)
    E = np.sqrt(a*a - b*b)
    ep = E/b
    m = w*w*a*a*b/GM
    q0 = 0.5*((1 + 3/ep**2)*np.arctan(ep) - 3/ep)
    q0p = 3*(1 + 1/ep**2)*(1 - np.arctan(ep)/ep) - 1
    ga = GM/(a*b)*(1 - m - m/6*ep*q0p/q0)
    gb = GM/(a*a)*(1 + m/3*ep*q0p/q0)
    s, c = np.sin(np.radians(lat)), np.cos(np.radians(lat))
    return (a*ga*c*c + b*gb*s*s)/np.sqrt(a*a*c*c + b*b*s*s)


def draw(r, crs):
    def f(n):
        if crs == '4326':
            lon = r.uniform(-180, 180, n) if r.random() < 0.5 else r.uniform(0, 360, n)
            lat = r.uniform(-89.9, 89.9, n)
            lat[r.random(n) < 0.05] = 0.0
            return lon, lat
        if crs == '3031':
            return r.uniform(-2.5e6, 2.5e6, n), r.uniform(-2.5e6, 2.5e6, n)
        if crs == '3413':
            return r.uniform(-2.5e6, 2.5e6, n), r.uniform(-2.5e6, 2.5e6, n)
        return r.uniform(-1.9e7, 1.9e7, n), r.uniform(-1.5e7, 1.5e7, n)
    return f


def layout(case):
    r = case.rng
    crs = str(r.choice(['4326', '4326', '3031', '3413', '3857']))
    L = computing.Layout(r, computing.TYPES[int(r.integers(0, len(computing.TYPES)))], draw(r, crs), crs, whole=r.random() < 0.1)
    dt, tk, days = computing.times(r, L.nt, lo=400.0, hi=11000.0)
    if r.random() < 0.2:
        dt = gen.dress(r, dt)
    call = dict(TYPE=L.arg, **tk)
    # the defaults
    if L.arg == 'drift' and r.random() < 0.3:
        call.pop('TYPE')
    if call['TIME'] == 'UTC' and r.random() < 0.3:
        call.pop('TIME')
    if crs != '4326' or r.random() < 0.3:
        call['EPSG'] = int(crs) if r.random() < 0.5 else crs
    case.note(x=L.x, y=L.y, dt=dt, kind=L.kind, **call)
    return L, dt, days, call


def run(case, name, L, dt, call):
    keep = [np.copy(L.x), np.copy(L.y), np.copy(dt)]
    fn = getattr(pyTMD.compute, name)
    if case.rng.random() < 0.25:
        short = name.split('_')[0]
        short = short.lower() if case.rng.random() < 0.3 else short
        fn = lambda *a, **k: pyTMD.compute.corrections(*a, CORRECTION=short, **k)
    ok, got = case.quietly(name, fn, L.x, L.y, dt, **call)
    case.expect(all(np.array_equal(a, b) for a, b in zip(keep, (L.x, L.y, dt))), 'inputs-changed', name)
    if not ok:
        return None
    if not case.expect(np.shape(got) == L.shape, name+':shape', f'{np.shape(got)} expected {L.shape}'):
        return None
    return got


def fill(L, fn):
    v = np.zeros(L.shape)
    memo = {}
    for idx, p, k in L.pairs():
        if (p, k) not in memo:
            memo[p, k] = fn(p, k)
        v[idx] = memo[p, k]
    return v


@check.scenario(quick=250, thorough=5000, floor=150)
def LPET(case):
    L, dt, days, call = layout(case)
    got = run(case, 'LPET_elevations', L, dt, call)
    if got is None:
        return
    dT = computing.delta_t(days)
    want = fill(L, lambda p, k: ref.lpet(days[k] + dT[k], L.lat[p], 0.0))
    case.close(got, want, 'LPET_elevations:value', rtol=1e-8, atol=1e-9)
    case.nontrivial('LPET', L.kind, call.get('TIME', 'UTC').upper(), L.crs)
    case.event('values', want.size)


@check.scenario(quick=40, thorough=600, floor=25)
def many(case):
    """large batches of a few points and times, in any order"""
    r = case.rng
    name = ['LPET_elevations', 'LPT_displacements', 'SET_displacements'][case.index % 3]
    L, dt, days, call = layout(case)
    fn = getattr(pyTMD.compute, name)
    call.pop('TYPE', None)
    n = len(L.px)
    few = fn(L.px, L.py, dt, TYPE='time series', **call)
    i, k = gen.many(r, n)[:1025], gen.many(r, len(dt))[:1025]
    kind = ['drift', 'time series', 'grid'][int(r.integers(0, 3))]
    if kind == 'drift':
        k = np.resize(k, len(i))
        want = few[i, k]
    elif kind == 'time series':
        i, k = (i[:260], k[:2]) if r.random() < 0.5 else (i[:3], k)
        want = few[np.ix_(i, k)]
    else:
        i, k = (np.resize(i, (26, 31)), k[:2]) if r.random() < 0.5 else (np.resize(i, (2, 3)), k[:130])
        want = few[i][:, :, k]
    ok, got = case.quietly('many', fn, L.px[i], L.py[i], dt[k], TYPE=kind, **call)
    if ok and case.expect(np.shape(got) == np.shape(want), 'many:shape', f'{np.shape(got)} {np.shape(want)}'):
        case.close(got, want, f'many:{name}', rtol=1e-7, atol=1e-9)
        case.nontrivial(name, kind, got.size)


@check.scenario(quick=120, thorough=2500, floor=80)
def LPT(case):
    r = case.rng
    L, dt, days, call = layout(case)
    conv = str(r.choice(P08.CONV))
    ell = 'WGS84' if r.random() < 0.4 else str(r.choice(sorted(ELL)))
    if conv != '2018' or r.random() < 0.5:
        call['CONVENTION'] = conv
    if ell != 'WGS84':
        call['ELLIPSOID'] = ell.lower() if r.random() < 0.2 else ell
    case.note(**call)
    got = run(case, 'LPT_displacements', L, dt, call)
    if got is None:
        return
    a, rf, GM, w = ELL[ell]
    P = cartesian(L.lon, L.lat, a, rf)
    g = somigliana(L.lat, a, rf, GM, w)
    dT = computing.delta_t(days)
    m = [P08.pole(days[k], dT[k], conv) for k in range(len(days))]
    want = fill(L, lambda p, k: P08.load_ref(m[k], P[p], g[p], w, 0.6207, 0.0836) @ P[p]/np.linalg.norm(P[p]))
    case.close(got, want, 'LPT_displacements:value', rtol=1e-4, atol=2e-8)
    case.nontrivial('LPT', L.kind, call.get('TIME', 'UTC').upper(), L.crs, conv, ell)
    case.event('values', want.size)


@check.scenario(quick=120, thorough=2500, floor=80)
def SET(case):
    r = case.rng
    L, dt, days, call = layout(case)
    ell = 'WGS84' if r.random() < 0.4 else str(r.choice(sorted(ELL)))
    mean = bool(r.random() < 0.5)
    if ell != 'WGS84':
        call['ELLIPSOID'] = ell.lower() if r.random() < 0.2 else ell
    if mean:
        call['TIDE_SYSTEM'] = 'mean_tide'
    elif r.random() < 0.3:
        call['TIDE_SYSTEM'] = 'tide_free'
    if r.random() < 0.2:
        call['EPHEMERIDES'] = 'approximate'
    case.note(**call)
    got = run(case, 'SET_displacements', L, dt, call)
    if got is None:
        return
    a, rf, GM, w = ELL[ell]
    P = cartesian(L.lon, L.lat, a, rf)
    dT = computing.delta_t(days)
    S = np.column_stack(pyTMD.astro.solar_ecef(days + 48622.0, ephemerides='approximate'))
    M = np.column_stack(pyTMD.astro.lunar_ecef(days + 48622.0, ephemerides='approximate'))
    want = fill(L, lambda p, k: ref_set.displacement(days[k] + dT[k] + 48622.0, P[p], S[k], M[k], mean=mean, ae=a)
        @ P[p]/np.linalg.norm(P[p]))
    case.close(got, want, 'SET_displacements:value', rtol=0, atol=1e-7)
    case.nontrivial('SET', L.kind, call.get('TIME', 'UTC').upper(), L.crs, mean, ell)
    case.event('values', want.size)


_MAP = {}


def pole_map(r):
    """one synthetic map per process, removed when it ends"""
    if os.getpid() not in _MAP:
        d = pathlib.Path(tempfile.mkdtemp(prefix='vmon_'))
        atexit.register(shutil.rmtree, d, True)
        # the same map whatever came first in this process
        r = np.random.default_rng(20020501)
        fn = []
        for i in range(6):
            a, b, c, k = r.normal(), r.normal(), r.normal(), int(r.integers(1, 3))
            fn.append(lambda ln, lt, a=a, b=b, c=c, k=k: a*np.cos(np.radians(k*ln + 30*c))*np.cos(np.radians(lt))
                + b*np.sin(np.radians(lt)))
        P08.write_map(d/'opole.txt.gz', r, fn, 'table')
        _MAP[os.getpid()] = (d/'opole.txt.gz', fn)
    return _MAP[os.getpid()]


@check.scenario(quick=16, thorough=160, chunk=2, floor=0)
def OPT(case):
    r = case.rng
    path, fn = pole_map(r)
    real = getattr(pyTMD.io.IERS, '_ocean_pole_tide_file', None)
    if real is None:
        raise Skip('the path to the map cannot be replaced')
    pyTMD.io.IERS._ocean_pole_tide_file = path
    try:
        L, dt, days, call = layout(case)
        conv = str(r.choice(P08.CONV))
        ell = 'WGS84' if r.random() < 0.4 else str(r.choice(sorted(ELL)))
        call.update(CONVENTION=conv, ELLIPSOID=ell)
        method = str(r.choice(['spline', 'linear', 'bilinear']))
        if method != 'spline' or r.random() < 0.4:
            call['METHOD'] = method
        case.note(**call)
        got = run(case, 'OPT_displacements', L, dt, call)
    finally:
        pyTMD.io.IERS._ocean_pole_tide_file = real
    if got is None:
        return
    a, rf, GM, w = ELL[ell]
    P = cartesian(L.lon, L.lat, a, rf)
    lat = np.degrees(np.arctan2(P[:, 2], np.hypot(P[:, 0], P[:, 1])))
    u = fn[0](L.lon, lat) + 1j*fn[1](L.lon, lat)
    K = 4*np.pi*6.67430e-11*a*1025.0/(3*9.7803278)*np.sqrt(8*np.pi/15)*w**2*a**4/GM
    dT = computing.delta_t(days)
    m = [P08.pole(days[k], dT[k], conv) for k in range(len(days))]
    gr, gi = 0.6870, 0.0036
    want = fill(L, lambda p, k: K*P08.ASEC*((m[k][0]*gr + m[k][1]*gi)*u[p].real + (m[k][1]*gr - m[k][0]*gi)*u[p].imag))
    scale = K*P08.ASEC*max(max(abs(x[0]), abs(x[1])) for x in m)
    # beyond the last row of nodes (89.75 degrees) only the spline is known to give a value
    edge = fill(L, lambda p, k: float(method != 'spline' and abs(lat[p]) > 89.74)) > 0
    if edge.any() and np.shape(got) == np.shape(want):
        m = np.ma.getmaskarray(got) | ~np.isfinite(np.ma.getdata(got))
        got = np.ma.array(np.ma.getdata(got), mask=m & ~edge)
        got[edge & m] = want[edge & m]
    # the map has four decimals and half-degree nodes
    case.close(got, want, 'OPT_displacements:value', rtol=0, atol=3e-3*scale)
    case.nontrivial('OPT', L.kind, call.get('TIME', 'UTC').upper(), L.crs, conv, method)
    case.event('values', want.size)
