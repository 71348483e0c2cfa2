"""P07: solid Earth tide displacements"""
import numpy as np
import pyTMD.predict
from vmon.core import Check
from vmon import gen, ref_set

check = Check('P07', 'Solid Earth tide displacements follow the IERS conventions',
    'a case counts when displacements were compared with the scalar reference; '
    'key = tide system, parameter set, latitude band',
    ['IERS Conventions (2010) chapter 7 and the values of DEHANTTIDEINEL',
     'permanent tide after the formula of the documentation (Tides.rst, equation 2)'])


def bodies(r, n):
    def sphere(lo, hi, dec):
        ra = r.uniform(0, 2*np.pi, n)
        d = np.radians(r.uniform(-dec, dec, n))
        R = r.uniform(lo, hi, n)
        return np.c_[R*np.cos(d)*np.cos(ra), R*np.cos(d)*np.sin(ra), R*np.sin(d)]
    return sphere(1.471e11, 1.521e11, 23.44), sphere(3.564e8, 4.067e8, 28.7)


def stations(r, n):
    lat = np.where(r.random(n) < 0.15, r.choice([-89.999, -66.0, 1e-6, 45.0, 89.99], n), r.uniform(-90, 90, n))
    lon = r.uniform(-180, 180, n)
    R = 6378136.6 - 21384.0*np.sin(np.radians(lat))**2 + r.uniform(-500, 8000, n)
    a, b = np.radians(lat), np.radians(lon)
    return np.c_[R*np.cos(a)*np.cos(b), R*np.cos(a)*np.sin(b), R*np.sin(a)], lat


def times(r, n):
    t = r.uniform(-15000, 20000, n)
    return np.where(r.random(n) < 0.2, np.round(t), t)


@check.scenario(quick=160, thorough=3000, floor=120)
def displacement(case):
    r = case.rng
    n = int(r.integers(1, 14))
    t = times(r, n)
    P, lat = stations(r, n)
    S, L = bodies(r, n)
    t, P, S, L = (gen.dress(r, x, 0.3) for x in (t, P, S, L))
    mean = bool(r.integers(0, 2))
    ref_kw, kw = {}, {}
    if r.random() < 0.5:
        v = dict(h2=r.uniform(0.5, 0.7), l2=r.uniform(0.05, 0.1), h3=r.uniform(0.2, 0.4), l3=r.uniform(0.0, 0.03))
        kw.update(v)
        ref_kw.update(v)
    if r.random() < 0.3:
        kw.update(mass_ratio_solar=333000.0, mass_ratio_lunar=0.0123, a_axis=6378137.0)
        ref_kw.update(ms=333000.0, ml=0.0123, ae=6378137.0)
    system = 'mean_tide' if mean else 'tide_free'
    kw['tide_system'] = system.upper() if r.random() < 0.2 else system
    case.note(t=t, XYZ=P, SXYZ=S, LXYZ=L, **kw)
    keep = [x.copy() for x in (t, P, S, L)]
    got = pyTMD.predict.solid_earth_tide(t, P, S, L, **kw)
    case.expect(all(np.array_equal(a, b) for a, b in zip(keep, (t, P, S, L))), 'inputs-changed')
    want = np.array([ref_set.displacement(t[i]+48622.0, P[i], S[i], L[i], mean=mean, **ref_kw) for i in range(n)])
    case.close(got, want, 'displacement', rtol=0, atol=2e-8)
    for x in lat:
        case.nontrivial(system, len(kw), int((x+90)//30))
    case.event('displacements', n)
    # alone or in a batch, in any order
    i = r.permutation(n)
    again = pyTMD.predict.solid_earth_tide(t[i], P[i], S[i], L[i], **kw)
    case.close(again, got[i], 'batch', rtol=0, atol=1e-13)
    j = int(i[0])
    one = pyTMD.predict.solid_earth_tide(t[j:j+1], P[j:j+1], S[j:j+1], L[j:j+1], **kw)
    case.close(one[0], got[j], 'batch', rtol=0, atol=1e-13)


@check.scenario(quick=24, thorough=240, floor=18)
def many(case):
    """large batches of a few stations and epochs, in any order"""
    r = case.rng
    n = int(r.integers(2, 9))
    t, (P, lat), (S, L) = times(r, n), stations(r, n), bodies(r, n)
    kw = dict(tide_system=str(r.choice(['mean_tide', 'tide_free'])))
    few = pyTMD.predict.solid_earth_tide(t, P, S, L, **kw)
    i = gen.many(r, n)
    all = pyTMD.predict.solid_earth_tide(t[i], P[i], S[i], L[i], **kw)
    if case.expect(np.shape(all) == (len(i), 3), 'many', f'shape {np.shape(all)}'):
        case.close(all, few[i], 'many', rtol=0, atol=1e-13)
    case.nontrivial('many', len(i))


@check.scenario(quick=60, thorough=600, floor=50)
def permanent(case):
    r = case.rng
    n = int(r.integers(1, 10))
    t = times(r, n)
    P, lat = stations(r, n)
    S, L = bodies(r, n)
    a = pyTMD.predict.solid_earth_tide(t, P, S, L, tide_system='mean_tide')
    b = pyTMD.predict.solid_earth_tide(t, P, S, L, tide_system='tide_free')
    u = P/np.linalg.norm(P, axis=1)[:, None]
    rad = ((a-b)*u).sum(axis=1)
    sp = u[:, 2]
    case.close(rad, -0.120582*(1.5*sp**2 - 0.5), 'permanent-radial', rtol=0, atol=1.5e-4)
    # the meridional part, IERS equation 7.14b
    north = np.c_[-sp*u[:, 0], -sp*u[:, 1], 1 - sp**2]/np.sqrt(1-sp**2)[:, None]
    dn = ((a-b)*north).sum(axis=1)
    case.close(dn, -0.0252*2*sp*np.sqrt(1-sp**2), 'permanent-north', rtol=0, atol=1.5e-4)
    # the difference does not depend on time or on the bodies
    S2, L2 = bodies(r, n)
    t2 = times(r, n)
    c = pyTMD.predict.solid_earth_tide(t2, P, S2, L2, tide_system='mean_tide')
    d = pyTMD.predict.solid_earth_tide(t2, P, S2, L2, tide_system='tide_free')
    case.close(c-d, a-b, 'permanent-constant', rtol=0, atol=1e-12)
    case.nontrivial('permanent', n)
    case.raises(AssertionError, 'tide-system', pyTMD.predict.solid_earth_tide, t, P, S, L, tide_system='zero_tide')


@check.scenario(quick=30, thorough=300, floor=20)
def physics(case):
    """properties that need no reference: no motion without bodies beyond the
    frequency corrections, linear in the masses, rigid rotation of the degree
    2 and 3 part about the pole"""
    r = case.rng
    n = 4
    t = times(r, n)
    P, lat = stations(r, n)
    S, L = bodies(r, n)
    f = pyTMD.predict.solid_earth_tide
    z = f(t, P, S, L, mass_ratio_solar=0.0, mass_ratio_lunar=0.0)
    s = f(t, P, S, L, mass_ratio_lunar=0.0) - z
    m = f(t, P, S, L, mass_ratio_solar=0.0) - z
    a = f(t, P, S, L) - z
    case.close(s+m, a, 'linear', rtol=0, atol=1e-12)
    case.close(f(t, P, S, L, mass_ratio_solar=2*332946.0482, mass_ratio_lunar=2*0.0123000371) - z, 2*a,
        'linear', rtol=0, atol=1e-12)
    case.expect(np.abs(z).max() < 0.03, 'frequency-part', f'{np.abs(z).max()}')
    g = r.uniform(0, 2*np.pi)
    R = np.array([[np.cos(g), -np.sin(g), 0], [np.sin(g), np.cos(g), 0], [0, 0, 1]])
    z2 = f(t, P@R.T, S@R.T, L@R.T, mass_ratio_solar=0.0, mass_ratio_lunar=0.0)
    a2 = f(t, P@R.T, S@R.T, L@R.T) - z2
    case.close(a2, a@R.T, 'rotation', rtol=0, atol=1e-11)
    case.nontrivial('physics', case.index % 10)


@check.scenario(quick=1, thorough=1)
def published(case):
    """test cases printed in DEHANTTIDEINEL"""
    for d, x, s, l, e in (
        (2009.0*0 + 54934.0 - 48622.0, [4075578.385, 931852.890, 4801570.154],
            [137859926952.015, 54228127881.4350, 23509422341.6960],
            [-179996231.920342, -312468450.131567, -169288918.592160],
            [0.7700420357108125891e-01, 0.6304056321824967613e-01, 0.5516568152597246810e-01]),
        (57218.0 - 48622.0, [1112200.5696, -4842957.8511, 3985345.9122],
            [100210282451.6279, 103055630398.316, 56855096480.4475],
            [369817604.4348, 1897917.5258, 120804980.8284],
            [0.00509570869172363845, 0.0828663025983528700, -0.0636634925404189617])):
        got = pyTMD.predict.solid_earth_tide(np.array([d]), *(np.array([v]) for v in (x, s, l)))
        case.close(got[0], e, 'published', rtol=0, atol=2e-6)
        case.close(ref_set.displacement(d+48622.0, x, s, l), e, 'published-reference', rtol=0, atol=2e-6)
        case.nontrivial(d)
