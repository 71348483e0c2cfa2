"""ref_astro.py -- scalar reference for sun, moon and Earth rotation

Rotation: SOFA-style composition with IAU 2006 precession and IAU 2000A_R06
nutation from a private copy of the IERS tables (planetary terms included).
Sun and moon: Montenbruck & Gill (2000), section 3.3.2.
"""
import gzip
import math
import pathlib
import numpy as np
import timescale

D2R = math.pi/180
AS = math.pi/648000
DATA = pathlib.Path(__file__).parent/'data'/'iers'


def _table(name):
    """{power of t: array of rows (sin, cos, 14 multipliers)}"""
    rows = {0: [], 1: []}
    power = None
    for line in gzip.open(DATA/name, 'rt'):
        if line.startswith('j ='):
            power = int(line.split()[2])
            continue
        w = line.split()
        if power in (0, 1) and len(w) == 17:
            try:
                rows[power].append([float(x) for x in w[1:]])
            except ValueError:
                pass
    return {k: np.array(v) for k, v in rows.items()}


T2E, T3A, T3B = (_table(f'tab5.{k}.txt.gz') for k in ('2e', '3a', '3b'))


def delaunay(T):
    """five Delaunay arguments (radians) for centuries TT since J2000"""
    P = [(485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470),
        (1287104.79305, 129596581.0481, -0.5532, 0.000136, -0.00001149),
        (335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417),
        (1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169),
        (450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939)]
    return [math.fmod(sum(c*T**k for k, c in enumerate(p)), 1296000.)*AS % (2*math.pi) for p in P]


def fundamental14(T):
    pl = [(4.402608842, 2608.7903141574), (3.176146697, 1021.3285546211),
        (1.753470314, 628.3075849991), (6.203480913, 334.0612426700),
        (0.599546497, 52.9690962641), (0.874016757, 21.3299104960),
        (5.481293872, 7.4781598567), (5.311886287, 3.8133035638)]
    return delaunay(T) + [a + b*T for a, b in pl] + [0.024381750*T + 0.00000538691*T*T]


def series(tab, T, planets=True):
    fa = np.array(fundamental14(T))
    if not planets:
        fa[5:] = 0.0
    out = 0.0
    for k in (0, 1):
        for row in tab[k]:
            a = math.fmod(float(np.dot(row[2:], fa)), 2*math.pi)
            out += T**k*(row[0]*math.sin(a) + row[1]*math.cos(a))
    return out*1e-6*AS


def nutation(T, planets=True):
    """dpsi, deps (the obliquity table lists cosines second as sin columns)"""
    return series(T3A, T, planets), series(T3B, T, planets)


# admissible evaluations: with the planetary arguments or with the lunisolar
# ones alone, and the equation of the equinoxes with the mean or true obliquity
VARIANTS = [(p, o) for p in (True, False) for o in (True, False)]


def obliquity(T):
    return AS*sum(c*T**k for k, c in enumerate((84381.406, -46.836769, -1.831e-4,
        2.00340e-3, -5.76e-7, -4.34e-8)))


def R(axis, a):
    c, s = math.cos(a), math.sin(a)
    return np.array(dict(x=[[1, 0, 0], [0, c, s], [0, -s, c]],
        y=[[c, 0, -s], [0, 1, 0], [s, 0, c]],
        z=[[c, s, 0], [-s, c, 0], [0, 0, 1]])[axis], dtype=float)


def precession(T):
    e0 = 84381.406
    psi = AS*(5038.481507*T - 1.0790069*T**2 - 0.00114045*T**3 + 0.000132851*T**4 - 9.51e-8*T**5)
    om = AS*(e0 - 0.025754*T + 0.0512623*T**2 - 0.00772503*T**3 - 4.67e-7*T**4 + 3.337e-7*T**5)
    chi = AS*(10.556403*T - 2.3814292*T**2 - 0.00121197*T**3 + 0.000170663*T**4 - 5.60e-8*T**5)
    return R('z', chi) @ R('x', -om) @ R('z', -psi) @ R('x', e0*AS)


def bias():
    xi, eta, da = -0.0166170*AS, -0.0068192*AS, -0.01460*AS
    return R('x', -eta) @ R('y', xi) @ R('z', da)


def gast(mjd, planets=True, mean=True):
    """radians; mjd in UTC"""
    ts = timescale.time.Timescale(MJD=np.array([mjd]))
    T = float(ts.T[0])
    dpsi, deps = nutation(T, planets)
    eo = dpsi*math.cos(obliquity(T) + (0.0 if mean else deps)) + series(T2E, T)
    return (2*math.pi*float(ts.st[0]) + eo) % (2*math.pi)


def gcrs_to_itrs(mjd, planets=True, mean=True):
    ts = timescale.time.Timescale(MJD=np.array([mjd]))
    T = float(ts.T[0])
    e = obliquity(T)
    dpsi, deps = nutation(T, planets)
    N = R('x', -(e+deps)) @ R('z', -dpsi) @ R('x', e)
    px, py = timescale.eop.iers_polar_motion(np.array([mjd]))
    W = R('x', -float(py[0])*AS) @ R('y', -float(px[0])*AS) @ R('z', -4.7e-5*T*AS)
    return W @ R('z', gast(mjd, planets, mean)) @ N @ precession(T) @ bias()


def sun(mjd):
    ts = timescale.time.Timescale(MJD=np.array([mjd]))
    T = float(ts.T[0])
    M = D2R*(357.5256 + 35999.049*T - 1.559e-4*T*T - 4.8e-7*T**3)
    lam = D2R*(282.94 + 1.7192*T) + M + AS*(6892*math.sin(M) + 72*math.sin(2*M))
    r = (149.619 - 2.499*math.cos(M) - 0.021*math.cos(2*M))*1e9
    v = R('x', -23.43929111*D2R) @ np.array([r*math.cos(lam), r*math.sin(lam), 0])
    return R('z', float(ts.gha[0])*D2R) @ v


def moon(mjd):
    ts = timescale.time.Timescale(MJD=np.array([mjd]))
    T = float(ts.T[0])
    L0 = D2R*(218.3164477 + 481267.88123421*T - 1.5786e-3*T**2 + 1.855835e-6*T**3 - 1.53388e-8*T**4)
    D = D2R*(297.8501921 + 445267.1114034*T - 1.8819e-3*T**2 + 1.83195e-6*T**3 - 8.8445e-9*T**4)
    N = D2R*(125.04452 - 1934.136261*T + 2.0708e-3*T**2 + 2.22222e-6*T**3)
    F = L0 - N
    l1 = D2R*(357.5256 + 35999.049*T)
    l = D2R*(134.96292 + 477198.86753*T)
    s, c = math.sin, math.cos
    lam = L0 + AS*sum(k*s(a) for k, a in [(22640, l), (769, 2*l), (-4586, l-2*D), (2370, 2*D),
        (-668, l1), (-412, 2*F), (-212, 2*l-2*D), (-206, l+l1-2*D), (192, l+2*D),
        (-165, l1-2*D), (148, l-l1), (-125, D), (-110, l+l1), (-55, 2*F-2*D)])
    beta = AS*(18520*s(F + lam - L0 + AS*(412*s(2*F) + 541*s(l1))) + sum(k*s(a) for k, a in [
        (-526, F-2*D), (44, l+F-2*D), (-31, -l+F-2*D), (-25, -2*l+F), (-23, l1+F-2*D),
        (21, -l+F), (11, -l1+F-2*D)]))
    r = 1e3*(385000 + sum(k*c(a) for k, a in [(-20905, l), (-3699, 2*D-l), (-2956, 2*D),
        (-570, 2*l), (246, 2*l-2*D), (-205, l1-2*D), (-171, l+2*D), (-152, l+l1-2*D)]))
    v = R('x', -23.43929111*D2R) @ np.array([r*c(lam)*c(beta), r*s(lam)*c(beta), r*s(beta)])
    return R('z', float(ts.gha[0])*D2R) @ v
