"""
ref_tides.py -- independent reference models of the tidal arguments

Scalar, one epoch at a time, written from the published formulas (Doodson 1921,
Schureman 1958, Ray 1999, Egbert & Erofeeva 2002, Meeus 1991, IERS 2010) and not
from the vectorised code under test.  Angles are in degrees on input.
"""
from __future__ import annotations
import json
import math
import pathlib

DATA = pathlib.Path(__file__).parent / 'data'
DOODSON = json.loads((DATA / 'doodson_ref.json').read_text())
COMPOUND = json.loads((DATA / 'compound.json').read_text())
OTIS_LIKE = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
D2R = math.pi/180.0
MJD_TIDE = 48622.0


def poly(c, t):
    return sum(ck*t**k for k, ck in enumerate(c))


def astro5(corr):
    return corr not in OTIS_LIKE


def mean_longitudes(mjd, method='cartwright'):
    """s, h, p, N, pp in degrees for one modified Julian day"""
    if method == 'meeus':
        T = mjd - 51544.5
        s = poly([218.3164591, 13.17639647754579, -9.9454632e-13,
            3.8086292e-20, -8.6184958e-27], T)
        h = poly([280.46645, 0.985647360164271, 2.2727347e-13], T)
        p = poly([83.3532430, 0.11140352391786447, -7.7385418e-12,
            -2.5636086e-19, 2.95738836e-26], T)
        n = poly([125.0445550, -0.052953762762491446, 1.55628359e-12,
            4.390675353e-20, -9.26940435e-27], T)
        pp = 282.94 + 1.7192*T/36525.0
    elif method == 'astro5':
        T = (mjd - 51544.5)/36525.0
        s = poly([218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6,
            -1.53388e-8], T)
        D = poly([297.8501921, 445267.1114034, -1.8819e-3, 1.83195e-6,
            -8.8445e-9], T)
        h = s - D
        p = poly([83.3532465, 4069.0137287, -1.032e-2, -1.249172e-5], T)
        n = poly([125.04452, -1934.136261, 2.0708e-3, 2.22222e-6], T)
        pp = 282.94 + 1.7192*T
    else:
        T = mjd - 51544.4993
        s = 218.3164 + 13.17639648*T
        h = 280.4661 + 0.98564736*T
        p = 83.3535 + 0.11140353*T
        n = 125.0445 - 0.05295377*T
        pp = 282.8
    return tuple(x % 360.0 for x in (s, h, p, n)) + (pp,)


def coefficients(c, corr='OTIS'):
    if c == 's1' and corr in OTIS_LIKE:
        return [1, 1, -1, 0, 0, 0, 1]
    return DOODSON[c]


def fundamental(mjd, deltat, corr):
    s, h, p, n, pp = mean_longitudes(mjd + deltat,
        'astro5' if astro5(corr) else 'cartwright')
    tau = 15.0*24.0*(mjd % 1) - s + h
    return [tau, s, h, p, n, pp, 90.0]


def G(c, mjd, deltat, corr='OTIS'):
    """equilibrium argument (degrees)"""
    return sum(a*b for a, b in zip(coefficients(c, corr),
        fundamental(mjd, deltat, corr)))


def _schureman(n):
    """I, xi, nu (radians) of the lunar orbit for the node (degrees)"""
    N = n*D2R
    I = math.acos(0.913694997 - 0.035692561*math.cos(N))
    a1 = math.atan(1.01883*math.tan(N/2.0))
    a2 = math.atan(0.64412*math.tan(N/2.0))
    xi = -a1 - a2 + N
    xi = math.atan2(math.sin(xi), math.cos(xi))
    return I, xi, a1 - a2


def _l2_fes(n, p_rad):
    I, xi, nu = _schureman(n)
    t2 = math.tan(I/2.0)**2
    P = p_rad - xi
    Ra = math.sqrt(1.0 - 12.0*t2*math.cos(2*P) + 36.0*t2*t2)
    R = math.atan(math.sin(2*P)/(1.0/(6.0*t2) - math.cos(2*P)))
    return Ra*math.cos(I/2)**4/0.9154, 2*xi - 2*nu - R


def nodal(c, n, p, corr='OTIS', M1='perth5', buggy_l2=False):
    """(f, u) of a constituent; u in radians"""
    if c in COMPOUND:
        # linear terms with a parent in FES take the parent's factor too
        f, u = 1.0, 0.0
        for b, (fp, uc) in COMPOUND[c].items():
            fb, ub = nodal(b, n, p, corr, M1, buggy_l2)
            f *= fb**fp
            u += uc*ub
        special = _linear(c, n, p, corr, M1, buggy_l2)
        return special if special is not None else (f, u)
    r = _linear(c, n, p, corr, M1, buggy_l2)
    return r if r is not None else (1.0, 0.0)


def _linear(c, n, p, corr, M1, buggy_l2):
    O = corr in OTIS_LIKE
    F = corr == 'FES'
    P3 = corr == 'perth3'
    cn = lambda k: math.cos(k*n*D2R)
    sn = lambda k: math.sin(k*n*D2R)
    cp = lambda k: math.cos(k*p*D2R)
    sp = lambda k: math.sin(k*p*D2R)
    cpn = math.cos((2*p - n)*D2R)
    spn = math.sin((2*p - n)*D2R)
    I, xi, nu = _schureman(n)

    def sc(a, b):
        return math.hypot(a, b), math.atan2(a, b)
    # modulation of 2nd degree terms: f sin u, f cos u
    if c in ('msf', 'tau1', 'p1', 'theta1', 'lambda2', 's2') and O:
        return 1.0, 0.0
    if c in ('p1', 's2') and (F or P3):
        return 1.0, 0.0
    if c in ('mm', 'msm'):
        if O:
            return sc(0.0, 1.0 - 0.130*cn(1))
        if F:
            v = (2.0/3.0 - math.sin(I)**2)/0.5021
            return abs(v), (0.0 if v >= 0 else math.pi)
        return sc(-0.0534*sp(2) - 0.0219*spn,
            1.0 - 0.1308*cn(1) - 0.0534*cp(2) - 0.0219*cpn)
    if c in ('mf', 'msqm', 'msp', 'mq', 'mt', 'mtm'):
        if F:
            return math.sin(I)**2/0.1578, -2.0*xi
        if c == 'mt':
            if O:
                return sc(-0.203*sn(1) - 0.040*sn(2),
                    1.0 + 0.203*cn(1) + 0.040*cn(2))
        elif O:
            return (1.043 + 0.414*cn(1),
                D2R*(-23.7*sn(1) + 2.7*sn(2) - 0.4*sn(3)))
        if c in ('mt', 'mtm'):
            return sc(-0.018*sp(2) - 0.4145*sn(1) - 0.040*sn(2),
                1.0 + 0.018*cp(2) + 0.4145*cn(1) + 0.040*cn(2))
        return sc(-0.04324*sp(2) - 0.41465*sn(1) - 0.03873*sn(2),
            1.0 + 0.04324*cp(2) + 0.41465*cn(1) + 0.03873*cn(2))
    if c == 'msf':
        if F:
            return 1.0, 2*xi - 2*nu
        return sc(0.137*sn(1), 1.0)
    if c == 'mst':
        return sc(-0.380*sp(2) - 0.413*sn(1) - 0.037*sn(2),
            1.0 + 0.380*cp(2) + 0.413*cn(1) + 0.037*cn(2))
    if c in ('o1', 'so3', 'op2'):
        if O:
            f, _ = sc(0.189*sn(1) - 0.0058*sn(2), 1.0 + 0.189*cn(1) - 0.0058*cn(2))
            return f, D2R*(10.8*sn(1) - 1.3*sn(2) + 0.2*sn(3))
        if F:
            return math.sin(I)*math.cos(I/2)**2/0.38, 2*xi - nu
        if c == 'o1' and P3:
            return (1.009 + 0.187*cn(1) - 0.015*cn(2),
                D2R*(10.8*sn(1) - 1.3*sn(2)))
        return sc(0.1886*sn(1) - 0.0058*sn(2) - 0.0065*sp(2),
            1.0 + 0.1886*cn(1) - 0.0058*cn(2) - 0.0065*cp(2))
    if c in ('2q1', 'q1', 'rho1', 'sigma1'):
        if F:
            return math.sin(I)*math.cos(I/2)**2/0.38, 2*xi - nu
        if c == 'q1' and P3:
            return (1.009 + 0.187*cn(1) - 0.015*cn(2),
                D2R*(10.8*sn(1) - 1.3*sn(2)))
        if O:
            return (math.hypot(1.0 + 0.188*cn(1), 0.188*sn(1)),
                math.atan(0.189*sn(1)/(1.0 + 0.189*cn(1))))
        return sc(0.1886*sn(1), 1.0 + 0.1886*cn(1))
    if c == 'tau1':
        return sc(0.219*sn(1), 1.0 - 0.219*cn(1))
    if c == 'beta1':
        return sc(0.226*sn(1), 1.0 + 0.226*cn(1))
    if c == 'm1':
        if M1 == 'Doodson':
            return sc(sp(1) + 0.2*math.sin((p-n)*D2R),
                2*cp(1) + 0.4*math.cos((p-n)*D2R))
        if M1 == 'Ray':
            return sc(0.64*sp(1) + 0.135*math.sin((p-n)*D2R),
                1.36*cp(1) + 0.267*math.cos((p-n)*D2R))
        return sc(-0.2294*sn(1) - 0.3594*sp(2) - 0.0664*spn,
            1.0 + 0.1722*cn(1) + 0.3594*cp(2) + 0.0664*cpn)
    if c in ('chi1', 'theta1', 'j1') and F:
        return math.sin(2*I)/0.7214, -nu
    if c == 'chi1':
        return sc(-0.221*sn(1), 1 + 0.221*cn(1)) if O else \
            sc(-0.250*sn(1), 1 + 0.193*cn(1))
    if c == 'p1':
        return sc(-0.0112*sn(1), 1 - 0.0112*cn(1))
    if c in ('k1', 'sk3', '2sk5'):
        if O:
            return sc(-0.1554*sn(1) + 0.0029*sn(2),
                1 + 0.1158*cn(1) - 0.0029*cn(2))
        if F:
            f = math.sqrt(0.8965*math.sin(2*I)**2 +
                0.6001*math.sin(2*I)*math.cos(nu) + 0.1006)
            return f, -math.atan(math.sin(2*I)*math.sin(nu) /
                (math.sin(2*I)*math.cos(nu) + 0.3347))
        if c == 'k1' and P3:
            return (1.006 + 0.115*cn(1) - 0.009*cn(2),
                D2R*(-8.9*sn(1) + 0.7*sn(2)))
        return sc(-0.1554*sn(1) + 0.0031*sn(2),
            1 + 0.1158*cn(1) - 0.0028*cn(2))
    if c in ('j1', 'theta1'):
        return sc(-0.227*sn(1), 1 + 0.169*cn(1))
    if c in ('oo1', 'ups1'):
        if F:
            return math.sin(I)*math.sin(I/2)**2/0.01640, -2*xi - nu
        a, b = -0.640*sn(1) - 0.134*sn(2), 1 + 0.640*cn(1) + 0.134*cn(2)
        if not O:
            a -= 0.150*sp(2)
            b += 0.150*cp(2)
        return sc(a, b)
    if c in ('m2', '2n2', 'mu2', 'n2', 'nu2', 'lambda2', 'ms4', 'eps2',
            '2sm6', '2sn6', 'mp1', 'mp3', 'sn4'):
        if F:
            return math.cos(I/2)**4/0.9154, 2*xi - 2*nu
        if c in ('m2', 'n2') and P3:
            return 1 - 0.037*cn(1), D2R*(-2.1*sn(1))
        return sc(-0.03731*sn(1) + 0.00052*sn(2),
            1 - 0.03731*cn(1) + 0.00052*cn(2))
    if c in ('l2', 'sl4'):
        if F:
            return _l2_fes(n, p if buggy_l2 else p*D2R)
        k = 0.04 if O else 0.037
        return sc(-0.25*sp(2) - 0.11*spn - k*sn(1),
            1 - 0.25*cp(2) - 0.11*cpn - k*cn(1))
    if c == 'l2b':
        return sc(0.441*sn(1), 1 + 0.441*cn(1))
    if c in ('k2', 'sk4', '2sk6', 'kp1'):
        if F:
            f = math.sqrt(19.0444*math.sin(I)**4 +
                2.7702*math.sin(I)**2*math.cos(2*nu) + 0.0981)
            return f, -math.atan(math.sin(I)**2*math.sin(2*nu) /
                (math.sin(I)**2*math.cos(2*nu) + 0.0727))
        if c == 'k2' and P3:
            return (1.024 + 0.286*cn(1) + 0.008*cn(2),
                D2R*(-17.7*sn(1) + 0.7*sn(2)))
        return sc(-0.3108*sn(1) - 0.0324*sn(2),
            1 + (0.2852 if O else 0.2853)*cn(1) + 0.0324*cn(2))
    if c == 'gamma2':
        return sc(0.147*math.sin(2*(n-p)*D2R), 1 + 0.147*math.cos(2*(n-p)*D2R))
    if c == 'delta2':
        return sc(0.505*sp(2) + 0.505*sn(1) - 0.165*sn(2),
            1 - 0.505*cp(2) - 0.505*cn(1) + 0.165*cn(2))
    if c in ('eta2', 'zeta2'):
        if F:
            return math.sin(I)**2/0.1565, -2*nu
        return sc(-0.436*sn(1), 1 + 0.436*cn(1))
    if c == 's2':
        return sc(0.00225*sn(1), 1 + 0.00225*cn(1))
    third = {
        "m1'": (lambda: (-0.01815*sn(1), 1 - 0.27837*cn(1))),
        "q1'": (lambda: (0.3915*sn(1) + 0.033*sn(2) + 0.061*sp(2),
            1 + 0.3915*cn(1) + 0.033*cn(2) + 0.06*cp(2))),
        "j1'": (lambda: (-0.438*sn(1) - 0.033*sn(2),
            1 + 0.372*cn(1) + 0.033*cn(2))),
        "2n2'": (lambda: (0.166*sn(1), 1 + 0.166*cn(1))),
        "n2'": (lambda: (0.1705*sn(1) - 0.0035*sn(2) - 0.0176*sp(2),
            1 + 0.1705*cn(1) - 0.0035*cn(2) - 0.0176*cp(2))),
        "l2'": (lambda: (-0.2495*sn(1), 1 + 0.1315*cn(1))),
        'e3': (lambda: (-0.05644*sn(1), 1 - 0.05644*cn(1))),
        'j3': (lambda: (-0.464*sn(1) - 0.052*sn(2), 1 + 0.387*cn(1) + 0.052*cn(2))),
        'l3': (lambda: (-0.373*sp(2) - 0.164*spn, 1 - 0.373*cp(2) - 0.164*cpn)),
    }
    third['f3'] = third['j3']
    if c == 'm3' and F:
        return math.cos(I/2)**6/0.8758, 3*xi - 3*nu
    if c == 'm3':
        return sc(*third['e3']())
    if c in third:
        return sc(*third[c]())
    return None


# ---- OTIS reference phases at 1992-01-01 and frequencies
OTIS = {k: v for k, v in zip(
    ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', '2n2', 'mu2', 'nu2', 'l2',
     't2', 'j1', 'm1', 'oo1', 'rho1', 'mf', 'mm', 'ssa', 'm4', 'ms4', 'mn4',
     'm6', 'm8', 'mk3', 's6', '2sm2', '2mk3', 'msf', 'sa', 'mt', '2q1'],
    zip([1.405189e-04, 1.454441e-04, 7.292117e-05, 6.759774e-05, 1.378797e-04,
     7.252295e-05, 1.458423e-04, 6.495854e-05, 1.352405e-04, 1.355937e-04,
     1.382329e-04, 1.431581e-04, 1.452450e-04, 7.556036e-05, 7.025945e-05,
     7.824458e-05, 6.531174e-05, 0.053234e-04, 0.026392e-04, 0.003982e-04,
     2.810377e-04, 2.859630e-04, 2.783984e-04, 4.215566e-04, 5.620755e-04,
     2.134402e-04, 4.363323e-04, 1.503693e-04, 2.081166e-04, 4.925200e-06,
     1.990970e-07, 7.962619e-06, 6.231934e-05],
    [1.731557546, 0.0, 0.173003674, 1.558553872, 6.050721243, 6.110181633,
     3.487600001, 5.877717569, 4.086699633, 3.463115091, 5.427136701,
     0.553986502, 0.050398470, 2.137025284, 2.436575000, 1.929046130,
     5.254133027, 1.756042456, 1.964021610, 3.487600001, 3.463115091,
     1.731557546, 1.499093481, 5.194672637, 6.926230184, 1.904561220, 0.0,
     4.551627762, 3.290111417, 4.551627762, 6.232786837, 3.720064066,
     3.91369596]))}


def theta(c, t, deltat, corr, M1='perth5', buggy_l2=False):
    """(f, angle) of a constituent at t days since 1992-01-01"""
    mjd = t + MJD_TIDE
    s, h, p, n, pp = mean_longitudes(mjd + deltat,
        'astro5' if astro5(corr) else 'cartwright')
    f, u = nodal(c, n, p, corr, M1, buggy_l2)
    if corr in OTIS_LIKE:
        w, ph = OTIS.get(c, (0.0, 0.0))
        return f, w*t*86400.0 + ph + u
    return f, G(c, mjd, deltat, corr)*D2R + u


def synth(t, hc, constituents, deltat, corr, buggy_l2=False):
    """tide at one time from complex constants h = A exp(-i g)"""
    out = 0.0
    for z, c in zip(hc, constituents):
        f, th = theta(c, t, deltat, corr, buggy_l2=buggy_l2)
        out += f*(z.real*math.cos(th) - z.imag*math.sin(th))
    return out


def frequency(c, corr='OTIS'):
    """rad/s from the rates of the fundamental arguments at J2000"""
    a = fundamental(51544.5, 0.0, corr)
    b = fundamental(51544.55, 0.0, corr)
    r = []
    for x, y in zip(a, b):
        d = (y - x)
        r.append(d)
    # unwrap: mean longitudes move less than 1 degree in 0.05 d
    for i in range(1, 6):
        r[i] = (r[i] + 180.0) % 360.0 - 180.0
    r[0] = 15.0*24.0*0.05 - r[1] + r[2]
    r[6] = 0.0
    w = sum(k*x for k, x in zip(coefficients(c, corr), r))
    return w*D2R/(0.05*86400.0)


def love(omega, model='PREM'):
    tab = {'1066A': (1.0021714, 6.03e-1, -2.46e-3, 2.98e-1, -1.23e-3, 8.42e-2, 7.81e-5),
        'PEM-C': (1.0021771, 6.02e-1, -2.46e-3, 2.98e-1, -1.24e-3, 8.39e-2, 7.69e-5),
        'C2': (1.0021844, 6.02e-1, -2.45e-3, 2.98e-1, -1.23e-3, 8.46e-2, 7.58e-5),
        'PREM': (1.0023214, 5.994e-1, -2.532e-3, 2.962e-1, -1.271e-3, 8.378e-2, 7.932e-5)}
    if omega > 1e-4:
        return 0.609, 0.302, 0.0852
    if omega < 2e-5:
        return 0.606, 0.299, 0.0840
    fcn, h0, h1, k0, k1, l0, l1 = tab[model]
    r = (omega - frequency('o1'))/(fcn*7292115e-11 - omega)
    return h0 + h1*r, k0 + k1*r, l0 + l1*r


# ---- inference of minor constituents
MINOR20 = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1', 'chi1', 'pi1', 'phi1',
    'theta1', 'j1', 'oo1', '2n2', 'mu2', 'nu2', 'lambda2', 'l2', 'l2b', 't2',
    'eps2', 'eta2']
MINOR20_ARG = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1a', 'chi1', 'pi1', 'phi1',
    'theta1', 'j1', 'oo1', '2n2', 'mu2', 'nu2', 'lambda2', 'l2a', 'l2b', 't2',
    'eps2', 'eta2']
# linear admittance coefficients {minor: {major: weight}} (Egbert & Erofeeva)
RATIO = {'2q1': dict(q1=0.263, o1=-0.0252), 'sigma1': dict(q1=0.297, o1=-0.0264),
    'rho1': dict(q1=0.164, o1=0.0048), 'm1b': dict(o1=0.0140, k1=0.0101),
    'm1': dict(o1=0.0389, k1=0.0282), 'chi1': dict(o1=0.0064, k1=0.0060),
    'pi1': dict(o1=0.0030, k1=0.0171), 'phi1': dict(o1=-0.0015, k1=0.0152),
    'theta1': dict(o1=-0.0065, k1=0.0155), 'j1': dict(o1=-0.0389, k1=0.0836),
    'oo1': dict(o1=-0.0431, k1=0.0613), '2n2': dict(n2=0.264, m2=-0.0253),
    'mu2': dict(n2=0.298, m2=-0.0264), 'nu2': dict(n2=0.165, m2=0.00487),
    'lambda2': dict(m2=0.0040, s2=0.0074), 'l2': dict(m2=0.0131, s2=0.0326),
    'l2b': dict(m2=0.0033, s2=0.0082), 't2': dict(s2=0.0585),
    'eps2': {}, 'eta2': {}}
RATIO_FES = {'mu2': dict(k2=0.069439968323, n2=0.351535557706, m2=-0.046278307672),
    'nu2': dict(k2=-0.006104695053, n2=0.156878802427, m2=0.006755704028),
    'lambda2': dict(k2=0.016503557465, n2=-0.013307812292, m2=0.007753383202),
    'l2b': dict(k2=0.077137765667, n2=-0.051653455134, m2=0.027869916824),
    't2': dict(k2=0.180480173707, n2=-0.020101177502, m2=0.008331518844),
    'eps2': {'2n2': 0.53285, 'n2': -0.03304},
    'eta2': dict(m2=-0.0034925, k2=0.0831707)}
SEMI = [('eps2', 0.004669), ('2n2', 0.016011), ('mu2', 0.019316),
    ('nu2', 0.022983), ('gamma2', 0.001902), ('alpha2', 0.002178),
    ('beta2', 0.001921), ('delta2', 0.000714), ('lambda2', 0.004662),
    ('l2', 0.017862), ('t2', 0.017180), ('r2', 0.002463), ('k2', 0.079924),
    ('eta2', 0.004467)]
DIUR = [('2q1', 0.006638), ('sigma1', 0.008023), ('rho1', 0.009540),
    ('tau1', 0.003430), ('beta1', 0.001941), ('m1a', 0.020604),
    ('m1b', 0.007420), ('chi1', 0.003925), ('pi1', 0.007125),
    ('p1', 0.122008), ('psi1', 0.002929), ('phi1', 0.005247),
    ('theta1', 0.003966), ('j1', 0.020618), ('so1', 0.003417),
    ('oo1', 0.011293), ('ups1', 0.002157)]
LONG = [('sa', 0.004922), ('ssa', 0.030988), ('sta', 0.001809),
    ('msm', 0.006728), ('msf', 0.005837), ('mst', 0.002422),
    ('mt', 0.012753), ('msqm', 0.002037), ('mq', 0.001687)]
SEMI_MAJ = dict(n2=0.121006, m2=0.631931, s2=0.294019)
DIUR_MAJ = dict(q1=0.050184, o1=0.262163, k1=0.368731)
LONG_MAJ = dict(node=0.027929, mm=0.035184, mf=0.066607)


def minor_nodal(c, n, p, corr, buggy_l2=False):
    """(f, u) used when inferring the 20 minor short-period constituents"""
    cn = lambda k: math.cos(k*n*D2R)
    sn = lambda k: math.sin(k*n*D2R)
    if corr == 'FES':
        I, xi, nu = _schureman(n)
        fo = (math.sin(I)*math.cos(I/2)**2/0.38, 2*xi - nu)
        fj = (math.sin(2*I)/0.7214, -nu)
        fm = (math.cos(I/2)**4/0.9154, 2*xi - 2*nu)
        tab = {'2q1': fo, 'sigma1': fo, 'rho1': fo, 'm1b': fo, 'm1': fj,
            'chi1': fj, 'j1': fj,
            'oo1': (math.sin(I)*math.sin(I/2)**2/0.01640, -2*xi - nu),
            '2n2': fm, 'mu2': fm, 'nu2': fm, 'lambda2': fm, 'eps2': fm,
            'l2': _l2_fes(n, p if buggy_l2 else p*D2R),
            'eta2': (math.sin(I)**2/0.1565, -2*nu)}
        if c in tab:
            return tab[c]
    one = {'m1b': (0.185, 1), 'm1': (0.201, -1), 'chi1': (0.221, -1),
        'j1': (0.198, -1), '2n2': (-0.0373, 1), 'mu2': (-0.0373, 1),
        'nu2': (-0.0373, 1), 'l2': (-0.0373, 1), 'l2b': (0.441, -1)}
    if c in ('2q1', 'sigma1', 'rho1'):
        a, b = 0.189*sn(1) - 0.0058*sn(2), 1 + 0.189*cn(1) - 0.0058*cn(2)
        return math.hypot(a, b), math.atan2(a, b)
    if c == 'oo1':
        a, b = 0.640*sn(1) + 0.134*sn(2), 1 + 0.640*cn(1) + 0.134*cn(2)
        return math.hypot(a, b), math.atan2(-a, b)
    if c in one:
        k, sg = one[c]
        f = math.hypot(1 + k*cn(1), k*sn(1))
        return f, math.atan2(sg*k*sn(1), 1 + k*cn(1))
    return 1.0, 0.0


def _short(t, z, have, deltat, corr, minor, buggy_l2):
    majors = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2']
    if sum(m in z for m in majors) < 6:
        return 0.0
    mjd = t + MJD_TIDE
    s, h, p, n, pp = mean_longitudes(mjd + deltat,
        'astro5' if astro5(corr) else 'cartwright')
    out = 0.0
    for c, arg in zip(MINOR20, MINOR20_ARG):
        if c in have or (minor is not None and c not in minor):
            continue
        w = RATIO_FES.get(c, RATIO[c]) if corr == 'FES' else RATIO[c]
        zc = sum(k*z.get(m, 0.0) for m, k in w.items())
        f, u = minor_nodal(c, n, p, corr, buggy_l2)
        a = sum(x*y for x, y in zip(coefficients(arg, 'OTIS'),
            fundamental(mjd, deltat, corr)))*D2R + u
        zc = complex(zc)
        out += f*(zc.real*math.cos(a) - zc.imag*math.sin(a))
    return out


def _band(t, z, have, deltat, corr, minor, table, majors, diurnal, method,
        buggy_l2):
    if any(m not in z for m in majors):
        return 0.0
    names = list(majors)
    om = [frequency(m, corr) for m in names]
    zn = []
    for m, w in zip(names, om):
        g = 1.0
        if diurnal:
            h2, k2, l2 = love(w)
            g = 1.0 + k2 - h2
        zn.append(complex(z[m])/(majors[m]*g))
    out = 0.0
    for c, amp in table:
        if c in have or (minor is not None and c not in minor):
            continue
        w = frequency(c, corr)
        if method == 'linear':
            i = 0 if (om[0] < om[1] and w < om[1]) else 1
            zc = zn[i] + (zn[i+1] - zn[i])*(w - om[i])/(om[i+1] - om[i])
        else:
            A = [[3.3133, -4.2538, 1.9405], [-3.3133, 4.2538, -0.9405],
                [1.5018, -3.2579, 1.7561]] if not diurnal else \
                [[3.1214, -3.8494, 1.728], [-3.1727, 3.9559, -0.7832],
                [1.438, -3.0297, 1.5917]]
            co = [sum(a*b for a, b in zip(r, zn)) for r in A]
            x = 2.0*w*86400.0
            zc = co[0] + co[1]*math.cos(x) + co[2]*math.sin(x)
        g = 1.0
        if diurnal:
            h2, k2, l2 = love(w)
            g = 1.0 + k2 - h2
        zc = amp*g*zc
        mjd = t + MJD_TIDE
        s, h, p, n, pp = mean_longitudes(mjd + deltat,
            'astro5' if astro5(corr) else 'cartwright')
        f, u = nodal(c, n, p, corr, 'perth5', buggy_l2)
        a = G(c, mjd, deltat, corr)*D2R + u
        out += f*(zc.real*math.cos(a) - zc.imag*math.sin(a))
    return out


def infer(t, hc, constituents, deltat, corr, minor=None, method='linear',
        buggy_l2=False, parts='all'):
    """inferred minor tide at one time"""
    z = {c.lower(): complex(v) for c, v in zip(constituents, hc)}
    have = list(constituents)
    out = 0.0
    if corr == 'GOT':
        if parts in ('all', 'semi'):
            out += _band(t, z, have, deltat, corr, minor, SEMI, SEMI_MAJ, False,
                method, buggy_l2)
        if parts in ('all', 'diurnal'):
            out += _band(t, z, have, deltat, corr, minor, DIUR, DIUR_MAJ, True,
                method, buggy_l2)
    elif parts in ('all', 'short'):
        out += _short(t, z, have, deltat, corr, minor, buggy_l2)
    if parts in ('all', 'long'):
        out += _band(t, z, have, deltat, corr, minor, LONG, LONG_MAJ, False,
            'linear', buggy_l2)
    return out


# ---- long-period equilibrium tide
LPET = [('node', 2.7929, (0, 0, 0, 1, 0)), ('sa', -0.4922, (0, 1, 0, 0, -1)),
    ('ssa', -3.0988, (0, 2, 0, 0, 0)), ('msm', -0.6728, (1, -2, 1, 0, 0)),
    ('065.445', 0.231, (1, 0, -1, -1, 0)), ('mm', -3.5184, (1, 0, -1, 0, 0)),
    ('065.465', 0.228, (1, 0, -1, 1, 0)), ('msf', -0.5837, (2, -2, 0, 0, 0)),
    ('075.355', -0.288, (2, 0, -2, 0, 0)), ('mf', -6.6607, (2, 0, 0, 0, 0)),
    ('mf+', -2.763, (2, 0, 0, 1, 0)), ('075.575', -0.258, (2, 0, 0, 2, 0)),
    ('mst', -0.2422, (3, -2, 1, 0, 0)), ('mt', -1.2753, (3, 0, -1, 0, 0)),
    ('085.465', -0.528, (3, 0, -1, 1, 0))]


def lpet(t, lat, deltat=0.0, corr='OTIS', constituents=None):
    s, h, p, n, pp = mean_longitudes(t + MJD_TIDE + deltat,
        'astro5' if astro5(corr) else 'cartwright')
    arg = (s, h, p, 360.0 - n, pp)
    Z = 0.0
    for c, amp, k in LPET:
        if constituents is not None and c not in constituents:
            continue
        Z += amp/100.0*math.cos(sum(a*b for a, b in zip(k, arg))*D2R)
    P20 = 0.5*(3.0*math.sin(lat*D2R)**2 - 1.0)
    return (1.0 + 0.299 - 0.606)*math.sqrt(5.0/(4.0*math.pi))*P20*Z
