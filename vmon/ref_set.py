"""ref_set.py -- scalar solid Earth tide after IERS Conventions (2010), ch. 7

Written from the displacement equations of chapter 7 and the numerical values
of the IERS routine DEHANTTIDEINEL (steps 1 and 2).
"""
import math
import numpy as np

AE = 6378136.6
# (s, h, p, N', ps) multipliers, in-phase and out-of-phase corrections (mm)
DIURNAL = """
-3 0 2 0 0 -0.01 0 0 0;-3 2 0 0 0 -0.01 0 0 0;-2 0 1 -1 0 -0.02 0 0 0
-2 0 1 0 0 -0.08 0 -0.01 0.01;-2 2 -1 0 0 -0.02 0 0 0;-1 0 0 -1 0 -0.10 0 0 0
-1 0 0 0 0 -0.51 0 -0.02 0.03;-1 2 0 0 0 0.01 0 0 0;0 -2 1 0 0 0.01 0 0 0
0 0 -1 0 0 0.02 0 0 0;0 0 1 0 0 0.06 0 0 0;0 0 1 1 0 0.01 0 0 0
0 2 -1 0 0 0.01 0 0 0;1 -3 0 0 1 -0.06 0 0 0;1 -2 0 -1 0 0.01 0 0 0
1 -2 0 0 0 -1.23 -0.07 0.06 0.01;1 -1 0 0 -1 0.02 0 0 0;1 -1 0 0 1 0.04 0 0 0
1 0 0 -1 0 -0.22 0.01 0.01 0;1 0 0 0 0 12.00 -0.80 -0.67 -0.03
1 0 0 1 0 1.73 -0.12 -0.10 0;1 0 0 2 0 -0.04 0 0 0
1 1 0 0 -1 -0.50 -0.01 0.03 0;1 1 0 0 1 0.01 0 0 0;0 1 0 1 -1 -0.01 0 0 0
1 2 -2 0 0 -0.01 0 0 0;1 2 0 0 0 -0.11 0.01 0.01 0;2 -2 1 0 0 -0.01 0 0 0
2 0 -1 0 0 -0.02 0 0 0
"""
LONGP = """
0 0 0 1 0 0.47 0.23 0.16 0.07;0 2 0 0 0 -0.20 -0.12 -0.11 -0.05
1 0 -1 0 0 -0.11 -0.08 -0.09 -0.04;2 0 0 0 0 -0.13 -0.11 -0.15 -0.07
2 0 0 1 0 -0.05 -0.05 -0.06 -0.03
"""


def table(text):
    return [[float(x) for x in row.split()]
        for line in text.strip().splitlines() for row in line.split(';')]


DIURNAL, LONGP = table(DIURNAL), table(LONGP)


def angles(mjd):
    T = (mjd - 51544.5)/36525.0
    fhr = (mjd - math.floor(mjd))*24.0
    s = 218.31664563 + (481267.88119575 + (-0.00146638889 + (0.00000185139)*T)*T)*T
    tau = fhr*15.0 + 280.46061840 + (36000.77005360 + (0.00038793 - 0.0000000258*T)*T)*T - s
    s += (1.396971278 + (0.000308889 + (0.000000021 + 0.000000007*T)*T)*T)*T
    h = 280.46645 + (36000.7697489 + (0.00030322222 + (0.000000020 - 0.00000000654*T)*T)*T)*T
    p = 83.35324312 + (4069.01363525 + (-0.01032172222 + (-0.0000124991 + 0.00000005263*T)*T)*T)*T
    zns = 234.95544499 + (1934.13626197 + (-0.00207561111 + (-0.00000213944 + 0.00000001650*T)*T)*T)*T
    ps = 282.93734098 + (1.71945766667 + (0.00045688889 + (-0.00000001778 - 0.00000000334*T)*T)*T)*T
    return [math.radians(math.fmod(x, 360.0)) for x in (tau, s, h, p, zns, ps)]


def displacement(mjd, sta, sun, moon, ae=AE, h2=0.6078, l2=0.0847, h3=0.292,
        l3=0.015, ms=332946.0482, ml=0.0123000371, mean=False):
    sta, sun, moon = (np.asarray(v, dtype=float) for v in (sta, sun, moon))
    r = np.linalg.norm(sta)
    u = sta/r
    sp = u[2]
    cp = math.hypot(u[0], u[1])
    cl, sl = u[0]/cp, u[1]/cp
    east = np.array([-sl, cl, 0.0])
    north = np.array([-sp*cl, -sp*sl, cp])
    # latitude dependence of h2 and l2: h(phi) = h0 + h2 (3 sin^2 phi - 1)/2
    H2 = h2 - 0.0006*(3*sp*sp - 1)/2
    L2 = l2 + 0.0002*(3*sp*sp - 1)/2
    out = np.zeros(3)
    for body, mass in ((sun, ms), (moon, ml)):
        d = np.linalg.norm(body)
        e = body/d
        c = float(e @ u)
        tang = e - c*u
        g2 = mass*ae*(ae/d)**3
        g3 = g2*(ae/d)
        # degrees 2 and 3 in phase (equations 7.5 and 7.6)
        out += g2*(H2*u*(1.5*c*c - 0.5) + 3*L2*c*tang)
        out += g3*(h3*u*(2.5*c**3 - 1.5*c) + l3*(7.5*c*c - 1.5)*tang)
        # body in the local meridian: a = e.(cos la, sin la), b = e.(sin la, -cos la)
        a = e[0]*cl + e[1]*sl
        b = e[0]*sl - e[1]*cl
        z = e[2]
        # products with cos/sin of twice the difference of longitudes
        c2 = a*a - b*b
        s2 = 2*a*b
        # out of phase (7.10, 7.11)
        dhi, dli = -0.0025, -0.0007
        dr = -3*dhi*sp*cp*g2*z*b
        dn = -3*dli*(cp*cp - sp*sp)*g2*z*b
        de = -3*dli*sp*g2*z*a
        dhi = -0.0022
        dr += -0.75*dhi*cp*cp*g2*s2
        dn += 1.5*dli*sp*cp*g2*s2
        de += -1.5*dli*cp*g2*c2
        # latitude dependence through l(1) (7.8, 7.9)
        ld, ls = 0.0012, 0.0024
        dn += 3*g2*(-ld*sp*sp*z*a - ls/2*sp*cp*c2)
        de += 3*g2*(ld*sp*(cp*cp - sp*sp)*z*b - ls/2*sp*sp*cp*s2)
        out += dr*u + dn*north + de*east
    # step 2: frequency dependence
    tau, *f = angles(mjd)
    la = math.atan2(sta[1], sta[0])
    for row in DIURNAL:
        th = tau + sum(a*b for a, b in zip(row[:5], f)) + la
        rip, rop, tip, top = row[5:]
        dr = 2*sp*cp*(rip*math.sin(th) + rop*math.cos(th))
        dn = (cp*cp - sp*sp)*(tip*math.sin(th) + top*math.cos(th))
        de = sp*(tip*math.cos(th) - top*math.sin(th))
        out += 1e-3*(dr*u + dn*north + de*east)
    for row in LONGP:
        th = sum(a*b for a, b in zip(row[:5], f))
        rip, tip, rop, top = row[5:]
        dr = (1.5*sp*sp - 0.5)*(rip*math.cos(th) + rop*math.sin(th))
        dn = 2*sp*cp*(tip*math.cos(th) + top*math.sin(th))
        out += 1e-3*(dr*u + dn*north)
    if mean:
        H0 = -0.31460
        dr = math.sqrt(5/(4*math.pi))*H2*H0*(1.5*sp*sp - 0.5)
        dn = math.sqrt(45/(16*math.pi))*L2*H0*2*sp*cp
        out += dr*u + dn*north
    return out
