"""P03: equilibrium arguments and nodal corrections"""
import numpy as np
import pyTMD.arguments as args
import pyTMD.astro
from vmon.core import Check
from vmon import gen, ref_tides as ref

check = Check('P03', 'Equilibrium arguments and nodal corrections of each constituent',
    'a case counts when arguments of at least one constituent were compared; '
    'key = function, scheme, M1 convention, constituent',
    ['reference formulas: Schureman (FES), Egbert & Erofeeva (OTIS), Ray perth3/perth5 (GOT)'])

CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']
M1 = ['perth5', 'Ray', 'Doodson']


# compounds that have nodal corrections and no arguments
EXTRA = {
    '2mmu6': dict(m2=(3, 3)), '2mnk7': dict(m2=(3, 3), k1=(1, 1)), '2mnl8': dict(m2=(3, 3), l2=(1, 1)), '2ms8': dict(m2=(2, 2)),
    '2msp7': dict(m2=(2, 2)), '3mmu8': dict(m2=(4, 4)), '3msk7': dict(m2=(3, 3), k1=(1, -1)), '3nk7': dict(m2=(3, 3), k1=(1, 1)),
    '3nmk9': dict(m2=(4, 4), k1=(1, 1)), 'mko5': dict(m2=(1, 1), k2=(1, 1), o1=(1, 1)), 'mmu4': dict(m2=(2, 2)), 'mmus2': dict(m2=(2, 2)),
    'mnmu6': dict(m2=(3, 3)), 'mnnu6': dict(m2=(3, 3)), 'mns6': dict(m2=(2, 2)), 'msmu6': dict(m2=(2, 2)), 'nsm2': dict(m2=(2, 0))}


def wrap(x):
    return np.arctan2(np.sin(x), np.cos(x))


def judge_uf(case, kind, f, u, pairs, bugs):
    """compare (f, u) with the reference as complex modulation f exp(iu)"""
    g = np.asarray(f)*np.exp(1j*np.asarray(u))
    a = np.array([x*np.exp(1j*y) for x, y in pairs])
    b = np.array([x*np.exp(1j*y) for x, y in bugs])
    tol = 1e-7*(1 + np.abs(a))
    known = (np.abs(g-b) <= tol) & ~(np.abs(g-a) <= tol)
    case.evaluations += g.size
    if known.any():
        case.fail('fes-l2-perigee-degrees', 'perigee of FES L2 is used in degrees')
    err = np.where(known, 0, np.abs(g-a))
    if not (err <= tol).all():
        i = int(np.argmax(np.nan_to_num(err, nan=np.inf)))
        case.fail(kind, f'f exp(iu) = {g[i]} expected {a[i]}')


@check.scenario(quick=210, thorough=2100, floor=150)
def arguments(case):
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    m1 = str(r.choice(M1))
    n = int(r.integers(1, 8))
    t = gen.days(r, n)
    mjd = gen.dress(r, t + ref.MJD_TIDE, 0.3)
    dt = gen.deltat(r, n)
    dt = gen.dress(r, dt, 0.3) if np.ndim(dt) else dt
    # every constituent is visited every few cases
    k = 13
    off = (case.index*k) % len(gen.ALL)
    cons = (gen.ALL + gen.ALL)[off:off+k]
    cons = [cons[i] for i in r.permutation(k)]
    case.note(corrections=corr, M1=m1, constituents=cons, mjd=mjd, deltat=dt)
    pu, pf, G = args.arguments(mjd, cons, deltat=dt, corrections=corr, M1=m1)
    for a, nm in ((pu, 'u'), (pf, 'f'), (G, 'G')):
        if not case.expect(np.shape(a) == (n, k), 'shape', f'{nm} {np.shape(a)}'):
            return
    for j, c in enumerate(cons):
        P, B, Gr = [], [], []
        for i in range(n):
            di = gen.at(dt, i)
            s, h, p, N, pp = ref.mean_longitudes(float(mjd[i]) + di,
                'astro5' if ref.astro5(corr) else 'cartwright')
            P.append(ref.nodal(c, N, p, corr, m1))
            B.append(ref.nodal(c, N, p, corr, m1, True))
            Gr.append(ref.G(c, float(mjd[i]), di, corr))
        judge_uf(case, f'nodal:{c}', pf[:, j], pu[:, j], P, B)
        d = np.mod(G[:, j] - Gr + 180.0, 360.0) - 180.0
        case.expect(np.abs(d).max() < 2e-6, f'argument:{c}',
            f'G differs by {d} degrees (scheme {corr})')
        case.nontrivial(corr, m1 if c == 'm1' else '', c)
    # scalar date
    s = args.arguments(float(mjd[0]), cons, deltat=gen.at(dt, 0), corrections=corr, M1=m1)
    for x, y, nm in zip(s, (pu, pf, G), 'ufG'):
        case.close(np.ravel(x), y[0], 'scalar-date-'+nm, rtol=1e-9, atol=1e-9)
    case.event('constituents', k)


@check.scenario(quick=16, thorough=160, floor=12)
def many(case):
    """all constituents at once, some of them repeated, at many epochs in any order"""
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    kw = dict(corrections=corr, M1=str(r.choice(M1)))
    n = int(r.integers(2, 7))
    mjd, dt = gen.days(r, n) + ref.MJD_TIDE, gen.deltat(r, n)
    cons = gen.subset(r, gen.ALL, len(gen.ALL)) + gen.subset(r, gen.ALL, 1, 20)
    cons = [cons[i] for i in r.permutation(len(cons))]
    i = gen.many(r, n)[:600]
    case.note(mjd=mjd, deltat=dt, constituents=cons, **kw)
    all = args.arguments(mjd[i], cons, deltat=dt[i] if np.ndim(dt) else dt, **kw)
    few = args.arguments(mjd, cons, deltat=dt, **kw)
    for a, b, nm in zip(all, few, 'ufG'):
        if case.expect(np.shape(a) == (len(i), len(cons)), 'many-shape', f'{nm} {np.shape(a)}'):
            case.close(a, b[i], f'many-{nm}', rtol=1e-9, atol=1e-9)
    for j in r.permutation(len(cons))[:12]:
        one = args.arguments(mjd, [cons[j]], deltat=dt, **kw)
        for a, b, nm in zip(one, few, 'ufG'):
            case.close(a[:, 0], b[:, j], f'alone-{nm}', rtol=1e-9, atol=1e-9)
    case.nontrivial('many', corr, len(i))


@check.scenario(quick=60, thorough=600, floor=40)
def nodal(case):
    """the public nodal() with longitudes in any range, all constituents"""
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    m1 = M1[case.index % 3]
    n = int(r.integers(1, 6))
    N = r.choice([r.uniform(0, 360, n), r.uniform(-360, 720, n), np.round(r.uniform(0, 360, n), 0)])
    if corr == 'FES':
        # tan(N/2) is singular at N = 180
        N = np.where(np.abs(np.mod(N, 360) - 180) < 1e-3, N + 0.5, N)
    p = r.uniform(0, 360, n)
    cons = gen.subset(r, gen.ALL, 20, 40)
    case.note(corrections=corr, M1=m1, n=N, p=p)
    u, f = args.nodal(N, p, cons, corrections=corr, M1=m1)
    for j, c in enumerate(cons):
        P = [ref.nodal(c, a, b, corr, m1) for a, b in zip(N, p)]
        B = [ref.nodal(c, a, b, corr, m1, True) for a, b in zip(N, p)]
        judge_uf(case, f'nodal:{c}', f[:, j], u[:, j], P, B)
        case.nontrivial(corr, m1 if c == 'm1' else '', c)
    # compounds without arguments, and the series of Doodson and Warburg
    some = gen.subset(r, sorted(EXTRA), 2, 8)
    u1, f1 = args.nodal(N, p, some + ['mfdw'], corrections=corr, M1=m1)
    for j, c in enumerate(some):
        P, B = [], []
        for out, bug in ((P, False), (B, True)):
            for a, b in zip(N, p):
                x, y = 1.0, 0.0
                for k, (fp, uc) in EXTRA[c].items():
                    fk, uk = ref.nodal(k, a, b, corr, m1, bug)
                    x, y = x*fk**fp, y + uc*uk
                out.append((x, y))
        judge_uf(case, f'nodal:{c}', f1[:, j], u1[:, j], P, B)
    d = np.radians(N)
    case.close(f1[:, -1], 1.043 + 0.414*np.cos(d), 'nodal:mfdw', rtol=1e-12)
    case.close(u1[:, -1], np.radians(-23.7*np.sin(d) + 2.7*np.sin(2*d) - 0.4*np.sin(3*d)), 'nodal:mfdw', rtol=1e-9, atol=1e-12)
    # one at a time gives the same (no leakage between constituents)
    for j in r.permutation(len(cons))[:6]:
        u1, f1 = args.nodal(N, p, [cons[j]], corrections=corr, M1=m1)
        case.close(f1[:, 0], f[:, j], 'nodal-alone-f', rtol=1e-12)
        case.close(u1[:, 0], u[:, j], 'nodal-alone-u', rtol=1e-12, atol=1e-12)
    # period of 360 degrees in the node and perigee
    u2, f2 = args.nodal(N+360.0, p-720.0, cons, corrections=corr, M1=m1)
    z1, z2 = f*np.exp(1j*u), f2*np.exp(1j*u2)
    bad = np.abs(z1-z2) > 1e-8*(1+np.abs(z1))
    l2 = np.array([ref.nodal(c, 40., 123.4, corr, m1) != ref.nodal(c, 40., 123.4, corr, m1, True) for c in cons])
    if corr == 'FES' and (bad & l2).any():
        case.fail('fes-l2-perigee-degrees', 'FES L2 is not periodic in the perigee')
    case.expect(not (bad & ~l2).any(), 'nodal-period',
        f'{[cons[i] for i in np.flatnonzero((bad & ~l2).any(axis=0))]}')


@check.scenario(quick=60, thorough=600, floor=40)
def minor(case):
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    n = int(r.integers(1, 8))
    t = gen.days(r, n)
    mjd = t + ref.MJD_TIDE
    dt = gen.deltat(r, n)
    pu, pf, G = args.minor_arguments(mjd, deltat=dt, corrections=corr)
    case.note(corrections=corr, mjd=mjd, deltat=dt)
    for j, (c, arg) in enumerate(zip(ref.MINOR20, ref.MINOR20_ARG)):
        P, B, Gr = [], [], []
        for i in range(n):
            di = gen.at(dt, i)
            s, h, p, N, pp = ref.mean_longitudes(float(mjd[i]) + di,
                'astro5' if ref.astro5(corr) else 'cartwright')
            P.append(ref.minor_nodal(c, N, p, corr))
            B.append(ref.minor_nodal(c, N, p, corr, True))
            Gr.append(sum(x*y for x, y in zip(ref.coefficients(arg, 'OTIS'),
                ref.fundamental(float(mjd[i]), di, corr))))
        if corr == 'GOT' and c in ('eps2', 'eta2'):
            # the GOT scheme infers these from the full argument table
            continue
        judge_uf(case, f'minor-nodal:{c}', pf[:, j], pu[:, j], P, B)
        d = np.mod(G[:, j] - Gr + 180.0, 360.0) - 180.0
        case.expect(np.abs(d).max() < 2e-6, f'minor-argument:{c}', f'{d}')
        case.nontrivial(corr, c)


@check.scenario(quick=40, thorough=400, floor=30)
def rates(case):
    """arguments advance at the constituent's frequency; nodal modulation is
    bounded and continuous over an 18.6 year cycle"""
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    cons = gen.subset(r, gen.ALL, 15, 30)
    w = args.frequency(cons, corrections=corr)
    t0 = float(gen.days(r, 1)[0]) + ref.MJD_TIDE
    step = float(r.choice([1/1440., 1/24., 0.25]))
    m = t0 + step*np.arange(9)
    pu, pf, G = args.arguments(m, cons, corrections=corr)
    for j, c in enumerate(cons):
        rate = np.diff(np.unwrap(np.radians(G[:, j])
            - w[j]*86400.0*(m - m[0])))/step/86400.0
        # rates of the fundamental arguments drift by parts in 1e8 per century
        case.expect(np.abs(rate).max() < 4e-12*(1+np.abs(ref.coefficients(c, corr)).sum())
            + 1e-9/step/86400., f'rate:{c}', f'{np.abs(rate).max()} rad/s')
        case.nontrivial(corr, c)
    cyc = t0 + np.linspace(0, 6798.4, 200)
    pu, pf, G = args.arguments(cyc, cons, corrections=corr)
    for j, c in enumerate(cons):
        case.expect(np.all(np.isfinite(pf[:, j])) and np.all(np.isfinite(pu[:, j])),
            f'finite:{c}', 'nodal corrections are not finite')
    # joining epochs changes nothing
    i = r.permutation(200)[:10]
    a = args.arguments(cyc[i], cons, corrections=corr)
    for x, y, nm in zip(a, (pu, pf, G), 'ufG'):
        case.close(x, y[i], 'batch-'+nm, rtol=1e-9, atol=1e-9)
