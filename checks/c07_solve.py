"""C07: harmonic constants estimated from time series"""
import numpy as np
import pyTMD.predict
import pyTMD.solve
from vmon.core import Check, Skip
from vmon import gen, ref_tides as ref

check = Check('C07', 'Estimated harmonic constants are the least-squares fit of the series',
    'a case counts when estimated constants were compared; key = scheme, solver, number of constituents, noise, form of delta-T',
    ['FES nodal correction of L2 as listed under P01 is not fitted (L2 and its compounds are left out for FES)'])

SOLVERS = ['lstsq', 'gelsy', 'gelss', 'gelsd', 'bvls']


def design(t, cons, dT, corr):
    n = len(t)
    M = np.ones((n, 2*len(cons)+1))
    for i in range(n):
        for k, c in enumerate(cons):
            f, th = ref.theta(c, t[i], gen.at(dT, i), corr)
            M[i, 2*k+1] = f*np.cos(th)
            M[i, 2*k+2] = -f*np.sin(th)
    return M


def workload(case):
    r = case.rng
    corr = str(r.choice(gen.CORRECTIONS))
    pool = gen.OTIS_SET if corr in ref.OTIS_LIKE else gen.ALL
    pool = [c for c in pool if c not in ('z0', 'sta') and 'l' not in c.lower()]
    k = int(r.choice([1, 2, 4, 8]))
    cons = gen.subset(r, gen.MAJOR if r.random() < 0.4 else pool, 1, k)
    nc = len(cons)
    nt = 2*nc + 1 + int(r.choice([0, 1, 20, 120]))
    t0 = r.uniform(-8000, 15000)
    if r.random() < 0.6:
        t = t0 + np.arange(nt)*float(r.choice([1/24., 0.131, 1.37, 5.3]))
    else:
        t = t0 + r.uniform(0, 2000, nt)
    dT = gen.deltat(r, nt)
    return corr, cons, t, dT


@check.scenario(quick=800, thorough=16000, floor=300)
def fit(case):
    r = case.rng
    corr, cons, t, dT = workload(case)
    nt, nc = len(t), len(cons)
    M = design(t, cons, dT, corr)
    s = np.linalg.svd(M/np.sqrt(nt), compute_uv=False)
    if s[-1] < 1e-4*s[0]:
        raise Skip('the series does not tell the constituents apart')
    cond = s[0]/s[-1]
    z = (r.normal(size=nc) + 1j*r.normal(size=nc))*10.0**r.uniform(-3, 1)
    mean = float(r.normal()*10) if r.random() < 0.7 else 0.0
    p = np.concatenate([[mean], np.stack([z.real, z.imag], -1).ravel()])
    ht = M @ p
    noise = 0.0
    if nt > 2*nc + 1 and r.random() < 0.5:
        noise = 10.0**r.uniform(-3, 1)
        ht = ht + noise*r.normal(size=nt)
    solver = str(r.choice(SOLVERS))
    kw = dict(deltat=dT, corrections=corr, solver=solver)
    if solver == 'lstsq' and r.random() < 0.5:
        kw.pop('solver')
    if corr == 'OTIS' and r.random() < 0.5:
        kw.pop('corrections')
    arg = cons
    if nc == 1 and r.random() < 0.5:
        arg = cons[0]
    elif r.random() < 0.3:
        arg = np.array(cons)
    case.note(corr=corr, cons=cons, nt=nt, t=t, dT=dT, solver=solver, cond=cond, noise=noise, mean=mean, z=z)
    t0, h0 = t.copy(), ht.copy()
    ok, got = case.quietly('fit:exception', pyTMD.solve.constants, t, ht, arg, **kw)
    if not ok:
        return
    case.expect(np.array_equal(t, t0) and np.array_equal(ht, h0), 'fit:inputs', 'the series given was altered')
    amp, ph = got
    if not case.expect(np.shape(amp) == (nc,) and np.shape(ph) == (nc,), 'fit:shape', f'{np.shape(amp)} {np.shape(ph)}'):
        return
    case.expect(np.all(amp >= 0) and np.all((ph >= 0) & (ph <= 360)), 'fit:range', f'{amp} {ph}')
    g = amp*np.exp(-1j*np.radians(ph))
    # differences of the arguments between the code and the reference are 3e-8
    tol = (1e-7*np.abs(p).sum() + 1e-7*np.abs(ht).max())*cond
    w = np.linalg.lstsq(M, ht, rcond=None)[0]
    want = w[1::2] + 1j*w[2::2]
    case.close(g, want, 'fit:value', rtol=0, atol=tol*(5 if solver == 'bvls' else 1), message=f'{corr} {solver} {cons}')
    if not noise:
        case.close(g, z, 'fit:recovered', rtol=0, atol=2*tol*(5 if solver == 'bvls' else 1), message=f'{corr} {solver} {cons}')
    case.nontrivial(corr, solver, nc, bool(noise), np.ndim(dT), nt == 2*nc+1)
    # the prediction with the estimated constants leaves residuals that hold no more tide
    hc = np.ma.array(g[None, :])
    tide = np.asarray(pyTMD.predict.time_series(t, hc, list(cons), deltat=dT, corrections=corr))
    res = ht - tide - w[0]
    proj = M.T @ res/nt
    case.close(proj, np.zeros(2*nc+1), 'fit:residual', rtol=0, atol=4*tol*(5 if solver == 'bvls' else 1), message=f'{corr} {solver} {cons}')
    # in another order and with the series shuffled
    if r.random() < 0.5 and np.ndim(dT) == 0:
        k, m = r.permutation(nc), r.permutation(nt)
        a2, p2 = pyTMD.solve.constants(t[m], ht[m], [cons[i] for i in k], **kw)
        case.close(a2*np.exp(-1j*np.radians(p2)), g[k], 'fit:order', rtol=0, atol=2*tol*(5 if solver == 'bvls' else 1))
        case.event('orders')
    # an offset of the series does not change the constants, a factor scales them
    if r.random() < 0.3 and solver != 'bvls':
        f, o = float(r.uniform(0.1, 10)), float(r.normal())
        a2, p2 = pyTMD.solve.constants(t, f*ht + o, list(cons), **kw)
        case.close(a2*np.exp(-1j*np.radians(p2)), f*g, 'fit:linear', rtol=0, atol=4*tol*(f+abs(o)+1))
        case.event('linear')


@check.scenario(quick=300, thorough=6000, floor=100)
def bounded(case):
    """bounds hold, and do nothing when the solution lies within"""
    r = case.rng
    corr, cons, t, dT = workload(case)
    nt, nc = len(t), len(cons)
    M = design(t, cons, dT, corr)
    s = np.linalg.svd(M/np.sqrt(nt), compute_uv=False)
    if s[-1] < 1e-3*s[0]:
        raise Skip('the series does not tell the constituents apart')
    z = (r.normal(size=nc) + 1j*r.normal(size=nc))
    ht = M @ np.concatenate([[r.normal()], np.stack([z.real, z.imag], -1).ravel()]) + 0.1*r.normal(size=nt)
    w = np.linalg.lstsq(M, ht, rcond=None)[0]
    b = float(np.abs(w).max()*1.5) if r.random() < 0.5 else float(np.abs(w).max()*r.uniform(0.2, 0.9))
    kw = dict(deltat=dT, corrections=corr, solver='bvls', bounds=(-b, b))
    if r.random() < 0.3:
        kw['max_iter'] = 200
    case.note(corr=corr, cons=cons, nt=nt, bound=b)
    ok, got = case.quietly('bounded:exception', pyTMD.solve.constants, t, ht, list(cons), **kw)
    if not ok:
        return
    g = got[0]*np.exp(-1j*np.radians(got[1]))
    case.expect(np.all(np.abs(g.real) <= b*(1+1e-9)) and np.all(np.abs(g.imag) <= b*(1+1e-9)), 'bounded:bounds', f'{g} beyond {b}')
    if b > np.abs(w).max():
        case.close(g, w[1::2] + 1j*w[2::2], 'bounded:value', rtol=0, atol=1e-5*np.abs(w).sum()*s[0]/s[-1])
    else:
        # no feasible point nearby is better
        p = np.empty(2*nc+1)
        p[1::2], p[2::2] = g.real, g.imag
        p[0] = np.clip(np.mean(ht - M[:, 1:] @ p[1:]), -b, b)
        best = np.sum((ht - M @ p)**2)
        grad = 2*M.T @ (M @ p - ht)/nt
        free = (np.abs(p) < b*(1-1e-6))
        lim = 1e-3*(np.abs(ht).max()+b)*s[0]
        good = np.all(np.abs(grad[free]) < lim) and np.all(grad[p >= b*(1-1e-6)] < lim) and np.all(grad[p <= -b*(1-1e-6)] > -lim)
        case.expect(good, 'bounded:optimal', f'gradient {grad} at {p} of bound {b} ({best})')
    case.nontrivial(corr, nc, b > np.abs(w).max())


@check.scenario(quick=60, thorough=600, floor=30)
def refused(case):
    r = case.rng
    corr, cons, t, dT = workload(case)
    nc = len(cons)
    n = int(r.integers(1, 2*nc+1))
    case.raises(ValueError, 'refused:short', pyTMD.solve.constants, t[:n], np.zeros(n), list(cons), corrections=corr)
    case.raises(ValueError, 'refused:mismatch', pyTMD.solve.constants, t, np.zeros(len(t)-1), list(cons), corrections=corr)
    case.nontrivial(corr, nc, n)
