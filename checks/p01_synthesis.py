"""P01: the predicted tide is the harmonic sum of its constituents"""
import numpy as np
import pyTMD.predict as predict
from vmon.core import Check
from vmon import gen, ref_tides as ref

check = Check('P01', 'Tide prediction is the harmonic sum of the constituents',
    'a case counts when at least one unmasked non-zero prediction was compared; '
    'key = function, correction scheme, form of deltat, number of constituents, masking',
    ['reference phases of the OTIS scheme are those of Egbert & Erofeeva',
     'nodal corrections and equilibrium arguments of the oracle are a scalar '
     'reimplementation (property P03 decides them separately)'])

CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']


def pool(corr):
    # constituents without a reference phase are exercised as well: their
    # OTIS phase and frequency are zero by convention
    return gen.OTIS_SET if corr in ref.OTIS_LIKE else gen.ALL


def want(t, z, cons, dt, corr):
    """reference values, tolerating the listed defect of the FES L2 tide"""
    a = [ref.synth(float(ti), zi, cons, gen.at(dt, i), corr)
        for i, (ti, zi) in enumerate(zip(t, z))]
    b = [ref.synth(float(ti), zi, cons, gen.at(dt, i), corr, buggy_l2=True)
        for i, (ti, zi) in enumerate(zip(t, z))]
    return np.array(a), np.array(b)


def compare(case, got, t, z, cons, dt, corr, kind):
    zd = np.ma.getdata(z)
    rows = [zd[0]]*len(t) if len(zd) == 1 else zd
    tt = list(t)*len(rows) if len(t) == 1 else t
    a, b = want(tt, rows, cons, dt, corr)
    bad = np.ma.getmaskarray(z).any(axis=1)
    bad = np.broadcast_to(bad, a.shape)
    scale = 3.0*np.abs(zd).sum()
    # days since 1992 times rates of up to 2e-3 rad/s loses ~1e-10 of phase;
    # the fundamental arguments are polynomials summed in any order
    tol = 3e-8*scale
    g = np.ma.asanyarray(got)
    d = np.ma.getdata(g)
    if not case.expect(d.shape == a.shape, kind, f'shape {d.shape} for {a.shape}'):
        return
    case.expect(np.array_equal(np.ma.getmaskarray(g), bad), 'mask:'+kind,
        f'mask {np.ma.getmaskarray(g)} expected {bad}')
    ok = ~bad
    case.event('values', ok.sum())
    known = (np.abs(d - b) <= tol) & ~(np.abs(d - a) <= tol)
    if known[ok].any():
        case.fail('fes-l2-perigee-degrees', 'perigee of FES L2 is used in degrees')
    err = np.where(known, 0, np.abs(d - a))
    case.evaluations += int(ok.sum())
    if not (err[ok] <= tol).all():
        i = int(np.argmax(np.where(ok, np.nan_to_num(err, nan=np.inf), 0)))
        case.fail(kind, f'{corr} {cons} t={tt[i]}: got {d[i]} expected {a[i]}')


def setup(case, npts, nt):
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    cons = gen.subset(r, pool(corr), 1, min(12, len(pool(corr))))
    t = gen.days(r, nt)
    dt = gen.deltat(r, nt)
    z = gen.hc(r, npts, len(cons), r.choice([0, 0, 0.15]))
    if r.random() < 0.3:
        z = np.ma.array(z.data, mask=np.zeros(z.shape, bool))
    if z.mask is np.ma.nomask:
        z.mask = np.zeros(z.shape, bool)
    z, t, dt = gen.dress(r, z, 0.3), gen.dress(r, t, 0.2), gen.dress(r, dt, 0.2) if np.ndim(dt) else dt
    case.note(corrections=corr, constituents=cons, times=t, deltat=dt, npts=npts)
    return corr, cons, t, dt, z


@check.scenario(quick=140, thorough=1400, floor=100)
def map_(case):
    n = int(case.rng.integers(2, 20))
    corr, cons, t, dt, z = setup(case, n, 1)
    got = predict.map(t, z, cons, deltat=dt, corrections=corr)
    compare(case, got, t, z, cons, dt, corr, 'map')
    if case.rng.random() < 0.3:
        g = predict.map(float(t[0]), z, cons, deltat=float(np.ravel(dt)[0]), corrections=corr)
        case.close(g, got, 'map-scalar-time', scale=np.abs(z.data).sum(), rtol=1e-12)
    case.nontrivial('map', corr, np.ndim(dt), len(cons), bool(z.mask.any()))


@check.scenario(quick=140, thorough=1400, floor=100)
def drift_(case):
    n = int(case.rng.integers(1, 20))
    corr, cons, t, dt, z = setup(case, n, n)
    got = predict.drift(t, z, cons, deltat=dt, corrections=corr)
    compare(case, got, t, z, cons, dt, corr, 'drift')
    case.nontrivial('drift', corr, np.ndim(dt), len(cons), bool(z.mask.any()))


@check.scenario(quick=140, thorough=1400, floor=100)
def time_series_(case):
    n = int(case.rng.integers(1, 20))
    corr, cons, t, dt, z = setup(case, 1, n)
    got = predict.time_series(t, z, cons, deltat=dt, corrections=corr)
    compare(case, got, t, z, cons, dt, corr, 'time_series')
    case.nontrivial('ts', corr, np.ndim(dt), len(cons), bool(z.mask.any()))


@check.scenario(quick=35, thorough=350, floor=25)
def many(case):
    """large batches of a few places and times, in any order"""
    r = case.rng
    n = int(r.integers(2, 8))
    corr, cons, t, dt, z = setup(case, n, n)
    kw = dict(corrections=corr)
    i = gen.many(r, n)
    di = dt[i] if np.ndim(dt) else dt
    sc = 3*np.abs(z.data).sum()
    one = [np.ma.asanyarray(predict.drift(t, z, cons, deltat=dt, **kw))[i],
        np.ma.asanyarray(predict.time_series(t, z[:1], cons, deltat=dt, **kw))[i],
        np.ma.asanyarray(predict.map(t[:1], z, cons, deltat=gen.at(dt, 0), **kw))[i]]
    all = [predict.drift(t[i], z[i], cons, deltat=di, **kw),
        predict.time_series(t[i], z[:1], cons, deltat=di, **kw),
        predict.map(t[:1], z[i], cons, deltat=gen.at(dt, 0), **kw)]
    for k, a, b in zip(('drift', 'series', 'map'), one, all):
        case.expect(np.shape(a) == np.shape(b), f'many:{k}', f'shape {np.shape(b)}') and \
            case.close(b, a, f'many:{k}', scale=sc, rtol=1e-11)
        case.expect(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(np.ma.asanyarray(b))),
            f'many-mask:{k}')
    case.nontrivial('many', corr, len(i), bool(z.mask.any()))


@check.scenario(quick=140, thorough=1400, floor=100)
def algebra(case):
    """metamorphic laws: no reference model involved"""
    r = case.rng
    n = int(r.integers(2, 12))
    corr, cons, t, dt, z = setup(case, n, n)
    z = np.ma.array(z.data, mask=np.zeros(z.shape, bool))
    y = gen.hc(r, n, len(cons))
    y.mask = np.zeros(y.shape, bool)
    kw = dict(corrections=corr)
    sc = 3*(np.abs(z.data).sum() + np.abs(y.data).sum())
    z0, t0 = z.copy(), t.copy()
    D = predict.drift(t, z, cons, deltat=dt, **kw)
    # superposition
    a, b = r.normal(size=2)
    D2 = predict.drift(t, y, cons, deltat=dt, **kw)
    Dl = predict.drift(t, np.ma.array(a*z.data + b*y.data, mask=z.mask), cons, deltat=dt, **kw)
    case.close(Dl, a*D + b*D2, 'linearity', scale=sc*(1+abs(a)+abs(b)), rtol=1e-11)
    # order of the constituents
    o = r.permutation(len(cons))
    case.close(predict.drift(t, z[:, o], [cons[i] for i in o], deltat=dt, **kw), D,
        'constituent-order', scale=sc, rtol=1e-11)
    # one constituent at a time
    parts = sum(np.ma.getdata(predict.drift(t, z[:, [k]], [c], deltat=dt, **kw))
        for k, c in enumerate(cons))
    case.close(parts, D, 'sum-of-constituents', scale=sc, rtol=1e-11)
    # one time at a time, in another order: results do not depend on neighbours
    p = r.permutation(n)
    dp = dt[p] if np.ndim(dt) else dt
    case.close(predict.drift(t[p], z[p], cons, deltat=dp, **kw), D[p],
        'time-order', scale=sc, rtol=1e-11)
    for i in range(n):
        di = dt[i:i+1] if np.ndim(dt) else dt
        m = predict.map(t[i:i+1], z, cons, deltat=di, **kw)
        case.close(m[i], D[i], 'map-vs-drift', scale=sc, rtol=1e-11)
    s = predict.time_series(t, z[:1], cons, deltat=dt, **kw)
    d1 = predict.drift(t, np.ma.array(np.repeat(z.data[:1], n, 0),
        mask=np.zeros(z.shape, bool)), cons, deltat=dt, **kw)
    case.close(s, d1, 'series-vs-drift', scale=sc, rtol=1e-11)
    # arrays of identifiers and repeated calls
    case.close(predict.drift(t, z, np.array(cons), deltat=dt, **kw), D, 'id-array', scale=sc, rtol=1e-12)
    case.expect(np.array_equal(z.data, z0.data) and np.array_equal(t, t0)
        and np.array_equal(z.mask, z0.mask), 'input-mutated')
    case.nontrivial('laws', corr, len(cons), n)
