"""P06: long-period equilibrium tides"""
import numpy as np
import pyTMD.predict
from vmon.core import Check
from vmon import gen, ref_tides as ref

check = Check('P06', 'Long-period equilibrium tides are the Cartwright-Tayler-Edden sum',
    'a case counts when values were compared with the scalar reference; '
    'key = scheme, number of lines, pairing of times and latitudes',
    ['line amplitudes of Cartwright & Tayler (1971), Cartwright & Edden (1973)'])

IDS = [c for c, _, _ in ref.LPET]


@check.scenario(quick=200, thorough=3000, floor=150)
def values(case):
    r = case.rng
    corr = str(r.choice(gen.CORRECTIONS))
    shape = ['same', 'one-time', 'one-lat', 'scalar-time'][case.index % 4]
    n = int(r.integers(2, 30))
    nt, nl = dict(same=(n, n)).get(shape, (1, n) if shape in ('one-time', 'scalar-time') else (n, 1))
    t = gen.days(r, nt)
    lat = r.uniform(-90, 90, nl)
    lat[r.random(nl) < 0.1] = r.choice([-90., 90., 0., 35.26438968])
    dt = gen.deltat(r, nt)
    if r.random() < 0.2:
        # the Earth was ahead of dynamical time until 1902
        dt = -dt
    t, lat = gen.dress(r, t, 0.3), gen.dress(r, lat, 0.3)
    dt = gen.dress(r, dt, 0.3) if np.ndim(dt) else dt
    cons = None if r.random() < 0.4 else gen.subset(r, IDS, 1, 15)
    kw = dict(deltat=dt, corrections=corr)
    want_ids = cons
    if cons is not None:
        given = [c.upper() if r.random() < 0.3 else c for c in cons]
        if len(given) == 1 and r.random() < 0.7:
            given = given[0]
        kw['constituents'] = given
    case.note(t=t, lat=lat, shape=shape, **kw)
    targ = float(t[0]) if shape == 'scalar-time' else t
    if shape == 'scalar-time':
        kw['deltat'] = gen.at(dt, 0)
    t0, l0 = t.copy(), lat.copy()
    got = pyTMD.predict.equilibrium_tide(targ, lat, **kw)
    case.expect(np.array_equal(t, t0) and np.array_equal(lat, l0), 'inputs-changed')
    if shape == 'same':
        want = np.array([ref.lpet(t[i], lat[i], gen.at(dt, i), corr, want_ids) for i in range(n)])
    else:
        want = np.array([[ref.lpet(t[j], lat[i], gen.at(dt, j), corr, want_ids)
            for j in range(nt)] for i in range(nl)])
    if not case.expect(np.size(got) == want.size, 'shape', f'{np.shape(got)}'):
        return
    case.close(np.reshape(got, want.shape), want, 'lpet', rtol=1e-8, atol=1e-10)
    case.nontrivial(corr, 15 if cons is None else len(cons), shape)
    case.event('values', want.size)
    # lines add up; symmetric about the equator; zero where P20 is zero
    if cons is None:
        parts = sum(np.asarray(pyTMD.predict.equilibrium_tide(targ, lat,
            **{**kw, 'constituents': [c]})) for c in IDS)
        case.close(parts, got, 'superposition', rtol=0, atol=1e-12)
    case.close(pyTMD.predict.equilibrium_tide(targ, -lat, **kw), got, 'symmetry', rtol=1e-12, atol=1e-16)
    # each time and latitude alone gives the same value
    if shape == 'same':
        i = int(r.integers(0, n))
        a = pyTMD.predict.equilibrium_tide(t[i:i+1], lat[i:i+1], **{**kw, 'deltat': gen.at(dt, i)})
        case.close(np.ravel(a), np.ravel(got[i]), 'batch', rtol=1e-9, atol=1e-13)


@check.scenario(quick=40, thorough=400, floor=30)
def many(case):
    """large batches of a few places and times, in any order"""
    r = case.rng
    corr = str(r.choice(gen.CORRECTIONS))
    n = int(r.integers(2, 12))
    t, lat, dt = gen.days(r, n), r.uniform(-90, 90, n), gen.deltat(r, n)
    kw = dict(corrections=corr)
    i = gen.many(r, n)
    j = lambda d, k: d[k] if np.ndim(d) else d
    one = pyTMD.predict.equilibrium_tide(t, lat, deltat=dt, **kw)
    all = pyTMD.predict.equilibrium_tide(t[i], lat[i], deltat=j(dt, i), **kw)
    case.close(all, np.asarray(one)[i], 'many:paired', rtol=1e-9, atol=1e-13)
    one = pyTMD.predict.equilibrium_tide(t, lat[:1], deltat=dt, **kw)
    all = pyTMD.predict.equilibrium_tide(t[i], lat[:1], deltat=j(dt, i), **kw)
    case.close(np.ravel(all), np.ravel(one)[i], 'many:times', rtol=1e-9, atol=1e-13)
    one = pyTMD.predict.equilibrium_tide(t[:1], lat, deltat=gen.at(dt, 0), **kw)
    all = pyTMD.predict.equilibrium_tide(t[:1], lat[i], deltat=gen.at(dt, 0), **kw)
    case.close(np.ravel(all), np.ravel(one)[i], 'many:latitudes', rtol=1e-9, atol=1e-13)
    case.nontrivial('many', corr, len(i))


@check.scenario(quick=40, thorough=400, floor=30)
def selection(case):
    """an unknown or tidal-band ID selects no line; duplicates count once"""
    r = case.rng
    t, lat = gen.days(r, 5), r.uniform(-90, 90, 5)
    c = str(r.choice(IDS))
    a = pyTMD.predict.equilibrium_tide(t, lat, constituents=[c])
    b = pyTMD.predict.equilibrium_tide(t, lat, constituents=[c, c, 'm2', 'k1'])
    case.close(b, a, 'selection', rtol=1e-12)
    z = pyTMD.predict.equilibrium_tide(t, lat, constituents=['m2', 'q1', 'm4'])
    case.close(z, np.zeros(5), 'band', atol=0)
    case.nontrivial(c)
