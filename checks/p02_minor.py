"""P02: inferred minor tides follow the published admittances"""
import numpy as np
import pyTMD.predict as predict
from vmon.core import Check
from vmon import gen, ref_tides as ref

check = Check('P02', 'Minor tides are inferred from the major tides',
    'a case counts when a non-zero inferred tide was compared with the reference; '
    'key = routine, scheme, majors present, minors requested, shape',
    ['admittance weights are those of Egbert & Erofeeva, Ray (PERTH3/5) and FES',
     'major constants are held in single precision by design (relative 1e-5)'])

CORR = ['OTIS', 'GOT', 'FES', 'ATLAS', 'perth3', 'TMD3', 'netcdf']
POOL = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2', 'mm', 'mf',
    'node', 'mu2', 'nu2', 'l2', 't2', 'j1', 'm4', 'msf', 'ssa', 'sa', 'eps2', 'eta2']
MINORS = sorted(set(ref.MINOR20) | {c for c, _ in ref.SEMI + ref.DIUR + ref.LONG})


def setup(case, full=None):
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    style = int(r.integers(0, 4))
    if style == 0:
        cons = list(gen.MAJOR) + ['mm', 'mf', 'node']
    elif style == 1:
        cons = gen.subset(r, gen.MAJOR[:8], 5, 8)
    else:
        cons = gen.subset(r, POOL, 6, len(POOL))
    if r.random() < 0.5:
        cons = [cons[i] for i in r.permutation(len(cons))]
    shape = ['series', 'drift', 'map'][int(r.integers(0, 3))]
    n = int(r.integers(1, 9))
    nt, npts = dict(series=(n, 1), drift=(n, n), map=(1, n))[shape]
    t = gen.days(r, nt)
    dt = gen.deltat(r, nt)
    z = gen.hc(r, npts, len(cons))
    z = np.ma.array(z.data*np.exp(r.uniform(-1, 1)), mask=np.zeros(z.shape, bool))
    z, t = gen.dress(r, z, 0.3), gen.dress(r, t, 0.2)
    dt = gen.dress(r, dt, 0.2) if np.ndim(dt) else dt
    minor = None
    if r.random() < 0.5:
        minor = gen.subset(r, MINORS, 1, 10)
    case.note(corrections=corr, constituents=cons, shape=shape, times=t,
        deltat=dt, minor=minor)
    return corr, cons, shape, t, dt, z, minor


def reference(t, z, cons, dt, corr, minor, **kw):
    n = max(len(t), len(z))
    out = np.zeros((2, n))
    for i in range(n):
        ti = t[0] if len(t) == 1 else t[i]
        zi = z[0] if len(z) == 1 else z[i]
        for j, bug in enumerate((False, True)):
            out[j, i] = ref.infer(float(ti), zi, cons, gen.at(dt, i) if len(t) > 1
                else gen.at(dt, 0), corr, minor, buggy_l2=bug, **kw)
    return out


def judge(case, got, a, b, z, kind, factor=1.0):
    d = np.ma.getdata(np.ma.asanyarray(got)).astype(float)
    if d.ndim == 0:
        # nothing inferred: a plain zero
        case.expect(np.all(np.abs(a) < 1e-14), kind+'-missing',
            f'nothing was inferred (expected {a})')
        case.event('nothing-inferred')
        return
    if not case.expect(d.shape == a.shape, kind+'-shape', f'{d.shape} {a.shape}'):
        return
    tol = 3e-6*factor*np.abs(z).max()
    known = (np.abs(d-b) <= tol) & ~(np.abs(d-a) <= tol)
    if known.any():
        case.fail('fes-l2-perigee-degrees', 'perigee of FES L2 is used in degrees')
    case.evaluations += d.size
    case.event('inferred', d.size)
    err = np.where(known, 0, np.abs(d-a))
    if not (err <= tol).all():
        i = int(np.argmax(np.nan_to_num(err, nan=np.inf)))
        case.fail(kind, f'got {d[i]} expected {a[i]} (error {err[i]}, tolerance {tol})')


def complete(corr, cons):
    """names of the parts with enough majors"""
    have = {c.lower() for c in cons}
    parts = []
    if corr == 'GOT':
        if {'n2', 'm2', 's2'} <= have:
            parts.append('semi')
        if {'q1', 'o1', 'k1'} <= have:
            parts.append('diurnal')
    elif sum(m in have for m in gen.MAJOR) >= 6:
        parts.append('short')
    if {'node', 'mm', 'mf'} <= have:
        parts.append('long')
    return parts


@check.scenario(quick=210, thorough=2100, floor=150)
def infer(case):
    corr, cons, shape, t, dt, z, minor = setup(case)
    keep = (z.copy(), t.copy(), list(cons), list(minor or []))
    lower = cons
    if case.rng.random() < 0.15:
        # names of major constituents as they are printed
        cons = [c.upper() if c not in MINORS and case.rng.random() < 0.7 else c for c in cons]
        keep = keep[:2] + (list(cons),) + keep[3:]
    got = predict.infer_minor(t, z, cons, deltat=dt, corrections=corr, minor=minor)
    a, b = reference(t, z.data, lower, dt, corr, minor)
    judge(case, got, a, b, z.data, 'infer_minor', 4)
    case.expect(np.array_equal(keep[0].data, z.data) and np.array_equal(keep[1], t)
        and keep[2] == cons and keep[3] == list(minor or []), 'input-mutated')
    if np.abs(a).max() > 0:
        case.nontrivial(corr, shape, complete(corr, cons), len(minor or []), np.ndim(dt))


@check.scenario(quick=140, thorough=1400, floor=100)
def routines(case):
    """the four band routines, both interpolation methods"""
    r = case.rng
    corr, cons, shape, t, dt, z, minor = setup(case)
    which = ['semi', 'diurnal', 'long', 'short'][int(r.integers(0, 4))]
    method = str(r.choice(['linear', 'admittance']))
    # band routines take any correction scheme
    fn = dict(semi=predict._infer_semi_diurnal, diurnal=predict._infer_diurnal,
        long=predict._infer_long_period, short=predict._infer_short_period)[which]
    c2 = corr if which in ('long', 'short') else 'GOT'
    kw = dict(method=method) if which in ('semi', 'diurnal') else {}
    if c2 == 'GOT' and which == 'short':
        c2 = 'OTIS'
    got = fn(t, z, cons, deltat=dt, corrections=c2, minor=minor, **kw)
    a, b = reference(t, z.data, cons, dt, c2, minor, parts=which,
        method=method if which in ('semi', 'diurnal') else 'linear')
    judge(case, got, a, b, z.data, which+'-'+method, 20 if which == 'long' else 10)
    if np.abs(a).max() > 0:
        case.nontrivial(which, method, c2, shape, len(minor or []))


@check.scenario(quick=105, thorough=1000, floor=70)
def refusal(case):
    """incomplete majors: zero contribution, or an error when asked for"""
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    drop = str(r.choice(['short', 'long']))
    cons = gen.subset(r, ['q1', 'o1', 'k1', 'm2', 's2'], 1, 5)
    if 'q1' in cons and 'o1' in cons and 'k1' in cons:
        cons.remove('q1')
    if drop == 'short':
        cons += ['mm', 'mf', 'node']
    z = gen.hc(r, 1, len(cons))
    z.mask = np.zeros(z.shape, bool)
    t = gen.days(r, 3)
    a, b = reference(t, z.data, cons, 0.0, corr, None)
    got = predict.infer_minor(t, z, cons, corrections=corr)
    judge(case, got, a, b, z.data, 'incomplete', 10)
    case.raises(Exception, 'raise_exception', predict.infer_minor, t, z, cons,
        corrections=corr, raise_exception=True)
    case.nontrivial(corr, drop, len(cons))


@check.scenario(quick=35, thorough=350, floor=25)
def many(case):
    """large batches of a few places and times, in any order"""
    r = case.rng
    corr, cons, shape, t, dt, z, minor = setup(case)
    n = max(len(t), len(z))
    kw = dict(corrections=corr, minor=minor)
    one = predict.infer_minor(t, z, cons, deltat=dt, **kw)
    if np.ndim(one) == 0:
        case.event('nothing-inferred')
        return
    i = gen.many(r, n)
    ti = t if len(t) == 1 else t[i]
    zi = z if len(z) == 1 else z[i]
    if len(t) == 1 and len(z) == 1:
        ti, zi = (t, z[i]) if shape == 'map' else (t[i], z)
    di = dt if np.size(dt) == 1 else dt[i]
    if np.size(dt) == 1:
        di = gen.at(dt, 0)
    all = predict.infer_minor(ti, zi, cons, deltat=di, **kw)
    if case.expect(np.shape(all) == (len(i),), 'many', f'shape {np.shape(all)}'):
        case.close(all, np.asarray(one)[i], 'many', scale=20*np.abs(z.data).max(), rtol=1e-6)
    case.nontrivial('many', corr, shape, len(i))


@check.scenario(quick=105, thorough=1000, floor=70)
def algebra(case):
    r = case.rng
    corr, cons, shape, t, dt, z, minor = setup(case)
    kw = dict(corrections=corr, deltat=dt)
    n = max(len(t), len(z))
    zero = np.zeros(n)
    full = predict.infer_minor(t, z, cons, **kw) + zero
    sc = np.abs(z.data).max()*20
    # a list of every minor is the same as no list; a partition adds up
    case.close(predict.infer_minor(t, z, cons, minor=MINORS, **kw) + zero, full,
        'all-minors', scale=sc, rtol=1e-6)
    lab = r.integers(0, 3, len(MINORS))
    parts = zero
    for k in range(3):
        sel = [m for m, l in zip(MINORS, lab) if l == k]
        if sel:
            parts = parts + predict.infer_minor(t, z, cons, minor=sel, **kw)
    case.close(parts, full, 'partition-of-minors', scale=sc, rtol=1e-6)
    one = zero
    for m in MINORS:
        one = one + predict.infer_minor(t, z, cons, minor=[m], **kw)
    case.close(one, full, 'sum-of-single-minors', scale=sc, rtol=1e-6)
    # order of majors
    o = r.permutation(len(cons))
    case.close(predict.infer_minor(t, z[:, o], [cons[i] for i in o], **kw) + zero,
        full, 'order-of-majors', scale=sc, rtol=1e-6)
    # linear in the majors
    case.close(predict.infer_minor(t, z*(-2.5), cons, **kw) + zero, -2.5*full,
        'linear', scale=3*sc, rtol=1e-6)
    # a constituent that is given is never inferred as well
    for m in [c for c in cons if c in MINORS][:4]:
        g = predict.infer_minor(t, z, cons, minor=[m], **kw) + zero
        case.expect(np.all(g == 0), 'double-counted', f'{m} was given and inferred')
    # a point does not depend on the others
    i = int(r.integers(0, n))
    ti = t if len(t) == 1 else t[i:i+1]
    zi = z if len(z) == 1 else z[i:i+1]
    di = dt[i:i+1] if np.size(dt) > 1 else dt
    case.close(predict.infer_minor(ti, zi, cons, corrections=corr, deltat=di) + np.zeros(1),
        full[i:i+1], 'batch', scale=sc, rtol=1e-6)
    if np.abs(np.ma.getdata(full)).max() > 0:
        case.nontrivial(corr, shape, len(cons))


@check.scenario(quick=70, thorough=700, floor=45)
def masks(case):
    """tides inferred from masked constants are masked, and no others are"""
    r = case.rng
    corr, cons, shape, t, dt, z, minor = setup(case)
    mask = r.random(z.shape) < r.choice([0.05, 0.2])
    if r.random() < 0.2:
        mask[int(r.integers(0, len(z)))] = True
    data = np.array(z.data)
    hidden = np.array(data)
    hidden[mask] = r.choice([0.0, 1e3, np.nan])
    # (the layout stays that of the constants)
    given = np.ma.array(hidden, mask=mask)
    ok, got = case.quietly('masked', predict.infer_minor, t, given, cons, deltat=dt,
        corrections=corr, minor=minor)
    if not ok:
        return
    n = max(len(t), len(z))
    void = np.ma.getmaskarray(np.ma.asanyarray(got)) | np.isnan(np.ma.getdata(got))
    if void.ndim == 0:
        case.event('nothing-inferred')
        return
    a, b = reference(t, data, cons, dt, corr, minor)
    # which constants take part in the sum
    part = np.zeros((n, len(cons)), bool)
    for k in range(len(cons)):
        if mask[:, k].any():
            one = np.zeros_like(data)
            one[:, k] = data[:, k]
            part[:, k] = np.abs(reference(t, one, cons, dt, corr, minor)[0]) > 0
    m = np.broadcast_to(mask, (n, len(cons)))
    hit = (m & part).any(axis=1)
    free = ~m.any(axis=1)
    case.evaluations += n
    case.expect(void[hit].all(), 'masked-major',
        f'inferred from masked constants: {np.asarray(got)[hit]}')
    case.expect(not void[free].any(), 'unmasked-major', f'masked {void}, constants {m}')
    if free.any():
        judge(case, np.ma.getdata(got)[free], a[free], b[free], data, 'beside-masked', 4)
    # values given although a constant not used is masked
    rest = ~hit & ~free & ~void
    if rest.any():
        judge(case, np.ma.getdata(got)[rest], a[rest], b[rest], data, 'unused-masked', 4)
    if hit.any():
        case.nontrivial('masks', corr, shape, len(minor or []), bool(free.any()))
