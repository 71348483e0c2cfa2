"""C01: ocean tides from a model at points and times"""
import io
import json
import pathlib
import numpy as np
import pyTMD.compute
from vmon.core import Check, Skip
from vmon import gen, synth, computing, ref_tides as ref

check = Check('C01', 'Computed tides are the model constants synthesised at the UTC time of each point',
    'a case counts when unmasked values were compared with the reference; '
    'key = model format, input type, time standard, correction scheme, inference',
    ['the constants are those of the reader (F01-F05), the harmonic reference that of P01 and P02',
     'FES nodal correction of L2 as listed under P01 and P02 is admitted'])

CORR = {'OTIS': 'OTIS', 'ATLAS-compact': 'ATLAS', 'TMD3': 'TMD3', 'ATLAS-netcdf': 'ATLAS',
    'GOT-ascii': 'perth3', 'GOT-netcdf': 'GOT', 'FES-ascii': 'FES', 'FES-netcdf': 'FES'}


def draw_points(r, g, crs):
    def draw(n):
        px, py = synth.points(r, g, n)
        lon, lat = g.lonlat(px, py)
        lon = np.array(lon, dtype=float)
        if crs == g.crs and not g.geographic:
            return px, py
        if crs == '4326':
            if g.geographic:
                lon, _ = synth.convention(r, lon)
                lon = (lon + 180) % 360 - 180 if r.random() < 0.3 else lon
            return lon, np.array(lat, dtype=float)
        return computing.to_xy(crs, lon, lat)
    return draw


def reference(L, hc, cons, days, corr, minor, infer):
    """masked reference values, for the published and the listed L2 of FES"""
    like = corr in ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
    dT = np.zeros(len(days)) if like else computing.delta_t(days)
    # at least the majors for the inference are needed, per group
    out = []
    for buggy in ((False, True) if corr in ('FES',) else (False,)):
        v = np.ma.zeros(L.shape)
        v.mask = np.zeros(L.shape, dtype=bool)
        for idx, p, k in L.pairs():
            if np.ma.getmaskarray(hc)[p].any():
                v.mask[idx] = True
                continue
            z = np.ma.getdata(hc)[p]
            a = ref.synth(days[k], z, cons, dT[k], corr, buggy_l2=buggy)
            if infer:
                a += ref.infer(days[k], z, cons, dT[k], corr, minor=minor, buggy_l2=buggy)
            v.data[idx] = a
        out.append(v)
    return out


def judge(case, got, wants, scale, tol, fill, kind):
    got = np.ma.asanyarray(got)
    if not case.expect(got.shape == wants[0].shape, kind+':shape', f'{got.shape} {wants[0].shape}'):
        return False
    m = np.ma.getmaskarray(got)
    case.expect(np.array_equal(m, wants[0].mask), kind+':validity',
        f'{int(m.sum())} masked, expected {int(wants[0].mask.sum())}')
    if m.any():
        d = got.data[m]
        case.expect(np.all(np.isnan(d)) if np.isnan(fill) else np.all(d == fill), kind+':fill', f'{d[:3]} {fill}')
    case.expect(np.array_equal(got.fill_value, fill, equal_nan=True), kind+':fill', f'{got.fill_value}')
    use = ~m & ~wants[0].mask
    if not use.any():
        return False
    best = min(wants, key=lambda w: np.abs(got.data[use]-w.data[use]).max()
        if np.all(np.isfinite(got.data[use])) else np.inf)
    return case.close(got.data[use], best.data[use], kind+':value', rtol=tol, scale=scale)


def setup(case, t='z', minors=False):
    r = case.rng
    if r.random() < 0.25:
        # published models are known by their names
        model, call, fmt = computing.named(r, case.tmp, t)
        d = dict(format=fmt)
        return arguments(case, t, minors, model, d, call)
    name = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES'][case.index % 5]
    if t == 'u' and name == 'GOT':
        name = 'FES'
    M = synth.FORMATS[name]
    kw = dict(ncons=15 if minors else int(r.choice([1, 3, 8, 9, 15, 15])))
    model = M(r, case.tmp, **kw)
    if t not in model.types and t == 'u':
        raise Skip('no currents')
    d = model.definition(t)
    if r.random() < 0.2:
        d['minor'] = [str(c) for c in r.choice(['2q1', 'sigma1', 'rho1', 'm11', 'mu2', 'nu2', 'lambda2', 'l2', 't2', 'oo1'], 3, replace=False)]
    path = case.tmp/'definition.json'
    path.write_text(json.dumps(d))
    path = [path, str(path)][int(r.choice(2, p=[0.7, 0.3]))]
    return arguments(case, t, minors, model, d, dict(DEFINITION_FILE=path))


def arguments(case, t, minors, model, d, call):
    r = case.rng
    g = model.grid
    choices = ['4326', '4326']
    if not g.geographic:
        choices += [g.crs, g.crs]
    elif g.y.mean() < -60:
        choices.append('3031')
    elif g.y.mean() > 60:
        choices.append('3413')
    else:
        choices.append('3857')
    crs = str(r.choice(choices))
    L = computing.Layout(r, computing.TYPES[int(r.integers(0, len(computing.TYPES)))],
        draw_points(r, g, crs), crs, whole=r.random() < 0.1)
    dt, tk, days = computing.times(r, L.nt, style=0 if minors else None)
    corr = CORR[d['format']]
    if r.random() < 0.25:
        dt = gen.dress(r, dt)
    call = dict(call, TYPE=L.arg, **tk)
    # the defaults
    if L.arg == 'drift' and r.random() < 0.3:
        call.pop('TYPE')
    if call['TIME'] == 'UTC' and r.random() < 0.3:
        call.pop('TIME')
    if crs != '4326' or r.random() < 0.2:
        call['EPSG'] = int(crs) if crs.isdigit() and r.random() < 0.5 else crs
    call['METHOD'] = str(r.choice(['spline', 'linear', 'nearest', 'bilinear']))
    call['INFER_MINOR'] = minors or bool(r.random() < 0.6)
    minor = d.get('minor')
    if r.random() < (0.5 if minor else 0.25):
        minor = call['MINOR_CONSTITUENTS'] = [str(c) for c in r.choice(['2q1', 'chi1', 'pi1', 'mu2', 'nu2', 'eps2', 'eta2', 'mtm', 'msqm'], 4, replace=False)]
    if r.random() < 0.3:
        corr = call['CORRECTIONS'] = str(r.choice(['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']))
    fill = np.nan
    if r.random() < 0.3:
        fill = call['FILL_VALUE'] = float(r.choice([-9999.0, 0.0, 1e20]))
    ex = {}
    if r.random() < 0.25:
        call.update(EXTRAPOLATE=True, CUTOFF=float(r.choice([50.0, 500.0, np.inf])))
        ex = dict(extrapolate=True, cutoff=call['CUTOFF'])
        if r.random() < 0.2:
            call.pop('CUTOFF')
            ex['cutoff'] = 10.0
    elif r.random() < 0.25:
        ex = dict(crop=True)
        if r.random() < 0.7:
            ex['buffer'] = float(r.choice([2.0, 3.5, 6.0]))*abs(g.dx)
        if r.random() < 0.5:
            # bounds of the points in the coordinates of the model
            X, Y = (L.lon, L.lat) if g.geographic else (g.x, g.y)
            (xc, dx), (yc, dy) = [(np.mean(v), 3*abs(d)) for v, d in ((g.x, g.dx), (g.y, g.dy))]
            ex['bounds'] = [float(v) for v in (min(np.min(X), xc-dx), max(np.max(X), xc+dx),
                min(np.min(Y), yc-dy), max(np.max(Y), yc+dy))]
        call.update({k.upper(): v for k, v in ex.items()})
        if 'bounds' in ex:
            call['BOUNDS'] = [list, tuple, np.array][int(r.integers(0, 3))](ex['bounds'])
    if call['METHOD'] == 'spline' and r.random() < 0.3:
        call.pop('METHOD')
    case.note(definition=d, x=L.x, y=L.y, dt=dt, kind=L.kind, crs=crs, **call)
    return model, L, dt, days, corr, minor, fill, call, ex


def constants(model, L, t, call, **ex):
    got = model.extract(L.lon, L.lat, type=t, method=call.get('METHOD', 'spline'), **ex)
    a, p, cons = got[0], got[1], got[-1]
    return a*np.exp(-1j*p*np.pi/180.0), [c.lower() for c in cons]


@check.scenario(quick=300, thorough=6000, floor=150)
def elevations(case):
    run(case)


@check.scenario(quick=100, thorough=2000, floor=50)
def inference(case):
    """all major constituents, and times that are years apart"""
    run(case, minors=True)


def run(case, **kw):
    r = case.rng
    model, L, dt, days, corr, minor, fill, call, ex = setup(case, **kw)
    if model.fmt == 'TMD3' and r.random() < 0.4:
        call['APPLY_FLEXURE'] = True
        ex['apply_flexure'] = True
    hc, cons = constants(model, L, 'z', call, **ex)
    if r.random() < 0.3:
        call['APPEND_NODE'] = True
        P = 0.5*(3*np.sin(np.radians(L.lat))**2 - 1)
        node = 0.027929*(1+0.299-0.606)*P*np.sqrt(5/(4*np.pi))*-1.0
        hc = np.ma.concatenate([hc, np.ma.array(node+0j)[:, None]], axis=1)
        cons = cons + ['node']
    if 'DEFINITION_FILE' in call and r.random() < 0.15:
        # definition files that are open
        path = pathlib.Path(call['DEFINITION_FILE'])
        call['DEFINITION_FILE'] = io.StringIO(path.read_text()) if r.random() < 0.5 else path.open('r')
    keep = [np.copy(L.x), np.copy(L.y), np.copy(dt), json.dumps(call, default=str)]
    fn = pyTMD.compute.tide_elevations
    if r.random() < 0.2:
        fn = lambda *a, **k: pyTMD.compute.corrections(*a, CORRECTION=str(r.choice(['ocean', 'load', 'Ocean'])), **k)
    ok, got = case.quietly('elevations', fn, L.x, L.y, dt, **call)
    if not ok:
        return
    case.expect(np.array_equal(keep[0], L.x) and np.array_equal(keep[1], L.y) and np.array_equal(keep[2], dt)
        and keep[3] == json.dumps(call, default=str), 'inputs-changed')
    infer = call['INFER_MINOR']
    wants = reference(L, hc, cons, days, corr, minor, infer)
    scale = float(np.nansum(np.abs(np.ma.filled(hc, 0)).max(0))) + (0.02 if infer else 1e-12)
    if judge(case, got, wants, scale, 5e-8 if infer else 2e-9, fill, 'elevations'):
        case.nontrivial(model.fmt, L.kind, call.get('TIME', 'UTC').upper(), corr, infer)
        case.event('values', int((~wants[0].mask).sum()))


@check.scenario(quick=120, thorough=2500, floor=50)
def currents(case):
    model, L, dt, days, corr, minor, fill, call, ex = setup(case, 'u', minors=case.rng.random() < 0.4)
    ok, got = case.quietly('currents', pyTMD.compute.tide_currents, L.x, L.y, dt, **call)
    if not ok:
        return
    if not case.expect(sorted(got) == ['u', 'v'], 'currents:keys', f'{sorted(got)}'):
        return
    infer = call['INFER_MINOR']
    for t in 'uv':
        hc, cons = constants(model, L, t, call, **ex)
        wants = reference(L, hc, cons, days, corr, minor, infer)
        scale = float(np.nansum(np.abs(np.ma.filled(hc, 0)).max(0))) + (0.02 if infer else 1e-12)
        if judge(case, got[t], wants, scale, 5e-8 if infer else 2e-9, fill, 'currents'):
            case.nontrivial(model.fmt, t, L.kind, call.get('TIME', 'UTC').upper(), corr)
            case.event('values', int((~wants[0].mask).sum()))


@check.scenario(quick=24, thorough=600, floor=10)
def many(case):
    """large batches of a few points and times, in any order"""
    r = case.rng
    model, L, dt, days, corr, minor, fill, call, ex = setup(case)
    fn = pyTMD.compute.tide_elevations
    call.pop('TYPE', None)
    n = len(L.px)
    i, k = gen.many(r, n), gen.many(r, len(dt))
    kind = ['drift', 'time series', 'grid'][case.index % 3]
    t = r.permutation(len(dt))[:3]
    if kind == 'drift':
        k = np.resize(k, len(i))
        few = fn(L.px, L.py, dt, TYPE='time series', **call)
        want = few[i, k]
        ok, got = case.quietly('many', fn, L.px[i], L.py[i], dt[k], TYPE='drift', **call)
    elif kind == 'time series':
        # many places, or many times
        if r.random() < 0.5:
            i, k = i[:260], t
        else:
            i, k = r.permutation(n)[:3], k[:1025]
        few = fn(L.px, L.py, dt, TYPE='time series', **call)
        want = few[np.ix_(i, k)]
        ok, got = case.quietly('many', fn, L.px[i], L.py[i], dt[k], TYPE='time series', **call)
    else:
        if r.random() < 0.5:
            k = t
            i = np.r_[i[:16], i[:16]]
            i = np.resize(i, (int(r.integers(20, 40)), int(r.integers(20, 40))))
        else:
            i, k = np.resize(r.permutation(n), (2, 3)), k[:130]
        few = fn(L.px, L.py, dt, TYPE='time series', **call)
        want = few[i][:, :, k]
        ok, got = case.quietly('many', fn, L.px[i], L.py[i], dt[k], TYPE='grid', **call)
    if not ok:
        return
    if not case.expect(np.shape(got) == np.shape(want), 'many:shape', f'{np.shape(got)} {np.shape(want)}'):
        return
    a, b = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    case.expect(np.array_equal(a, b), 'many:validity', f'{a.sum()} {b.sum()} masked of {a.size}')
    use = ~a & ~b
    if use.any():
        w = np.ma.getdata(want)[use]
        case.close(np.ma.getdata(got)[use], w, 'many:value', rtol=1e-6, scale=max(1.0, np.abs(w).max()))
        case.nontrivial(model.fmt, kind, got.size)
        case.event('values', int(use.sum()))


@check.scenario(quick=80, thorough=1500, floor=40)
def alone(case):
    """each value of a batch is the value computed for its point and time alone"""
    r = case.rng
    model, L, dt, days, corr, minor, fill, call, ex = setup(case)
    ok, got = case.quietly('alone', pyTMD.compute.tide_elevations, L.x, L.y, dt, **call)
    if not ok:
        return
    P = list(L.pairs())
    scale = 1.0
    for n in r.permutation(len(P))[:3]:
        idx, p, k = P[n]
        one = dict(call, TYPE=str(r.choice(['drift', 'time series', 'grid'])))
        ok, v = case.quietly('alone', pyTMD.compute.tide_elevations,
            L.px[p:p+1], L.py[p:p+1], dt[k:k+1], **one)
        if not ok:
            return
        a, b = np.ma.ravel(v)[0], got[idx]
        if case.expect(np.ma.is_masked(a) == np.ma.is_masked(b), 'alone:validity', f'{a} {b}') and not np.ma.is_masked(a):
            case.close(float(a), float(b), 'alone:value', rtol=1e-6, atol=1e-6*max(1.0, abs(float(b))))
            case.nontrivial(model.fmt, L.kind, one['TYPE'])
