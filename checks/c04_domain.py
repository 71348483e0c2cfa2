"""C04: which points lie within the domain of a model"""
import json
import numpy as np
import pyTMD
import pyTMD.compute
from vmon.core import Check
from vmon import gen, synth, computing

check = Check('C04', 'Points are in the domain of a model where the model has water',
    'a case counts when points in water, on land and outside were told apart; key = format, grid, projection, method, shape',
    ['cells with both water and land are judged by their nearest node for METHOD=nearest alone'])

METHODS = ['spline', 'bilinear', 'linear', 'nearest']


def expected(nodes, mask, px, py, geographic, method):
    """1 within, 0 outside, -1 undecided"""
    inside, i, j, fx, fy, pw, xe = synth.locate(nodes, px, py, geographic)
    n = len(nodes.x)
    M = np.array([mask[j+b, (i+a) % n] for b in (0, 1) for a in (0, 1)])
    out = np.full(px.shape, -1)
    out[M.all(0)] = 0
    out[~M.any(0)] = 1
    if method == 'nearest':
        k = (fx > 0.5) + 2*(fy > 0.5)
        near = np.take_along_axis(M, k[None], 0)[0]
        tie = (np.abs(fx-0.5) < 1e-5) | (np.abs(fy-0.5) < 1e-5)
        out = np.where(tie, out, np.where(near, 0, 1))
    # on the edges of a cell the next one may be taken
    edge = (fx < 1e-5) | (fx > 1-1e-5) | (fy < 1e-5) | (fy > 1-1e-5)
    if edge.any():
        for k in np.flatnonzero(edge):
            a = [(i[k]+d) % n if nodes.period else int(np.clip(i[k]+d, 0, n-1)) for d in (-1, 0, 1, 2)]
            b = [int(np.clip(j[k]+d, 0, len(nodes.y)-1)) for d in (-1, 0, 1, 2)]
            m = mask[np.ix_(b, a)]
            if m.any() and not m.all():
                out[k] = -1
    out = np.where(inside, out, 0)
    # on the limits of the domain
    x0, x1, y0, y1 = nodes.x[0], nodes.x[-1], nodes.y[0], nodes.y[-1]
    tol = 1e-6*np.array([nodes.x[1]-x0, nodes.y[1]-y0])
    lim = (np.abs(py-y0) < tol[1]) | (np.abs(py-y1) < tol[1])
    if not nodes.period:
        d = lambda v: np.abs((px-v+180) % 360-180) if geographic else np.abs(px-v)
        lim |= (d(x0) < tol[0]) | (d(x1) < tol[0])
    out[lim] = -1
    return out


@check.scenario(quick=480, thorough=12000, floor=240)
def domain(case):
    r = case.rng
    name = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES'][case.index % 5]
    named = r.random() < 0.15
    if named:
        model, given, fmt = computing.named(r, case.tmp, 'z')
    else:
        model = synth.FORMATS[name](r, case.tmp, ncons=1 if r.random() < 0.5 else 2, landstyle=str(r.choice(['none', 'block', 'block', 'coast', 'coast', 'specks'])))
    g = model.grid
    d = model.definition('z')
    if not named:
        path = case.tmp/'definition.json'
        path.write_text(json.dumps(d))
        given = dict(DEFINITION_FILE=path if r.random() < 0.7 else str(path))
    n = int(r.integers(1, 60))
    if r.random() < 0.04:
        n = int(r.choice([130, 257, 1025, 2500]))
    px, py = synth.points(r, g, n)
    # some of them outside
    far = r.random(n) < 0.25
    px = np.where(far, r.uniform(g.x[0]-8*g.dx, g.x[-1]+8*g.dx, n), px)
    py = np.where(far, r.uniform(g.y[0]-6*g.dy, g.y[-1]+6*g.dy, n), py)
    if g.geographic:
        py = np.clip(py, -89.99, 89.99)
    lon, lat = [np.array(v, float) for v in g.lonlat(px, py)]
    crs = '4326'
    if not g.geographic and r.random() < 0.5:
        crs = g.crs
    elif g.geographic and r.random() < 0.4 and not g.period:
        crs = '3031' if g.y.mean() < -60 else '3413' if g.y.mean() > 60 else '3857'
    if crs == '4326':
        x, y = (synth.convention(r, lon)[0], lat) if g.geographic else (lon, lat)
    elif crs == g.crs:
        x, y = px.copy(), py.copy()
    else:
        x, y = computing.to_xy(crs, lon, lat)
    nd = model.nodes['z']
    mask = model.zmask if hasattr(model, 'zmask') else nd.mask if nd.mask is not None else nd.masks[model.cons[0]]
    shape = [(n,), (1, n), (n, 1)][r.integers(3)]
    if n % 2 == 0 and r.random() < 0.4:
        shape = (2, n//2)
    if n == 1 and r.random() < 0.6:
        shape = ()
    X, Y = (x.reshape(shape), y.reshape(shape)) if shape != () else (float(x[0]), float(y[0]))
    case.note(format=d['format'], grid=g.kind, crs=crs, x=x, y=y, shape=shape)
    X, Y = gen.dress(r, X, 0.25), gen.dress(r, Y, 0.25)
    X0, Y0 = np.array(X), np.array(Y)
    for method in METHODS:
        want = expected(nd, mask, px, py, g.geographic, method)
        kw = dict(given)
        if method != 'spline' or r.random() < 0.5:
            kw['METHOD'] = method
        if crs != '4326' or r.random() < 0.3:
            kw['EPSG'] = int(crs) if crs.isdigit() and r.random() < 0.5 else crs
        fn = pyTMD.check_points if r.random() < 0.2 else pyTMD.compute.tide_masks
        ok, got = case.quietly('domain:exception', fn, X, Y, **kw)
        if not ok:
            continue
        if not case.expect(np.shape(got) == shape and np.asarray(got).dtype == bool, 'domain:shape', f'{np.shape(got)} {np.asarray(got).dtype} for {shape}'):
            continue
        case.expect(not np.ma.getmaskarray(got).any(), 'domain:masked', 'masked values')
        v = np.ravel(np.ma.getdata(got)).astype(int)
        bad = (want >= 0) & (v != want)
        case.evaluations += int((want >= 0).sum())
        for k, e in enumerate(('outside', 'within')):
            case.event(e, int((want == k).sum()))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            case.fail('domain:value', f'{d["format"]} {g.kind} {method} {crs}: ({px[i]}, {py[i]}) given as ({x[i]}, {y[i]}) is {"within" if v[i] else "outside"}, '
                f'expected the opposite ({bad.sum()} of {n})')
        else:
            case.nontrivial(d['format'], g.kind, crs == g.crs, method, len(shape))
    case.expect(np.array_equal(X0, X) and np.array_equal(Y0, Y), 'domain:inputs', 'the coordinates given were altered')


@check.scenario(quick=8, thorough=160, floor=6)
def compact(case):
    """ATLAS-compact without local solutions"""
    r = case.rng
    m = synth.CompactModel(r, case.tmp, nlocal=0)
    g = m.grid
    path = case.tmp/'definition.json'
    path.write_text(json.dumps(dict(name='synthetic', format='ATLAS-compact', type='z', variable='tide_ocean', grid_file=str(m.grid_file),
        model_file=str(m.zfile), projection='4326')))
    n = 40
    px, py = synth.points(r, g, n)
    x, style = synth.convention(r, px)
    for method in METHODS:
        want = expected(synth.Nodes(g.x, g.y, None, None, 360.0), m.mz == 0, px, py, True, method)
        # the global solution is interpolated to a finer grid
        _, i, j, fx, fy, _, _ = synth.locate(synth.Nodes(g.x, g.y, None, None, 360.0), px, py)
        if method == 'nearest':
            want[np.abs(fx-0.5) < 0.05] = -1
            want[np.abs(fy-0.5) < 0.05] = -1
        ok, got = case.quietly('compact:exception', pyTMD.compute.tide_masks, x, py, DEFINITION_FILE=path, METHOD=method)
        if not ok:
            continue
        v = np.ravel(np.ma.getdata(got)).astype(int)
        bad = (want >= 0) & (v != want)
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            case.fail('compact:value', f'{method}: ({px[k]}, {py[k]}) is {v[k]}, expected {want[k]} ({bad.sum()} of {n})')
        else:
            case.nontrivial('compact', style, method)
        case.evaluations += int((want >= 0).sum())
