"""readers.py -- the workload shared by the checks of the model readers"""
import numpy as np
from vmon import synth

METHODS = ['spline', 'linear', 'nearest', 'bilinear']


def truth_case(case, M, kind=None, methods=METHODS, **kw):
    """one model on disk, extracted at points with every method"""
    r = case.rng
    model = M(r, case.tmp, **kw)
    g = model.grid
    t = str(r.choice(model.types))
    n = int(r.integers(1, 40))
    px, py = synth.points(r, g, n, margin=0.0)
    lon, lat = g.lonlat(px, py)
    style = 'xy'
    if g.geographic:
        lon, style = synth.convention(r, lon)
        if style == 'as-is':
            lon, style = synth.convention(r, lon, '180')
    case.note(format=model.fmt, grid=g.kind, type=t, cons=model.cons, x=px, y=py, lon=lon,
        shape=[len(g.y), len(g.x)], version=getattr(model, 'version', None))
    lon0, lat0 = lon.copy(), lat.copy()
    for method in methods:
        got = model.extract(lon, lat, type=t, method=method)
        ok = synth.judge(case, model, got, t, px, py, method, kind or model.fmt, note='extract')
        if ok:
            case.nontrivial(model.fmt, g.kind, t, method, len(model.cons))
    case.expect(np.array_equal(lon, lon0) and np.array_equal(lat, lat0), 'inputs-changed')
    return model
