"""F06: what is extracted at a point depends on the point alone"""
import numpy as np
from vmon.core import Check, Skip
from vmon import gen, synth, readers

check = Check('F06', 'Extracted constants depend on the place alone',
    'a case counts when two executions that must agree were compared; key = format, relation, method')
FMT = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES']


def same(case, a, b, kind, rows=None, cols=None, tol=1e-5):
    """two extractions agree: as complex constants, with the same mask"""
    za, ma = synth.complex_of(a[0], a[1])
    zb, mb = synth.complex_of(b[0], b[1])
    if rows is not None:
        za, ma = za[rows], ma[rows]
    if not case.expect(za.shape == zb.shape, 'shape:'+kind, f'{za.shape} {zb.shape}'):
        return
    if not case.expect(np.array_equal(ma, mb), 'validity:'+kind, f'{ma.sum()} {mb.sum()} masked'):
        return
    s = np.ma.max(np.ma.array(np.abs(za), mask=ma)) if (~ma).any() else 1.0
    ok = ~ma
    case.expect(np.all(np.abs(za[ok]-zb[ok]) <= tol*s), 'value:'+kind,
        f'{np.abs(za[ok]-zb[ok]).max() if ok.any() else 0} of {s}')


@check.scenario(quick=200, thorough=2500, floor=120)
def batch(case):
    r = case.rng
    name = str(r.choice(FMT))
    model = synth.FORMATS[name](r, case.tmp)
    g = model.grid
    t = str(r.choice(model.types))
    n = int(r.integers(2, 25))
    px, py = synth.points(r, g, n)
    lon, lat = g.lonlat(px, py)
    if g.geographic:
        lon, _ = synth.convention(r, lon, str(r.choice(['180', '360'])))
    method = str(r.choice(readers.METHODS))
    kw = dict(type=t, method=method)
    if r.random() < 0.4:
        kw.update(extrapolate=True, cutoff=float(r.choice([20.0, 300.0, np.inf])))
    elif r.random() < 0.4 and abs(g.dy) <= 2*abs(g.dx):
        # (the buffer defaults to four columns)
        kw['crop'] = True
    case.note(format=model.fmt, grid=g.kind, x=px, y=py, lon=lon, lat=lat, **kw)
    base = model.extract(lon, lat, **kw)
    p = r.permutation(n)
    same(case, base, model.extract(gen.dress(r, lon, 1), gen.dress(r, lat, 0.7), **kw), 'layout')
    same(case, base, model.extract(lon[p], lat[p], **kw), 'permuted', p)
    k = int(r.integers(0, n))
    if not (kw.get('crop') and g.period is None):
        one = model.extract(lon[k:k+1], lat[k:k+1], **kw)
        same(case, base, one, 'alone', [k])
        # a plain number is one point
        one = model.extract(float(lon[k]), float(lat[k]), **kw)
        same(case, base, one, 'scalar', [k])
    q = np.r_[np.arange(n), p[:3]]
    same(case, base, model.extract(lon[q], lat[q], **kw), 'repeated', q)
    # large batches
    if r.random() < 0.2:
        q = gen.many(r, n)
        same(case, base, model.extract(lon[q], lat[q], **kw), 'many', q)
    # whole degrees or metres are numbers too
    a, b = np.round(lon).astype(int), np.round(lat).astype(int)
    same(case, model.extract(a.astype(float), b.astype(float), **kw), model.extract(a, b, **kw), 'integers')
    case.nontrivial(name, method, 'extrapolate' in kw, 'crop' in kw)


@check.scenario(quick=150, thorough=2000, floor=90)
def turns(case):
    """longitudes a turn apart are the same place"""
    r = case.rng
    name = str(r.choice(FMT))
    model = synth.FORMATS[name](r, case.tmp)
    g = model.grid
    t = str(r.choice(model.types))
    n = int(r.integers(1, 25))
    px, py = synth.points(r, g, n)
    lon, lat = g.lonlat(px, py)
    if g.geographic:
        lon, _ = synth.convention(r, lon, '180')
        # stay clear of the cell edges, where a turn may round across
        near = np.abs(((px - g.x[0])/g.dx*2) - np.round((px - g.x[0])/g.dx*2)) < 1e-3
        near |= np.abs(((py - g.y[0])/g.dy*2) - np.round((py - g.y[0])/g.dy*2)) < 1e-3
    else:
        near = np.abs(((px - g.x[0])/g.dx*2) - np.round((px - g.x[0])/g.dx*2)) < 1e-3
        near |= np.abs(((py - g.y[0])/g.dy*2) - np.round((py - g.y[0])/g.dy*2)) < 1e-3
    keep = ~near
    lon, lat = lon[keep], lat[keep]
    if len(lon) == 0:
        return
    lon2 = lon + 360.0*r.integers(0, 2, len(lon))
    method = str(r.choice(readers.METHODS))
    kw = dict(type=t, method=method)
    if r.random() < 0.4:
        kw.update(extrapolate=True, cutoff=float(r.choice([20.0, 300.0, np.inf])))
    case.note(format=model.fmt, grid=g.kind, lon=lon, lon2=lon2, lat=lat, **kw)
    same(case, model.extract(lon, lat, **kw), model.extract(lon2, lat, **kw), 'turn', tol=3e-5)
    case.nontrivial(name, g.kind, method)


@check.scenario(quick=120, thorough=1500, floor=70)
def cropping(case):
    """cropping to the points (or to bounds around them) changes nothing"""
    r = case.rng
    name = str(r.choice(FMT))
    model = synth.FORMATS[name](r, case.tmp)
    g = model.grid
    t = str(r.choice(model.types))
    if abs(g.dy) > 2*abs(g.dx):
        # (the buffer defaults to four columns)
        raise Skip
    n = int(r.integers(2, 15))
    if g.period:
        c, w = r.choice([0.0, 180.0, 90.0, 359.0, 185.0, -3.0]), r.uniform(2, 60)
        px = c + r.uniform(-w, w, n)
    else:
        px = r.uniform(g.x[0], g.x[-1], n)
    py = r.uniform(g.y[0], g.y[-1], n)
    lon, lat = g.lonlat(px, py)
    if g.geographic:
        lon, _ = synth.convention(r, lon, str(r.choice(['180', '360', 'mixed'])))
    method = str(r.choice(readers.METHODS))
    kw = dict(type=t, method=method)
    if name == 'TMD3' and t == 'z' and r.random() < 0.4:
        kw['apply_flexure'] = True
    case.note(format=model.fmt, grid=g.kind, lon=lon, lat=lat, x=px, y=py, **kw)
    base = model.extract(lon, lat, **kw)
    same(case, base, model.extract(lon, lat, crop=True, **kw), 'crop', tol=3e-5)
    case.nontrivial(name, g.kind, method)


@check.scenario(quick=40, thorough=400, floor=15)
def limits(case):
    """the outermost nodes of a regional model are part of it"""
    r = case.rng
    name = str(r.choice(['ATLAS', 'GOT', 'FES']))
    model = synth.FORMATS[name](r, case.tmp)
    g = model.grid
    if g.period:
        raise Skip('global')
    t = 'z' if name == 'ATLAS' else str(r.choice(model.types))
    c = model.read(type=t)
    x, y = np.asarray(c.longitude, float), np.asarray(c.latitude, float)
    ny, nx = c.shape
    n = 12
    j, i = r.integers(0, ny, n), r.integers(0, nx, n)
    side = r.integers(0, 4, n)
    i[side == 0], i[side == 1] = 0, nx-1
    j[side == 2], j[side == 3] = 0, ny-1
    method = str(r.choice(readers.METHODS))
    case.note(format=model.fmt, grid=g.kind, lon=x[i], lat=y[j], type=t, method=method)
    got = model.extract(x[i], y[j], type=t, method=method)
    z, mask = synth.complex_of(got[0], got[1])
    for k, f in enumerate(c.fields):
        hc = c.get(f)
        m = np.ma.getmaskarray(hc)
        # (where no land is near)
        clear = np.array([not m[max(b-2, 0):b+3, max(a-2, 0):a+3].any() for a, b in zip(i, j)])
        if not clear.any():
            continue
        want = (np.ma.getdata(hc)*getattr(model, 'scale', 1.0))[j, i]
        if case.expect(not mask[clear, k].any(), 'limits-masked', f'{x[i][clear]} {y[j][clear]} {mask[clear, k]}'):
            s = np.abs(want[clear]).max()
            case.expect(np.all(np.abs(z[clear, k] - want[clear]) <= 1e-5*s), 'limits-value', f'{z[clear, k]} {want[clear]}')
            case.nontrivial(name, g.kind, method, 'limits')
