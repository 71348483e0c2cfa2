"""F05: constants held in memory interpolate to the same values, again and again"""
import copy
import numpy as np
import pyTMD.io
from vmon.core import Check
from vmon import synth, readers

check = Check('F05', 'Constituents in memory are interpolated as those on disk',
    'a case counts when a container was read, interpolated several times and compared with the truth; '
    'key = format, grid, type, methods')
FMT = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES']


def snapshot(c):
    out = {}
    for f in c.fields:
        a = getattr(c, f)
        out[f] = (np.array(np.ma.getdata(a)), np.array(np.ma.getmaskarray(a)))
    for k in ('bathymetry', 'mask', 'longitude', 'latitude'):
        v = getattr(c, k, None)
        if v is not None:
            out['.'+k] = (np.array(np.ma.getdata(v)), np.array(np.ma.getmaskarray(v)))
    return out


def unchanged(case, c, before, kind):
    now = snapshot(c)
    case.expect(list(now) == list(before), 'container-fields', f'{list(now)}')
    for k, (d, m) in before.items():
        if k not in now:
            continue
        d1, m1 = now[k]
        case.expect(np.array_equal(m, m1), 'container-mask:'+kind, k)
        ok = ~m
        case.expect(np.array_equal(d[ok], d1[ok], equal_nan=True), 'container-data:'+kind, k)


def run(case, M):
    r = case.rng
    model = M(r, case.tmp)
    g = model.grid
    t = str(r.choice(model.types))
    flex = {}
    if model.fmt == 'TMD3' and t == 'z' and r.random() < 0.5:
        # the heights are scaled node by node
        flex = dict(apply_flexure=True)
        nd = model.nodes['z']
        nd.data = {c: f*(model.flex/100.0) for c, f in nd.data.items()}
    c = model.read(type=t, **flex)
    # the container holds the fields on their nodes
    nd = model.nodes[t.lower()]
    before = snapshot(c)
    case.note(format=model.fmt, grid=g.kind, type=t, cons=model.cons)
    case.expect(list(c.fields) == model.cons, 'fields', f'{c.fields}')
    X = c.x if hasattr(c, 'x') else c.longitude
    Y = c.y if hasattr(c, 'y') else c.latitude
    shape = (len(Y), len(X))
    for f in c.fields:
        case.expect(np.shape(c.get(f)) == shape, 'field-shape', f)
    done = []
    for k in range(int(r.integers(2, 5))):
        method = str(r.choice(readers.METHODS))
        n = int(r.integers(1, 25))
        px, py = synth.points(r, g, n)
        lon, lat = g.lonlat(px, py)
        if g.geographic:
            lon, _ = synth.convention(r, lon, str(r.choice(['180', '360', 'mixed'])))
        ex = bool(r.random() < 0.3)
        kw = dict(type=t, method=method)
        if ex:
            # extrapolation only fills what is masked
            got = model.interp(lon, lat, c, extrapolate=True, cutoff=float(r.choice([10.0, 500.0, np.inf])), **kw)
            only = np.array([model.truth(t, con, px, py, method)[1] == synth.VALID for con in model.cons]).all(0)
            synth.judge(case, model, got, t, px, py, method, model.fmt, note=f'extrapolated interpolation {k}', only=only)
        else:
            got = model.interp(lon, lat, c, **kw)
            synth.judge(case, model, got, t, px, py, method, model.fmt, note=f'interpolation {k} after {done}')
        unchanged(case, c, before, method)
        done.append(method + ('+' if ex else ''))
    case.nontrivial(model.fmt, g.kind, t, '>'.join(done), bool(flex))


@check.scenario(quick=60, thorough=700, floor=35)
def otis(case):
    run(case, synth.OTISModel)


@check.scenario(quick=40, thorough=500, floor=25)
def tmd3(case):
    run(case, synth.TMD3Model)


@check.scenario(quick=40, thorough=500, floor=25)
def atlas(case):
    run(case, synth.ATLASModel)


@check.scenario(quick=40, thorough=500, floor=25)
def got(case):
    run(case, synth.GOTModel)


@check.scenario(quick=40, thorough=500, floor=25)
def fes(case):
    run(case, synth.FESModel)


def window(r, g):
    """a box within the grid, with points inside of it"""
    w = max(3.0*g.dx, 0.4*(g.x[-1]-g.x[0])*r.uniform(0.3, 1.0))
    h = max(3.0*g.dy, 0.4*(g.y[-1]-g.y[0])*r.uniform(0.3, 1.0))
    if g.period:
        w = min(w, 80.0)
        x0 = r.uniform(-180, 360 - w)
    else:
        x0 = r.uniform(g.x[0], max(g.x[0], g.x[-1]-w))
        w = min(w, g.x[-1]-x0)
    y0 = r.uniform(g.y[0], max(g.y[0], g.y[-1]-h))
    h = min(h, g.y[-1]-y0)
    return x0, x0+w, y0, y0+h


@check.scenario(quick=150, thorough=2000, floor=90)
def cropped(case):
    """a model read within bounds gives the values of the whole one inside of them"""
    r = case.rng
    model = synth.FORMATS[str(r.choice(FMT))](r, case.tmp)
    g = model.grid
    t = str(r.choice(model.types))
    x0, x1, y0, y1 = window(r, g)
    n = int(r.integers(3, 25))
    px, py = r.uniform(x0, x1, n), r.uniform(y0, y1, n)
    lon, lat = g.lonlat(px, py)
    buffer = 3.0*max(abs(g.dx), abs(g.dy))
    bounds = [x0, x1, y0, y1]
    if g.geographic:
        # the bounds may follow another convention than the model
        k = float(r.choice([0.0, 360.0, -360.0]))
        if -270 <= x0+k and x1+k <= 450:
            bounds = [x0+k, x1+k, y0, y1]
        lon, _ = synth.convention(r, lon, str(r.choice(['180', '360', 'mixed'])))
    bounds = [list, tuple, np.array][int(r.choice(3, p=[0.6, 0.1, 0.3]))](bounds)
    case.note(format=model.fmt, grid=g.kind, type=t, bounds=bounds, x=px, y=py)
    c = model.read(type=t, crop=True, bounds=bounds, buffer=buffer)
    for method in readers.METHODS:
        got = model.interp(lon, lat, c, type=t, method=method)
        if synth.judge(case, model, got, t, px, py, method, 'cropped-'+model.fmt, note='cropped read'):
            case.nontrivial(model.fmt, g.kind, t, method)
    full = model.read(type=t)
    small = np.size(c.get(model.cons[0])) < np.size(full.get(model.cons[0]))
    case.event('smaller containers', int(small))
    # extraction crops by itself
    m = str(r.choice(readers.METHODS))
    if abs(g.dy) <= 2*abs(g.dx):
        # (the buffer defaults to four columns)
        got = model.extract(lon, lat, type=t, method=m, crop=True)
        synth.judge(case, model, got, t, px, py, m, 'crop-extract-'+model.fmt, note='cropped extraction')
    got = model.extract(lon, lat, type=t, method=m, crop=True, bounds=bounds, buffer=buffer)
    synth.judge(case, model, got, t, px, py, m, 'crop-bounds-'+model.fmt, note='extraction cropped to bounds')


@check.scenario(quick=100, thorough=1500, floor=60)
def keywords(case):
    """interpolation in memory and extraction from disk mean the same by the same keywords, given or not"""
    r = case.rng
    name = str(r.choice(FMT))
    fine = name != 'OTIS' and r.random() < 0.7
    model = synth.FORMATS[name](r, case.tmp, grid=synth.fine_grid(r) if fine else None)
    g = model.grid
    t = str(r.choice(model.types))
    px, py = synth.points(r, g, int(r.integers(5, 30)))
    lon, lat = g.lonlat(px, py)
    if g.geographic:
        lon, _ = synth.convention(r, lon, str(r.choice(['180', '360', 'mixed'])))
    kw = {}
    if r.random() < 0.5:
        kw['method'] = str(r.choice(readers.METHODS))
    if r.random() < 0.8:
        kw['extrapolate'] = True
        if r.random() < 0.4:
            kw['cutoff'] = float(r.choice([3.0, 20.0, 200.0, np.inf]))
    case.note(format=model.fmt, grid=g.kind, type=t, x=px, y=py, kw=kw)
    a = model.extract(lon, lat, type=t, **kw)
    b = model.interp(lon, lat, model.read(type=t), type=t, **kw)
    # (half a cell at the limits belongs to the domain of the z-nodes or that of the u or v-nodes)
    nd = model.nodes[t.lower()]
    use = model.inside(px, py) & synth.locate(nd, px, py, g.geographic)[0]
    a = [None if v is None else v[use] for v in a[:3]]
    b = [None if v is None else v[use] for v in b[:3]]
    za, ma = synth.complex_of(a[0], a[1])
    zb, mb = synth.complex_of(b[0], b[1])
    case.expect(np.array_equal(ma, mb), 'memory-disk-mask:'+model.fmt, f'{int((ma != mb).sum())} of {ma.size} points masked in one only')
    ok = ~ma & ~mb
    case.close(zb[ok], za[ok], 'memory-disk:'+model.fmt, rtol=1e-5, scale=np.abs(za[ok]).max() if ok.any() else 1.0)
    if a[2] is not None and b[2] is not None:
        both = ~np.ma.getmaskarray(a[2]) & ~np.ma.getmaskarray(b[2])
        case.close(np.ma.getdata(b[2])[both], np.ma.getdata(a[2])[both], 'memory-disk-depth:'+model.fmt, rtol=1e-5)
    case.event('masked', int(ma.sum()))
    case.nontrivial(model.fmt, g.kind, t, 'method' in kw, 'extrapolate' in kw, 'cutoff' in kw, bool(ma.any()))


# what the functions are documented to take where a keyword is not given
DEFAULTS = dict(type='z', grid={'OTIS': 'OTIS', 'GOT': 'ascii'}, version=None, compressed=False, crop=False, bounds=None, buffer=None,
    method='spline', extrapolate=False, cutoff=10.0, apply_flexure=False, scale=1.0)
TAKES = {
    ('OTIS', 'extract'): 'type grid crop bounds buffer method extrapolate cutoff apply_flexure',
    ('OTIS', 'read'): 'type grid crop bounds buffer apply_flexure',
    ('OTIS', 'interp'): 'type method extrapolate cutoff',
    # (ATLAS: compressed is documented as False and is True: always given)
    ('ATLAS', 'extract'): 'type crop bounds buffer method extrapolate cutoff scale',
    ('ATLAS', 'read'): 'type crop bounds buffer',
    ('ATLAS', 'interp'): 'type method extrapolate cutoff scale',
    ('GOT', 'extract'): 'grid compressed crop bounds buffer method extrapolate cutoff scale',
    ('GOT', 'read'): 'grid compressed crop bounds buffer',
    ('GOT', 'interp'): 'method extrapolate cutoff scale',
    ('FES', 'extract'): 'type version compressed crop bounds buffer method extrapolate cutoff scale',
    ('FES', 'read'): 'type version compressed crop bounds buffer',
    ('FES', 'interp'): 'method extrapolate cutoff scale',
}


@check.scenario(quick=120, thorough=1500, floor=90)
def defaults(case):
    """a keyword that is not given has the value that is documented"""
    import importlib
    r = case.rng
    name = str(r.choice(FMT))
    model = synth.FORMATS[name](r, case.tmp)
    module = 'OTIS' if name == 'TMD3' else name
    M = importlib.import_module('pyTMD.io.' + module)
    g = model.grid
    t = 'z' if r.random() < 0.7 else str(r.choice(model.types))
    px, py = synth.points(r, g, int(r.integers(3, 20)))
    lon, lat = g.lonlat(px, py)
    # values for all of the keywords: mostly those of the documentation
    def some(key, other, p=0.15):
        d = DEFAULTS[key]
        d = d[module] if isinstance(d, dict) else d
        return other if r.random() < p else d
    allkw = dict(type=t, grid=getattr(model, 'gridkey', None), version=getattr(model, 'version', None), compressed=getattr(model, 'compressed', False),
        crop=some('crop', True), bounds=None, buffer=None, method=some('method', 'bilinear'), extrapolate=some('extrapolate', True, 0.6),
        cutoff=some('cutoff', float(r.choice([3.0, 100.0, np.inf]))), apply_flexure=False, scale=float(getattr(model, 'scale', 1.0)))
    if allkw['scale'] != 1.0 and r.random() < 0.6:
        # (the files in units of their own)
        allkw['scale'] = 1.0
    if module == 'GOT' and allkw['grid'] is None:
        allkw['grid'] = 'ascii'
    files = {'OTIS': lambda: [model.grid_file, model.file(t), g.crs], 'ATLAS': lambda: [model.grid_file, model.file(t)],
        'GOT': lambda: [list(model.files)], 'FES': lambda: [list(model.files[t])]}[module]()

    def keywords(what):
        full = {k: allkw[k] for k in TAKES[module, what].split()}
        if what == 'read':
            # the whole model
            full['crop'], full['buffer'] = False, 0
        few = dict(full)
        gone = []
        for k in sorted(full):
            d = DEFAULTS[k]
            d = d[module] if isinstance(d, dict) else d
            if k == 'buffer' and what == 'read':
                d = 0
            if type(full[k]) is type(d) and full[k] == d and r.random() < 0.6:
                del few[k]
                gone.append(k)
        if module == 'ATLAS' and what != 'interp':
            full['compressed'] = few['compressed'] = model.compressed
        return full, few, gone

    def same(a, b, what, gone):
        a = a if isinstance(a, tuple) else (a,)
        b = b if isinstance(b, tuple) else (b,)
        ok = len(a) == len(b)
        for u, v in zip(a, b):
            if u is None or isinstance(u, list):
                ok = ok and u == v
                continue
            mu, mv = np.ma.getmaskarray(u), np.ma.getmaskarray(v)
            ok = ok and np.shape(u) == np.shape(v) and np.array_equal(mu, mv) and \
                np.array_equal(np.ma.getdata(u)[~mu], np.ma.getdata(v)[~mv], equal_nan=True)
        case.expect(ok, f'default:{module}:{what}', f'without {gone} the answer is another one')

    full, few, gone = keywords('extract')
    if full['crop'] and abs(g.dy) > 2*abs(g.dx):
        full['crop'] = few['crop'] = False
    case.note(format=name, type=t, given=few, left=gone)
    want = M.extract_constants(lon, lat, *files, **full)
    same(want, M.extract_constants(lon, lat, *files, **few), 'extract', gone)
    f1, w1, g1 = keywords('read')
    c = M.read_constants(*files, **f1)
    c2 = M.read_constants(*files, **w1)
    case.expect(list(c.fields) == list(c2.fields), f'default:{module}:read', f'without {g1} the fields are {c2.fields}')
    f2, w2, g2 = keywords('interp')
    want = M.interpolate_constants(lon, lat, c, **f2)
    same(want, M.interpolate_constants(lon, lat, c, **w2), 'interpolate', g2)
    # the container read with less is the same container
    same(want, M.interpolate_constants(lon, lat, c2, **f2), 'read', g1)
    for k in gone:
        case.nontrivial(name, 'extract', k)
    for k in g1:
        case.nontrivial(name, 'read', k)
    for k in g2:
        case.nontrivial(name, 'interp', k)
