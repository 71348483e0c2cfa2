"""computing.py -- the workload shared by the checks of pyTMD.compute

Times are made from UTC dates and expressed in each of the accepted standards
with a leap second table of our own, so that the time conversion of the real
code is part of what is observed.  Coordinates are made in the system given to
the real code and transformed here, with pyproj.
"""
import datetime
import json
import shutil
import numpy as np
import pyproj
from vmon import gen, synth

EPOCH_TIDE = datetime.datetime(1992, 1, 1)
LEAPS = [datetime.datetime(y, m, 1) for y, m in [
    (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1),
    (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1),
    (2009, 1), (2012, 7), (2015, 7), (2017, 1)]]
LEAP_DAYS = np.array([(d - EPOCH_TIDE).days for d in LEAPS], dtype=float)


def leaps(days):
    return np.searchsorted(LEAP_DAYS, days, side='right').astype(float)


def times(r, n, lo=366.0, hi=11500.0, standards=('UTC', 'GPS', 'LORAN', 'TAI', 'datetime'), style=None):
    """(delta_time, keywords, days since 1992-01-01 in UTC)"""
    style = int(r.integers(0, 4)) if style is None else style
    if r.random() < 0.15:
        # before 1992: days are negative
        lo, hi = -3700.0, 400.0
    if style == 0:
        d = r.uniform(lo, hi, n)
    elif style == 1:
        d = r.uniform(lo, hi-100) + np.arange(n)*float(r.choice([1/24., 0.25, 1.0, 1/1440.]))
    elif style == 2:
        d = np.full(n, r.uniform(lo, hi))
    else:
        # on either side of a leap second
        k = r.choice(LEAP_DAYS[7:] if lo > 0 else LEAP_DAYS[1:7])
        d = k + r.choice([-1.0, 1.0], n)*r.uniform(0.01, 2.0, n)
    near = np.abs(d[:, None] - LEAP_DAYS[None, :]).min(1) < 1e-3
    d[near] += 0.01
    std = str(r.choice(standards))
    if std == 'datetime':
        us = np.round(d*86400e6).astype('int64')
        dt = np.datetime64('1992-01-01T00:00:00', 'us') + us.astype('timedelta64[us]')
        if r.random() < 0.5:
            dt = dt.astype('datetime64[ns]')
        return dt, dict(TIME='datetime'), us/86400e6
    epoch = [(2000, 1, 1, 0, 0, 0), (1992, 1, 1, 0, 0, 0), (1980, 1, 6, 0, 0, 0),
        (2018, 1, 1, 0, 0, 0), (2006, 3, 15, 12, 30, 0), (1985, 1, 1, 0, 0, 0)]
    if std == 'UTC':
        epoch += [(1970, 1, 1, 0, 0, 0), (1858, 11, 17, 0, 0, 0), (1950, 1, 1, 0, 0, 0)]
    e = epoch[int(r.integers(0, len(epoch)))]
    e0 = (datetime.datetime(*e) - EPOCH_TIDE).total_seconds()/86400.0
    sec = np.round((d - e0)*86400.0, 3)
    d = e0 + sec/86400.0
    kw = dict(TIME=std if r.random() < 0.7 else std.lower())
    if e != (2000, 1, 1, 0, 0, 0) or r.random() < 0.5:
        kw['EPOCH'] = list(e) if r.random() < 0.3 else e
    if std != 'UTC':
        sec = sec + leaps(d) - leaps(np.array(e0))
    if r.random() < 0.1 and std == 'UTC':
        # integer seconds
        s = np.round(sec).astype('int64')
        return s, kw, e0 + s/86400.0
    return sec, kw, d


def delta_t(days):
    """TT - UT1 in days, from the tables of timescale"""
    import timescale.time
    return np.atleast_1d(timescale.time.Timescale(MJD=np.atleast_1d(days)+48622.0).tt_ut1)


def lonlat(crs, x, y):
    if str(crs) == '4326':
        return np.array(x, dtype=float), np.array(y, dtype=float)
    c = pyproj.CRS.from_epsg(int(crs)) if str(crs).isdigit() else pyproj.CRS.from_user_input(crs)
    t = pyproj.Transformer.from_crs(c, pyproj.CRS.from_epsg(4326), always_xy=True)
    a, b = t.transform(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
    return np.asarray(a), np.asarray(b)


def to_xy(crs, lon, lat):
    if str(crs) == '4326':
        return np.array(lon, dtype=float), np.array(lat, dtype=float)
    c = pyproj.CRS.from_epsg(int(crs)) if str(crs).isdigit() else pyproj.CRS.from_user_input(crs)
    t = pyproj.Transformer.from_crs(pyproj.CRS.from_epsg(4326), c, always_xy=True)
    a, b = t.transform(np.asarray(lon, dtype=float), np.asarray(lat, dtype=float))
    return np.asarray(a), np.asarray(b)


TYPES = ['drift', 'grid', 'grid2', 'time series', 'auto-drift', 'auto-grid', 'auto-series']


class Layout:
    """points and times laid out as one of the input data types

    x, y, TYPE go to the real code; (lon, lat) are the flattened points, and
    pairs() gives (output index, point, time) for every output value
    """

    def __init__(self, r, kind, draw, crs='4326', maxpts=5, maxt=4, whole=False):
        self.kind = kind
        if whole:
            some = draw
            draw = lambda n: tuple(np.round(v) for v in some(n))
        base = kind.replace('auto-', '')
        if base == 'drift':
            n = int(r.integers(2 if 'auto' in kind else 1, maxpts*2))
            self.x, self.y = draw(n)
            self.nt, self.shape = n, (n,)
            self.arg = 'drift'
        elif base == 'grid':
            nx = int(r.integers(1, maxpts))
            ny = nx + int(r.integers(1, 3))
            if r.random() < 0.5:
                nx, ny = ny, nx
            if nx*ny == 1:
                nx = 2
            x, y = draw(max(nx, ny))
            self.x, self.y = x[:nx].copy(), y[:ny].copy()
            self.nt = int(r.integers(1, maxt))
            self.shape = (ny, nx, self.nt)
            self.arg = 'grid'
        elif base == 'grid2':
            ny, nx = int(r.integers(1, 4)), int(r.integers(1, 4))
            x, y = draw(nx*ny)
            self.x, self.y = x.reshape(ny, nx), y.reshape(ny, nx)
            self.nt = int(r.integers(1, maxt))
            self.shape = (ny, nx, self.nt)
            self.arg = 'grid'
        else:
            n = 1 if 'auto' in kind else int(r.integers(1, maxpts))
            self.x, self.y = draw(n)
            self.nt = int(r.integers(1, maxt*2))
            self.shape = (n, self.nt)
            self.arg = 'time series'
        if 'auto' in kind:
            self.arg = None
        elif r.random() < 0.2:
            self.arg = self.arg.upper() if r.random() < 0.5 else self.arg.title()
        self.base = base
        if base == 'grid':
            X, Y = np.meshgrid(self.x, self.y)
        else:
            X, Y = self.x, self.y
        self.px, self.py = np.ravel(X), np.ravel(Y)
        if base in ('time series', 'series') and n == 1 and r.random() < 0.3:
            # scalars are points too
            self.x, self.y = float(self.px[0]), float(self.py[0])
        if whole:
            # whole numbers
            self.x, self.y = [np.asarray(v).astype(str(r.choice(['i4', 'i8', 'f4'][:3 if np.abs(v).max() < 2**24 else 2]))) if np.ndim(v) else int(v)
                for v in (self.x, self.y)]
        if r.random() < 0.25:
            self.x, self.y = gen.dress(r, self.x), gen.dress(r, self.y)
        elif base == 'grid2' and r.random() < 0.3:
            self.x, self.y = self.x.copy(order='F'), self.y.copy(order='F')
        self.crs = crs
        self.lon, self.lat = lonlat(crs, self.px, self.py)

    def pairs(self):
        if self.base == 'drift':
            for i in range(self.nt):
                yield (i,), i, i
        elif self.base.startswith('grid'):
            ny, nx, nt = self.shape
            for j in range(ny):
                for i in range(nx):
                    for k in range(nt):
                        yield (j, i, k), j*nx+i, k
        else:
            n, nt = self.shape
            for s in range(n):
                for k in range(nt):
                    yield (s, k), s, k


# ------------------------------------------------- models that are given by name
DATABASE = None
# constituents in the names of files
ALIAS = {'2n': '2n2', 'la2': 'lambda2', 'e2': 'eps2'}
NAMED = {'z': ['EOT20', 'EOT20_load', 'HAMTIDE11', 'FES2012', 'FES2014', 'FES2014_load', 'FES2022', 'FES2022_extrapolated',
        'GOT4.10', 'GOT4.10_load', 'GOT4.8', 'GOT4.8_load', 'GOT4.7', 'DTU23', 'RE14',
        'TPXO9-atlas', 'TPXO9-atlas-v5', 'TPXO8-atlas-nc', 'TPXO9-atlas-nc', 'TPXO9-atlas-v5-nc', 'TPXO10-atlas-v2-nc',
        'TPXO9.1', 'TPXO7.2', 'TPXO7.2_load', 'CATS0201', 'CATS2008', 'CATS2008-v2023', 'CATS2008_load'],
    'u': ['HAMTIDE11', 'FES2014', 'TPXO9-atlas', 'TPXO9-atlas-v5', 'TPXO9-atlas-nc', 'TPXO9-atlas-v5-nc',
        'TPXO9.1', 'TPXO7.2', 'CATS0201', 'CATS2008', 'CATS2008-v2023']}
CATS = [p for p in synth.PROJECTED if 'lat_ts=-71' in p]


def file_constituent(f):
    """the constituent in the name of a file of a FES model"""
    s = f.split('/')[-1].split('.')[0].lower()
    s = s.split('_')[-1] if s.startswith('hamcurrent') else s.split('_')[0]
    return ALIAS.get(s, s)


def named(r, tmp, t, name=None):
    """a synthetic model laid out on disk under the name of a published one

    returns the model, and the keywords of pyTMD.compute
    """
    global DATABASE
    if DATABASE is None:
        import pyTMD.utilities
        DATABASE = json.loads(pyTMD.utilities.get_data_path(['data', 'database.json']).read_text())
    name = name or str(r.choice(NAMED[t]))
    d = DATABASE['elevation' if t == 'z' else 'current'][name]
    fmt = d['format']
    mf = d['model_file']
    if t == 'u':
        mf = mf['u']
    many = isinstance(mf, list)
    src, directory = tmp/'source', tmp/'tide models'
    src.mkdir()
    gz = bool(r.random() < 0.4) and fmt not in ('OTIS', 'TMD3')
    kw = dict(ncons=len(mf) if many else int(r.integers(1, 9)), compressed=gz)
    if fmt in ('OTIS', 'TMD3'):
        if isinstance(d['projection'], dict):
            for _ in range(200):
                g = synth.projected_grid(r)
                if g.crs in CATS:
                    break
        else:
            g = synth.geographic_grid(r, ['global0', 'global180', 'regE', 'regPM'])
        kw.pop('compressed')
        if fmt == 'OTIS':
            kw['layout'] = 'list' if many else 'one'
        model = (synth.OTISModel if fmt == 'OTIS' else synth.TMD3Model)(r, src, grid=g, **kw)
    elif fmt == 'ATLAS-netcdf':
        model = synth.ATLASModel(r, src, **kw)
    elif fmt.startswith('GOT'):
        model = synth.GOTModel(r, src, ascii=fmt.endswith('ascii'), **kw)
    else:
        model = synth.FESModel(r, src, ascii=False, version=d['version'],
            cons=[file_constituent(f) for f in mf], **kw)
    if 'scale' in d and fmt not in ('OTIS', 'TMD3'):
        model.scale = float(d['scale'])
    suffix = '.gz' if gz else ''

    def place(old, new):
        new = directory/(new + suffix)
        new.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(old, new)
    if d.get('grid_file'):
        place(model.grid_file, d['grid_file'])
    types = 'z' if t == 'z' else ('uv' if not isinstance(model, synth.OTISModel) and 'v' in d['model_file'] else 'u')
    for k in types:
        to = d['model_file'] if k == 'z' else d['model_file'][k]
        old = model.files[k] if isinstance(model, synth.FESModel) else (
            model.files if isinstance(model, synth.GOTModel) else model.file(k))
        for a, b in zip(old, to) if many else [(old, to)]:
            place(a, b)
    call = dict(DIRECTORY=directory if r.random() < 0.5 else str(directory), MODEL=name)
    if gz or r.random() < 0.5:
        call['GZIP'] = gz
    return model, call, fmt
