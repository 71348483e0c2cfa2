"""X01: the command line programs"""
import importlib.util
import io
import json
import logging
import os
import pathlib
import subprocess
import sys
import contextlib
import numpy as np
import pyTMD
import pyTMD.compute
import pyTMD.io.IERS
from vmon.core import Check, Skip
from vmon import synth, computing

from checks import c02_corrections as C02

check = Check('X01', 'Programs write, for each point and time of a file, what the library computes there',
    'a case counts when values of an output file were compared; key = program, format, layout, time standard, options',
    ['input files are made and output files opened with netCDF4, h5py, GDAL, pyarrow and plain text',
     'values of the library as for C01 and C02, asked for at coordinates and dates of our own'])

SCRIPTS = pathlib.Path(pyTMD.__file__).resolve().parent.parent/'scripts'
_LOADED = {}


def program(name):
    if name not in _LOADED:
        path = SCRIPTS/f'{name}.py'
        spec = importlib.util.spec_from_file_location(f'x01_{name}', path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _LOADED[name] = m
    return _LOADED[name]


class Tail(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.lines = []

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.lines.append(record.getMessage())


def run(case, name, argv, apart=False):
    """run a program as its users do; what it logged"""
    argv = [str(a) for a in argv]
    if apart:
        p = subprocess.run([sys.executable, str(SCRIPTS/f'{name}.py')] + argv, cwd=case.tmp,
            capture_output=True, text=True, timeout=300)
        case.event('processes')
        return (p.stderr + p.stdout)[-1500:]
    m = program(name)
    keep, tail = sys.argv, Tail()
    root = logging.getLogger()
    level = root.level
    here = os.getcwd()
    root.addHandler(tail)
    disabled = root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        os.chdir(case.tmp)
        sys.argv = [name + '.py'] + argv
        with contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                m.main()
            except SystemExit as e:
                tail.lines.append(f'exit {e.code} {err.getvalue()[-300:]}')
            except Exception as e:
                tail.lines.append(repr(e))
    finally:
        os.chdir(here)
        sys.argv = keep
        root.removeHandler(tail)
        logging.disable(disabled)
        root.setLevel(level)
    return '\n'.join(tail.lines)[-1200:]


# ------------------------------------------------------------------- inputs
UNITS = {'seconds': 86400.0, 'minutes': 1440.0, 'hours': 24.0, 'days': 1.0}


def stamp(days):
    """ISO date of days since 1992-01-01, rounded to microseconds"""
    us = int(round(days*86400e6))
    return np.datetime64('1992-01-01T00:00:00', 'us') + np.timedelta64(us, 'us')


class Times:
    """n times as stored in a file, with their dates"""

    def __init__(self, r, n, dates, style=None):
        lo, hi = 400.0, 10900.0
        style = r.integers(3) if style is None else style
        if style == 0:
            d = r.uniform(lo, hi, n)
        elif style == 1:
            d = r.uniform(lo, hi-100) + np.arange(n)*float(r.choice([1/24., 0.25, 1.0]))
        else:
            k = r.choice(computing.LEAP_DAYS[8:])
            d = k + r.choice([-1.0, 1.0], n)*r.uniform(0.01, 2.0, n)
        self.standard = str(r.choice(['UTC', 'GPS', 'TAI', 'LORAN'] + (['datetime']*2 if dates else [])))
        self.unit = str(r.choice(list(UNITS)))
        epochs = ['2000-01-01T00:00:00', '1992-01-01T00:00:00', '1980-01-06T00:00:00', '2018-01-01T00:00:00', '2006-03-15T12:30:00']
        if self.standard == 'UTC':
            epochs += ['1858-11-17T00:00:00', '1970-01-01T00:00:00', '1950-01-01T00:00:00']
        self.epoch = str(r.choice(epochs))
        e0 = float((np.datetime64(self.epoch) - np.datetime64('1992-01-01T00:00:00'))/np.timedelta64(1, 'us'))/86400e6
        if self.standard == 'datetime':
            self.dates = np.array([stamp(v).astype('datetime64[ms]') for v in d])
            self.days = (self.dates - np.datetime64('1992-01-01T00:00:00', 'ms')).astype(float)/86400e3
            self.values = self.dates
            return
        sec = np.round((d - e0)*86400.0, 3)
        self.days = e0 + sec/86400.0
        if self.standard != 'UTC':
            sec = sec + computing.leaps(self.days) - computing.leaps(np.array(e0))
        self.values = sec*UNITS[self.unit]/86400.0
        self.dates = np.array([stamp(v) for v in self.days])

    @property
    def string(self):
        e = self.epoch if int(self.days[0]*1e3) % 2 else self.epoch.replace('T', ' ')
        return f'{self.unit} since {e}'


def read_nc(path):
    import netCDF4
    out, att = {}, {}
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        for k, v in f.variables.items():
            out[k] = np.array(v[...])
            att[k] = {a: v.getncattr(a) for a in v.ncattrs()}
    return out, att


def read_h5(path):
    import h5py
    out, att = {}, {}
    with h5py.File(path) as f:
        for k in f:
            out[k] = f[k][...]
            att[k] = {a: (b.decode() if isinstance(b, bytes) else b) for a, b in f[k].attrs.items()
                if not a.isupper()}
    return out, att


def write_nc(r, path, data, tatt, root, layout):
    import netCDF4
    with netCDF4.Dataset(path, 'w') as f:
        for k, v in data.items():
            dims = []
            for n, (axis, size) in enumerate(zip(layout[k], np.shape(v))):
                if axis not in f.dimensions:
                    f.createDimension(axis, size)
                dims.append(axis)
            var = f.createVariable(k, np.asarray(v).dtype, tuple(dims))
            var[...] = v
            for a, b in tatt.get(k, {}).items():
                var.setncattr(a, b)
        for a, b in root.items():
            f.setncattr(a, b)


def write_h5(r, path, data, tatt, root, layout):
    import h5py
    with h5py.File(path, 'w') as f:
        for k, v in data.items():
            d = f.create_dataset(k, data=v)
            for a, b in tatt.get(k, {}).items():
                d.attrs[a] = b
        for a, b in root.items():
            f.attrs[a] = b


class Job:
    """an input file and the arguments that go with it"""


def place(case, draw, crs, fmts, wide=None):
    """make an input file of a format and layout"""
    r = case.rng
    J = Job()
    J.fmt = fmt = fmts[case.index % len(fmts)]
    # (times that are years apart)
    style = None if wide is None else 0
    if fmt in ('csv', 'parquet'):
        kind = 'drift'
    elif fmt in ('GTiff', 'cog'):
        kind = 'grid'
    else:
        kind = wide or str(r.choice(['drift', 'grid', 'time series']))
    J.kind, J.crs = kind, crs
    npt = int(r.integers(2 if wide else 1, 8))
    J.args = ['--format', fmt]
    if kind != 'drift' or r.random() < 0.3:
        J.args += ['--type', kind]
    epsg = str(crs)
    J.root = {}
    inside = False
    pxy = epsg
    J.pargs = []
    if fmt in ('GTiff', 'cog'):
        pass
    elif fmt in ('netCDF4', 'HDF5') and r.random() < 0.3:
        # in the file, whatever the argument
        J.root['projection'] = (f'EPSG:{epsg}' if r.random() < 0.5 else f'epsg:{epsg}') if epsg.isdigit() else epsg
        if r.random() < 0.5:
            J.pargs = ['--projection', '3031' if epsg != '3031' else '4326']
    elif epsg != '4326' or r.random() < 0.3:
        J.pargs = ['--projection', epsg]
    ext = dict(csv='.csv', netCDF4='.nc', HDF5='.H5', GTiff='.tif', cog='.tif', parquet='.parquet')[fmt]
    J.path = case.tmp/f'input_data{ext}'
    J.attached = False
    if kind == 'drift':
        J.x, J.y = draw(npt)
        J.px, J.py = J.x, J.y
        J.T = T = Times(r, npt, dates=fmt == 'csv' or (fmt == 'parquet'), style=style)
        J.shape = (npt,)
        J.pairs = [((i,), i, i) for i in range(npt)]
    elif kind == 'time series':
        J.x, J.y = draw(npt)
        J.px, J.py = J.x, J.y
        nt = int(r.integers(3 if wide else 1, 6))
        J.T = T = Times(r, nt, dates=False, style=style)
        J.shape = (npt, nt)
        J.pairs = [((s, k), s, k) for s in range(npt) for k in range(nt)]
    else:
        nx, ny, nt = int(r.integers(1, 5)), int(r.integers(1, 5)), int(r.integers(3 if wide else 1, 6))
        x, y = draw(2)
        if fmt in ('GTiff', 'cog'):
            dx, dy = float(abs(x[1]-x[0])/8 + 0.01), -float(abs(y[1]-y[0])/8 + 0.01)
            x0, y0 = float(x[0]), float(y[0])
            if crs == '4326':
                y0 = float(np.clip(y0, -80, 89))
                dy = -min(-dy, (y0 + 89)/6)
            J.x, J.y = x0 + (np.arange(nx)+0.5)*dx, y0 + (np.arange(ny)+0.5)*dy
            J.transform = (x0, dx, 0.0, y0, 0.0, dy)
        else:
            x, y = draw(max(nx, ny))
            J.x, J.y = np.array(x[:nx]), np.array(y[:ny])
        J.T = T = Times(r, nt, dates=False, style=style)
        J.shape = (ny, nx, nt)
        gx, gy = np.meshgrid(J.x, J.y)
        J.px, J.py = gx.ravel(), gy.ravel()
        J.pairs = [((j, i, k), j*nx+i, k) for j in range(ny) for i in range(nx) for k in range(nt)]
    J.lon, J.lat = computing.lonlat(crs, J.px, J.py)
    tvals = T.values
    date = T.standard == 'datetime'
    if not (T.standard == 'UTC' and r.random() < 0.5):
        J.args += ['--standard', T.standard]
    # the time of a file, or one given
    given = (fmt in ('GTiff', 'cog') or r.random() < 0.15) and not date
    if given and kind == 'drift' and npt > 1 and False:
        given = False
    tatt = {}
    J.single = False
    if given:
        if len(tvals) == 1 and r.random() < 0.4 and T.standard == 'UTC':
            # the calendar date of the measurement
            J.args += ['--epoch', str(stamp(T.days[0]).astype('datetime64[s]'))]
            T.days = np.round(T.days*86400.0)/86400.0
            J.args += ['--epoch', str(stamp(T.days[0]).astype('datetime64[s]'))]
            if not (fmt in ('GTiff', 'cog') and r.random() < 0.5):
                J.args += ['--deltatime', '0']
            elif fmt in ('GTiff', 'cog'):
                J.single = True
        else:
            J.args += ['--epoch', T.string, '--deltatime'] + [repr(float(v)) for v in tvals]
        stored = np.zeros(len(tvals))
    else:
        stored = tvals
        if fmt in ('netCDF4', 'HDF5') and r.random() < 0.5:
            J.attached = True
            tatt['time'] = {'units': T.string}
            if r.random() < 0.3:
                J.args += ['--epoch', 'hours since 1999-09-09T00:00:00']
        elif not date and not (T.unit == 'days' and T.epoch == '1858-11-17T00:00:00' and r.random() < 0.7):
            J.args += ['--epoch', T.string]
    # names of the variables
    names = ['time', 'lat', 'lon', 'data']
    ask = False
    if fmt in ('netCDF4', 'HDF5', 'parquet') and r.random() < 0.4:
        names = [['t_sec', 'y', 'x', 'h_cor'], ['delta_time', 'latitude', 'longitude', 'h'], ['time', 'y', 'x', 'data']][r.integers(3)]
        ask = True
    data = r.normal(size=J.shape)
    if fmt == 'csv':
        delim = str(r.choice([',', ',', ';', ' ', '|']))
        cols = {'time': stored, 'y': J.y, 'x': J.x, 'data': data, 'sigma': data*0.1}
        order = ['time', 'y', 'x', 'data']
        mode = int(r.integers(4))
        # as documented: time, y, x and data, or the order given
        if mode == 1:
            J.vargs = ['--variables', 'time', 'lat', 'lon', 'data']
        elif mode in (2, 3):
            n = int(r.integers(3, 6))
            whole = bool(r.random() < 0.5)
            order = ['time', 'y', 'x', 'data', 'sigma'][:n]
            order = [order[i] for i in r.permutation(n)]
            if mode == 2:
                J.vargs = ['--variables'] + order
            else:
                J.vargs = ['--variables'] + [(dict(x='longitude', y='latitude') if whole else dict(x='lon', y='lat')).get(k, k) for k in order]
        else:
            J.vargs = []
        lines = []
        nh = int(r.choice([0, 0, 1, 3]))
        for i in range(nh):
            lines.append(['time,lat,lon,data', '# comment 12.5, 3', 'header: 1 2 3'][i])
        if nh:
            J.vargs += ['--header', nh]
        if delim != ',' or r.random() < 0.2:
            J.vargs += ['--delimiter', delim]
        for i in range(len(stored)):
            row = []
            for k in order:
                v = cols[k][i]
                row.append(str(v) if k == 'time' and date else repr(float(v)))
            lines.append(delim.join(row))
        J.path.write_text('\n'.join(lines) + '\n')
        J.delim = delim
    elif fmt in ('netCDF4', 'HDF5'):
        t, y, x, d = names
        ax = {'drift': ('n',)*4, 'time series': ('t', 's', 's', 'st'), 'grid': ('t', 'y', 'x', 'yxt')}[kind]
        store = {t: stored, y: J.y, x: J.x, d: data}
        lay = {t: ax[0], y: ax[1], x: ax[2], d: ax[3]}
        if 'time' in tatt and t != 'time':
            tatt[t] = tatt.pop('time')
        (write_nc if fmt == 'netCDF4' else write_h5)(r, J.path, store, tatt, J.root, lay)
        J.vargs = (['--variables'] + names[:(4 if r.random() < 0.7 else 3)]) if ask else []
    elif fmt in ('GTiff', 'cog'):
        from osgeo import gdal, osr
        gdal.UseExceptions()
        ny, nx, nt = J.shape
        nb = 1 if J.single or r.random() < 0.7 else nt
        ds = gdal.GetDriverByName('GTiff').Create(str(J.path), nx, ny, nb, gdal.GDT_Float64)
        ds.SetGeoTransform(J.transform)
        s = osr.SpatialReference()
        s.ImportFromEPSG(int(crs))
        ds.SetProjection(s.ExportToWkt())
        for b in range(nb):
            ds.GetRasterBand(b+1).WriteArray(data[:, :, 0])
        ds.FlushCache()
        ds = None
        J.vargs = []
    else:
        import pandas as pd
        t, y, x, d = names
        df = pd.DataFrame({t: stored, y: J.y, x: J.x, d: data})
        J.geo = r.random() < 0.3
        if J.geo:
            import shapely
            import pyarrow
            import pyarrow.parquet
            import pyproj
            df = pd.DataFrame({t: stored, d: data, 'geometry': shapely.to_wkb(shapely.points(J.x, J.y))})
            tab = pyarrow.Table.from_pandas(df)
            meta = dict(tab.schema.metadata)
            meta[b'geo'] = json.dumps({'version': '1.1.0', 'primary_column': 'geometry', 'columns':
                {'geometry': {'encoding': 'WKB', 'geometry_types': ['Point'],
                 'crs': pyproj.CRS.from_epsg(int(crs)).to_json_dict()}}}).encode()
            pyarrow.parquet.write_table(tab.replace_schema_metadata(meta), J.path)
            ask = True
            names = [t, 'y', 'x', d]
            if r.random() < 0.5:
                J.pargs = []
        else:
            df.to_parquet(J.path, index=bool(r.random() < 0.3) or None)
        J.vargs = (['--variables'] + names) if ask else []
    J.args += J.pargs + J.vargs
    return J


# ------------------------------------------------------------------ outputs
def column(v):
    return np.asarray(v)


def output(case, J, kind, path, fields, fillv, meta):
    """the values of an output file, by name, and its coordinates, checked"""
    fmt = J.fmt
    T = J.T
    npts = len(J.px)
    if fmt == 'csv':
        rows = [l.split(J.delim) for l in path.read_text().splitlines()]
        if not case.expect(all(len(q) == 3 + len(fields) for q in rows) and len(rows) == npts, kind+':rows', f'{rows[:2]}'):
            return None
        cols = list(zip(*rows))
        if T.standard == 'datetime':
            when = np.array(cols[0], dtype='datetime64[us]')
            off = np.abs((when - T.dates.astype('datetime64[us]')).astype(float)).max()
            # written to the second
            case.expect(off <= 1e6, kind+':time', f'{cols[0][:2]} for {T.dates[:2]}')
            tim = None
        else:
            tim = np.array(cols[0], dtype=float)
        lat, lon = np.array(cols[1], dtype=float), np.array(cols[2], dtype=float)
        out = {k: np.array(c, dtype=float) for k, c in zip(fields, cols[3:])}
        att = None
    elif fmt in ('netCDF4', 'HDF5'):
        out, att = (read_nc if fmt == 'netCDF4' else read_h5)(path)
        if not case.expect(set(out) == set(fields) | {'lon', 'lat', 'time'}, kind+':variables', f'{sorted(out)}'):
            return None
        lon, lat, tim = np.ravel(out.pop('lon')), np.ravel(out.pop('lat')), out.pop('time')
    elif fmt == 'parquet':
        import pyarrow.parquet
        tab = pyarrow.parquet.read_table(path)
        att = json.loads(tab.schema.metadata[b'pyTMD'])
        df = {c: tab.column(c).to_numpy() for c in tab.column_names}
        if J.geo:
            import shapely
            g = shapely.from_wkb(df.pop('geometry'))
            lon, lat = shapely.get_x(g), shapely.get_y(g)
            geo = json.loads(tab.schema.metadata[b'geo'])
            case.expect(geo['columns']['geometry']['crs']['id']['code'] == 4326, kind+':crs')
        else:
            lon, lat = df.pop('lon'), df.pop('lat')
        tim = df.pop('time')
        out = {k: df[k] for k in fields if k in df}
        if not case.expect(len(out) == len(fields), kind+':variables', f'{sorted(df)}'):
            return None
    else:
        from osgeo import gdal
        ds = gdal.Open(str(path))
        case.close(ds.GetGeoTransform(), J.transform, kind+':transform', rtol=1e-12, atol=1e-12)
        import pyproj
        a = pyproj.CRS.from_wkt(ds.GetProjection())
        p, q = J.px[0], J.py[0]
        f = pyproj.Transformer.from_crs(a, 4326, always_xy=True).transform(p, q)
        case.close(f, (J.lon[0], J.lat[0]), kind+':crs', rtol=1e-9, atol=1e-9)
        v = ds.ReadAsArray()
        v = np.moveaxis(v.reshape(ds.RasterCount, ds.RasterYSize, ds.RasterXSize), 0, -1)
        nt = J.shape[2]
        if not case.expect(v.shape == J.shape[:2] + (nt*len(fields),), kind+':shape', f'{v.shape} {J.shape}'):
            return None
        out = {k: v[:, :, i*nt:(i+1)*nt] for i, k in enumerate(fields)}
        if meta.get('_FillValue', True):
            case.expect(ds.GetRasterBand(1).GetNoDataValue() == fillv, kind+':nodata')
        return out
    case.close(lon, J.lon, kind+':lon', rtol=1e-10, atol=1e-9)
    case.close(lat, J.lat, kind+':lat', rtol=1e-10, atol=1e-9)
    if tim is not None:
        if case.expect(np.shape(tim) == (len(T.days),), kind+':time', f'{np.shape(tim)}'):
            case.close(np.asarray(tim, dtype=float), T.days, kind+':time', rtol=0, atol=3e-9)
    if att is not None:
        case.expect(att['time'].get('units') == 'days since 1992-01-01T00:00:00', kind+':attributes', f"{att['time']}")
        for k in fields:
            for a, b in meta.items():
                if a == '_FillValue':
                    if b:
                        case.expect(att[k].get(a) == fillv, kind+':attributes', f'{k} {a} {att[k]}')
                else:
                    case.expect(att[k].get(a) == b, kind+':attributes', f'{k} {a} {att[k]}')
        if fmt != 'parquet' or not J.geo:
            case.expect(att['lat']['units'] == 'Degrees_North' and att['lon']['units'] == 'Degrees_East', kind+':attributes')
    for k in fields:
        if not case.expect(np.shape(out[k]) == J.shape, kind+':shape', f'{np.shape(out[k])} {J.shape}'):
            return None
    return out


def wanted(J, fn, **kw):
    """values of the library at each point and time, masked arrays of the shape of the output"""
    dates = np.array([stamp(v) for v in J.T.days])
    p = np.array([q[1] for q in J.pairs])
    k = np.array([q[2] for q in J.pairs])
    got = fn(J.lon[p], J.lat[p], dates[k], TYPE='drift', TIME='datetime', **kw)

    def lay(v):
        v = np.ma.asanyarray(v)
        w = np.ma.zeros(J.shape)
        w.mask = np.zeros(J.shape, dtype=bool)
        for (idx, _, _), a, m in zip(J.pairs, np.ma.getdata(v), np.ma.getmaskarray(v)):
            w.data[idx], w.mask[idx] = a, m
        return w
    return {a: lay(b) for a, b in got.items()} if isinstance(got, dict) else {None: lay(got)}


def finish(case, name, kind, J, argv, outpath, fields, want, fillv, meta, scale=None, rtol=1e-7, atol=1e-9, apart=True):
    r = case.rng
    apart = r.random() < 0.03 and apart
    before = J.path.read_bytes()
    mode = None
    if r.random() < 0.2:
        mode = int(r.choice([0o644, 0o600, 0o775]))
        argv = argv + ['--mode', oct(mode)]
    if fillv is not None:
        argv = argv + ['--fill-value', repr(fillv)]
    f = -9999.0 if fillv is None else fillv
    explicit = outpath is not None and r.random() < 0.5
    files = [J.path.name if r.random() < 0.3 else J.path]
    if explicit:
        outpath = case.tmp/('out_1'+J.path.suffix)
        files.append(outpath)
    if r.random() < 0.1 and not any(' ' in str(a) for a in argv) and '' not in argv:
        # arguments read from a file
        opt = case.tmp/'options.txt'
        opt.write_text('# options\n' + '\n'.join(map(str, argv)) + ' # end\n')
        argv = ['@'+str(opt)]
    # the files before the options that take several values
    argv = [str(v) for v in files] + argv
    case.note(argv=argv, kind=J.kind, crs=J.crs, x=J.x, y=J.y, days=J.T.days)
    log = run(case, name, argv, apart)
    if not case.expect(outpath.exists() and 'Traceback' not in log, kind+':failed', f'{log[-700:]}'):
        return
    case.expect(J.path.read_bytes() == before, kind+':input-changed')
    perm = outpath.stat().st_mode & 0o777
    case.expect(perm == (0o775 if mode is None else mode), kind+':mode', oct(perm))
    ok, out = case.quietly(kind+':unreadable', output, case, J, kind, outpath, fields, f, meta)
    if not ok or out is None:
        return
    n = 0
    for k, w in zip(fields, want):
        g = out[k]
        isf = (g == f) | (np.isnan(g) if J.fmt == 'parquet' else False)
        m = np.ma.getmaskarray(w)
        bad = m & ~isf
        case.expect(not bad.any(), kind+':validity', f'{int(bad.sum())} of {int(m.sum())} invalid values are not fill values')
        use = ~m
        if use.any():
            s = scale if scale is not None else 0.0
            case.close(g[use], w.data[use], kind+':value', rtol=rtol, atol=atol + rtol*s)
            n += int(use.sum())
    if n:
        case.nontrivial(name, J.fmt, J.kind, J.T.standard, J.crs, J.attached)
        case.event('values', n)


def fill_of(r):
    return None if r.random() < 0.6 else float(r.choice([-9999.0, 0.0, 1e20, 9.96921e36, -32768.0]))


FMTS = ['csv', 'netCDF4', 'HDF5', 'GTiff', 'parquet', 'cog']


def make_draw(r, g, crs):
    def draw(n):
        px, py = synth.points(r, g, n)
        lon, lat = g.lonlat(px, py)
        lon = (np.array(lon, dtype=float) + 180) % 360 - 180
        if crs == '4326':
            return lon, np.array(lat, dtype=float)
        if crs == g.crs:
            return np.array(px), np.array(py)
        return computing.to_xy(crs, lon, lat)
    return draw


def rebase(v, top, r):
    """paths of a definition relative to the directory of the models"""
    if isinstance(v, dict):
        return {k: rebase(a, top, r) for k, a in v.items()}
    if isinstance(v, list):
        return [rebase(a, top, r) for a in v]
    if isinstance(v, str) and v.startswith(str(top)):
        return str(pathlib.Path(v).relative_to(top))
    return v


def tides(case, currents, wide=None):
    r = case.rng
    name = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES'][int(r.integers(5))]
    if wide:
        # (dynamical and universal time are told apart for these)
        name = str(r.choice(['GOT', 'FES', 'FES', 'OTIS']))
    t = 'u' if currents else 'z'
    if currents and name == 'GOT':
        name = 'FES'
    relative = False
    if r.random() < 0.25 and not wide:
        # by its name, in the directory of the models
        model, kw, name = computing.named(r, case.tmp, t)
        entry = computing.DATABASE['elevation' if t == 'z' else 'current'][kw['MODEL']]
        d = {k: entry[k] for k in ('name', 'reference', 'variable') if entry.get(k)}
        if currents:
            d.pop('variable', None)
        chosen = ['--tide', kw['MODEL'], '--directory', str(kw['DIRECTORY'])]
        kw.setdefault('GZIP', False)
        if kw['GZIP']:
            chosen += ['--gzip' if r.random() < 0.5 else '-G']
    else:
        model = synth.FORMATS[name](r, case.tmp, ncons=int(r.choice([1, 4, 8, 9] if not wide else [1, 4, 9, 9, 12])))
        if currents and 'u' not in model.types:
            raise Skip('no currents')
        d = model.definition(t)
        d['name'] = 'MODEL_' + str(r.integers(100))
        if r.random() < 0.7:
            d['reference'] = 'https://doi.org/10.1000/' + d['name']
        else:
            d.pop('reference', None)
        if not currents:
            d['variable'] = str(r.choice(['tide_ocean', 'tide_load']))
            if r.random() < 0.2:
                d.pop('variable')
        path = case.tmp/'definition.json'
        relative = r.random() < 0.3
        path.write_text(json.dumps(rebase(d, case.tmp, r) if relative else d))
        kw = dict(DEFINITION_FILE=path)
        chosen = ['--definition-file', path]
    g = model.grid
    crs = '4326'
    if not g.geographic and str(g.crs).isdigit() and r.random() < 0.5:
        crs = str(g.crs)
    elif g.geographic and r.random() < 0.3:
        crs = '3031' if g.y.mean() < -60 else '3413' if g.y.mean() > 60 else '3857'
    J = place(case, make_draw(r, g, crs), crs, FMTS if not wide else ['netCDF4', 'HDF5'], wide)
    argv = chosen + J.args
    if r.random() < 0.6:
        kw['METHOD'] = str(r.choice(['spline', 'linear', 'nearest', 'bilinear']))
        argv += ['--interpolate', kw['METHOD']]
    else:
        kw['METHOD'] = 'spline'
    kw['INFER_MINOR'] = bool(r.random() < 0.5)
    if kw['INFER_MINOR']:
        argv += ['--infer-minor']
        if r.random() < 0.3:
            kw['MINOR_CONSTITUENTS'] = ['2q1', 'mu2', 'nu2', 'msqm']
            argv += ['--minor-constituents'] + kw['MINOR_CONSTITUENTS']
    if r.random() < 0.3 or (wide and name == 'OTIS'):
        kw['CORRECTIONS'] = str(r.choice(['OTIS', 'FES', 'GOT', 'perth3'] if not wide else ['FES', 'GOT', 'perth3']))
        argv += ['--nodal-corrections', kw['CORRECTIONS']]
    if r.random() < 0.3:
        kw['EXTRAPOLATE'] = True
        argv += ['--extrapolate']
        kw['CUTOFF'] = 10.0
        if r.random() < 0.7:
            kw['CUTOFF'] = float(r.choice([50.0, 500.0, np.inf]))
            argv += ['--cutoff', repr(kw['CUTOFF'])]
    elif r.random() < 0.25:
        kw['CROP'] = True
        argv += ['--crop']
        if r.random() < 0.7:
            kw['BUFFER'] = float(r.choice([1.0, 2.0, 5.0])*max(g.dx, abs(g.y[1]-g.y[0])))
            argv += ['--buffer', repr(kw['BUFFER'])]
    flex = ''
    if not currents:
        if r.random() < 0.2:
            kw['APPEND_NODE'] = True
            argv += ['--append-node']
        if name == 'TMD3' and r.random() < 0.4:
            kw['APPLY_FLEXURE'] = True
            argv += ['--apply-flexure']
            flex = '_flexure'
    argv = [str(a) for a in argv]
    if relative:
        kw['DIRECTORY'] = case.tmp
        argv = argv + ['--directory', str(case.tmp)]
    outpath = case.tmp/f"input_data_{d['name']}{flex}{'_currents' if currents else ''}{J.path.suffix}"
    fn = pyTMD.compute.tide_currents if currents else pyTMD.compute.tide_elevations
    want = wanted(J, fn, **kw)
    fields = ['u', 'v'] if currents else [d.get('variable', 'tide')]
    want = [want[k] for k in fields] if currents else [want[None]]
    meta = {'_FillValue': True, 'model': d['name'], 'units': 'cm/s' if currents else 'meters'}
    if 'reference' in d:
        meta['reference'] = d['reference']
    scale = max([1e-3] + [float(np.ma.abs(w).max()) for w in want if w.count()])
    finish(case, 'compute_tidal_currents' if currents else 'compute_tidal_elevations',
        'currents' if currents else 'elevations', J, argv, outpath, fields, want, fill_of(r), meta, scale, rtol=1e-7)


@check.scenario(quick=150, thorough=3000, floor=75)
def elevations(case):
    tides(case, False)


@check.scenario(quick=90, thorough=2000, floor=40)
def currents(case):
    tides(case, True)


KINDS = ['drift', 'grid', 'time series']


@check.scenario(quick=36, thorough=600, floor=18)
def decades(case):
    """each layout, with times that are years apart"""
    tides(case, bool(case.index//2 % 2), KINDS[case.index//4 % 3])


def anywhere(r, crs):
    def draw(n):
        if crs == '4326':
            return r.uniform(-180, 180, n), r.uniform(-89, 89, n)
        if crs in ('3031', '3413'):
            return r.uniform(-2.5e6, 2.5e6, n), r.uniform(-2.5e6, 2.5e6, n)
        return r.uniform(-1.9e7, 1.9e7, n), r.uniform(-1.5e7, 1.5e7, n)
    return draw


def correction(case):
    r = case.rng
    crs = str(r.choice(['4326', '4326', '3031', '3413', '3857']))
    J = place(case, anywhere(r, crs), crs, FMTS)
    return J, list(J.args)


@check.scenario(quick=120, thorough=2500, floor=60)
def LPET(case):
    J, argv = correction(case)
    want = wanted(J, pyTMD.compute.LPET_elevations)
    finish(case, 'compute_LPET_elevations', 'LPET', J, argv, case.tmp/f'input_data_lpe_tide{J.path.suffix}',
        ['tide_lpe'], [want[None]], None, {'units': 'meters', '_FillValue': False}, rtol=1e-7, atol=1e-9)


def options(case, argv, kw, conv=True):
    r = case.rng
    if r.random() < 0.5:
        kw['ELLIPSOID'] = str(r.choice(['WGS84', 'GRS80', 'TOPEX', 'IERS', 'EGM96']))
        argv += ['--ellipsoid', kw['ELLIPSOID']]
    if conv and r.random() < 0.6:
        kw['CONVENTION'] = str(r.choice(['2003', '2010', '2015', '2018']))
        argv += ['--convention', kw['CONVENTION']]


@check.scenario(quick=120, thorough=2500, floor=60)
def LPT(case):
    J, argv = correction(case)
    kw = {}
    options(case, argv, kw)
    want = wanted(J, pyTMD.compute.LPT_displacements, **kw)
    finish(case, 'compute_LPT_displacements', 'LPT', J, argv, case.tmp/f'input_data_pole_tide{J.path.suffix}',
        ['tide_pole'], [want[None]], fill_of(case.rng), {'units': 'meters', '_FillValue': True}, rtol=1e-6, atol=1e-9)


@check.scenario(quick=120, thorough=2500, floor=60)
def SET(case):
    r = case.rng
    J, argv = correction(case)
    kw = {}
    options(case, argv, kw, conv=False)
    if r.random() < 0.5:
        kw['TIDE_SYSTEM'] = str(r.choice(['tide_free', 'mean_tide']))
        argv += ['--tide-system', kw['TIDE_SYSTEM']]
    if r.random() < 0.5:
        argv += ['--ephemerides', 'approximate']
    want = wanted(J, pyTMD.compute.SET_displacements, **kw)
    finish(case, 'compute_SET_displacements', 'SET', J, argv, case.tmp/f'input_data_solid_earth_tide{J.path.suffix}',
        ['tide_earth'], [want[None]], fill_of(r), {'units': 'meters', '_FillValue': True}, rtol=1e-6, atol=1e-8)


@check.scenario(quick=16, thorough=160, chunk=2, floor=0)
def OPT(case):
    r = case.rng
    path, _ = C02.pole_map(r)
    real = getattr(pyTMD.io.IERS, '_ocean_pole_tide_file', None)
    if real is None:
        raise Skip('the path to the map cannot be replaced')
    J, argv = correction(case)
    kw = {}
    options(case, argv, kw)
    if r.random() < 0.6:
        kw['METHOD'] = str(r.choice(['spline', 'linear', 'nearest']))
        argv += ['--interpolate', kw['METHOD']]
    pyTMD.io.IERS._ocean_pole_tide_file = path
    try:
        want = wanted(J, pyTMD.compute.OPT_displacements, **kw)
        finish(case, 'compute_OPT_displacements', 'OPT', J, argv, case.tmp/f'input_data_ocean_pole_tide{J.path.suffix}',
            ['tide_oc_pole'], [want[None]], fill_of(r), {'units': 'meters', '_FillValue': True}, rtol=1e-6, atol=1e-9, apart=False)
    finally:
        pyTMD.io.IERS._ocean_pole_tide_file = real
