"""S03: spatial data in ascii, netCDF4, HDF5, geotiff and parquet files"""
import gzip
import io
import json
import copy
import datetime
import numpy as np
import pyTMD.spatial as spatial
from vmon.core import Check

check = Check('S03', 'Files hold the data written to them and are read as stored',
    'a case counts when the contents of a file were compared; key = format, layout, options',
    ['written files are opened with netCDF4, h5py, GDAL and pyarrow directly, read files are also made with them'])

WORDS = ['tide', 'height', 'of', 'the', 'ocean', 'surface', 'above', 'mean', 'metres', 'x-y', 'Model_1', '(2019)', 'a/b']


def text(r):
    return ' '.join(r.choice(WORDS, size=r.integers(1, 5)))


def freeze(v):
    """hashable copy of anything given to a writer"""
    if isinstance(v, dict):
        return tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, np.ma.MaskedArray):
        return (v.dtype.str, v.shape, v.data.tobytes(), np.ma.getmaskarray(v).tobytes())
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    return repr(v)


def field(r, shape, dtype, fill, masked):
    """values that survive the format, some of them masked"""
    if np.issubdtype(np.dtype(dtype), np.integer):
        d = r.integers(-1000, 1000, size=shape).astype(dtype)
    else:
        d = (r.normal(size=shape)*10.0**r.integers(-6, 7)).astype(dtype)
        d.flat[r.integers(0, d.size, size=max(1, d.size//10))] = 0.0
    m = np.zeros(shape, bool)
    if masked:
        m = r.random(shape) < r.choice([0.0, 0.3, 1.0], p=[0.2, 0.6, 0.2])
    out = np.ma.array(d, mask=m)
    if masked and fill is not None:
        # what lies under the mask is not meaningful
        junk = r.random() < 0.5
        out.data[m] = (7 if junk else fill)
        if r.random() < 0.5:
            out.fill_value = fill
    return out if masked or r.random() < 0.3 else out.data


def rename(case, path):
    """the name of a file is found whatever its case"""
    r = case.rng
    if r.random() < 0.3:
        name = ''.join(c.upper() if r.random() < 0.5 else c.lower() for c in path.name)
        # a name that holds the name searched for, and one that it holds
        (path.with_name('x' + path.name)).write_bytes(b'not this one')
        (path.with_name(path.name + '.aux')).write_bytes(b'not this one')
        return path.with_name(name)
    return path if r.random() < 0.7 else str(path)


def packed(case, path):
    """file name or object and compression to read a file with"""
    r = case.rng
    k = r.choice(['none', 'gzip', 'bytes'])
    if k == 'gzip':
        z = path.with_name(path.name + '.gz')
        with gzip.open(z, 'wb') as f:
            f.write(path.read_bytes())
        return rename(case, z), 'gzip'
    if k == 'bytes':
        return io.BytesIO(path.read_bytes()), 'bytes'
    return rename(case, path), None


@check.scenario(quick=400, thorough=9000, floor=200)
def ascii_files(case):
    r = case.rng
    n = int(r.integers(1, 40))
    delim = r.choice([',', ' ', ';', '\t', ', '])
    header = bool(r.random() < 0.5)
    fill = float(r.choice([-9999.0, np.nan, 0.5, 1e20]))
    names = ['time', 'y', 'x', 'data'] if r.random() < 0.7 else ['t', 'lat', 'lon', 'tide_ocean']
    order = list(r.permutation(4)) if r.random() < 0.5 else [0, 1, 2, 3]
    cols = [names[i] for i in order]
    out, att = {}, {}
    for c, k in zip(names, range(4)):
        out[c] = field(r, (n,), r.choice(['f8', 'f4']) if k == 3 else 'f8', fill, k == 3 and r.random() < 0.6)
        att[c] = {a: text(r) for a in ('units', 'long_name', 'description') if r.random() < 0.7}
    if isinstance(out[names[3]], np.ma.MaskedArray):
        att[names[3]]['_FillValue'] = fill
        fill = np.dtype(out[names[3]].dtype).type(fill)
    if r.random() < 0.3:
        out['extra'] = np.arange(n)
        att['extra'] = {}
    case.note(n=n, delim=delim, header=header, fill=fill, cols=cols, out=out, att=att)
    before = freeze((out, att)), freeze(cols)
    path = case.tmp / 'Tide_Data.csv'
    if r.random() < 0.5:
        spatial.to_ascii(out, att, path, delimiter=delim, columns=cols, header=header)
    else:
        spatial.to_file(out, att, str(path), 'ascii', delimiter=delim, columns=cols, header=header)
    case.expect(freeze((out, att)) == before[0] and freeze(cols) == before[1], 'ascii-inputs', 'writing altered the data or attributes given')
    want = {c: np.ma.filled(out[c].astype('f8'), fill) for c in cols}
    # what is in the file
    lines = path.read_text().split('\n')
    case.expect(lines[-1] == '', 'ascii-lines', 'the file does not end with a line')
    lines = lines[:-1]
    if header:
        k = [i for i, s in enumerate(lines) if s.startswith('# End of YAML header')]
        case.expect(len(k) == 1, 'ascii-header', 'no end of the header')
        lines = lines[k[0]+1:]
        nskip = k[0]+1
    else:
        nskip = 0
    case.expect(len(lines) == n, 'ascii-lines', f'{len(lines)} lines for {n} records')
    rows = np.array([[float(v) for v in s.split(delim)] for s in lines])
    case.expect(rows.shape == (n, 4), 'ascii-columns', f'{rows.shape}')
    for j, c in enumerate(cols):
        case.close(rows[:, j], want[c], 'ascii-written', rtol=0, message=c)
    if r.random() < 0.3:
        # text of others before the records
        text_ = path.read_text().split('\n')
        if not header:
            text_.insert(0, '# 65\u00b0N, Troms\u00f8')
            nskip += 1
            path.write_text('\n'.join(text_), encoding='utf8')
    # what is read
    take = 4 if r.random() < 0.7 else int(r.integers(1, 4))
    rcols = cols[:take]
    arg = ('YAML' if r.random() < 0.6 else 'yaml') if header and r.random() < 0.6 else nskip
    finite = not any(np.isnan(want[c]).any() for c in cols)
    rdelim = delim
    if finite and not delim.startswith(',') and r.random() < 0.3:
        rdelim = None
    how = r.choice(['none', 'gzip', 'bytes', 'text'])
    if how == 'text':
        src, comp = io.StringIO(path.read_text(encoding='utf8')), 'bytes'
    elif how == 'none':
        src, comp = rename(case, path), None
    elif how == 'bytes':
        src, comp = io.BytesIO(path.read_bytes()), 'bytes'
    else:
        z = case.tmp / 'Tide_Data.csv.gz'
        with gzip.open(z, 'wb') as f:
            f.write(path.read_bytes())
        src, comp = rename(case, z), 'gzip'
    case.note(how=how, rdelim=rdelim, arg=arg, rcols=rcols)
    kw = dict(columns=rcols, delimiter=rdelim, header=arg, compression=comp)
    got = spatial.from_ascii(src, **kw) if r.random() < 0.5 else spatial.from_file(src, 'ascii', **kw)
    case.expect(sorted(k for k in got if k != 'attributes') == sorted(rcols), 'ascii-read', f'variables {sorted(got)}')
    yam = str(arg).lower() == 'yaml'
    for c in rcols:
        w = np.ma.array(want[c])
        if c == 'data' and yam and '_FillValue' in att[c]:
            w = np.ma.array(want[c], mask=np.isnan(want[c]) if np.isnan(fill) else want[c] == np.float64(str(fill)) )
            w.mask = np.ma.getmaskarray(w) | np.ma.getmaskarray(out[c])
            if np.float64(str(att[c]['_FillValue'])) != np.float64(fill) and not np.isnan(fill):
                w = None
        if w is not None:
            case.close(got[c], w, 'ascii-read', rtol=0, message=c)
            if c == 'data' and yam and '_FillValue' in att[c]:
                case.expect(np.array_equal(np.ma.getmaskarray(got[c]), np.ma.getmaskarray(w)), 'ascii-read', 'the records without data are not masked')
        if yam:
            for a, v in att[c].items():
                if a != '_FillValue':
                    case.expect(got['attributes'][c].get(a) == v, 'ascii-attributes', f'{c} {a}: {got["attributes"][c].get(a)!r} for {v!r}')
    case.nontrivial('ascii', how, header, yam, delim, rdelim is None, np.isnan(fill))


@check.scenario(quick=200, thorough=4000, floor=100)
def ascii_dates(case):
    """dates, fortran exponents and lines to skip in ascii files"""
    r = case.rng
    n = int(r.integers(1, 20))
    skip = int(r.integers(0, 4))
    months = r.random() < 0.3
    t, lines = [], ['! line of text, with 1 number'][:1]*skip
    x = r.normal(size=n)*10.0**r.integers(-8, 8)
    for i in range(n):
        d = datetime.datetime(int(r.integers(1980, 2035)), int(r.integers(1, 13)), int(r.integers(1, 29)), *map(int, (r.integers(24), r.integers(60), r.integers(60))))
        t.append(np.datetime64(d, 'ns'))
        s = d.strftime('%d-%b-%Y %H:%M:%S') if months else d.isoformat(sep=r.choice(['T', ' ']))
        v = f'{x[i]:.12e}'
        x[i] = float(v)
        lines.append(f'{s},{v.replace("e", "D") if r.random() < 0.5 else v.upper()},{i}')
    end = r.choice(['\n', '\r\n'])
    data = end.join(lines) + (end if r.random() < 0.5 else '')
    path = case.tmp / 'Dates.txt'
    path.write_bytes(data.encode())
    src, comp = packed(case, path)
    case.note(lines=lines, comp=comp)
    got = spatial.from_ascii(src, columns=['time', 'data', 'n'], header=skip, parse_dates=True, compression=comp)
    case.expect(np.array_equal(np.asarray(got['time']).astype('M8[s]'), np.array(t).astype('M8[s]')), 'ascii-dates', f'{got["time"]} for {t}')
    case.close(got['data'], x, 'ascii-exponents', rtol=0)
    case.close(got['n'], np.arange(n), 'ascii-read', rtol=0)
    case.nontrivial('dates', skip, months, comp, end == '\n')


@check.scenario(quick=200, thorough=4000, floor=100)
def ascii_numbers(case):
    """numbers as different programs write them, in delimited or free-form lines"""
    r = case.rng
    n, k = int(r.integers(1, 15)), int(r.integers(1, 6))
    free = bool(r.random() < 0.6)
    delim = str(r.choice([',', ';', '\t']))
    want, lines = np.zeros((n, k)), []
    for i in range(n):
        row = []
        for j in range(k):
            v = float(r.normal()*10.0**r.integers(-6, 7)) if r.random() < 0.8 else float(r.integers(-5000, 5000))
            style = int(r.integers(0, 4))
            if style == 0:
                s = f'{v:.{int(r.integers(1, 9))}f}'
            elif style == 1:
                s = str(int(round(v)))
            else:
                s = f'{v:.{int(r.integers(1, 9))}e}'
                a, e = s.split('e')
                if r.random() < 0.6 and e[0] == '+':
                    e = e[1:]
                if r.random() < 0.6:
                    e = (e[0] if e[0] in '+-' else '') + str(int(e.lstrip('+-')))
                s = a + str(r.choice(['e', 'E', 'D'])) + e
            if r.random() < 0.2 and s[0] not in '+-':
                s = '+' + s
            if r.random() < 0.2 and s.startswith('0.'):
                s = s[1:]
            if r.random() < 0.1 and style == 1:
                s = s + '.'
            want[i, j] = float(s.replace('D', 'e'))
            row.append(s)
        if free:
            sep = str(r.choice([' ', '  ', '\t', ' , ', ',']))
            lines.append(str(r.choice(['', ' '])) + sep.join(row) + str(r.choice(['', ' '])))
        else:
            lines.append(delim.join(row))
    path = case.tmp / 'Numbers.txt'
    path.write_text('\n'.join(lines) + '\n')
    src, comp = packed(case, path)
    cols = [f'c{j}' for j in range(k)]
    take = cols if r.random() < 0.7 else cols[:int(r.integers(1, k+1))]
    case.note(lines=lines, comp=comp, free=free)
    got = spatial.from_ascii(src, columns=take, delimiter=None if free else delim, compression=comp)
    for j, c in enumerate(take):
        case.close(got[c], want[:, j], 'ascii-numbers', rtol=1e-15, message=c)
    case.nontrivial('numbers', free, comp, k, len(take) == k)


DIMS = ('time', 'lon', 'lat', 'x', 'y')


def dataset(case, layout, r, floats=True):
    """output and attributes as the programs write them"""
    nt = int(r.integers(1, 9))
    nx, ny = int(r.integers(2, 9)), int(r.integers(2, 9))
    xn, yn = ('lon', 'lat') if r.random() < 0.5 else ('x', 'y')
    if layout == 'drift':
        shape, tx = (nt,), nt
        dims = {'time': nt, xn: nt, yn: nt}
    elif layout == 'grid':
        shape = (ny, nx, nt)
        dims = {'time': nt, xn: nx, yn: ny}
    else:
        nx = int(r.integers(1, 9))
        shape = (nx, nt)
        dims = {'time': nt, xn: nx, yn: nx}
    out, att = {}, {}
    for k, n in dims.items():
        out[k] = np.sort(r.normal(size=n))*1000
        att[k] = dict(units=text(r), long_name=text(r))
    att['time']['calendar'] = 'standard'
    names = list(r.choice(['tide_ocean', 'data', 'tide_earth', 'h', 'mask_'], size=int(r.integers(1, 4)), replace=False))
    for v in names:
        dt = r.choice(['f8', 'f4', 'i2', 'i4'])
        fill = np.dtype(dt).type(r.choice([-9999, 32000, 0]))
        if dt[0] == 'f' and r.random() < 0.3:
            fill = np.dtype(dt).type(np.nan)
        masked = r.random() < 0.7
        out[v] = field(r, shape, dt, fill, masked)
        att[v] = {a: text(r) for a in ('units', 'long_name', 'description', 'standard_name', 'source') if r.random() < 0.6}
        if masked:
            att[v]['_FillValue'] = fill
    if r.random() < 0.4:
        out['single'] = np.array(r.normal())
        att['single'] = dict(units='m')
    crs = None
    if r.random() < 0.4:
        import pyproj
        code = int(r.choice([4326, 3031, 3413, 6933]))
        crs = pyproj.CRS.from_epsg(code)
        out['crs'] = np.zeros((), dtype=np.byte)
        att['crs'] = dict(crs.to_cf())
        for v in names:
            att[v]['grid_mapping'] = 'crs'
    if r.random() < 0.6:
        att['ROOT'] = {a: text(r) for a in ('title', 'description', 'lineage') if r.random() < 0.7}
    return out, att, names, xn, yn, crs


def same_attribute(got, want):
    if isinstance(want, str):
        got = got.decode() if isinstance(got, bytes) else got
        return isinstance(got, str) and got == want
    try:
        return bool(np.array_equal(np.asarray(got, float), np.asarray(want, float), equal_nan=True))
    except (TypeError, ValueError):
        return False


def stored(case, kind, key, got, attrs, val, att, masked):
    """what an independent reader finds for a variable"""
    fill = att.get('_FillValue')
    if masked:
        # read without a mask: the fill value at invalid points
        want = np.ma.filled(val, fill) if fill is not None else np.ma.getdata(val)
        got = np.asarray(got)
        case.expect(got.dtype == val.dtype, kind + '-dtype', f'{key}: {got.dtype} for {val.dtype}')
        case.expect(got.shape == val.shape, kind + '-written', f'{key}: shape {got.shape} for {val.shape}')
        case.expect(np.array_equal(got, want, equal_nan=got.dtype.kind == 'f'), kind + '-written', f'{key}: {got} for {want}')
    for a, v in att.items():
        case.expect(a in attrs and same_attribute(attrs[a], v), kind + '-attributes', f'{key} {a}: {attrs.get(a)!r} for {v!r}')


def truth(v, att):
    """masked values expected of the readers for the data variable"""
    w = np.ma.array(v, copy=True)
    f = att.get('_FillValue')
    if f is not None:
        m = np.ma.getmaskarray(w) | (np.isnan(w.data) if f != f else (w.data == f))
        w = np.ma.array(w.data, mask=m)
    return w


def judge(case, kind, got, out, att, names, xn, yn, tn, var, crs, root):
    keys = dict(x=xn, y=yn)
    if tn:
        keys['time'] = tn
    if var:
        keys['data'] = var
    case.expect(sorted(k for k in got if k != 'attributes') == sorted(keys), kind + '-read', f'variables {sorted(got)} for {sorted(keys)}')
    for k, v in keys.items():
        w = truth(out[v], att[v]) if k == 'data' else out[v]
        case.close(got[k], w, kind + '-read', rtol=0, message=f'{k} ({v})')
        if k == 'data' and '_FillValue' in att[v]:
            case.expect(isinstance(got[k], np.ma.MaskedArray), kind + '-read', 'not a masked array')
            case.expect(same_attribute(got[k].fill_value, att[v]['_FillValue']), kind + '-fill', f'{got[k].fill_value!r} for {att[v]["_FillValue"]!r}')
        for a in ('description', 'units', 'long_name', 'calendar', 'standard_name', 'grid_mapping', '_FillValue'):
            if a in att[v]:
                case.expect(same_attribute(got['attributes'][k].get(a), att[v][a]), kind + '-read-attributes', f'{k} {a}: {got["attributes"][k].get(a)!r} for {att[v][a]!r}')
            elif a != '_FillValue':
                case.expect(a not in got['attributes'][k], kind + '-read-attributes', f'{k} has {a}')
    for a in ('title', 'description'):
        if a in root:
            case.expect(got['attributes'].get(a) == root[a], kind + '-read-attributes', f'{a}: {got["attributes"].get(a)!r} for {root[a]!r}')
    if crs is not None and var:
        case.expect(same_attribute(got['attributes']['crs']['crs_wkt'], crs.to_cf()['crs_wkt']), kind + '-crs', 'crs_wkt')
        import pyproj
        p = pyproj.CRS.from_user_input(got['attributes']['projection'])
        f = pyproj.Transformer.from_crs(4326, p, always_xy=True).transform(12.5, 61.5)
        g = pyproj.Transformer.from_crs(4326, crs, always_xy=True).transform(12.5, 61.5)
        case.close(f, g, kind + '-crs', rtol=1e-6, message='projection')


def reading(case, kind, reader, fmt, path, out, att, names, xn, yn, crs, root, group=None):
    """read by names or field mapping, and through the wrapper"""
    r = case.rng
    var = r.choice(names) if r.random() < 0.9 else None
    var = None if var is None else str(var)
    tn = 'time' if r.random() < 0.85 else None
    src, comp = packed(case, path)
    if comp == 'bytes' and kind == 'hdf5' and r.random() < 0.3:
        src = path.open('rb')
    kw = dict(compression=comp)
    if group:
        kw['group'] = group
    if r.random() < 0.5:
        kw.update(xname=xn, yname=yn, varname=var, timename=tn)
        for k, d in (('xname', 'lon'), ('yname', 'lat'), ('varname', 'data'), ('timename', 'time')):
            if kw[k] == d and r.random() < 0.5:
                kw.pop(k)
        fm = None
    else:
        lst = ['time', yn, xn] + ([var] if var else [])
        fm = spatial.default_field_mapping(lst)
        case.expect(fm == dict(zip(['time', 'y', 'x', 'data'], lst)), 'field-mapping', f'{fm}')
        case.expect(spatial.inverse_mapping(fm) == dict(zip(lst, ['time', 'y', 'x', 'data'])), 'field-mapping', f'{fm}')
        if tn is None:
            fm.pop('time')
        kw['field_mapping'] = fm
        fm = dict(fm)
    case.note(read=dict(kw), wrapper=fmt)
    got = reader(src, **kw) if r.random() < 0.5 else spatial.from_file(src, fmt, **kw)
    if hasattr(src, 'close'):
        src.close()
    if fm is not None:
        case.expect(kw['field_mapping'] == fm, 'field-mapping', 'reading altered the mapping')
    judge(case, kind, got, out, att, names, xn, yn, tn, var, crs, root)
    return comp


@check.scenario(quick=360, thorough=8000, floor=180)
def netcdf_files(case):
    import netCDF4
    r = case.rng
    layout = str(r.choice(['drift', 'grid', 'time series']))
    out, att, names, xn, yn, crs = dataset(case, layout, r)
    case.note(layout=layout, out=out, att=att)
    path = case.tmp / 'Tide_File.nc'
    append = len(names) > 1 and r.random() < 0.4
    first, second = dict(out), None
    if not append and r.random() < 0.3:
        append = True
        second = {k: v for k, v in out.items() if k in names or k == 'time' or r.random() < 0.5}
        first = {k: (v[..., ::-1] if k in second and k not in DIMS and v.ndim else v) for k, v in out.items()}
    elif append:
        # variables of a second correction go to the same file
        last = names[-1]
        second = {k: v for k, v in out.items() if k == last or (k in DIMS and r.random() < 0.5) or k == 'time'}
        first.pop(last)
        if layout != 'drift' and r.random() < 0.3:
            second['time'] = out['time']
    before = freeze((out, att))
    for i, o in enumerate([first, second][:1 + append]):
        a = {k: v for k, v in att.items() if k in o or k == 'ROOT'}
        kw = dict(data_type=layout)
        if layout == 'drift' and r.random() < 0.3:
            kw = {}
        if i:
            kw['mode'] = 'a'
        if r.random() < 0.5:
            spatial.to_netCDF4(o, a, path if r.random() < 0.5 else str(path), **kw)
        else:
            spatial.to_file(o, a, path, 'netCDF4', **kw)
    case.expect(freeze((out, att)) == before, 'netcdf-inputs', 'writing altered the data or attributes given')
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        case.expect(sorted(f.variables) == sorted(out), 'netcdf-variables', f'{sorted(f.variables)} for {sorted(out)}')
        for k, v in out.items():
            x = f.variables[k]
            stored(case, 'netcdf', k, x[...], {n: x.getncattr(n) for n in x.ncattrs()}, np.ma.asanyarray(v), att[k], True)
            d = dict(grid=('y', 'x', 'time')).get(layout)
            if d and v.ndim == 3:
                case.expect(x.dimensions == d, 'netcdf-dimensions', f'{k} {x.dimensions}')
            if layout == 'time series' and v.ndim == 2:
                case.expect(x.dimensions == ('station', 'time'), 'netcdf-dimensions', f'{k} {x.dimensions}')
        for a, v in att.get('ROOT', {}).items():
            case.expect(a in f.ncattrs() and f.getncattr(a) == v, 'netcdf-attributes', f'file {a}')
    comp = reading(case, 'netcdf', spatial.from_netCDF4, 'netCDF4', path, out, att, names, xn, yn, crs, att.get('ROOT', {}))
    case.nontrivial('netcdf', layout, append, comp, xn, crs is not None, sum(isinstance(out[v], np.ma.MaskedArray) for v in names))


@check.scenario(quick=200, thorough=4000, floor=100)
def foreign_files(case):
    """files of others: groups, packed values, attributes in other cases and none"""
    import h5py
    import netCDF4
    r = case.rng
    kind = str(r.choice(['netcdf', 'hdf5']))
    ny, nx, nt = map(int, r.integers(1, 7, size=3))
    group = str(r.choice(['ocean', 'a/b'])) if r.random() < 0.5 else None
    if group == 'a/b' and kind == 'netcdf':
        group = 'ocean'
    path = case.tmp / 'Other.File'
    out = dict(time=np.arange(nt)*1.5, lat=np.linspace(-3, 3, ny), lon=np.linspace(0, 9, nx))
    att = {k: dict(units=text(r)) if r.random() < 0.5 else {} for k in out}
    pack = kind == 'netcdf' and r.random() < 0.6
    att['data'] = {'long_name': text(r)}
    if r.random() < 0.5:
        # names that begin with those of the attributes looked for
        att['data']['units_of_scale'] = 'not this one'
        att['data']['long_name_abbreviation'] = 'nor this one'
    root = {a: text(r) for a in ('title', 'description') if r.random() < 0.6}
    raw = r.integers(-3000, 3000, size=(ny, nx, nt)).astype('i2')
    m = r.random(raw.shape) < 0.3
    if pack:
        s, o = float(r.choice([0.001, 0.01, 0.5])), float(r.choice([0.0, 1.5, -9.999]))
        raw[m] = -32768
        w = np.ma.array(raw*s + o, mask=m)
        fv = np.int16(-32768)
    else:
        w = field(r, raw.shape, 'f8', None, False)
        w = np.ma.array(np.ma.getdata(w), mask=m if r.random() < 0.6 else False)
        fv = float(r.choice([-1e34, np.nan, 0.25]))
        w.data[np.ma.getmaskarray(w)] = fv
    fillatt = pack or bool(np.ma.getmaskarray(w).any())
    if fillatt:
        att['data']['_FillValue'] = fv
    upper = kind == 'netcdf' and r.random() < 0.4
    case.note(kind=kind, group=group, pack=pack, att=att, shape=raw.shape, upper=upper)

    def nm(a):
        return a.upper() if upper and a != '_FillValue' else a
    if kind == 'netcdf':
        with netCDF4.Dataset(path, 'w') as f:
            g = f.createGroup(group) if group else f
            for d, n in (('lat', ny), ('lon', nx), ('time', nt)):
                g.createDimension(d, n)
                v = g.createVariable(d, 'f8', (d,))
                v[:] = out[d]
                for a, t in att[d].items():
                    v.setncattr(nm(a), t)
            v = g.createVariable('data', 'i2' if pack else 'f8', ('lat', 'lon', 'time'), fill_value=fv if fillatt else None)
            if pack:
                v.scale_factor, v.add_offset = s, o
                v.set_auto_maskandscale(False)
                v[:] = raw
            else:
                v[:] = w.data
            for a, t in att['data'].items():
                if a != '_FillValue':
                    v.setncattr(nm(a), t)
            for a, t in root.items():
                f.setncattr(nm(a), t)
        reader, fmt = spatial.from_netCDF4, 'netCDF4'
    else:
        with h5py.File(path, 'w') as f:
            g = f.create_group(group) if group else f
            for d in ('lat', 'lon', 'time'):
                g[d] = out[d]
                g[d].attrs.update(att[d])
            g['data'] = w.data
            g['data'].attrs.update(att['data'])
            f.attrs.update(root)
        reader, fmt = spatial.from_HDF5, 'HDF5'
    src, comp = packed(case, path)
    kw = dict(compression=comp, group=group) if group else dict(compression=comp)
    got = reader(src, **kw) if r.random() < 0.5 else spatial.from_file(src, fmt, **kw)
    if pack:
        case.close(got['data'], w, kind + '-read-packed', rtol=1e-12, atol=1e-12, message='data')
        for k in ('time', 'lat', 'lon'):
            case.close(got[dict(lat='y', lon='x').get(k, k)], out[k], kind + '-read', rtol=0, message=k)
    else:
        out['data'] = w
        judge(case, kind, got, out, {**att, 'data': {k: v for k, v in att['data'].items() if k in ('long_name', '_FillValue')}}, ['data'], 'lon', 'lat', 'time', 'data', None, root)
    case.nontrivial('foreign', kind, group, pack, comp, upper, fillatt)


@check.scenario(quick=360, thorough=8000, floor=180)
def hdf5_files(case):
    import h5py
    r = case.rng
    layout = str(r.choice(['drift', 'grid', 'time series']))
    out, att, names, xn, yn, crs = dataset(case, layout, r)
    case.note(layout=layout, out=out, att=att)
    path = case.tmp / 'Tide_File.h5'
    append = len(names) > 1 and r.random() < 0.4
    first, second = dict(out), None
    if not append and r.random() < 0.3:
        # written over: what is written last is what is there
        append = True
        second = {k: v for k, v in out.items() if k in names or r.random() < 0.5}
        first = {k: (v[..., ::-1] if k in second and k not in DIMS and v.ndim else v) for k, v in out.items()}
    elif append:
        last = names[-1]
        second = {k: v for k, v in out.items() if k == last or (k in DIMS and r.random() < 0.5)}
        first.pop(last)
    before = freeze((out, att))
    for i, o in enumerate([first, second][:1 + append]):
        a = {k: v for k, v in att.items() if k in o or k == 'ROOT'}
        kw = dict(mode='a') if i else {}
        if r.random() < 0.5:
            spatial.to_HDF5(o, a, path if r.random() < 0.5 else str(path), **kw)
        else:
            spatial.to_file(o, a, path, 'HDF5', **kw)
    case.expect(freeze((out, att)) == before, 'hdf5-inputs', 'writing altered the data or attributes given')
    with h5py.File(path) as f:
        case.expect(sorted(f) == sorted(out), 'hdf5-variables', f'{sorted(f)} for {sorted(out)}')
        for k, v in out.items():
            stored(case, 'hdf5', k, f[k][...], dict(f[k].attrs), np.ma.asanyarray(v), att[k], True)
        for a, v in att.get('ROOT', {}).items():
            case.expect(f.attrs.get(a) == v, 'hdf5-attributes', f'file {a}')
    comp = reading(case, 'hdf5', spatial.from_HDF5, 'HDF5', path, out, att, names, xn, yn, crs, att.get('ROOT', {}))
    case.nontrivial('hdf5', layout, append, comp, xn, crs is not None, sum(isinstance(out[v], np.ma.MaskedArray) for v in names))


@check.scenario(quick=300, thorough=6000, floor=150)
def geotiff_files(case):
    import pyproj
    from osgeo import gdal
    gdal.UseExceptions()
    r = case.rng
    ny, nx = int(r.integers(1, 40)), int(r.integers(1, 40))
    nb = int(r.choice([1, 1, 2, 5]))
    two = nb == 1 and r.random() < 0.5
    shape = (ny, nx) if two else (ny, nx, nb)
    gd, dt = [(gdal.GDT_Float64, 'f8'), (gdal.GDT_Float32, 'f4'), (gdal.GDT_Int16, 'i2'), (gdal.GDT_Int32, 'i4')][r.integers(4)]
    fill = float(r.choice([-9999.0, 0.0, 32000.0]))
    if dt == 'f8' and r.random() < 0.3:
        fill = float(r.choice([1e20, -9999.9, 1.7e308]))
    if dt[0] == 'f' and r.random() < 0.3:
        fill = np.nan
    fillatt = r.random() < 0.7
    v = field(r, shape, dt, np.dtype(dt).type(fill), fillatt)
    dx, dy = float(r.choice([0.1, 0.5, 1000.0, 12.5])), -float(r.choice([0.1, 0.25, 1000.0, 7.0]))
    x0, y0 = float(np.round(r.normal()*1000, 1)), float(np.round(r.normal()*1000, 1))
    epsg = int(r.choice([3031, 3413, 4326, 32633]))
    crs = pyproj.CRS.from_epsg(epsg)
    name = str(r.choice(['data', 'tide']))
    att = dict(extent=(x0, x0 + (nx-1)*dx, y0 + (ny-1)*dy, y0), spacing=(dx, dy), wkt=crs.to_wkt('WKT1_GDAL' if r.random() < 0.5 else 'WKT2_2019'))
    att[name] = dict(_FillValue=fill) if fillatt else {}
    out = {name: v, 'time': np.zeros(nb) if r.random() < 0.5 else 0.0}
    driver = str(r.choice(['GTiff', 'cog', 'COG']))
    case.note(shape=shape, dt=dt, fill=fill, fillatt=fillatt, dx=dx, dy=dy, x0=x0, y0=y0, driver=driver, epsg=epsg)
    path = case.tmp / 'Tide_Image.tif'
    kw = dict(varname=name, driver=driver)
    if dt != 'f8' or r.random() < 0.5:
        kw['dtype'] = gd
    before = freeze((out, att))
    if r.random() < 0.5:
        spatial.to_geotiff(out, att, path, **kw)
    else:
        spatial.to_file(out, att, str(path), 'GTiff' if driver == 'GTiff' else 'cog', **kw)
    case.expect(freeze((out, att)) == before, 'geotiff-inputs', 'writing altered the data or attributes given')
    v3 = np.ma.atleast_3d(np.ma.array(v)).reshape(ny, nx, nb)
    w3 = truth(v3, att[name]) if fillatt else np.ma.array(v3.data)
    # what is in the file
    ds = gdal.Open(str(path))
    case.expect((ds.GetMetadataItem('LAYOUT', 'IMAGE_STRUCTURE') == 'COG') == (driver != 'GTiff'), 'geotiff-layout', f"{ds.GetMetadataItem('LAYOUT', 'IMAGE_STRUCTURE')} for {driver}")
    case.expect((ds.RasterXSize, ds.RasterYSize, ds.RasterCount) == (nx, ny, nb), 'geotiff-written', 'size')
    case.close(ds.GetGeoTransform(), [x0, dx, 0, y0, 0, dy], 'geotiff-transform', rtol=1e-12, atol=1e-12)
    f = pyproj.Transformer.from_crs(4326, pyproj.CRS.from_wkt(ds.GetProjection()), always_xy=True).transform(15.5, 61.5)
    g = pyproj.Transformer.from_crs(4326, crs, always_xy=True).transform(15.5, 61.5)
    case.close(f, g, 'geotiff-crs', rtol=1e-9, message='crs of the file')
    for b in range(nb):
        band = ds.GetRasterBand(b+1)
        case.expect(band.DataType == kw.get('dtype', gdal.GDT_Float64), 'geotiff-dtype', f'{band.DataType}')
        nd = band.GetNoDataValue()
        case.expect((nd is not None) == fillatt and (nd is None or same_attribute(nd, fill)), 'geotiff-fill', f'{nd} for {fill if fillatt else None}')
        want = np.ma.filled(v3[:, :, b].astype('f8'), fill) if fillatt else v3.data[:, :, b]
        case.expect(np.array_equal(np.asarray(band.ReadAsArray(), 'f8'), np.asarray(want, 'f8'), equal_nan=True), 'geotiff-written', f'band {b}')
    ds = None
    # what is read
    src, comp = packed(case, path)
    bounds = None
    if r.random() < 0.5:
        # anywhere in the image
        bx = np.sort(r.uniform(x0, x0 + (nx-1e-6)*dx, 2))
        by = np.sort(r.uniform(y0 + (ny-1e-6)*dy, y0, 2))
        if r.random() < 0.3:
            i, j = np.sort(r.integers(0, nx, 2)), np.sort(r.integers(0, ny, 2))
            bx, by = x0 + (i+0.5)*dx, (y0 + (j+0.5)*dy)[::-1]
        if r.random() < 0.2:
            bx = np.array([att['extent'][0] - dx, att['extent'][1] + 3*dx])
        if r.random() < 0.2:
            by = np.array([y0 + ny*dy, y0])
        if r.random() < 0.2:
            # past the last row, from somewhere in the image
            by = np.array([y0 + (ny+2)*dy, by[1]])
        if r.random() < 0.1:
            bx = np.array([bx[0], x0 + (nx+4)*dx])
        bounds = [float(bx[0]), float(bx[1]), float(by[0]), float(by[1])]
    case.note(bounds=bounds, comp=comp)
    rk = dict(compression=comp) if bounds is None else dict(compression=comp, bounds=bounds)
    got = spatial.from_geotiff(src, **rk) if r.random() < 0.5 else spatial.from_file(src, str(r.choice(['GTiff', 'cog'])), **rk)
    x, y = x0 + (np.arange(nx)+0.5)*dx, y0 + (np.arange(ny)+0.5)*dy
    if bounds is None:
        ix, iy = np.arange(nx), np.arange(ny)
    else:
        ix = np.rint((np.atleast_1d(got['x']) - x[0])/dx).astype(int)
        iy = np.rint((np.atleast_1d(got['y']) - y[0])/dy).astype(int)
        ok = ix.size and iy.size and np.all(np.diff(ix) == 1) and np.all(np.diff(iy) == 1) and ix[0] >= 0 and iy[0] >= 0 and ix[-1] < nx and iy[-1] < ny
        if not case.expect(ok, 'geotiff-bounds', f'columns {ix} rows {iy}'):
            return
        # all pixels with their centers in the bounds, and none a pixel away
        tx, ty = 1e-6*dx, -1e-6*dy
        inx = np.flatnonzero((x > bounds[0]+tx) & (x < bounds[1]-tx))
        iny = np.flatnonzero((y > bounds[2]+ty) & (y < bounds[3]-ty))
        case.expect(set(inx) <= set(ix) and set(iny) <= set(iy), 'geotiff-bounds', f'columns {ix} rows {iy} do not hold {inx} and {iny}')
        case.expect(x[ix[0]] > bounds[0]-1.01*dx-tx and x[ix[-1]] < bounds[1]+1.01*dx+tx and y[iy[-1]] > bounds[2]+1.01*dy-ty and y[iy[0]] < bounds[3]-1.01*dy+ty,
            'geotiff-bounds', f'columns {ix} rows {iy} are too many')
    case.close(got['x'], x[ix], 'geotiff-read', rtol=1e-10, atol=1e-9*dx, message='x')
    case.close(got['y'], y[iy], 'geotiff-read', rtol=1e-10, atol=-1e-9*dy, message='y')
    w = np.ma.array(w3[iy][:, ix])
    w = w[:, :, 0] if nb == 1 else np.ma.array(np.moveaxis(w.data, 2, 0), mask=np.moveaxis(np.ma.getmaskarray(w), 2, 0))
    case.close(got['data'], w, 'geotiff-read', rtol=0, message='data')
    case.close(got['attributes']['spacing'], (dx, dy), 'geotiff-read', rtol=1e-12, message='spacing')
    case.close(got['attributes']['extent'], (x[ix[0]]-dx/2, x[ix[-1]]-dx/2, y[iy[-1]]-dy/2, y[iy[0]]-dy/2), 'geotiff-read', rtol=1e-10, atol=1e-9*dx, message='extent')
    p = pyproj.CRS.from_user_input(got['attributes']['wkt'])
    f = pyproj.Transformer.from_crs(4326, p, always_xy=True).transform(15.5, 61.5)
    g = pyproj.Transformer.from_crs(4326, crs, always_xy=True).transform(15.5, 61.5)
    case.close(f, g, 'geotiff-crs', rtol=1e-9, message='wkt')
    p = pyproj.CRS.from_user_input(got['attributes']['projection'])
    f = pyproj.Transformer.from_crs(4326, p, always_xy=True).transform(15.5, 61.5)
    case.close(f, g, 'geotiff-crs', rtol=1e-6, message='projection')
    # and written again
    if bounds is None and fillatt and nb == 1:
        a = dict(got['attributes'])
        spatial.to_geotiff(dict(data=got['data'], time=np.zeros(1)), a, case.tmp / 'again.tif')
        again = spatial.from_geotiff(case.tmp / 'again.tif')
        case.close(again['data'], got['data'], 'geotiff-again', rtol=0)
        case.close(again['x'], got['x'], 'geotiff-again', rtol=1e-12)
        case.close(again['y'], got['y'], 'geotiff-again', rtol=1e-12)
    case.nontrivial('geotiff', driver, nb, dt, fillatt, comp, bounds is not None)


@check.scenario(quick=240, thorough=5000, floor=120)
def parquet_files(case):
    import pandas as pd
    import pyarrow.parquet as pq
    import pyproj
    import shapely
    r = case.rng
    n = int(r.integers(1, 40))
    xn, yn = [('lon', 'lat'), ('x', 'y'), ('longitude', 'latitude')][r.integers(3)]
    var = str(r.choice(['data', 'tide_ocean']))
    out = {'time': r.normal(size=n)*1e4, yn: r.uniform(-90, 90, n), xn: r.uniform(-180, 360, n), var: np.ma.getdata(field(r, (n,), r.choice(['f8', 'f4', 'i4']), None, False))}
    if out[var].dtype.kind == 'f' and r.random() < 0.5:
        out[var][r.random(n) < 0.3] = np.nan
    if r.random() < 0.3:
        out['time'] = np.datetime64('2001-01-01', 'ms') + r.integers(0, 10**12, n).astype('m8[ms]')
    order = r.permutation(list(out))
    out = {str(k): out[k] for k in order}
    att = {k: dict(units=text(r), long_name=text(r)) for k in out}
    if r.random() < 0.5:
        att['ROOT'] = dict(title=text(r))
    geo = bool(r.random() < 0.5)
    kw = dict(geoparquet=geo)
    crs = None
    if r.random() < 0.6:
        crs = pyproj.CRS.from_epsg(int(r.choice([4326, 3031, 3413])))
        kw['crs'] = crs.to_epsg() if r.random() < 0.5 else crs.to_json_dict()
    pc = 'geometry'
    if geo and r.random() < 0.3:
        pc = kw['primary_column'] = 'where'
    if r.random() < 0.3:
        kw['compression'] = str(r.choice(['gzip', 'zstd', 'none']))
    if r.random() < 0.3:
        kw['index'] = bool(r.random() < 0.5)
    case.note(out=out, att=att, kw=kw)
    path = case.tmp / 'Tide_Table.parquet'
    before = freeze((out, att))
    if r.random() < 0.5:
        spatial.to_parquet(out, att, path, **kw)
    else:
        spatial.to_file(out, att, str(path), 'parquet', **kw)
    case.expect(freeze((out, att)) == before, 'parquet-inputs', 'writing altered the data or attributes given')
    # what is in the file
    table = pq.read_table(path)
    meta = {k.decode(): v for k, v in table.schema.metadata.items()}
    cols = [k for k in out if not (geo and k in (xn, yn))] + ([pc] if geo else [])
    have = [c for c in table.column_names if not c.startswith('__index')]
    case.expect(sorted(have) == sorted(cols), 'parquet-columns', f'{have} for {cols}')
    for k in cols:
        if k == pc and geo:
            p = shapely.from_wkb(table.column(k).to_numpy())
            case.close(shapely.get_x(p), out[xn], 'parquet-geometry', rtol=0)
            case.close(shapely.get_y(p), out[yn], 'parquet-geometry', rtol=0)
        else:
            g = table.column(k).to_pandas().values
            if out[k].dtype.kind == 'M':
                case.expect(np.array_equal(g.astype('M8[ms]'), out[k]), 'parquet-written', k)
            else:
                case.expect(g.dtype == out[k].dtype, 'parquet-dtype', f'{k}: {g.dtype} for {out[k].dtype}')
                case.close(g, out[k], 'parquet-written', rtol=0, message=k)
    tm = json.loads(meta['pyTMD'])
    for k, a in att.items():
        if not (geo and k in (xn, yn)):
            case.expect(tm.get(k) == a, 'parquet-attributes', f'{k}: {tm.get(k)} for {a}')
    if geo:
        gm = json.loads(meta['geo'])
        c = gm['columns'][gm['primary_column']]
        case.expect(gm['primary_column'] == pc and c['encoding'] == 'WKB', 'parquet-geometry', f'{gm}')
        case.close(c['bbox'], [out[xn].min(), out[yn].min(), out[xn].max(), out[yn].max()], 'parquet-geometry', rtol=0, message='bbox')
        case.expect((c['crs'] is None) == (crs is None), 'parquet-crs', f'{c["crs"]}')
        if crs is not None:
            case.expect(pyproj.CRS.from_json_dict(c['crs']).equals(crs, ignore_axis_order=True), 'parquet-crs', f'{c["crs"]}')
    # what is read
    rk = {}
    names = {k: k for k in out}
    if r.random() < 0.5:
        rk['columns'] = ['time', yn, xn, var]
        names.update({yn: 'y', xn: 'x', var: 'data'})
    if geo:
        names.update({xn: 'x', yn: 'y'})
    src = rename(case, path)
    got = spatial.from_parquet(src, **rk) if r.random() < 0.5 else spatial.from_file(src, 'parquet', **rk)
    for k, w in out.items():
        if not case.expect(names[k] in got, 'parquet-read', f'no {names[k]} in {list(got)}'):
            continue
        g = got[names[k]].values
        if w.dtype.kind == 'M':
            case.expect(np.array_equal(g.astype('M8[ms]'), w), 'parquet-read', k)
        else:
            case.close(g, w, 'parquet-read', rtol=0, message=k)
    case.expect(got.attrs['geoparquet'] == geo, 'parquet-read', f'geoparquet {got.attrs["geoparquet"]}')
    if crs is not None:
        f = pyproj.Transformer.from_crs(4326, pyproj.CRS.from_user_input(got.attrs['projection']), always_xy=True).transform(15.5, 61.5)
        g = pyproj.Transformer.from_crs(4326, crs, always_xy=True).transform(15.5, 61.5)
        case.close(f, g, 'parquet-crs', rtol=1e-6, message='projection')
    # tables of others, indexed by time
    if r.random() < 0.3:
        df = pd.DataFrame({k: v for k, v in out.items() if k != 'time'}, index=pd.Index(out['time'], name=[None, 'time', 'when'][int(r.integers(3))]))
        df.to_parquet(case.tmp / 'other.parquet')
        got = spatial.from_parquet(case.tmp / 'other.parquet')
        case.expect('time' in got and np.array_equal(got['time'].values.astype(out['time'].dtype), out['time']), 'parquet-index', f'{list(got)}')
        case.close(got[var].values, out[var], 'parquet-index', rtol=0)
    case.nontrivial('parquet', geo, xn, crs is not None, kw.get('index'), kw.get('compression'), 'columns' in rk)


@check.scenario(quick=100, thorough=1000, floor=50)
def missing(case):
    """files that do not exist, formats that are not known, and types of data"""
    r = case.rng
    for fmt in ('ascii', 'netCDF4', 'HDF5', 'GTiff', 'cog', 'parquet'):
        (case.tmp / 'other.nc').write_text('x')
        case.raises(Exception, 'missing-file', spatial.from_file, case.tmp / 'none.nc', fmt)
    case.raises(FileNotFoundError, 'missing-file', spatial.case_insensitive_filename, case.tmp / 'ther.nc')
    case.raises(ValueError, 'invalid-format', spatial.from_file, case.tmp / 'other.nc', 'text')
    case.raises(ValueError, 'invalid-format', spatial.to_file, {}, {}, case.tmp / 'o.nc', 'text')
    nx, ny, nt = map(int, r.integers(1, 6, 3))
    x, y, t = np.zeros(nx), np.zeros(ny), np.zeros(nt)
    # names in any case, with or without an ending
    q = case.tmp / str(r.choice(['h_TPXO', 'K1', 'Load.m2.Grd', 'grid']))
    q.write_text('x')
    for name in (q.name, q.name.upper(), q.name.lower(), q.name.swapcase()):
        ok, g = case.quietly('file-case', spatial.case_insensitive_filename, case.tmp/name if r.random() < 0.5 else str(case.tmp/name))
        if ok:
            case.expect(g == q or g.name == name and g.exists(), 'file-case', f'{name}: {g}')
    if nx == ny == 1:
        w = 'time series'
    elif nx == ny == nt:
        w = 'drift'
    elif nx != ny:
        w = 'grid'
    else:
        w = None
    if w is None:
        case.raises(ValueError, 'data-type', spatial.data_type, x, y, t)
        w = 'grid'
        x, y = np.zeros((nx, 2)), np.zeros((nx, 2))
        if 2*nx == nt:
            return
    case.expect(spatial.data_type(x, y, t) == w, 'data-type', f'{np.shape(x)} {np.shape(y)} {np.shape(t)}: {spatial.data_type(x, y, t)} for {w}')
    o = dict(time=0.0, a=np.arange(nx), b=np.zeros((nx, ny)), c=np.zeros((nx, ny, nt)))
    e = spatial.expand_dims(dict(o), varname=['a', 'b', 'c'])
    case.expect(np.shape(e['time']) == (1,) and np.shape(e['b']) == (nx, ny, 1) and np.shape(e['c']) == (nx, ny, nt) and np.ndim(e['a']) == 3, 'expand-dims', 'shapes')
    case.nontrivial('missing', w, nx == 1, ny == 1, nt == 1)
