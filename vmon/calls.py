"""calls.py -- computations of pyTMD, each with arguments drawn from a generator

draw(name, seed, tmp) gives (function, arguments, keywords) for one call of a
public function.  The same name and seed give the same call in any process, so
that results of one process can be compared with those of another.  Files are
made below `tmp`, under names that other calls of the same function use too.
"""
import copy
import json
import pathlib
import shutil
import zlib
import numpy as np
from vmon import synth, computing

CALLS = {}
FILES = set()


def call(fn):
    CALLS[fn.__name__] = fn
    return fn


def files(fn):
    """calls that read netCDF or HDF5 files: not made from several threads"""
    FILES.add(fn.__name__)
    return call(fn)


def draw(name, seed, tmp):
    r = np.random.default_rng([seed, zlib.crc32(name.encode())])
    tmp = pathlib.Path(tmp)/name
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    out = CALLS[name](r, tmp)
    return out if len(out) == 3 else (*out, {})


def plain(v, depth=0):
    """arrays, numbers and texts of what a call gave, to be compared and sent"""
    if isinstance(v, np.ma.MaskedArray):
        m = np.ma.getmaskarray(v)
        return ('masked', str(v.dtype), np.where(m, np.zeros((), v.dtype), v.data) if v.dtype.kind in 'fciu' else np.array(v.data), np.array(m))
    if isinstance(v, np.ndarray):
        return ('array', str(v.dtype), np.array(v))
    if isinstance(v, np.generic):
        return ('array', str(v.dtype), np.array(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [plain(i, depth+1) for i in v])
    if isinstance(v, dict):
        return ('dict', [(str(k), plain(i, depth+1)) for k, i in v.items()])
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, pathlib.PurePath):
        return ('path', str(v))
    if depth > 5 or not hasattr(v, '__dict__'):
        return ('object', type(v).__name__)
    return ('object', type(v).__name__, plain(dict(vars(v)), depth+1))


def same(a, b, tol=1e-11):
    """whether two results agree (the last bits of floating point numbers aside)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in 'fc':
            return bool(np.array_equal(a, b))
        bad = np.isnan(a) != np.isnan(b)
        if bad.any():
            return False
        with np.errstate(all='ignore'):
            x, y = np.nan_to_num(a.ravel()), np.nan_to_num(b.ravel())
            scale = np.abs(x).max(initial=0.0)
            t = tol if a.dtype.itemsize > (4 if a.dtype.kind == 'f' else 8) else 1e-5
            return bool(np.all((x == y) | (np.abs(x - y) <= t*scale)))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    if isinstance(a, (float, complex)):
        return a == b or abs(a - b) <= tol*abs(a)
    return a == b


def run(fn, args, kw):
    """what a call gives: its value or the class and text of its exception"""
    try:
        return ('value', plain(fn(*args, **kw)))
    except Exception as exc:
        return ('raised', type(exc).__name__, str(exc)[:200])


def frozen(v):
    return plain(v)


# ---------------------------------------------------------------- arguments
CONS = ['2n2', 'j1', 'k1', 'k2', 'l2', 'lambda2', 'm1', 'm2', 'm3', 'm4', 'm6', 'm8', 'mf', 'mk3', 'mks2', 'mm', 'mn4', 'ms4', 'msf', 'mtm',
    'mu2', 'n2', 'nu2', 'o1', 'oo1', 'p1', 'q1', 'r2', 's1', 's2', 's4', 'sa', 'ssa', 't2', 'eps2', 'sigma1', 'phi1', 'chi1', 'tau1']
CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']


def mjd(r, n=None):
    n = int(r.integers(1, 12)) if n is None else n
    return np.array(r.uniform(45000, 62000) + np.sort(r.uniform(0, 400, n)))


def cons(r, n=None, pool=CONS):
    n = int(r.integers(1, 12)) if n is None else n
    return [str(c) for c in r.permutation(pool)[:n]]


def constants_of(r, npts, nc):
    z = r.normal(size=(npts, nc)) + 1j*r.normal(size=(npts, nc))
    return np.ma.array(z, mask=r.random((npts, nc)) < (0.1 if r.random() < 0.5 else 0))


@call
def arguments(r, tmp):
    import pyTMD.arguments as A
    t = mjd(r)
    return A.arguments, (t, cons(r)), dict(deltat=r.uniform(0, 1e-3, len(t)), corrections=str(r.choice(CORR)))


@call
def minor_arguments(r, tmp):
    import pyTMD.arguments as A
    t = mjd(r)
    return A.minor_arguments, (t,), dict(deltat=r.uniform(0, 1e-3, len(t)), corrections=str(r.choice(CORR)))


@call
def coefficients_table(r, tmp):
    import pyTMD.arguments as A
    return A.coefficients_table, (cons(r),), dict(corrections=str(r.choice(CORR)))


@call
def doodson_number(r, tmp):
    import pyTMD.arguments as A
    return A.doodson_number, (cons(r) if r.random() < 0.6 else str(r.choice(CONS)),), \
        dict(corrections=str(r.choice(CORR)), formalism=str(r.choice(['Cartwright', 'Doodson', 'Extended'])))


@call
def nodal(r, tmp):
    import pyTMD.arguments as A
    n = int(r.integers(1, 8))
    return A.nodal, (r.uniform(0, 360, n), r.uniform(0, 360, n), cons(r)), \
        dict(corrections=str(r.choice(CORR)), M1=str(r.choice(['Doodson', 'Ray', 'perth5'])))


@call
def frequency(r, tmp):
    import pyTMD.arguments as A
    return A.frequency, (cons(r),), dict(corrections=str(r.choice(CORR)))


@call
def aliasing_period(r, tmp):
    import pyTMD.arguments as A
    return A.aliasing_period, (cons(r), float(r.uniform(3600, 9e5))), dict(corrections=str(r.choice(CORR)))


@call
def minor_table(r, tmp):
    import pyTMD.arguments as A
    if not hasattr(A, '_minor_table'):
        return len, ([],)
    return A._minor_table, (), {}


@call
def constituent_parameters(r, tmp):
    import pyTMD.arguments as A
    if not hasattr(A, '_constituent_parameters'):
        return len, ([],)
    return A._constituent_parameters, (str(r.choice(CONS)),)


@call
def love_numbers(r, tmp):
    import pyTMD.arguments as A
    if not hasattr(A, '_love_numbers'):
        return len, ([],)
    return A._love_numbers, (float(r.uniform(5e-5, 1.6e-4)),), dict(model=str(r.choice(['1066A', 'PEM-C', 'C2', 'PREM'])))


@call
def mean_longitudes(r, tmp):
    import pyTMD.astro as A
    return A.mean_longitudes, (mjd(r),), [{}, dict(MEEUS=True), dict(ASTRO5=True)][int(r.integers(3))]


@call
def doodson_arguments(r, tmp):
    import pyTMD.astro as A
    return A.doodson_arguments, (mjd(r),), dict(equinox=bool(r.random() < 0.5), apply_correction=bool(r.random() < 0.5))


@call
def delaunay_arguments(r, tmp):
    import pyTMD.astro as A
    return A.delaunay_arguments, (mjd(r),)


@call
def solar_ecef(r, tmp):
    import pyTMD.astro as A
    return A.solar_ecef, (mjd(r),), dict(ephemerides='approximate')


@call
def lunar_ecef(r, tmp):
    import pyTMD.astro as A
    return A.lunar_ecef, (mjd(r),), dict(ephemerides='approximate')


@call
def itrs(r, tmp):
    import pyTMD.astro as A
    return A.itrs, (r.uniform(-0.3, 0.3, int(r.integers(1, 6))),)


@call
def gast(r, tmp):
    import pyTMD.astro as A
    return A.gast, (r.uniform(-0.3, 0.3, int(r.integers(1, 6))),)


def prediction(r, npts, nt):
    c = cons(r, int(r.integers(6, 12)), ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', 'mf', 'mm', '2n2', 'm4', 's1'])
    return r.uniform(0, 12000, nt), constants_of(r, npts, len(c)), c, float(r.uniform(0, 1e-3)), str(r.choice(CORR))


@call
def predict_map(r, tmp):
    import pyTMD.predict as P
    t, hc, c, dt, k = prediction(r, int(r.integers(1, 9)), 1)
    return P.map, (float(t[0]) if r.random() < 0.5 else t, hc, c), dict(deltat=dt, corrections=k)


@call
def predict_drift(r, tmp):
    import pyTMD.predict as P
    n = int(r.integers(1, 9))
    t, hc, c, dt, k = prediction(r, n, n)
    return P.drift, (t, hc, c), dict(deltat=dt if r.random() < 0.5 else np.full(n, dt), corrections=k)


@call
def predict_time_series(r, tmp):
    import pyTMD.predict as P
    n = int(r.integers(1, 9))
    t, hc, c, dt, k = prediction(r, 1, n)
    return P.time_series, (t, hc, c), dict(deltat=dt if r.random() < 0.5 else np.full(n, dt), corrections=k)


@call
def infer_minor(r, tmp):
    import pyTMD.predict as P
    n = int(r.integers(1, 9))
    t, hc, c, dt, k = prediction(r, n, n)
    c = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2', 'mf', 'mm'][:hc.shape[1]]
    hc = hc[:, :len(c)]
    return P.infer_minor, (t, hc, c), dict(deltat=dt, corrections=k)


@call
def equilibrium_tide(r, tmp):
    import pyTMD.predict as P
    n = int(r.integers(1, 9))
    return P.equilibrium_tide, (r.uniform(0, 12000, n), r.uniform(-90, 90, n)), dict(deltat=float(r.uniform(0, 1e-3)))


def sites(r, n):
    import pyTMD.spatial as S
    return np.c_[S.to_cartesian(r.uniform(-180, 180, n), r.uniform(-90, 90, n))]


@call
def load_pole_tide(r, tmp):
    import pyTMD.predict as P
    n = int(r.integers(1, 9))
    return P.load_pole_tide, (r.uniform(500, 11000, n), sites(r, n)), dict(convention=str(r.choice(['2003', '2010', '2015', '2018'])))


@call
def ocean_pole_tide(r, tmp):
    import pyTMD.predict as P
    n = int(r.integers(1, 9))
    return P.ocean_pole_tide, (r.uniform(500, 11000, n), sites(r, n), r.normal(size=(n, 3)) + 1j*r.normal(size=(n, 3)),), \
        dict(convention=str(r.choice(['2010', '2015', '2018'])))


@call
def solid_earth_tide(r, tmp):
    import pyTMD.predict as P
    import pyTMD.astro as A
    n = int(r.integers(1, 6))
    t = r.uniform(0, 12000, n)
    S, L = [np.c_[f(t + 48622.0, ephemerides='approximate')] for f in (A.solar_ecef, A.lunar_ecef)]
    return P.solid_earth_tide, (t, sites(r, n), S, L), dict(tide_system=str(r.choice(['tide_free', 'mean_tide'])))


@call
def solve(r, tmp):
    import pyTMD.solve
    c = cons(r, 3, ['m2', 's2', 'o1', 'k1', 'n2'])
    t = r.uniform(0, 10000) + np.arange(0, 60, 0.25)
    h = sum(r.uniform(0.2, 2)*np.cos(2*np.pi*t/p + r.uniform(0, 6)) for p in (0.5175, 0.9973, 1.0758))
    return pyTMD.solve.constants, (t, h, c), dict(corrections=str(r.choice(CORR)))


@call
def ellipse(r, tmp):
    import pyTMD.ellipse
    n = int(r.integers(1, 9))
    return pyTMD.ellipse.ellipse, (r.normal(size=n) + 1j*r.normal(size=n), r.normal(size=n) + 1j*r.normal(size=n))


@call
def inverse_ellipse(r, tmp):
    import pyTMD.ellipse
    n = int(r.integers(1, 9))
    return pyTMD.ellipse.inverse, (r.uniform(1, 2, n), r.uniform(-1, 1, n), r.uniform(0, 180, n), r.uniform(0, 360, n))


def field(r):
    nx, ny = int(r.integers(6, 20)), int(r.integers(6, 20))
    x, y = r.uniform(-50, 50) + np.arange(nx)*0.5, r.uniform(-50, 20) + np.arange(ny)*0.25
    z = np.ma.array(r.normal(size=(ny, nx)) + (1j*r.normal(size=(ny, nx)) if r.random() < 0.5 else 0), mask=r.random((ny, nx)) < 0.1)
    z.data[z.mask] = np.nan
    z.fill_value = np.nan
    n = int(r.integers(1, 12))
    return x, y, z, r.uniform(x[0], x[-1], n), r.uniform(y[0], y[-1], n)


@call
def interpolate_bilinear(r, tmp):
    import pyTMD.interpolate as I
    a = field(r)
    return I.bilinear, a, dict(dtype=a[2].dtype)


@call
def interpolate_spline(r, tmp):
    import pyTMD.interpolate as I
    x, y, z, lon, lat = field(r)
    z = np.ma.array(np.nan_to_num(z.data), mask=z.mask)
    return I.spline, (x, y, z, lon, lat), dict(dtype=z.dtype, kx=1, ky=1)


@call
def interpolate_regulargrid(r, tmp):
    import pyTMD.interpolate as I
    a = field(r)
    return I.regulargrid, a, dict(dtype=a[2].dtype, method=str(r.choice(['linear', 'nearest'])), bounds_error=False)


@call
def interpolate_extrapolate(r, tmp):
    import pyTMD.interpolate as I
    a = field(r)
    return I.extrapolate, a, dict(dtype=a[2].dtype, cutoff=float(r.choice([np.inf, 200.0, 50.0])), is_geographic=bool(r.random() < 0.5))


@call
def legendre(r, tmp):
    import pyTMD.math as M
    l = int(r.integers(1, 4))
    return M.legendre, (l, r.uniform(-1, 1, 5)), dict(m=int(r.integers(0, l+1)))


@call
def sph_harm(r, tmp):
    import pyTMD.math as M
    l = int(r.integers(1, 4))
    return M.sph_harm, (l, r.uniform(0, np.pi, 5), r.uniform(0, 6, 5)), dict(m=int(r.integers(0, l+1)))


@call
def assoc_legendre(r, tmp):
    import pyTMD.math as M
    return M.assoc_legendre, (int(r.integers(2, 12)), r.uniform(-1, 1, 4))


@call
def rotate(r, tmp):
    import pyTMD.math as M
    return M.rotate, (r.uniform(0, 6, 3), str(r.choice(['x', 'y', 'z'])))


@call
def to_geodetic(r, tmp):
    import pyTMD.spatial as S
    x, y, z = sites(r, int(r.integers(1, 9))).T
    return S.to_geodetic, (x, y, z), dict(method=str(r.choice(['bowring', 'moritz', 'zhu'])))


@call
def convert_ellipsoid(r, tmp):
    import pyTMD.spatial as S
    n = int(r.integers(1, 9))
    e = [(6378137.0, 1/298.257223563), (6378136.3, 1/298.257)]
    i = int(r.integers(2))
    return S.convert_ellipsoid, (r.uniform(-90, 90, n), r.uniform(-100, 3000, n), *e[i], *e[1-i])


@call
def to_ENU(r, tmp):
    import pyTMD.spatial as S
    n = int(r.integers(1, 9))
    x, y, z = sites(r, n).T
    return S.to_ENU, (x, y, z), dict(lon0=float(r.uniform(-180, 180)), lat0=float(r.uniform(-90, 90)))


@call
def scale_factors(r, tmp):
    import pyTMD.spatial as S
    return S.scale_factors, (r.choice([-1, 1])*r.uniform(50, 90, 5),), dict(metric=str(r.choice(['area', 'distance'])), reference_latitude=float(r.choice([70, 71])))


@call
def crs_convert(r, tmp):
    import pyTMD
    n = int(r.integers(1, 9))
    p = str(r.choice(['3031', 'EPSG:3976', '3413', '4326', '+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=-70 +datum=WGS84 +units=km']))
    lat = r.uniform(-89, -60, n) if p != '3413' else r.uniform(60, 89, n)

    def convert(lon, lat, p, d):
        return pyTMD.crs().convert(lon, lat, p, d)
    d = str(r.choice(['F', 'B'])) if p == '4326' else 'F'
    return convert, (r.uniform(-180, 180, n), lat, p, d)


@call
def datum(r, tmp):
    import pyTMD

    def get(name, units):
        d = pyTMD.datum(ellipsoid=name, units=units)
        return [float(getattr(d, k)) for k in ('a_axis', 'flat', 'b_axis', 'ecc', 'rad_e', 'gamma', 'omega', 'GM')]
    return get, (str(r.choice(['CLK66', 'GRS80', 'GRS67', 'WGS72', 'WGS84', 'ATS77', 'NAD27', 'NAD83', 'INTER', 'KRASS', 'MAIRY', 'TOPEX', 'EGM96', 'HGH80', 'IERS'])),
        str(r.choice(['MKS', 'CGS'])))


# ---------------------------------------------------------------- models
def reading(r, tmp, name):
    m = synth.FORMATS[name](r, tmp)
    n = int(r.integers(2, 10))
    px, py = synth.points(r, m.grid, n)
    lon, lat = m.grid.lonlat(px, py)
    t = str(r.choice(m.types))
    method = str(r.choice(['spline', 'linear', 'nearest', 'bilinear']))
    kw = dict(type=t, method=method)
    if r.random() < 0.3:
        kw.update(extrapolate=True, cutoff=float(r.choice([10, 500, np.inf])))
    return m, np.array(lon, float), np.array(lat, float), kw


def _extract(name):
    def build(r, tmp):
        m, lon, lat, kw = reading(r, tmp, name)
        return m.extract, (lon, lat), kw
    build.__name__ = 'extract_'+name
    (call if name == 'OTIS' else files)(build)


def _memory(name):
    def build(r, tmp):
        m, lon, lat, kw = reading(r, tmp, name)

        def both(lon, lat, t, method):
            c = m.read(type=t)
            a = m.interp(lon, lat, c, type=t, method=method)
            b = m.interp(lon[::-1], lat[::-1], c, type=t, method=method)
            return a, b
        return both, (lon, lat, kw['type'], kw['method'])
    build.__name__ = 'memory_'+name
    (call if name == 'OTIS' else files)(build)


for _n in ('OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES'):
    _extract(_n)
    _memory(_n)


def computed(r, tmp, name, want='z'):
    m = synth.FORMATS[name](r, tmp)
    p = tmp/'definition.json'
    p.write_text(json.dumps(m.definition(want)))
    n = int(r.integers(2, 8))
    px, py = synth.points(r, m.grid, n)
    lon, lat = m.grid.lonlat(px, py)
    d, tk, days = computing.times(r, n)
    return p, np.array(lon, float), np.array(lat, float), d, tk


def _compute(name):
    def build(r, tmp):
        import pyTMD.compute
        p, lon, lat, d, tk = computed(r, tmp, name)
        kw = dict(DEFINITION_FILE=p, EPSG=4326, TYPE='drift', METHOD=str(r.choice(['spline', 'linear', 'nearest'])), INFER_MINOR=False, **tk)
        if r.random() < 0.3:
            kw.update(EXTRAPOLATE=True, CUTOFF=100.0)
        return pyTMD.compute.tide_elevations, (lon, lat, d), kw
    build.__name__ = 'elevations_'+name
    (call if name == 'OTIS' else files)(build)


for _n in ('OTIS', 'ATLAS', 'GOT', 'FES'):
    _compute(_n)


@call
def currents(r, tmp):
    import pyTMD.compute
    p, lon, lat, d, tk = computed(r, tmp, 'OTIS', 'u')
    return pyTMD.compute.tide_currents, (lon, lat, d), dict(DEFINITION_FILE=p, EPSG=4326, TYPE='drift', METHOD='spline', INFER_MINOR=False, **tk)


@call
def masks(r, tmp):
    import pyTMD.compute
    p, lon, lat, d, tk = computed(r, tmp, 'OTIS')
    return pyTMD.compute.tide_masks, (lon, lat), dict(DEFINITION_FILE=p, EPSG=4326)


def placed(r):
    n = int(r.integers(2, 8))
    crs = str(r.choice(['4326', '3031', '3413']))
    lat = r.uniform(-88, -60, n) if crs == '3031' else r.uniform(60, 88, n) if crs == '3413' else r.uniform(-88, 88, n)
    x, y = computing.to_xy(crs, r.uniform(-179, 179, n), lat)
    d, tk, days = computing.times(r, n)
    return np.array(x, float), np.array(y, float), d, dict(EPSG=int(crs), TYPE='drift', **tk)


@call
def lpet(r, tmp):
    import pyTMD.compute
    x, y, d, kw = placed(r)
    return pyTMD.compute.LPET_elevations, (x, y, d), kw


@call
def lpt(r, tmp):
    import pyTMD.compute
    x, y, d, kw = placed(r)
    return pyTMD.compute.LPT_displacements, (x, y, d), dict(kw, CONVENTION=str(r.choice(['2003', '2010', '2015', '2018'])))


@call
def set_displacements(r, tmp):
    import pyTMD.compute
    x, y, d, kw = placed(r)
    return pyTMD.compute.SET_displacements, (x, y, d), dict(kw, TIDE_SYSTEM=str(r.choice(['tide_free', 'mean_tide'])))


@call
def model_database(r, tmp):
    import pyTMD.io
    t, n = ('elevation', str(r.choice(['GOT4.10', 'FES2014', 'EOT20', 'TPXO9-atlas-v5', 'CATS2008', 'TPXO9-atlas-nc', 'HAMTIDE11', 'GOT5.5_load']))) if r.random() < 0.6 else \
        ('current', str(r.choice(['FES2014', 'TPXO9-atlas-v5', 'CATS2008', 'TPXO9-atlas-v5-nc', 'HAMTIDE11'])))
    z = bool(r.random() < 0.4)

    def get(t, n, z):
        m = getattr(pyTMD.io.model('/somewhere', compressed=z, verify=False), t)(n)
        return {k: v for k, v in vars(m).items() if not k.startswith('_')}
    return get, (t, n, z)


@call
def model_lists(r, tmp):
    import pyTMD.io

    def get():
        m = pyTMD.io.model
        return [getattr(m, k)() for k in ('ocean_elevation', 'load_elevation', 'ocean_current', 'formats', 'ATLAS', 'FES', 'GOT', 'OTIS') if callable(getattr(m, k, None))]
    return get, ()


@files
def written(r, tmp):
    import pyTMD.spatial as S
    n = int(r.integers(2, 8))
    fmt = str(r.choice(['netCDF4', 'HDF5']))
    out = dict(time=r.uniform(0, 9000, n), lon=r.uniform(-180, 180, n), lat=r.uniform(-90, 90, n), tide=r.normal(size=n))
    at = {k: dict(units='1', long_name=k) for k in out}
    at['ROOT'] = dict(title='x')

    def there_and_back(out, at, p):
        S.to_file(out, at, p, format=fmt)
        got = S.from_file(p, fmt, timename='time', xname='lon', yname='lat', varname='tide')
        return {k: got[k] for k in ('time', 'x', 'y', 'data')}
    return there_and_back, (out, at, tmp/'file')
