"""S01: geodetic, Cartesian, spherical and local coordinates"""
import numpy as np
import pyproj
import pyTMD.spatial as spatial
from vmon.core import Check
from vmon import gen

check = Check('S01', 'Coordinate conversions describe the same point',
    'a case counts when converted points were compared; key = conversion, method, ellipsoid, shape',
    ['the closed forms are evaluated here in long double'])

ELL = [('WGS84', 6378137.0, 1/298.257223563), ('TOPEX', 6378136.3, 1/298.257), ('CLK66', 6378206.4, 1/294.9786982),
    ('INTER', 6378388.0, 1/297.0), ('KRASS', 6378245.0, 1/298.3)]
LD = np.longdouble


def cart(lon, lat, h, a, f):
    d = np.pi/LD(180)
    lon, lat, h = [np.asarray(v, dtype=LD) for v in (lon, lat, h)]
    a, f = LD(a), LD(f)
    e2 = 2*f - f*f
    s, c = np.sin(lat*d), np.cos(lat*d)
    N = a/np.sqrt(1 - e2*s*s)
    return (N+h)*c*np.cos(lon*d), (N+h)*c*np.sin(lon*d), (N*(1-e2)+h)*s


def geodetic(r, n):
    lon = r.uniform(-180, 360, n)
    lat = r.uniform(-90, 90, n)
    special = np.array([0.0, 90.0, -90.0, 45.0, -45.0, 45.0962, 89.9999999, 1e-9, -89.99])
    k = r.random(n) < 0.25
    lat[k] = r.choice(special, int(k.sum()))
    k = r.random(n) < 0.1
    lon[k] = r.choice([0.0, 180.0, -180.0, 90.0, 270.0, 360.0], int(k.sum()))
    h = r.uniform(-1e4, 1e4, n)
    k = r.random(n)
    h[k < 0.15] = 0.0
    far = k > 0.85
    h[far] = 10**r.uniform(4, 8.6, int(far.sum()))
    return lon, lat, h


def shaped(r, *v):
    """the same values as scalars, vectors or matrices"""
    n = v[0].size
    k = int(r.integers(0, 4))
    if k == 0:
        return ('scalar',) + tuple(float(x[0]) for x in v)
    if k == 1 and n % 2 == 0:
        return ('matrix',) + tuple(x.reshape(2, -1) for x in v)
    return ('vector',) + tuple(gen.dress(r, x, 0.2) for x in v)


def flat(*v):
    return [np.asarray(x, dtype=float) for x in v]


@check.scenario(quick=2400, thorough=60000, floor=1200)
def cartesian(case):
    r = case.rng
    name, a, f = ELL[int(r.integers(0, len(ELL)))]
    lon, lat, h = geodetic(r, gen.size(r, 1, 20))
    kind, lon, lat, h = shaped(r, lon, lat, h)
    kw = {} if name == 'WGS84' else dict(a_axis=a, flat=f)
    if r.random() < 0.1:
        h, kw['flat'], f = 0.0, 0.0, 0.0
    mix = r.random()
    if kind == 'vector' and mix < 0.2:
        # one longitude, latitude or height for all points
        k = int(r.integers(0, 3))
        if k == 0:
            lon = float(lon[0])
        elif k == 1:
            lat = float(lat[0])
        elif np.ndim(h):
            h = float(h[0])
        kind = f'mixed{k}'
    if r.random() < 0.1 and kind == 'vector':
        lon, lat = lon.astype(int), lat.astype(int)
    case.note(lon=lon, lat=lat, h=h, **kw)
    keep = [np.copy(v) for v in (lon, lat, h)]
    ok, got = case.quietly('cartesian', spatial.to_cartesian, lon, lat, h, **kw)
    if not ok:
        return
    want = cart(lon, lat, h, a if 'a_axis' in kw else ELL[0][1], f)
    want = np.broadcast_arrays(*want)
    for g, w, c in zip(got, want, 'xyz'):
        if kind.startswith('mixed') and np.ndim(g):
            # components may be given once if they are the same for all points
            g = np.broadcast_to(g, np.shape(w))
        if case.expect(np.shape(g) == np.shape(w), 'cartesian:shape', f'{np.shape(g)} {np.shape(w)}'):
            case.close(g, w.astype(float), 'cartesian:value', rtol=0, atol=2e-8 + 5e-15*float(np.max(np.abs(h))), message=c)
    case.expect(all(np.array_equal(p, q) for p, q in zip(keep, (lon, lat, h))), 'inputs-changed')
    case.nontrivial('cartesian', name, kind)


@check.scenario(quick=3200, thorough=90000, floor=1600)
def inverse(case):
    r = case.rng
    name, a, f = ELL[int(r.integers(0, len(ELL)))]
    lon, lat, h = geodetic(r, gen.size(r, 1, 20))
    x, y, z = [v.astype(float) for v in cart(lon, lat, h, a, f)]
    # on the axis itself
    k = (np.abs(lat) == 90)
    x[k], y[k] = 0.0, 0.0
    if r.random() < 0.3:
        z[lat == 0] = 0.0
    kind, x, y, z = shaped(r, x, y, z)
    method = str(r.choice(['bowring', 'moritz', 'zhu']))
    kw = {} if name == 'WGS84' else dict(a_axis=a, flat=f)
    if method != 'bowring' or r.random() < 0.3:
        kw['method'] = method.upper() if r.random() < 0.1 else method
    if method == 'zhu' and kind == 'matrix':
        x, y, z = [v.ravel() for v in (x, y, z)]
        kind = 'vector'
    case.note(x=x, y=y, z=z, **kw)
    keep = [np.copy(v) for v in (x, y, z)]
    ok, got = case.quietly('inverse', spatial.to_geodetic, x, y, z, **kw)
    if not ok:
        return
    case.expect(all(np.array_equal(p, q) for p, q in zip(keep, (x, y, z))), 'inputs-changed')
    if not case.expect(all(np.shape(g) == np.shape(x) for g in got), 'inverse:shape'):
        return
    lo, la, hh = flat(*got)
    P = cart(lo, la, hh, a, f)
    d = np.sqrt(sum((p - q)**2 for p, q in zip(P, (x, y, z)))).astype(float)
    R = np.sqrt(np.asarray(x)**2 + np.asarray(y)**2 + np.asarray(z)**2)
    tol = 2e-15*R
    if method == 'zhu':
        # the closed form loses digits near the parallel of 45 degrees
        e2 = 2*f - f*f
        m = (np.asarray(x)**2 + np.asarray(y)**2)/a**2
        n = ((1-e2)*np.asarray(z)/((1-f)*a))**2
        tol = 1e-7*(R/a) + np.minimum(0.5, 4e-7*(R/a)**3/np.maximum(np.abs(m - n), 1e-30))
    case.evaluations += int(np.size(d))
    bad = ~(d <= np.maximum(tol, 1.5e-8))
    if np.any(bad):
        i = int(np.flatnonzero(np.ravel(bad))[0])
        case.fail(f'inverse:{method}', f'point {np.ravel(x)[i]!r} {np.ravel(y)[i]!r} {np.ravel(z)[i]!r} became '
            f'{np.ravel(lo)[i]!r} {np.ravel(la)[i]!r} {np.ravel(hh)[i]!r}, {np.ravel(d)[i]:.3g} m away')
    case.expect(np.all(np.abs(la) <= 90.0 + 1e-12) and np.all(np.abs(lo) <= 360), 'inverse:range', f'{la} {lo}')
    case.nontrivial('inverse', method, name, kind)


@check.scenario(quick=1600, thorough=30000, floor=800)
def sphere(case):
    r = case.rng
    n = gen.size(r, 1, 20)
    p = r.normal(size=(3, n))*10**r.uniform(-3, 9)
    k = r.random(n) < 0.1
    p[:, k] = np.array([[1.0, 0, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [-1, 0, 0]])[r.integers(0, 5, int(k.sum()))].T
    kind, x, y, z = shaped(r, *p)
    case.note(x=x, y=y, z=z)
    ok, got = case.quietly('sphere', spatial.to_sphere, x, y, z)
    if not ok:
        return
    if not case.expect(all(np.shape(g) == np.shape(x) for g in got), 'sphere:shape'):
        return
    lo, la, rad = flat(*got)
    R = np.sqrt(np.asarray(x, dtype=LD)**2 + np.asarray(y, dtype=LD)**2 + np.asarray(z, dtype=LD)**2)
    case.close(rad, R.astype(float), 'sphere:radius', rtol=1e-14)
    c = np.pi/180
    back = rad*np.cos(la*c)*np.cos(lo*c), rad*np.cos(la*c)*np.sin(lo*c), rad*np.sin(la*c)
    for g, w in zip(back, (x, y, z)):
        # the polar angle comes from a cosine
        case.close(g, w, 'sphere:direction', rtol=4e-8, scale=float(np.max(R)))
    away = np.abs(np.asarray(z)/R) < 0.9
    for g, w in zip(back, (x, y, z)):
        case.expect(np.all(np.abs(g - np.asarray(w))[away] <= 1e-14*float(np.max(R))*4), 'sphere:direction')
    case.expect(np.all((lo >= 0) & (lo <= 360)) and np.all(np.abs(la) <= 90), 'sphere:range')
    case.nontrivial('sphere', kind)


@check.scenario(quick=2400, thorough=60000, floor=1200)
def local(case):
    """east, north and up of points seen from a place"""
    r = case.rng
    name, a, f = ELL[int(r.integers(0, len(ELL)))]
    lon0, lat0, h0 = geodetic(r, 1)
    h0 = np.clip(h0, -1e4, 1e5)
    n = gen.size(r, 1, 12)
    kw = dict(lon0=float(lon0[0]), lat0=float(lat0[0]), h0=float(h0[0]))
    if name != 'WGS84':
        kw.update(a_axis=a, flat=f)
    many = r.random() < 0.2
    if many:
        # a place for each point
        lon0, lat0, h0 = geodetic(r, n)
        kw.update(lon0=lon0, lat0=lat0, h0=h0)
    scale = 10**r.uniform(0, 8.6)
    enu = r.normal(size=(3, n))*scale
    d = np.pi/LD(180)
    so, co = np.sin(np.asarray(lon0, dtype=LD)*d), np.cos(np.asarray(lon0, dtype=LD)*d)
    sa, ca = np.sin(np.asarray(lat0, dtype=LD)*d), np.cos(np.asarray(lat0, dtype=LD)*d)
    P0 = cart(lon0, lat0, h0, a, f)
    E, N, U = enu
    xyz = [P0[0] - so*E - sa*co*N + ca*co*U, P0[1] + co*E - sa*so*N + ca*so*U, P0[2] + ca*N + sa*U]
    xyz = [v.astype(float) for v in xyz]
    kind = 'vector'
    if r.random() < 0.2 and not many:
        kind, enu, xyz = 'scalar', [float(v[0]) for v in enu], [float(v[0]) for v in xyz]
    case.note(enu=np.array(enu), **kw)
    tol = 3e-8 + 1e-14*(scale + float(np.max(np.abs(h0))))
    ok, got = case.quietly('local', spatial.from_ENU, *enu, **kw)
    if ok:
        for g, w in zip(got, xyz):
            if case.expect(np.shape(g) == np.shape(w), 'from_ENU:shape', f'{np.shape(g)}'):
                case.close(g, w, 'from_ENU:value', rtol=0, atol=tol*4)
    ok, got = case.quietly('local', spatial.to_ENU, *xyz, **kw)
    if ok:
        for g, w in zip(got, enu):
            if case.expect(np.shape(g) == np.shape(w), 'to_ENU:shape', f'{np.shape(g)}'):
                case.close(g, w, 'to_ENU:value', rtol=0, atol=tol*4)
    E, N, U = [np.asarray(v) for v in enu]
    D = np.sqrt(E*E + N*N + U*U)
    al = np.degrees(np.arctan2(U, np.hypot(E, N)))
    az = np.degrees(np.arctan2(E, N)) % 360
    ok, got = case.quietly('local', spatial.to_horizontal, E, N, U)
    if ok:
        case.close(got[2], D, 'horizontal:distance', rtol=1e-14)
        case.close(got[0], al, 'horizontal:altitude', rtol=0, atol=3e-6)
        dz = (np.asarray(got[1]) - az + 180) % 360 - 180
        case.close(dz, 0*az, 'horizontal:azimuth', rtol=0, atol=1e-11)
    ok, got = case.quietly('local', spatial.to_zenith, *xyz, **kw)
    if ok:
        case.close(got, 90 - al, 'zenith', rtol=0, atol=5e-6 + np.degrees(tol*20/np.min(D)))
    case.nontrivial('local', kind, name, many)


@check.scenario(quick=1200, thorough=24000, floor=600)
def angles(case):
    """degrees, minutes and seconds, and wrapped longitudes"""
    r = case.rng
    n = gen.size(r, 1, 20)
    style = int(r.integers(0, 3))
    if style == 0:
        d = r.uniform(-360, 360, n)
    elif style == 1:
        d = r.uniform(-1, 1, n)
    else:
        d = r.integers(-180, 181, n) + r.integers(0, 60, n)/60.0
    case.note(d=d)
    if r.random() < 0.2:
        d = float(d[0])
    ok, got = case.quietly('dms', spatial.to_dms, d)
    if ok:
        D, M, S = flat(*got)
        case.expect(np.all(np.abs(D) == np.floor(np.abs(D))) and np.all((M >= 0) & (M < 60) & (M == np.floor(M)))
            and np.all((S >= 0) & (S < 60)), 'dms:range')
        case.close(np.abs(D) + M/60 + S/3600, np.abs(d), 'dms:value', rtol=0, atol=1e-11)
        case.expect(np.all((D == 0) | (np.sign(D) == np.sign(d))), 'dms:sign')
        ok, back = case.quietly('dms', spatial.from_dms, *got)
        if ok:
            case.close(back, d, 'dms:back', rtol=0, atol=1e-11)
    deg = r.integers(-179, 180, n).astype(float if r.random() < 0.5 else int)
    mi, se = r.integers(0, 60, n), r.uniform(0, 60, n)
    ok, v = case.quietly('dms', spatial.from_dms, deg, mi, se)
    if ok:
        want = np.where(deg < 0, -1.0, 1.0)*(np.abs(deg) + mi/60 + se/3600)
        case.close(v, want, 'from_dms', rtol=0, atol=1e-11)
    lon = r.uniform(-1000, 1000, n)
    w = spatial.wrap_longitudes(lon if r.random() < 0.8 else float(lon[0]))
    w = np.asarray(w)
    case.expect(np.all((w >= -180) & (w <= 180)), 'wrap:range')
    k = (w - lon[:w.size].reshape(w.shape))/360.0
    case.close(k, np.round(k), 'wrap:value', rtol=0, atol=1e-12*10)
    case.nontrivial('angles', style, np.ndim(d))


@check.scenario(quick=1200, thorough=24000, floor=600)
def ellipsoids(case):
    """heights and latitudes on another ellipsoid are the same points"""
    r = case.rng
    (n1, a1, f1), (n2, a2, f2) = [ELL[int(r.integers(0, len(ELL)))] for _ in range(2)]
    n = gen.size(r, 1, 12)
    _, lat, h = geodetic(r, n)
    h = np.clip(h, -1e4, 1e6)
    keep = np.copy(lat), np.copy(h)
    case.note(lat=lat, h=h, a1=a1, f1=f1, a2=a2, f2=f2)
    ok, got = case.quietly('convert', spatial.convert_ellipsoid, lat, h, a1, f1, a2, f2)
    if not ok:
        return
    case.expect(np.array_equal(keep[0], lat) and np.array_equal(keep[1], h), 'inputs-changed')
    la, hh = flat(*got)
    P, Q = cart(0*lat, lat, h, a1, f1), cart(0*lat, la, hh, a2, f2)
    d = np.sqrt(sum((p-q)**2 for p, q in zip(P, Q))).astype(float)
    case.close(d, 0*d, 'convert:value', rtol=0, atol=5e-6)
    out = np.array([90.5, -95.0, 30.0])
    o2 = np.copy(out)
    ok, got = case.quietly('convert', spatial.convert_ellipsoid, out, np.zeros(3), a1, f1, a2, f2)
    if ok:
        case.expect(np.array_equal(out, o2), 'inputs-changed', 'latitudes beyond the poles')
        case.close(got[0][:2], [90.0, -90.0], 'convert:poles', rtol=0, atol=1e-12)
    case.raises(ValueError, 'convert:lengths', spatial.convert_ellipsoid, lat, np.append(h, 0.0), a1, f1, a2, f2)
    dh = spatial.compute_delta_h(lat, a1, f1, a2, f2)
    b1, b2 = (1-f1)*a1, (1-f2)*a2
    c, s = np.cos(np.radians(lat))**2, np.sin(np.radians(lat))**2
    case.close(dh, -((a2-a1)*c + (b2-b1)*s), 'delta_h', rtol=0, atol=1e-8)
    # the empirical relation is the change of height at low heights
    near = np.abs(h) < 1e4
    case.expect(np.all(np.abs(dh - (hh - h))[near] < 0.5), 'delta_h:height', f'{dh} {hh-h}')
    case.nontrivial('ellipsoids', n1, n2)


@check.scenario(quick=800, thorough=15000, floor=400)
def polar(case):
    """scale factors of the polar stereographic projection"""
    r = case.rng
    name, a, f = ELL[int(r.integers(0, len(ELL)))]
    ref = float(r.choice([70.0, 71.0, 60.0, 75.0, r.uniform(50, 85)]))
    south = r.random() < 0.5
    lat = r.uniform(45, 89.99, gen.size(r, 1, 12))
    lat[r.random(lat.size) < 0.1] = 90.0
    lat[r.random(lat.size) < 0.1] = ref
    sgn = -1.0 if south else 1.0
    P = pyproj.Proj(proj='stere', lat_0=90*sgn, lat_ts=ref*sgn, a=a, rf=1/f)
    kw = dict(flat=f)
    kw['reference_latitude'] = sgn*ref if r.random() < 0.5 else ref
    metric = str(r.choice(['area', 'distance']))
    if metric != 'area' or r.random() < 0.5:
        kw['metric'] = metric.title() if r.random() < 0.2 else metric
    case.note(lat=lat*sgn, **kw)
    ok, got = case.quietly('polar', spatial.scale_factors, lat*sgn, **kw)
    if not ok:
        return
    # the distortion of a small step along the meridian and of the parallel, from the projection
    d = 1e-4
    e2 = 2*f - f*f
    want = []
    for p in lat:
        q = min(p, 90 - 2*d)
        y = [P(0, sgn*(q + s))[1] for s in (-d, d)]
        s = np.sin(np.radians(q))
        M = a*(1-e2)/(1-e2*s*s)**1.5
        k = abs(y[1]-y[0])/(M*np.radians(2*d))
        want.append(1/k if metric == 'distance' else 1/k**2)
    case.close(got, want, 'polar:value', rtol=3e-7)
    case.nontrivial('polar', name, metric, south)
