"""S02: coordinate reference systems and ellipsoids"""
import numpy as np
import pyproj
from pyTMD.crs import crs, datum
from vmon.core import Check
from vmon import gen

check = Check('S02', 'Reference systems and ellipsoids are the published ones',
    'a case counts when transformed points or parameters were compared; key = system, direction, ellipsoid',
    ['projections evaluated here from the formulas of Snyder (1987)'])

WA, WF = 6378137.0, 1/298.257223563
STEREO = {
    'EPSG:3031': dict(lat_0=-90, lat_ts=-71.0, lon_0=0.0, k=1.0, a=WA, f=WF),
    'EPSG:3413': dict(lat_0=90, lat_ts=70.0, lon_0=-45.0, k=1.0, a=WA, f=WF),
    'EPSG:3976': dict(lat_0=-90, lat_ts=-70.0, lon_0=0.0, k=1.0, a=WA, f=WF),
}
CATS = {"datum": "WGS84", "lat_0": -90, "lat_ts": -71, "lon_0": -70, "proj": "stere", "type": "crs", "units": "km", "x_0": 0, "y_0": 0}
ARC = {"datum": "WGS84", "lat_0": 90, "lat_ts": 70, "lon_0": -45, "proj": "stere", "type": "crs", "units": "km", "x_0": 0, "y_0": 0}
IDEAL = {"R": 6399938.5716113, "lat_0": 90, "lon_0": 270, "proj": "aeqd", "type": "crs", "units": "km", "x_0": 0, "y_0": 0}


def stere(lon, lat, lat_0, lat_ts, lon_0, k, a, f):
    """Snyder (1987) 21-33, 21-34 and 15-9"""
    s = np.sign(lat_0)
    e = np.sqrt(2*f - f*f)
    phi, ts = s*np.radians(lat), s*np.radians(lat_ts)
    t = lambda p: np.tan(np.pi/4 - p/2)*((1+e*np.sin(p))/(1-e*np.sin(p)))**(e/2)
    m = np.cos(ts)/np.sqrt(1 - (e*np.sin(ts))**2)
    rho = a*m*t(phi)/t(ts)
    th = np.radians(lon - lon_0)
    return k*rho*np.sin(th), -k*s*rho*np.cos(th)


def aeqd(lon, lat):
    """polar aspect on the sphere, Snyder (1987) 25-2"""
    rho = IDEAL['R']*np.radians(90.0 - lat)/1000.0
    th = np.radians(lon - 270.0)
    return rho*np.sin(th), -rho*np.cos(th)


def systems(r):
    """(name, what to give the real code, projection, lat range)"""
    k = int(r.integers(0, 8))
    if k < 3:
        name = sorted(STEREO)[k]
        code = int(name[5:])
        form = [code, str(code), name, name.lower(), pyproj.CRS.from_epsg(code).to_wkt(), pyproj.CRS.from_epsg(code),
            pyproj.CRS.from_epsg(code).to_proj4(), np.int64(code)]
        p = STEREO[name]
        return name, form[int(r.integers(0, len(form)))], lambda x, y: stere(x, y, **p), np.sign(p['lat_0'])
    if k in (3, 4):
        d = CATS if k == 3 else ARC
        p = dict(lat_0=d['lat_0'], lat_ts=d['lat_ts'], lon_0=d['lon_0'], k=1e-3, a=WA, f=WF)
        text = ' '.join(f'+{q}={v}' for q, v in d.items())
        return d['lat_0'], [dict(d), text][int(r.integers(0, 2))], lambda x, y: stere(x, y, **p), np.sign(p['lat_0'])
    if k == 5:
        return 'ideal', dict(IDEAL), aeqd, 1
    form = [4326, '4326', 'EPSG:4326', '+proj=longlat +datum=WGS84 +no_defs']
    return 'geographic', form[int(r.integers(0, 4))], lambda x, y: (x, y), 0


@check.scenario(quick=400, thorough=8000, floor=200)
def transform(case):
    r = case.rng
    n = gen.size(r, 1, 12)
    obj = crs()
    kinds = []
    # the same object serves one system after the other
    for step in range(int(r.integers(1, 4))):
        name, proj, fn, hemi = systems(r)
        lon = r.uniform(-180, 180, n)
        lat = hemi*r.uniform(50, 89.9, n) if hemi else r.uniform(-89, 89, n)
        scalar = r.random() < 0.15
        if scalar:
            lon, lat = float(lon[0]), float(lat[0])
        x, y = fn(np.asarray(lon), np.asarray(lat))
        lon, lat, x, y = (gen.dress(r, v, 0.2) for v in (lon, lat, x, y)) if not scalar else (lon, lat, x, y)
        m = 1000.0 if np.max(np.abs(x)) < 2e4 and hemi else 1.0
        atol = 1e-6*0 + (2e-5/m if hemi else 1e-12)
        kw = {} if r.random() < 0.5 else dict(EPSG=[4326, '4326', 'EPSG:4326'][int(r.integers(0, 3))])
        bf = str(r.choice(['F', 'B', 'f', 'b', 'forward', 'backward']))
        case.note(**{f'proj{step}': str(proj)[:90], f'bf{step}': bf, f'lon{step}': lon, f'lat{step}': lat})
        a, b, want = (lon, lat, (x, y)) if bf[0].upper() == 'F' else (x, y, (lon, lat))
        keep = np.copy(a), np.copy(b)
        style = r.random()
        if style < 0.6:
            ok, got = case.quietly('transform', obj.convert, a, b, proj, bf, **kw)
        else:
            # the long way, as the models do
            def go():
                o = crs().get(proj)
                o._direction = bf[0]
                return o.transform(a, b, **kw)
            if style < 0.8:
                def go():
                    o = crs()
                    o.crs = o.from_input(proj)
                    return o.transform(a, b, direction='INVERSE' if bf[0].upper() == 'B' else 'FORWARD', **kw)
            ok, got = case.quietly('transform', go)
        if not ok:
            return
        tol = atol if bf[0].upper() == 'F' else 1e-9
        for i, (g, w) in enumerate(zip(got, want)):
            d = np.asarray(g) - np.asarray(w)
            if bf[0].upper() == 'B' and i == 0:
                d = (d + 180) % 360 - 180
            case.close(d, 0*np.asarray(w), 'transform:value', rtol=0, atol=tol, message=f'{name} {bf}')
        case.expect(np.array_equal(keep[0], a) and np.array_equal(keep[1], b), 'inputs-changed')
        case.expect(crs().get(proj).is_geographic == (hemi == 0), 'geographic', str(proj))
        kinds.append(f'{name}{bf[0].upper()}')
    # from one projection to another
    (n1, p1, f1, h1), (n2, p2, f2, h2) = systems(r), systems(r)
    while h1*h2 < 0:
        n2, p2, f2, h2 = systems(r)
    h = h1 or h2
    lon = r.uniform(-180, 180, n)
    lat = h*r.uniform(50, 89.9, n) if h else r.uniform(-89, 89, n)
    a, b = f1(lon, lat), f2(lon, lat)
    # the sphere of the idealised projection has latitudes of its own in transformations of datum
    if 'ideal' not in (n1, n2):
        ok, got = case.quietly('transform', crs().convert, *a, p2, 'F', EPSG=p1)
        if ok:
            for g, w in zip(got, b):
                d = g - w
                if h2 == 0:
                    d = (d + 180) % 360 - 180 if g is got[0] else d
                case.close(d, 0*w, 'between', rtol=0, atol=3e-5, message=f'{n1} {n2}')
    bad = [999999, 'EPSG:999999', 'nowhere', '+proj=nonsense', {'proj': 'nonsense'}][int(r.integers(0, 5))]
    if r.random() < 0.1:
        case.raises(pyproj.exceptions.CRSError, 'unknown', crs().convert, lon, lat, bad, 'F')
    case.nontrivial('transform', *kinds[:1])


# (ellipsoid of the code, of PROJ), and those that PROJ does not list
ELL = dict(CLK66='clrk66', NAD27='clrk66', GRS80='GRS80', NAD83='GRS80', GRS67='GRS67', WGS72='WGS72', WGS84='WGS84',
    KRASS='krass', INTER='intl', MAIRY='mod_airy')
OWN = dict(ATS77=(6378135.0, 1/298.257), HGH80=(6378273.0, 1/298.279411123064), TOPEX=(6378136.3, 1/298.257),
    EGM96=(6378136.3, 1/298.256415099), IERS=(6378136.6, 1/298.25642))
GM = dict(GRS80=3.986005e14, NAD83=3.986005e14, GRS67=3.98603e14, TOPEX=3.986004415e14, EGM96=3.986004415e14)
# published derived constants
KNOWN = dict(
    WGS84=dict(J2=1.082629821313e-3, U0=62636851.7146, gamma_a=9.7803253359, gamma_b=9.8321849378, m=0.00344978650684,
        ecc=521854.00842339, ecc1=8.1819190842622e-2, ecc2=8.2094437949696e-2, b_axis=6356752.3142, rad_p=6399593.6258,
        rad_e=6371000.7900, dk=0.00193185265241),
    GRS80=dict(J2=1.08263e-3, U0=62636860.850, gamma_a=9.7803267715, gamma_b=9.8321863685, m=0.00344978600308,
        dk=0.001931851353, b_axis=6356752.3141, rad_e=6371000.7900),
)


@check.scenario(quick=40, thorough=400, floor=30)
def spheres(case):
    """ellipsoids given by their axis, which are spheres when nothing is flattened"""
    r = case.rng
    a = float(r.uniform(1e6, 1e8))
    f = [0.0, 0, 0.0, float(10.0**r.uniform(-9, -4))][r.integers(4)]
    cgs = r.random() < 0.4
    L = 100.0 if cgs else 1.0
    kw = dict(a_axis=a, flat=f)
    if r.random() < 0.4:
        kw['ellipsoid'] = str(r.choice(['WGS84', 'TOPEX', 'CLK66']))
    if cgs:
        kw['units'] = 'CGS'
    case.note(**kw)
    ok, d = case.quietly('datum', datum, **kw)
    if not ok:
        return
    b = a*(1 - f)
    case.close(d.a_axis, a*L, 'sphere:a_axis', rtol=1e-13, atol=0)
    case.close(d.flat, f, 'sphere:flat', rtol=1e-13, atol=0)
    case.close(d.b_axis, b*L, 'sphere:b_axis', rtol=1e-13, atol=0)
    case.close(d.ratio, 1 - f, 'sphere:ratio', rtol=1e-13, atol=0)
    case.close(d.rad_e, (a*a*b)**(1/3)*L, 'sphere:rad_e', rtol=1e-13, atol=0)
    case.close(d.rad_p, a*a/b*L, 'sphere:rad_p', rtol=1e-13, atol=0)
    case.close(d.volume, 4/3*np.pi*a*a*b*L**3, 'sphere:volume', rtol=1e-12, atol=0)
    case.close(d.rho_e, 3.986004418e14/6.6743e-11/(4/3*np.pi*a*a*b)*(1e-3 if cgs else 1), 'sphere:density', rtol=1e-9, atol=0)
    case.nontrivial('spheres', f == 0, cgs, kw.get('ellipsoid'))


@check.scenario(quick=300, thorough=4000, floor=150)
def parameters(case):
    r = case.rng
    user = r.random() < 0.3
    cgs = r.random() < 0.4
    units = 'CGS' if cgs else 'MKS'
    kw = {}
    if cgs or r.random() < 0.3:
        kw['units'] = units if r.random() < 0.7 else units.lower()
    gm, om = 3.986004418e14, 7292115e-11
    if user:
        name = 'user_defined'
        a, f = float(r.uniform(1e6, 1e8)), float(1/r.uniform(20, 1000))
        kw.update(a_axis=a, flat=f)
        if r.random() < 0.5:
            kw['ellipsoid'] = 'TOPEX'
    else:
        name = str(r.choice(sorted(ELL) + sorted(OWN)))
        kw['ellipsoid'] = name if r.random() < 0.8 else name.lower()
        if name == 'WGS84' and r.random() < 0.3:
            del kw['ellipsoid']
        if name in ELL:
            g = pyproj.Geod(ellps=ELL[name])
            a, f = g.a, g.f
            if name == 'GRS67':
                f = 1/298.247167427
            if name == 'MAIRY':
                f = 1/299.3249646
        else:
            a, f = OWN[name]
        gm = GM.get(name, gm)
        om = 7292115.1467e-11 if name == 'GRS67' else om
    if r.random() < 0.2:
        kw['GM'] = gm = float(r.uniform(1e14, 1e15))
    if r.random() < 0.2:
        kw['omega'] = om = float(r.uniform(1e-5, 1e-4))
    case.note(**kw)
    ok, d = case.quietly('datum', datum, **kw)
    if not ok:
        return
    L = 100.0 if cgs else 1.0
    b = a*(1-f)
    E = np.sqrt(a*a - b*b)
    e1, e2 = E/a, E/b
    m = om**2*a*a*b/gm
    # closed forms of Hofmann-Wellenhof and Moritz, chapter 2
    q0 = 0.5*((1 + 3/e2**2)*np.arctan(e2) - 3/e2)
    qp = 3*(1 + 1/e2**2)*(1 - np.arctan(e2)/e2) - 1
    J2 = e1**2/3*(1 - 2/15*m*e2/q0)
    ga = gm/(a*b)*(1 - m - m*e2*qp/(6*q0))
    gb = gm/a**2*(1 + m*e2*qp/(3*q0))
    ecc = e1
    want = dict(a_axis=a*L, b_axis=b*L, ratio=b/a, rad_e=(a*a*b)**(1/3)*L, rad_p=a*a/b*L, ecc=E*L, ecc1=e1, ecc2=e2, m=m,
        U0=(gm/E*np.arctan(e2) + om**2*a*a/3)*L*L, volume=4/3*np.pi*a*a*b*L**3,
        area=2*np.pi*a*a*(1 + (1-ecc**2)/ecc*np.arctanh(ecc))*L**2, GM=gm*L**3, omega=om, G=6.6743e-11*(1e3 if cgs else 1),
        gamma=9.80665*L, flat=f)
    want['rho_e'] = gm/6.6743e-11/(4/3*np.pi*a*a*b)*(1e-3 if cgs else 1)
    for k, v in want.items():
        # omega, GM and G are as tabulated
        case.close(getattr(d, k), v, f'parameter:{k}', rtol=1e-9 if k not in ('flat', 'b_axis', 'ratio', 'a_axis') else 2e-10, atol=0)
        case.close(d[k], getattr(d, k), 'subscript', rtol=0, atol=0)
    case.close(d.q0, qp, 'parameter:q0', rtol=0, atol=3e-11/e2)
    case.close(d.q, q0, 'parameter:q', rtol=0, atol=3e-12/e2)
    small = e2**2 < 0.01
    case.close(d.J2, J2, 'parameter:J2', rtol=1e-9 + 1e-12/e2**5, atol=0)
    case.close(d.C20*np.sqrt(5), -J2, 'parameter:C20', rtol=1e-9 + 1e-12/e2**5, atol=0)
    if m < 0.01:
        tol = 2*m*e2**4 + 1e-10 + 1e-15/e2**5
        case.close(d.gamma_a, ga*L, 'parameter:gamma_a', rtol=tol, atol=0)
        case.close(d.gamma_b, gb*L, 'parameter:gamma_b', rtol=tol, atol=0)
        case.close(d.dk, b*gb/(a*ga) - 1, 'parameter:dk', rtol=0, atol=4*tol)
        # normal gravity between the equator and the pole (Somigliana)
        colat = r.uniform(0, np.pi, 5)
        s2 = np.cos(colat)**2
        g0 = ga*(1 + (b*gb/(a*ga) - 1)*s2)/np.sqrt(1 - e1**2*s2)*L
        t0 = 10*(f + m)**3
        case.close(d.gamma_0(colat), g0, 'gravity:ellipsoid', rtol=t0, atol=0)
        h = r.uniform(-1e4, 1e4, 5)
        gh = g0*(1 - 2/a*(1 + f + m - 2*f*s2)*h + 3*(h/a)**2)
        case.close(d.gamma_h(colat, h*L), gh, 'gravity:height', rtol=t0 + 1e-9, atol=0)
    # f2 and f4 are their own series
    case.close(d.f4, -f*f/2 + 2.5*f*m, 'parameter:f4', rtol=0, atol=1e-9*(f*f + f*m))
    case.close(d.f2, -f + 2.5*m + 0.5*f*f - 26/7*f*m + 15/4*m*m, 'parameter:f2', rtol=0, atol=1e-9*(f + m))
    if name in KNOWN and not cgs and 'GM' not in kw and 'omega' not in kw:
        for k, v in KNOWN[name].items():
            digits = dict(gamma_a=3e-8, gamma_b=3e-8, dk=1e-8, J2=3e-8, U0=1e-9).get(k, 1e-10)
            case.close(getattr(d, k), v, f'published:{k}', rtol=digits, atol=4e-8 if k == 'dk' else 0)
    if not user:
        case.expect(d.name == name, 'datum:name')
    case.raises(AssertionError, 'datum:unknown', datum, ellipsoid='ELL80')
    case.raises(AssertionError, 'datum:unknown', datum, units='FPS')
    case.nontrivial('parameters', name, units, 'GM' in kw, 'omega' in kw)
