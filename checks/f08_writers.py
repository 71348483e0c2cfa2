"""F08: model files written by pyTMD hold what they were given"""
import struct
import netCDF4
import numpy as np
import pyTMD.io.ATLAS as ATLAS
import pyTMD.io.FES as FES
import pyTMD.io.GOT as GOT
import pyTMD.io.OTIS as OTIS
from vmon.core import Check, Skip
from vmon import synth

check = Check('F08', 'Written model files hold what they were given',
    'a case counts when a written file was parsed by an independent reader and by the real reader; '
    'key = format, type, dtype, layout')


def field(r, ny, nx, dtype='c8', masked=False):
    z = (r.normal(size=(ny, nx)) + 1j*r.normal(size=(ny, nx)))*10.0**r.uniform(-2, 3)
    z = np.ma.array(z.astype(dtype), mask=np.zeros((ny, nx), bool))
    if masked:
        z.mask = r.random((ny, nx)) < 0.25
    return z


def ref_names(name):
    # names of four characters in use for those that are longer
    return dict(lambda2=['lam2', 'la2', 'lm2'], sigma1=['sig1'], theta1=['the1', 'the'], gamma2=['gam2'])[name]


def freeze(*arrays):
    return [(np.array(np.ma.getdata(a)), np.array(np.ma.getmaskarray(a))) for a in arrays]


def intact(case, kept, *arrays):
    for (d, m), a in zip(kept, arrays):
        case.expect(np.array_equal(d, np.ma.getdata(a), equal_nan=True) and
            np.array_equal(m, np.ma.getmaskarray(a)), 'inputs-changed')


@check.scenario(quick=80, thorough=1000, floor=50)
def otis(case):
    r = case.rng
    ny, nx = int(r.integers(2, 14)), int(r.integers(2, 14))
    if ny == nx:
        nx += 1
    ft = str(r.choice(['f4', 'f8', '>f4']))
    lim = (lambda v: v) if r.random() < 0.8 else (lambda v: v.astype('f4'))
    xlim = lim(np.array([r.uniform(-170, 0), r.uniform(1, 170)]))
    ylim = lim(np.array([r.uniform(-80, 0), r.uniform(1, 80)]))
    hz = r.uniform(0, 4000, (ny, nx)).astype(ft)
    mz = (r.random((ny, nx)) > 0.3).astype(str(r.choice(['i4', 'i8', 'i1', '>i4'])))
    if r.random() < 0.3:
        hz, mz = np.asfortranarray(hz), np.asfortranarray(mz)
    nob = int(r.choice([0, 0, 1, 4]))
    iob = r.integers(1, 9, (nob, 2)) if nob else np.zeros((0, 2), int)
    dt = float(np.float32(r.uniform(0, 60)))
    cons = [str(c) for c in r.permutation(synth.CONS + ['msqm', 'eps2'])[:int(r.integers(1, 5))]]
    nc = len(cons)
    h, u, v = (np.ma.stack([field(r, ny, nx, str(r.choice(['c8', 'c16']))) for _ in cons], -1) for _ in range(3))
    case.note(ny=ny, nx=nx, cons=cons, nob=nob, dtype=ft)
    g, e, t = case.tmp/'grid', case.tmp/'h', case.tmp/'u'
    kept = freeze(xlim, ylim, hz, mz, iob, h, u, v)
    OTIS.output_otis_grid(g, xlim, ylim, hz, mz, iob, dt)
    OTIS.output_otis_elevation(e, h, xlim, ylim, cons)
    OTIS.output_otis_transport(t, u, v, xlim, ylim, cons)
    intact(case, kept, xlim, ylim, hz, mz, iob, h, u, v)
    # as a sequence of Fortran records
    def records(p):
        b, out, k = p.read_bytes(), [], 0
        while k < len(b):
            n, = struct.unpack('>i', b[k:k+4])
            if n < 0 or k+8+n > len(b) or b[k+4+n:k+8+n] != b[k:k+4]:
                case.fail('records', f'{p.name} breaks at byte {k} of {len(b)}')
                return None
            out.append(b[k+4:k+4+n])
            k += 8+n
        return out
    R = records(g)
    if case.expect(R is not None and len(R) == 4, 'grid-records', f'{None if R is None else [len(i) for i in R]}'):
        case.expect(struct.unpack('>2i4ffi', R[0])[:2] == (nx, ny), 'grid-shape')
        case.close(np.array(struct.unpack('>2i4ffi', R[0])[2:7]),
            np.array([*ylim, *xlim, dt], 'f4').astype(float), 'grid-limits', rtol=1e-6)
        case.expect(struct.unpack('>2i4ffi', R[0])[7] == nob, 'grid-nob')
        case.expect(np.array_equal(np.frombuffer(R[2], '>f4').reshape(ny, nx), hz.astype('f4')), 'grid-depth')
        case.expect(np.array_equal(np.frombuffer(R[3], '>i4').reshape(ny, nx), mz), 'grid-mask')
    for p, f in ((e, (h,)), (t, (u, v))):
        R = records(p)
        if not case.expect(R is not None and len(R) == nc+1, 'model-records'):
            continue
        case.expect(struct.unpack('>3i', R[0][:12]) == (nx, ny, nc), 'model-shape')
        case.expect([R[0][28+4*i:32+4*i].decode().strip() for i in range(nc)] == cons, 'model-constituents')
        for i in range(nc):
            a = np.frombuffer(R[i+1], '>f4').reshape(ny, nx, -1)
            for k, z in enumerate(f):
                case.close(a[..., 2*k] + 1j*a[..., 2*k+1], z.data[..., i], 'model-values', rtol=1e-6)
    # names that do not fit the format are refused, not written over the fields that follow
    cut = [*cons[:-1], str(r.choice(['lambda2', 'sigma1', 'theta1', 'gamma2']))]
    for p, fn, f in ((case.tmp/'h4', OTIS.output_otis_elevation, (h,)), (case.tmp/'u4', OTIS.output_otis_transport, (u, v))):
        try:
            fn(p, *f, xlim, ylim, cut)
        except (ValueError, AssertionError):
            case.event('names refused')
            continue
        R = records(p)
        if R is not None:
            names = [R[0][28+4*i:32+4*i].decode().strip() for i in range(nc)]
            case.expect(len(R) == nc+1 and names[:-1] == cut[:-1] and names[-1] in ref_names(cut[-1]),
                'long-names', f'{names} {cut}')
    # and as read back
    x1, y1, hz1, mz1, iob1, dt1 = OTIS.read_otis_grid(g)
    case.close(hz1, hz, 'read-depth', rtol=1e-6)
    case.expect(np.array_equal(mz1, mz) and len(iob1) == nob, 'read-mask')
    for i in range(nc):
        case.close(OTIS.read_otis_elevation(e, i), h[..., i], 'read-elevation', rtol=1e-6)
        u1, v1 = OTIS.read_otis_transport(t, i)
        case.close(u1, u[..., i], 'read-u', rtol=1e-6)
        case.close(v1, v[..., i], 'read-v', rtol=1e-6)
    case.nontrivial('OTIS', ft, nob, nc)


@check.scenario(quick=60, thorough=800, floor=40)
def atlas(case):
    r = case.rng
    ny, nx = int(r.integers(2, 14)), int(r.integers(2, 14))
    ct = str(r.choice(['c8', 'c16']))
    X = {k: np.sort(r.uniform(0, 360, nx)) for k in 'zuv'}
    Y = {k: np.sort(r.uniform(-90, 90, ny)) for k in 'zuv'}
    H = {k: np.where(r.random((ny, nx)) < 0.2, 0, r.uniform(1, 4000, (ny, nx))).astype('f4') for k in 'zuv'}
    h, u, v = (field(r, ny, nx, ct) for _ in range(3))
    con = str(r.choice(synth.CONS + ['msqm', 'eps2', 'lambda2', 'sigma1', 'm1', 's8']))
    case.note(ny=ny, nx=nx, con=con, dtype=ct)
    kept = freeze(h, u, v, *H.values(), *X.values(), *Y.values())
    g, e, t = case.tmp/'g.nc', case.tmp/'h.nc', case.tmp/'u.nc'
    ATLAS.output_netcdf_grid(g, H['z'], H['u'], H['v'], X['z'], Y['z'], X['u'], Y['u'], X['v'], Y['v'])
    ATLAS.output_netcdf_elevation(e, h, X['z'], Y['z'], con)
    ATLAS.output_netcdf_transport(t, u, v, X['u'], Y['u'], X['v'], Y['v'], con)
    intact(case, kept, h, u, v, *H.values(), *X.values(), *Y.values())
    for k in 'zuv':
        lon, lat, bath = ATLAS.read_netcdf_grid(g, k)
        case.close(lon, X[k], 'atlas-lon', rtol=0)
        case.close(lat, Y[k], 'atlas-lat', rtol=0)
        case.close(bath, np.ma.masked_equal(H[k], 0), 'atlas-depth', rtol=0)
    for got, want in ((ATLAS.read_netcdf_elevation(e), h), (ATLAS.read_netcdf_transport(t, 'u'), u),
            (ATLAS.read_netcdf_transport(t, 'v'), v), (ATLAS.read_netcdf_file(t, 'U'), u),
            (ATLAS.read_netcdf_file(e, 'z'), h)):
        case.expect(got[1] == con, 'atlas-constituent', f'{got[1]!r}')
        case.close(got[0], want, 'atlas-values', rtol=1e-6)
    with netCDF4.Dataset(t) as d:
        case.expect(d['uRe'].shape == (nx, ny), 'atlas-layout')
        case.close(d['lon_v'][:], X['v'], 'atlas-lon-v', rtol=0)
        case.close(d['lat_u'][:], Y['u'], 'atlas-lat-u', rtol=0)
    case.nontrivial('ATLAS', ct)


@check.scenario(quick=60, thorough=800, floor=40)
def polar(case):
    """formats of amplitude and phase"""
    r = case.rng
    ny, nx = int(r.integers(2, 14)), int(r.integers(2, 14))
    ct = str(r.choice(['c8', 'c16']))
    hc = field(r, ny, nx, ct, masked=r.random() < 0.7)
    lon, lat = np.sort(r.uniform(0, 360, nx)), np.sort(r.uniform(-90, 90, ny))
    con = str(r.choice(synth.CONS + ['lambda2', 'sigma1', 'msqm']))
    f = case.tmp/'out.nc'
    kept = freeze(hc, lon, lat)
    case.note(ny=ny, nx=nx, con=con, dtype=ct)
    if r.random() < 0.4:
        GOT.output_netcdf_file(f, hc, lon, lat, con)
        got, x, y, c = GOT.read_netcdf_file(f)
        case.expect(c == con, 'got-constituent', f'{c}')
        with netCDF4.Dataset(f) as d:
            p = np.ma.compressed(d['phase'][:])
        case.expect(np.all((p >= 0) & (p <= 360)), 'got-phase')
        name, t = 'GOT', 'z'
    else:
        t = str(r.choice(['z', 'u', 'v']))
        FES.output_netcdf_file(f, hc, lon, lat, con, type=t)
        got, x, y = FES.read_netcdf_file(f, type=t, version=str(r.choice(['FES2014', 'FES2022'])))
        with netCDF4.Dataset(f) as d:
            d['con'].set_auto_chartostring(False)
            case.expect(d['con'][:].tobytes().decode().strip() == con, 'fes-constituent')
        name = 'FES'
    intact(case, kept, hc, lon, lat)
    case.close(got, hc, f'values:{name}', rtol=2e-6)
    case.close(x, lon, f'lon:{name}', rtol=0)
    case.close(y, lat, f'lat:{name}', rtol=0)
    case.nontrivial(name, t, ct, bool(hc.mask.any()))


@check.scenario(quick=40, thorough=500, floor=20)
def model(case):
    """a whole model, read and written again, gives the same constants"""
    r = case.rng
    fmt = str(r.choice(['OTIS', 'ATLAS', 'GOT', 'FES']))
    # zero amplitude and phase (which the writer gives points without a tide) marks invalid nodes of FES
    m = synth.FORMATS[fmt](r, case.tmp, **(dict(still=False) if fmt == 'FES' else {}))
    if m.fmt == 'OTIS' and (m.nan or (m.grid.geographic and m.grid.x[-1] < 0)):
        raise Skip
    t = str(r.choice(m.types))
    new = case.tmp/'new'
    new.mkdir()
    g = m.grid
    if m.fmt == 'OTIS':
        x, y, hz, mz, iob, dt = OTIS.read_otis_grid(m.grid_file, is_geographic=g.geographic)
        dx, dy = x[1]-x[0], y[1]-y[0]
        xlim, ylim = np.array([x[0]-dx/2, x[-1]+dx/2]), np.array([y[0]-dy/2, y[-1]+dy/2])
        m.grid_file = new/'grid'
        OTIS.output_otis_grid(m.grid_file, xlim, ylim, hz, mz, np.asarray(iob), dt)
        def cat(fn, files):
            if isinstance(files, list):
                return [fn(f, 0) for f in files]
            return [fn(files, i) for i in range(len(m.cons))]
        z = np.ma.stack(cat(OTIS.read_otis_elevation, m.zfile), -1)
        uv = cat(OTIS.read_otis_transport, m.ufile)
        OTIS.output_otis_elevation(new/'h', z, xlim, ylim, m.cons)
        OTIS.output_otis_transport(new/'u', np.ma.stack([a for a, b in uv], -1),
            np.ma.stack([b for a, b in uv], -1), xlim, ylim, m.cons)
        m.zfile, m.ufile = new/'h', new/'u'
    elif m.fmt == 'ATLAS-netcdf':
        G = {k: ATLAS.read_netcdf_grid(m.grid_file, k, compressed=m.compressed) for k in 'zuv'}
        m.grid_file = new/'g.nc'
        ATLAS.output_netcdf_grid(m.grid_file, G['z'][2], G['u'][2], G['v'][2], *[np.asarray(G[k][q])
            for k in 'zuv' for q in (0, 1)])
        for i, c in enumerate(m.cons):
            h, con = ATLAS.read_netcdf_elevation(m.zfile[i], compressed=m.compressed)
            ATLAS.output_netcdf_elevation(new/f'h{c}.nc', h, *[np.asarray(v) for v in G['z'][:2]], con)
            u, con = ATLAS.read_netcdf_transport(m.ufile[i], 'u', compressed=m.compressed)
            v, con = ATLAS.read_netcdf_transport(m.ufile[i], 'v', compressed=m.compressed)
            ATLAS.output_netcdf_transport(new/f'u{c}.nc', u, v, *[np.asarray(a) for k in 'uv' for a in G[k][:2]], con)
            m.zfile[i], m.ufile[i] = new/f'h{c}.nc', new/f'u{c}.nc'
        m.compressed = False
    elif m.fmt.startswith('GOT'):
        for i, c in enumerate(m.cons):
            read = GOT.read_ascii_file if m.ascii else GOT.read_netcdf_file
            hc, lon, lat, con = read(m.files[i], compressed=m.compressed)
            m.files[i] = new/f'{c}.nc'
            GOT.output_netcdf_file(m.files[i], hc, np.asarray(lon), np.asarray(lat), con)
        m.compressed, m.gridkey = False, 'netcdf'
    else:
        for k in m.types:
            for i, c in enumerate(m.cons):
                if m.ascii:
                    hc, lon, lat = FES.read_ascii_file(m.files[k][i], compressed=m.compressed)
                else:
                    hc, lon, lat = FES.read_netcdf_file(m.files[k][i], type=k, version=m.version, compressed=m.compressed)
                m.files[k][i] = new/f'{k}-{c}.nc'
                FES.output_netcdf_file(m.files[k][i], hc, np.asarray(lon), np.asarray(lat), c, type=k)
        m.compressed, m.version = False, 'FES2014'
    px, py = synth.points(r, g, 20)
    lon, lat = g.lonlat(px, py)
    if g.geographic:
        lon, _ = synth.convention(r, lon, '180')
    case.note(format=m.fmt, grid=g.kind, type=t)
    got = m.extract(lon, lat, type=t, method='bilinear')
    synth.judge(case, m, got, t, px, py, 'bilinear', 'rewritten-'+m.fmt, note='rewritten')
    case.nontrivial('model', m.fmt, t)
