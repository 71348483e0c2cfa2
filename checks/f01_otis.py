"""F01: constants extracted from OTIS, TMD3 and ATLAS-compact files are the stored ones"""
import numpy as np
import pyTMD.io.OTIS as OTIS
from vmon.core import Check
from vmon import synth, readers

check = Check('F01', 'OTIS, TMD3 and ATLAS-compact files are read as stored',
    'a case counts when constants extracted from a model on disk were compared with its truth; '
    'key = format, grid, type, method',
    ['the record layouts are those of the TMD documentation (big-endian Fortran records)'])


@check.scenario(quick=110, thorough=1500, floor=60)
def otis(case):
    readers.truth_case(case, synth.OTISModel)


@check.scenario(quick=70, thorough=900, floor=40)
def tmd3(case):
    r = case.rng
    model = readers.truth_case(case, synth.TMD3Model)
    # flexure scales the heights node by node
    px, py = synth.points(r, model.grid, 12)
    lon, lat = model.grid.lonlat(px, py)
    t = str(r.choice(model.types))
    model.flexed = t == 'z'
    if t == 'z':
        nd = model.nodes['z']
        keep = nd.data
        nd.data = {c: f*(model.flex/100.0) for c, f in keep.items()}
    got = model.extract(lon, lat, type=t, method='linear', apply_flexure=True)
    synth.judge(case, model, got, t, px, py, 'linear', 'flexure', note='flexure')
    case.nontrivial('flexure', t)


@check.scenario(quick=60, thorough=700, floor=40)
def records(case):
    """the record readers against the stored arrays"""
    r = case.rng
    model = synth.OTISModel(r, case.tmp, layout='one')
    g = model.grid
    x, y, hz, mz, iob, dt = OTIS.read_otis_grid(model.grid_file, is_geographic=g.geographic)
    case.note(grid=g.kind, shape=hz.shape)
    # wholly negative longitudes may be given from 0 to 360
    shift = 360.0 if g.geographic and g.x[-1] < 0 and x[0] > 0 else 0.0
    case.close(x - shift, g.x, 'grid-x', rtol=1e-6, atol=1e-5*abs(g.dx))
    case.close(y, g.y, 'grid-y', rtol=1e-6, atol=1e-5*abs(g.dy))
    case.expect(np.array_equal(np.asarray(hz), model.hz), 'grid-depth')
    case.expect(np.array_equal(np.asarray(mz), model.mz), 'grid-mask')
    case.expect(len(iob) in (0, 3) and (len(iob) == 0 or np.array_equal(np.ravel(iob), np.arange(1, 7))), 'grid-iob')
    cons, nc = OTIS.read_constituents(model.zfile)
    case.expect(list(cons) == model.cons and nc == len(model.cons), 'constituents', f'{cons}')
    for i in r.permutation(len(cons)):
        z = OTIS.read_otis_elevation(model.zfile, int(i))
        u, v = OTIS.read_otis_transport(model.ufile, int(i))
        for got, t in ((z, 'z'), (u, 'u'), (v, 'v')):
            want = np.ma.masked_invalid(model.nodes[t].data[cons[i]])
            case.close(got, want, f'record-{t}', rtol=0, message=f'constituent {i}')
    case.nontrivial('records', g.kind, nc, hz.shape)


@check.scenario(quick=60, thorough=700, floor=40)
def compact(case):
    """ATLAS-compact records: global grid followed by local solutions"""
    r = case.rng
    m = synth.CompactModel(r, case.tmp)
    x, y, hz, mz, iob, dt, pmask, local = OTIS.read_atlas_grid(m.grid_file)
    case.note(shape=hz.shape, cons=m.cons, local={k: v['cons'] for k, v in m.local.items()})
    case.close(x, m.grid.x, 'atlas-x', rtol=1e-6, atol=1e-5)
    case.close(y, m.grid.y, 'atlas-y', rtol=1e-6, atol=1e-5)
    case.expect(np.array_equal(hz, m.hz), 'atlas-depth')
    case.expect(np.array_equal(mz, m.mz), 'atlas-mask')
    case.expect(np.array_equal(pmask, m.pmask), 'atlas-pmask')
    case.expect(abs(float(dt) - 12.0) < 1e-6, 'atlas-dt')
    check_local(case, local, m.local, 'depth', None)
    cons, nc = OTIS.read_constituents(m.zfile, grid='ATLAS')
    case.expect(list(cons) == m.cons, 'atlas-constituents', f'{cons}')
    for i, c in enumerate(m.cons):
        z, zl = OTIS.read_atlas_elevation(m.zfile, i, c)
        u, v, ul = OTIS.read_atlas_transport(m.ufile, i, c)
        for got, t in ((z, 'z'), (u, 'u'), (v, 'v')):
            case.close(got, m.data[t][c], f'atlas-{t}', rtol=0, message=c)
        check_local(case, zl, m.local, 'z', c)
        check_local(case, ul, m.local, 'u', c)
        check_local(case, ul, m.local, 'v', c)
    case.nontrivial('compact', nc, len(m.local))


def check_local(case, got, want, var, c):
    names = [k for k, v in want.items() if c is None or c in v['cons']]
    case.expect(sorted(got) == sorted(n.encode() for n in names), f'local-names-{var}',
        f'{list(got)} expected {names}')
    for k in names:
        w = want[k]
        if k.encode() not in got:
            continue
        e = got[k.encode()]
        f = w['depth'] if c is None else w[var][c]
        case.close(e[var], f, f'local-{var}', rtol=0, message=f'{k} {c}')
        case.close(e['lon'], w['lon'], f'local-lon-{var}', rtol=1e-6)
        case.close(e['lat'], w['lat'], f'local-lat-{var}', rtol=1e-6)
        case.event('local solutions')


@check.scenario(quick=25, thorough=250, floor=15)
def resample(case):
    """the global compact solution is resampled bilinearly"""
    r = case.rng
    dx = float(r.choice([15., 10., 30.]))
    nx, ny = int(360/dx), int(180/dx)
    x = (np.arange(nx)+0.5)*dx
    y = -90 + (np.arange(ny)+0.5)*dx
    z = r.normal(size=(ny, nx)) + (1j*r.normal(size=(ny, nx)) if r.random() < 0.6 else 0)
    s = float(r.choice([2.0, 2.5, 5.0, 1.0]))
    xs, ys, zs = OTIS.interpolate_atlas_model(x, y, z, spacing=s)
    case.note(dx=dx, spacing=s, complex=bool(np.iscomplexobj(z)))
    case.close(xs, (np.arange(int(round(360/s)))+0.5)*s, 'resample-x', rtol=1e-12)
    case.close(ys, -90+(np.arange(int(round(180/s)))+0.5)*s, 'resample-y', rtol=1e-12, atol=1e-9)
    cx, cy = np.clip(xs, x[0], x[-1]), np.clip(ys, y[0], y[-1])
    i = np.clip(((cx-x[0])//dx).astype(int), 0, nx-2)
    j = np.clip(((cy-y[0])//dx).astype(int), 0, ny-2)
    fx, fy = ((cx-x[i])/dx)[None, :], ((cy-y[j])/dx)[:, None]
    I, J = np.meshgrid(i, j)
    want = (1-fy)*((1-fx)*z[J, I] + fx*z[J, I+1]) + fy*((1-fx)*z[J+1, I] + fx*z[J+1, I+1])
    case.close(zs, want, 'resample', rtol=1e-9, scale=5.0)
    case.nontrivial('resample', dx, s)


@check.scenario(quick=1, thorough=3, floor=1)
def combine(case):
    """local solutions replace the global one over their own cells"""
    r = case.rng
    m = synth.CompactModel(r, case.tmp, nlocal=3)
    x, y, hz, mz, iob, dt, pmask, local = OTIS.read_atlas_grid(m.grid_file)
    xs, ys, zs = OTIS.combine_atlas_model(x, y, hz, pmask, local, variable='depth')
    _, _, base = OTIS.interpolate_atlas_model(x, y, hz)
    case.expect(zs.shape == (5400, 10800), 'combined-shape', f'{zs.shape}')
    changed = np.argwhere(zs.data != base.data)
    vals = np.sort(np.ravel(zs.data[zs.data != base.data]))
    want = np.concatenate([np.ravel(v['depth'].compressed()) for v in m.local.values()])
    case.expect(len(vals) == len(want) and np.allclose(vals, np.sort(want), rtol=1e-6), 'combined-local',
        f'{len(vals)} cells changed, expected {len(want)}')
    d = 1/30.
    # each local solution is placed as one block.  The limits of a local solution
    # may be those of the cells or of the nodes: up to two cells of offset
    for k, v in m.local.items():
        jj, ii = np.nonzero(~v['depth'].mask)
        J = np.round((v['lat'][0] + 90)/d).astype(int) + jj
        I = np.round((v['lon'][0] % 360.0)/d).astype(int) + ii
        ok = any(np.allclose(zs.data[J+a, (I+b) % 10800], v['depth'].compressed(), rtol=1e-6)
            for a in (-2, -1, 0, 1) for b in (-2, -1, 0, 1))
        case.expect(ok, 'combined-place', f'{k} at {v["lon"][0]}, {v["lat"][0]}')
    case.event('cells replaced', len(changed))
    case.nontrivial('combine')
