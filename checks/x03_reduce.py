"""X03: regional subsets of OTIS models"""
import json
import pathlib
import shutil
import struct
import numpy as np
import pyproj
import pyTMD
import pyTMD.io
from vmon.core import Check, Skip
from vmon import synth
from checks import x01_programs as X01

check = Check('X03', 'A model reduced to a region holds what the model has there',
    'a case counts when reduced files were parsed and compared node for node with the model they came from; key = model, files, projection of the bounds',
    ['an independent parser of OTIS files', 'models written by the harness, with known constants'])

DB = json.loads((pathlib.Path(pyTMD.__file__).parent/'data'/'database.json').read_text())
POLAR = ['CATS2008', 'CATS2008_load', 'AODTM-5', 'AOTIM-5', 'AOTIM-5-2018']
WORLD = ['TPXO9.1', 'TPXO7.2', 'TPXO7.2_load', 'CATS0201', 'TPXO9-atlas']


def records(p):
    b, out, k = p.read_bytes(), [], 0
    while k < len(b):
        n, = struct.unpack('>i', b[k:k+4])
        if n < 0 or k+8+n > len(b) or b[k+4+n:k+8+n] != b[k:k+4]:
            return None
        out.append(b[k+4:k+4+n])
        k += 8+n
    return out


def reduced_name(p, k=0):
    """published names of reduced files"""
    stem, sfx = p.stem, '' if p.suffix in ('.out', '.oce') else p.suffix
    return p.with_name(f'{stem}{sfx}.reduced' + (f'_{k}' if k else ''))


def place(case, r, name, have):
    """the files of a model where its database entry has them"""
    root = case.tmp/'models'
    raw = case.tmp/'raw'
    raw.mkdir()
    e, c = DB['elevation'].get(name), DB['current'].get(name)
    grid = None
    if name in POLAR:
        nx, ny = int(r.integers(8, 24)), int(r.integers(8, 24))
        d = float(r.choice([4.0, 5.0, 10.0, 50.0]))
        x = np.round(r.uniform(-2500, 2000)) + (np.arange(nx)+0.5)*d
        y = np.round(r.uniform(-2500, 2000)) + (np.arange(ny)+0.5)*d
        grid = synth.Grid(x, y, None, crs=(e or c)['projection'], kind='projected')
        grid.geographic = False
    else:
        grid = synth.geographic_grid(r, ['global0', 'global180', 'regE', 'regPM'] if name != 'TPXO9-atlas' else ['global0', 'regE'])
    m = synth.OTISModel(r, raw, grid=grid, layout='one')
    moved = {}

    def move(src, dst):
        dst = root/dst
        dst.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(src, dst)
        return dst
    g = m.grid
    if g.geographic and g.x[-1] + g.dx/2 < 0 and m.dt != 0:
        # read as longitudes from 0 to 360
        raise Skip
    xlim = np.array([g.x[0]-g.dx/2, g.x[-1]+g.dx/2])
    ylim = np.array([g.y[0]-g.dy/2, g.y[-1]+g.dy/2])
    for t, entry in (('z', e), ('u', c)):
        if entry is None or t not in have:
            continue
        moved['grid'] = move(m.grid_file, entry['grid_file'])
        files = entry['model_file']
        files = files if t == 'z' else files['u']
        if isinstance(files, list):
            # a file for each constituent
            names = [f.split('/')[-1].split('_')[1] for f in files]
            if 'M' not in moved:
                moved['M'] = names
                for k in 'zuv':
                    first = m.nodes[k].data[m.cons[0]]
                    m.nodes[k].data = {n: (first*(i+1)).astype(np.complex64) for i, n in enumerate(names)}
                m.cons = names
            moved[t] = []
            for n, f in zip(names, files):
                p = root/f
                p.parent.mkdir(parents=True, exist_ok=True)
                if t == 'z':
                    synth.otis_elevation(p, xlim, ylim, [n], m.nodes['z'].data)
                else:
                    synth.otis_transport(p, xlim, ylim, [n], m.nodes['u'].data, m.nodes['v'].data)
                moved[t].append((p, [n]))
        else:
            moved[t] = [(move(m.zfile if t == 'z' else m.ufile, files), m.cons)]
    shutil.rmtree(raw)
    return root, m, moved


@check.scenario(quick=300, thorough=6000, floor=150)
def reduce(case):
    r = case.rng
    name = str(r.choice(POLAR + WORLD + ['TPXO9.1', 'TPXO7.2']))
    have = str(r.choice(['zu', 'zu', 'z', 'u']))
    if name not in DB['current']:
        have = 'z'
    root, m, files = place(case, r, name, have)
    g = m.grid
    nx, ny = len(g.x), len(g.y)
    # bounds in a projection of choice
    crs = str(r.choice(['default', '4326', 'own', 'other']))
    own = pyproj.CRS.from_user_input(g.crs) if not g.geographic else pyproj.CRS.from_epsg(4326)
    if g.geographic:
        arg = {'default': None, '4326': '4326', 'own': 'EPSG:4326', 'other': '3395'}[crs]
    else:
        arg = {'default': None, '4326': '4326', 'own': own.to_proj4(), 'other': '3031' if 'CATS' in name else '3413'}[crs]
    i0, i1 = np.sort(r.choice(nx, 2, replace=False))
    j0, j1 = np.sort(r.choice(ny, 2, replace=False))
    x = np.array([g.x[i0] - r.uniform(0.02, 0.98)*g.dx, g.x[i1] + r.uniform(0.02, 0.98)*g.dx])
    y = np.array([g.y[j0] - r.uniform(0.02, 0.98)*g.dy, g.y[j1] + r.uniform(0.02, 0.98)*g.dy])
    if g.geographic:
        # as the longitudes of the model
        x = np.clip(x, g.x[0]-g.dx/2, g.x[-1]+g.dx/2)
        y = np.clip(y, -88 if arg == '3395' else -90, 88 if arg == '3395' else 90)
        if arg == '3395':
            x = np.clip(x, -180, 180)
            if x[1] - x[0] < g.dx:
                raise Skip
    empty = r.random() < 0.06 and crs != 'other'
    user = pyproj.CRS.from_user_input(int(arg) if arg and arg.isdigit() else arg or 4326)
    bx, by = x, y
    if user != own:
        tr = pyproj.Transformer.from_crs(own, user, always_xy=True)
        a, b = tr.transform(x[[0, 1, 1, 0]], y[[0, 0, 1, 1]])
        bx, by = np.array([a.min(), a.max()]), np.array([b.min(), b.max()])
    if not g.geographic and user.is_geographic and bx[1] - bx[0] > 180:
        # across the seam of longitudes, with the pole
        raise Skip
    if empty:
        by = by*0 + (89.0 if not user.is_projected and by.max() < 60 else by.max() + 50*abs(by[1]-by[0]))
        by[1] += 1e-3
    # the region is that between the corners
    tr = pyproj.Transformer.from_crs(user, 4326, always_xy=True)
    lo, la = tr.transform(bx[[0, 1, 1, 0]], by[[0, 0, 1, 1]])
    if user.is_geographic:
        lo, la = bx[[0, 1, 1, 0]], by[[0, 0, 1, 1]]
    if g.geographic:
        px, py = lo, la
    else:
        px, py = pyproj.Transformer.from_crs(4326, own, always_xy=True).transform(lo, la)
    if not np.all(np.isfinite(px)) or not np.all(np.isfinite(py)):
        raise Skip
    I = np.flatnonzero((g.x >= px.min()) & (g.x <= px.max()))
    J = np.flatnonzero((g.y >= py.min()) & (g.y <= py.max()))
    near = min(np.abs(g.x[:, None] - [px.min(), px.max()]).min()/g.dx, np.abs(g.y[:, None] - [py.min(), py.max()]).min()/g.dy)
    if near < 1e-4:
        raise Skip
    mode = int(r.choice([0o775, 0o640, 0o700]))
    argv = ['--directory', root, '--tide', name, '--bounds', *[repr(float(v)) for v in (*bx, *by)]] + \
        (['--projection', arg] if arg else []) + ([] if mode == 0o775 else ['--mode', f'{mode:o}'])
    case.note(model=name, files=have, grid=g.kind, projection=arg, nodes=[len(I), len(J)], bounds=[*bx, *by])
    originals = [files['grid']] + [p for t in have for p, _ in files[t]]
    held = {p: p.read_bytes() for p in root.rglob('*') if p.is_file()}
    # files reduced before
    again = int(r.choice([0, 0, 1, 2]))
    for k in range(again):
        for p in originals:
            reduced_name(p, k).write_bytes(b'reduced before')
            held[reduced_name(p, k)] = b'reduced before'
    log = X01.run(case, 'reduce_OTIS_files', [str(a) for a in argv])
    now = {p: p.read_bytes() for p in root.rglob('*') if p.is_file()}
    for p, b in held.items():
        case.expect(now.get(p) == b, 'others', f'{p.name} was changed')
    wanted = [reduced_name(p, again) for p in originals]
    new = set(now) - set(held)
    if len(I) == 0 or len(J) == 0:
        case.expect('failed' in log and not new, 'empty', f'{[p.name for p in new]} {log[-200:]}')
        case.nontrivial('empty', name)
        return
    if not case.expect(new == set(wanted), 'files', f'{sorted(p.name for p in new)} expected {sorted(p.name for p in wanted)}: {log[-400:]}'):
        return
    for p in wanted:
        case.expect(p.stat().st_mode & 0o777 == mode, 'mode', f'{p.name} {p.stat().st_mode:o}')
    sub = np.ix_(J, I)
    ulp = float(np.spacing(np.float32(max(np.abs(g.x).max(), np.abs(g.y).max(), 1e-3))))*3
    R = records(wanted[0])
    if case.expect(R is not None and len(R) == 4, 'grid-records'):
        head = struct.unpack('>2i4ffi', R[0])
        case.expect(head[:2] == (len(I), len(J)), 'grid-shape', f'{head[:2]} for {len(I)} {len(J)}')
        lim = np.array([g.y[J[0]]-g.dy/2, g.y[J[-1]]+g.dy/2, g.x[I[0]]-g.dx/2, g.x[I[-1]]+g.dx/2])
        case.close(np.array(head[2:6]), lim, 'grid-limits', rtol=0, atol=ulp)
        case.expect(np.array_equal(np.frombuffer(R[2], '>f4').reshape(len(J), len(I)), m.hz[sub]), 'grid-depth')
        case.expect(np.array_equal(np.frombuffer(R[3], '>i4').reshape(len(J), len(I)) != 0, m.mz[sub] != 0), 'grid-mask')
    else:
        return
    k = 1
    for t in have:
        for p, cons in files[t]:
            R = records(wanted[k])
            k += 1
            if not case.expect(R is not None and len(R) == len(cons) + 1, 'records', wanted[k-1].name):
                continue
            case.expect(struct.unpack('>3i', R[0][:12]) == (len(I), len(J), len(cons)), 'shape')
            case.close(np.array(struct.unpack('>4f', R[0][12:28])), lim, 'limits', rtol=0, atol=ulp)
            names = [R[0][28+4*i:32+4*i].decode().strip() for i in range(len(cons))]
            case.expect(names == list(cons), 'constituents', f'{names} for {cons}')
            for i, c in enumerate(cons):
                a = np.frombuffer(R[i+1], '>f4').reshape(len(J), len(I), -1)
                for q, s in enumerate('z' if t == 'z' else 'uv'):
                    v = m.nodes[s].data[c][sub]
                    w = (a[..., 2*q] + 1j*a[..., 2*q+1]).astype(np.complex64)
                    bad = ~((w == v) | (np.isnan(w) & np.isnan(v)))
                    case.expect(not bad.any(), f'values-{s}', f'{c}: {w[bad][:3]} for {v[bad][:3]}')
                    case.event('constituents compared')
    # and as the library finds it: well within the region
    if len(I) >= 6 and len(J) >= 6 and not case.found:
        t = str(r.choice([s for s in ('z', 'u', 'v', 'U', 'V') if (s == 'z') == ('z' in have) or have == 'zu']))
        if t != 'z' and 'u' not in have or t == 'z' and 'z' not in have:
            return
        n = 12
        i, j = r.choice(I[2:-2], n), r.choice(J[2:-2], n)
        nd = m.nodes[t.lower()]
        qx, qy = nd.x[i] + r.uniform(-0.3, 0.3, n)*g.dx, nd.y[j] + r.uniform(-0.3, 0.3, n)*g.dy
        lon, lat = g.lonlat(qx, qy)
        m.grid_file = wanted[0]
        w = {s: [reduced_name(p, again) for p, _ in files[s]] for s in have}
        m.zfile, m.ufile = [(v if len(v) > 1 else v[0]) if v else None for v in (w.get('z'), w.get('u'))]
        got = m.extract(lon, lat, type=t, method='nearest')
        synth.judge(case, m, got, t, qx, qy, 'nearest', 'extracted')
    case.nontrivial(name, have, crs, again > 0)
