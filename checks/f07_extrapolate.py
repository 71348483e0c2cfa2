"""F07: extrapolation takes the nearest valid node within the cutoff, and nothing else"""
import numpy as np
from vmon.core import Check
from vmon import synth, readers

check = Check('F07', 'Extrapolation takes the nearest valid node within the cutoff',
    'a case counts when at least one masked point was decided by the nearest-node oracle; '
    'key = format, grid, type, method, cutoff',
    ['distances are chords of the WGS84 ellipsoid (geographic) or in the units of the projection; '
     'points whose nearest nodes are nearly as close as each other, or near the cutoff, are not judged'])
FMT = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES']
A, E2 = 6378.137, 2/298.257223563 - 298.257223563**-2


def ecef(lon, lat):
    lo, la = np.radians(lon), np.radians(lat)
    n = A/np.sqrt(1 - E2*np.sin(la)**2)
    return np.stack([n*np.cos(la)*np.cos(lo), n*np.cos(la)*np.sin(lo), n*(1-E2)*np.sin(la)], -1)


def nearest(model, t, con, px, py):
    """(value, depth, distance, runner-up distance) of the nearest valid node"""
    nd = model.nodes[t.lower()]
    m = nd.mask if nd.mask is not None else nd.masks[con]
    f = nd.data[con]
    bad = m | np.isnan(f)
    if nd.mask is not None:
        bad |= f == 0
    X, Y = np.meshgrid(nd.x, nd.y)
    j, i = np.nonzero(~bad)
    if len(j) == 0:
        return None
    if model.grid.geographic:
        P, Q = ecef(X[j, i], Y[j, i]), ecef(px, py)
    else:
        P, Q = np.stack([X[j, i], Y[j, i]], -1), np.stack([px, py], -1)
    d = np.sqrt(((P[None] - Q[:, None])**2).sum(-1))
    k = np.argmin(d, 1)
    near = d[np.arange(len(px)), k]
    val = f[j, i][k]
    # the same value further off is no other choice (a repeated meridian)
    other = np.where(f[j, i][None] == val[:, None], np.inf, d).min(1)
    depth = None if nd.depth is None else nd.depth[j, i][k]
    return val, depth, near, other


def run(case, name):
    r = case.rng
    fine = name != 'OTIS' and r.random() < 0.2
    model = synth.FORMATS[name](r, case.tmp, grid=synth.fine_grid(r) if fine else None, landstyle=str(r.choice(['block', 'specks', 'coast', 'coast'])))
    if getattr(model, 'nan', False):
        # nodes without data at wet cells: the depth may be taken elsewhere
        types = ('z', 'U', 'V')
    else:
        types = model.types
    g = model.grid
    t = str(r.choice(types))
    n = int(r.integers(4, 40))
    px, py = synth.points(r, g, n)
    # and some outside of the domain
    if r.random() < 0.5:
        k = r.random(n) < 0.25
        px, py = px.copy(), py.copy()
        if g.period is None:
            px[k] = np.where(r.random(k.sum()) < 0.5, g.x[0] - r.uniform(1.1, 2.5, k.sum())*abs(g.dx),
                g.x[-1] + r.uniform(1.1, 2.5, k.sum())*abs(g.dx))
        else:
            py[k] = np.where(r.random(k.sum()) < 0.5, g.y[0] - r.uniform(.01, .4, k.sum())*g.dy,
                g.y[-1] + r.uniform(.01, .4, k.sum())*g.dy)
            py = np.clip(py, -90, 90)
    lon, lat = g.lonlat(px, py)
    if g.geographic:
        lon, _ = synth.convention(r, lon, str(r.choice(['180', '360', 'mixed'])))
    unit = 1.0 if not g.geographic else 111.0
    cell = unit*max(abs(g.dx), abs(g.dy))
    cutoff = float(r.choice([0.4*cell, 1.5*cell, 4*cell, np.inf]))
    method = str(r.choice(readers.METHODS))
    case.note(format=model.fmt, grid=g.kind, type=t, method=method, cutoff=cutoff, x=px, y=py, lon=lon, lat=lat)
    kw = dict(type=t, method=method, extrapolate=True, cutoff=cutoff)
    if fine and r.random() < 0.7:
        # ten kilometers
        cutoff = 10.0
        kw.pop('cutoff')
    if r.random() < 0.4:
        c = model.read(type=t)
        got = model.interp(lon, lat, c, **kw)
        note = 'interpolate'
    else:
        got = model.extract(lon, lat, **kw)
        note = 'extract'
    z, m = synth.complex_of(got[0], got[1])
    inside = model.inside(px, py)
    nd = model.nodes[t.lower()]
    innode = synth.locate(nd, px, py, g.geographic)[0]
    # a global model covers the latitudes of its nodes
    for q, con in enumerate(model.cons):
        want, state, d = model.truth(t, con, px, py, method)
        near = nearest(model, t, con, px, py)
        s = np.nanmax(np.abs(nd.data[con]))*(model.scale if t in 'zUV' else 1)
        # outside of the domain
        out = ~inside & ~innode
        case.expect(m[out, q].all(), f'outside:{name}', f'{note} {con} type {t} {method} grid {g.kind}: '
            f'{(~m[out, q]).sum()} of {out.sum()} valid outside of the domain ({px[out]}, {py[out]})')
        # valid points are what they are without extrapolation
        v = state == synth.VALID
        if v.any():
            case.expect(not m[v, q].any(), f'valid-masked:{name}')
            sc = np.abs(want) + s
            if t in 'uv' and d is not None:
                sc = np.abs(want) + np.abs(np.nanmax(np.abs(nd.data[con]))/(np.abs(d)/100))*model.scale
            err = np.abs(z[:, q] - want)
            case.expect((err[v] <= 2e-5*np.broadcast_to(sc, err.shape)[v]).all(), f'valid-changed:{name}',
                f'{note} {con} type {t} {method} grid {g.kind} {err[v].max()}')
        # masked ones take the nearest node
        e = (state == synth.MASKED) & inside & innode
        if near is None:
            case.expect(m[e, q].all(), f'no-nodes:{name}')
            continue
        val, dep, dist, other = near
        for i in np.flatnonzero(e):
            if other[i] - dist[i] < max(2e-2*dist[i], 1e-3*cell):
                continue
            if abs(dist[i] - cutoff) < 1e-2*dist[i]:
                continue
            case.event('points to extrapolate')
            where = f'{note} {con} type {t} {method} grid {g.kind} cutoff {cutoff}: ({px[i]}, {py[i]}) at {dist[i]}'
            if dist[i] > cutoff:
                case.expect(m[i, q], f'beyond-cutoff:{name}', where)
                case.event('beyond cutoff')
                continue
            case.event('within cutoff')
            if not case.expect(not m[i, q], f'not-filled:{name}', where):
                continue
            w = val[i]*model.scale
            if t in 'uv' and dep is not None:
                w = w/(dep[i]/100.0)
            case.expect(abs(z[i, q] - w) <= 2e-5*abs(w), f'nearest:{name}',
                f'{where}: got {z[i, q]} expected {w}')
            case.nontrivial(name, g.kind, t, method, round(cutoff/cell, 1))


@check.scenario(quick=90, thorough=1300, floor=50)
def otis(case):
    run(case, 'OTIS')


@check.scenario(quick=40, thorough=700, floor=25)
def tmd3(case):
    run(case, 'TMD3')


@check.scenario(quick=60, thorough=900, floor=35)
def atlas(case):
    run(case, 'ATLAS')


@check.scenario(quick=50, thorough=800, floor=30)
def got(case):
    run(case, 'GOT')


@check.scenario(quick=50, thorough=800, floor=30)
def fes(case):
    run(case, 'FES')
