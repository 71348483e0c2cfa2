"""F09: interpolation and grid kernels"""
import numpy as np
import pyTMD.interpolate as I
import pyTMD.io.ATLAS as ATLAS
import pyTMD.io.FES as FES
import pyTMD.io.GOT as GOT
import pyTMD.io.OTIS as OTIS
from vmon.core import Check, Skip
from vmon import gen, synth
from vmon.synth import Nodes, expect, MASKED, VALID, UNDECIDED

check = Check('F09', 'Interpolation and grid kernels are exact and local',
    'a case counts when a kernel was compared with the node-by-node reference; key = kernel, dtype, relation')


def grid(r):
    nx, ny = int(r.integers(3, 14)), int(r.integers(3, 14))
    # cells may be of different sizes
    if r.random() < 0.5:
        x = r.uniform(-180, 100) + np.cumsum(r.uniform(0.3, 3.0, nx))
        y = r.uniform(-80, 20) + np.cumsum(r.uniform(0.3, 3.0, ny))
    else:
        x = r.uniform(-180, 100) + np.arange(nx)*r.uniform(0.2, 3)
        y = r.uniform(-80, 20) + np.arange(ny)*r.uniform(0.2, 3)
    return x, y


def values(r, ny, nx):
    d = str(r.choice(['f8', 'f4', 'c16', 'c8']))
    z = r.normal(size=(ny, nx))
    if d[0] == 'c':
        z = z + 1j*r.normal(size=(ny, nx))
    return (z*10.0**r.uniform(-3, 3)).astype(d), d


def spots(r, x, y, n, outside=True):
    px, py = r.uniform(x[0], x[-1], n), r.uniform(y[0], y[-1], n)
    k = r.random(n) < 0.15
    px[k] = x[r.integers(0, len(x), k.sum())]
    k = r.random(n) < 0.15
    py[k] = y[r.integers(0, len(y), k.sum())]
    if outside:
        k = r.random(n) < 0.15
        px[k] = r.choice([x[0]-1.0, x[-1]+1.0], k.sum())
        k = r.random(n) < 0.1
        py[k] = r.choice([y[0]-1.0, y[-1]+1.0], k.sum())
    return px, py


@check.scenario(quick=250, thorough=4000, floor=150)
def interpolate(case):
    r = case.rng
    x, y = grid(r)
    z, d = values(r, len(y), len(x))
    kernel = str(r.choice(['bilinear', 'spline', 'linear', 'nearest']))
    mask = synth.land(r, len(y), len(x), 'specks') if r.random() < 0.6 else np.zeros(z.shape, bool)
    n = gen.size(r, 1, 40)
    px, py = spots(r, x, y, n, outside=kernel != 'spline')
    data = np.ma.array(z.copy(), mask=mask.copy())
    if kernel == 'bilinear' and r.random() < 0.5:
        data.data[mask] = np.nan
    else:
        data.data[mask] = 1e4
    if r.random() < 0.3:
        data = gen.dress(r, data, 1.0)
    px, py = gen.dress(r, px, 0.15), gen.dress(r, py, 0.15)
    plain = not mask.any() and r.random() < 0.5
    arg = data.data if plain else data
    keep = np.array(data.data), np.array(data.mask)
    case.note(x=x, y=y, px=px, py=py, kernel=kernel, dtype=d, masked=int(mask.sum()))
    # float values are also given to a complex output and so on
    kw = dict(dtype=np.dtype(d))
    if kernel == 'bilinear':
        got = I.bilinear(x, y, arg, px, py, **kw)
    elif kernel == 'spline':
        got = I.spline(x, y, arg, px, py, **kw)
    else:
        got = I.regulargrid(x, y, arg, px, py, method=kernel, **kw)
    case.expect(np.array_equal(keep[0], data.data, equal_nan=True) and np.array_equal(keep[1], data.mask), 'inputs-changed')
    case.expect(isinstance(got, np.ma.MaskedArray) and got.shape == (n,) and got.dtype == np.dtype(d), 'type',
        f'{type(got)} {np.shape(got)} {got.dtype}')
    want, state = expect(Nodes(x, y, mask), z.astype(complex), px, py, kernel, geographic=False)
    if kernel == 'spline':
        inside = (px >= x[0]) & (px <= x[-1]) & (py >= y[0]) & (py <= y[-1])
        state = np.where(inside, state, UNDECIDED)
    m = np.ma.getmaskarray(got) | np.isnan(got.data)
    judged = state != UNDECIDED
    bad = judged & (m != (state == MASKED))
    k = int(np.flatnonzero(bad)[0]) if bad.any() else 0
    case.expect(not bad.any(), f'validity:{kernel}', f'{bad.sum()} of {n} (first at {px[k]}, {py[k]})')
    v = (state == VALID) & ~m
    tol = 5e-6 if d in ('f4', 'c8') else 1e-10
    s = np.abs(z[~mask]).max() if (~mask).any() else 1.0
    # a snapped point is within the tolerance of isclose
    case.close(np.asarray(got.data)[v], want[v], f'value:{kernel}', rtol=tol, scale=s)
    case.event('valid', int(v.sum()))
    case.event('masked', int((state == MASKED).sum()))
    # one by one, in any order
    j = r.permutation(n)[:6]
    fn = dict(bilinear=I.bilinear, spline=I.spline).get(kernel) or \
        (lambda *a, **k: I.regulargrid(*a, method=kernel, **k))
    sub = fn(x, y, arg, px[j], py[j], **kw)
    case.expect(np.array_equal(np.ma.getmaskarray(sub), np.ma.getmaskarray(got)[j]), f'batch-mask:{kernel}')
    ok = ~np.ma.getmaskarray(sub)
    case.expect(np.allclose(sub.data[ok], got.data[j][ok], rtol=1e-6, equal_nan=True), f'batch-value:{kernel}')
    case.nontrivial(kernel, d, bool(mask.any()), plain)


@check.scenario(quick=120, thorough=1500, floor=70)
def extrapolate(case):
    r = case.rng
    x, y = grid(r)
    z, d = values(r, len(y), len(x))
    mask = synth.land(r, len(y)+3, len(x)+3, str(r.choice(['block', 'coast', 'specks'])))[:len(y), :len(x)]
    nan = r.random(z.shape) < 0.05
    geo = bool(r.random() < 0.6)
    n = int(r.integers(1, 25))
    px, py = r.uniform(x[0]-2, x[-1]+2, n), np.clip(r.uniform(y[0]-2, y[-1]+2, n), -90, 90)
    if geo and r.random() < 0.4:
        px = px + 360.0
    data = np.ma.array(z.copy(), mask=mask)
    data.data[nan] = np.nan
    bad = mask | nan
    cutoff = float(r.choice([30.0, 120.0, 400.0, np.inf])) if geo else float(r.choice([0.3, 1.0, 4.0, np.inf]))
    case.note(x=x, y=y, px=px, py=py, geographic=geo, cutoff=cutoff, dtype=d)
    keep = np.array(data.data), np.array(data.mask)
    got = I.extrapolate(x, y, data, px, py, dtype=np.dtype(d), cutoff=cutoff, is_geographic=geo)
    case.expect(np.array_equal(keep[0], data.data, equal_nan=True) and np.array_equal(keep[1], data.mask), 'inputs-changed')
    if bad.all():
        case.expect(np.ma.getmaskarray(got).all(), 'nothing-valid')
        return
    from math import inf
    X, Y = np.meshgrid(x, y)
    j, i = np.nonzero(~bad)
    if geo:
        a, e2 = 6378.137, 2/298.257223563 - 298.257223563**-2

        def xyz(lo, la):
            lo, la = np.radians(lo), np.radians(la)
            N = a/np.sqrt(1-e2*np.sin(la)**2)
            return np.stack([N*np.cos(la)*np.cos(lo), N*np.cos(la)*np.sin(lo), N*(1-e2)*np.sin(la)], -1)
        P, Q = xyz(X[j, i], Y[j, i]), xyz(px, py)
    else:
        P, Q = np.stack([X[j, i], Y[j, i]], -1), np.stack([px, py], -1)
    D = np.sqrt(((P[None]-Q[:, None])**2).sum(-1))
    o = np.sort(D, 1)
    k = np.argmin(D, 1)
    m = np.ma.getmaskarray(got)
    for q in range(n):
        dist = o[q, 0]
        if len(j) > 1 and o[q, 1]-dist < 1e-3*dist + 1e-9:
            continue
        if abs(dist-cutoff) < 1e-3*dist:
            continue
        where = f'({px[q]}, {py[q]}) nearest at {dist}, cutoff {cutoff}'
        if dist > cutoff:
            case.expect(m[q], 'beyond-cutoff', where)
            case.event('beyond cutoff')
        elif case.expect(not m[q], 'not-filled', where):
            case.expect(abs(got.data[q]-z[j, i][k[q]]) <= 1e-6*abs(z[j, i][k[q]]), 'nearest', where)
            case.event('filled')
    case.nontrivial('extrapolate', geo, cutoff, d)


@check.scenario(quick=150, thorough=2000, floor=0)
def helpers(case):
    """extension and cropping of grids"""
    r = case.rng
    M = [OTIS, ATLAS, GOT, FES][int(r.integers(0, 4))]
    g = synth.geographic_grid(r, ['global0', 'global180', 'global0n', 'global180n', 'regE', 'regW0', 'regW180', 'regPM', 'regDL'])
    x, y = g.x, g.y
    if not all(hasattr(M, f) for f in ('_crop', '_extend_array', '_extend_matrix')):
        raise Skip
    z = r.normal(size=(len(y), len(x)))
    if r.random() < 0.5:
        z = np.ma.array(z, mask=r.random(z.shape) < 0.2)
    keep = np.array(np.ma.getdata(z)), np.array(np.ma.getmaskarray(z)), x.copy(), y.copy()
    name = M.__name__.split('.')[-1]
    case.note(module=name, grid=g.kind)
    if g.period:
        xe, ze = M._extend_array(x, g.dx), M._extend_matrix(z)
        # evenly spaced columns from before the first to after the last
        case.expect(xe[0] < x[0] - 0.5*g.dx and xe[-1] > x[-1] + 0.5*g.dx, f'extend-range:{name}')
        case.close(np.diff(xe), np.full(len(xe)-1, g.dx), f'extend-x:{name}', rtol=1e-9)
        ecol = [int(np.argmin(np.abs((x - v + 180) % 360 - 180))) for v in xe]
        case.expect(all(abs((x[c]-v+180) % 360 - 180) < 1e-6 for c, v in zip(ecol, xe)), f'extend-node:{name}')
        case.close(ze, z[:, ecol], f'extend-z:{name}', rtol=0)
    # every node of the cropped grid is a node of the grid, with its value
    w = r.uniform(2, 5)*g.dx
    x0 = r.uniform(x[0], x[-1]) if g.period is None else r.uniform(-180, 300)
    y0 = r.uniform(y[0], y[-2])
    k = float(r.choice([0, 360, -360])) if not g.period else 0.0
    if g.period is None:
        x0 = min(x0, x[-1]-g.dx)
        x1 = min(x0+w, x[-1])
    else:
        x1 = x0+w
    y1 = min(y0 + r.uniform(2, 5)*g.dy, y[-1])
    b = float(r.choice([0.0, 1.0, 3.0]))*max(g.dx, g.dy)
    bounds = [x0+k, x1+k, y0, y1]
    if not (-185 <= bounds[0] and bounds[1] <= 365):
        bounds = [x0, x1, y0, y1]
    case.note(bounds=bounds, buffer=b)
    # what must be in the cropped grid: nodes within the buffered bounds
    X = np.concatenate([x + s for s in (-360., 0., 360.)])
    S = np.tile(np.arange(len(x)), 3)
    need = sorted({int(c) for c, v in zip(S, X) if bounds[0]-b <= v <= bounds[1]+b})
    rows = np.flatnonzero((y >= y0-b) & (y <= y1+b))
    if len(need) == 0 or len(rows) == 0:
        raise Skip
    zc, xc, yc = M._crop(z, x.copy(), y.copy(), bounds=bounds, buffer=b)
    if not case.expect(zc.shape == (len(yc), len(xc)), f'crop-shape:{name}', f'{zc.shape}'):
        return
    case.expect(np.all(np.diff(xc) > 0) and np.all(np.diff(yc) > 0), f'crop-order:{name}')
    case.close(np.diff(xc), np.full(len(xc)-1, g.dx), f'crop-step:{name}', rtol=1e-6)
    col = [int(np.argmin(np.abs((x - v + 180) % 360 - 180))) for v in xc]
    case.expect(all(abs((x[c]-v+180) % 360 - 180) < 1e-6 for c, v in zip(col, xc)), f'crop-node:{name}')
    row = [int(np.argmin(np.abs(y-v))) for v in yc]
    case.expect(set(need) <= set(col) and set(rows.tolist()) <= set(row), f'crop-bounds:{name}',
        f'columns {sorted(set(need)-set(col))} missing')
    case.close(zc, z[np.ix_(row, col)], f'crop-values:{name}', rtol=0)
    case.expect(np.array_equal(keep[0], np.ma.getdata(z)) and np.array_equal(keep[1], np.ma.getmaskarray(z)), 'inputs-changed')
    case.nontrivial('crop', name, g.kind)


@check.scenario(quick=60, thorough=600, floor=0)
def shift(case):
    """a global grid moved to another base longitude keeps its values"""
    r = case.rng
    M = [OTIS, ATLAS, GOT, FES][int(r.integers(0, 4))]
    name = M.__name__.split('.')[-1]
    if not hasattr(M, '_shift'):
        raise Skip
    west = bool(r.random() < 0.5)
    g = synth.geographic_grid(r, ['global0', 'global0n', 'global0c'] if west else ['global180', 'global180n', 'global180c'])
    cyclic = g.kind[-1] == 'c'
    z = r.normal(size=(len(g.y), len(g.x)))
    if cyclic:
        z[:, -1] = z[:, 0]
    if r.random() < 0.5:
        z = np.ma.array(z, mask=r.random(z.shape) < 0.2)
        if cyclic:
            z.mask[:, -1] = z.mask[:, 0]
    case.note(module=name, grid=g.kind)
    zs, xs = M._shift(z, g.x, 180.0 if west else 0.0, 360.0, direction='west' if west else 'east')
    case.expect(np.all(np.diff(xs) > 0), f'shift-order:{name}', f'{xs}')
    case.close(np.diff(xs), np.full(len(xs)-1, g.dx), f'shift-step:{name}', rtol=1e-9)
    lo, hi = (-180, 180) if west else (0, 360)
    case.expect(xs[0] >= lo-g.dx and xs[-1] <= hi+g.dx, f'shift-range:{name}', f'{xs[0]} {xs[-1]}')
    col = [int(np.argmin(np.abs((g.x-v+180) % 360-180))) for v in xs]
    case.close(zs, z[:, col], f'shift-values:{name}', rtol=0)
    case.nontrivial('shift', name, g.kind)


@check.scenario(quick=60, thorough=600, floor=0)
def cgrid(case):
    """masks and values moved to the u and v nodes"""
    r = case.rng
    if not all(hasattr(OTIS, f) for f in ('_mask_nodes', '_interpolate_zeta')):
        raise Skip
    ny, nx = int(r.integers(3, 12)), int(r.integers(3, 12))
    hz = np.where(synth.land(r, ny+3, nx+3)[:ny, :nx], 0, r.uniform(1, 4000, (ny, nx)))
    glob = bool(r.random() < 0.5)
    keep = hz.copy()
    mu, mv = OTIS._mask_nodes(hz, is_global=glob)
    hu, hv = OTIS._interpolate_zeta(hz, is_global=glob)
    for j in range(ny):
        for i in range(nx):
            l = (hz[j, i-1] if i else (hz[j, -1] if glob else hz[j, 0]))
            b = hz[j-1, i] if j else hz[0, i]
            a = hz[j, i]
            case.expect(bool(mu[j, i]) == bool(a > 0 and l > 0) and bool(mv[j, i]) == bool(a > 0 and b > 0), 'node-mask',
                f'{j} {i} global {glob}')
            case.close(hu[j, i], 0.5*(a+l) if a > 0 and l > 0 else 0.0, 'node-u', rtol=1e-9)
            case.close(hv[j, i], 0.5*(a+b) if a > 0 and b > 0 else 0.0, 'node-v', rtol=1e-9)
    case.expect(np.array_equal(hz, keep), 'inputs-changed')
    case.nontrivial('cgrid', glob)


@check.scenario(quick=80, thorough=800, floor=0)
def wrap(case):
    """longitudes are brought to the grid by whole turns"""
    r = case.rng
    if not hasattr(I, '_wrap_longitudes'):
        raise Skip
    g = synth.geographic_grid(r, ['global0', 'global180', 'regE', 'regW0', 'regW180', 'regPM', 'regDL'])
    x = np.r_[g.x[0]-g.dx, g.x, g.x[-1]+g.dx] if g.period else g.x
    lon = r.uniform(-360, 540, 40)
    out = I._wrap_longitudes(x, lon.copy())
    turns = (out-lon)/360.0
    case.close(turns, np.round(turns), 'turns', rtol=0, atol=1e-9)
    inside = np.zeros(40, bool)
    for k in (-2, -1, 0, 1, 2):
        inside |= (lon+360.0*k >= x[0]) & (lon+360.0*k <= x[-1])
    got = (out >= x[0]) & (out <= x[-1])
    case.expect(np.array_equal(got | ~inside, np.ones(40, bool)), 'within')
    case.nontrivial('wrap', g.kind)
