"""synth.py -- synthetic tide models on disk, with their truth in memory

Every format is written here from its published layout (not with the writers
of pyTMD), with independent random values at each node so that any slip of an
index, a sign, a unit or a record changes the result.

The oracle interpolates the truth point by point.  Its third value,
UNDECIDED, marks points where the expectation hinges on rounding.
"""
import gzip
import pathlib
import struct
import numpy as np
import netCDF4
import pyproj

MASKED, VALID, UNDECIDED = 0, 1, 2
CONS = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', 'mf', 'mm', 'm4', 'ms4', 'mn4', '2n2', 's1']


def howmany(r):
    # constituents in a model: mostly few, now and then most of them
    return int(r.integers(5, len(CONS)+1)) if r.random() < 0.12 else int(r.integers(1, 5))


# ---------------------------------------------------------------- geometry
class Grid:
    """z-nodes of a model grid"""

    def __init__(self, x, y, period=None, crs='4326', kind='', centred=True):
        self.x = np.asarray(x, dtype=np.float64)
        self.y = np.asarray(y, dtype=np.float64)
        self.period = period
        self.crs = crs
        self.kind = kind
        self.geographic = str(crs) == '4326'
        self.dx = self.x[1]-self.x[0]
        self.dy = self.y[1]-self.y[0]

    def lonlat(self, px, py):
        if self.geographic:
            return np.array(px, dtype=float), np.array(py, dtype=float)
        c = pyproj.CRS.from_user_input(self.crs if isinstance(self.crs, (dict, str))
            and not str(self.crs).isdigit() else int(self.crs))
        t = pyproj.Transformer.from_crs(4326, c, always_xy=True)
        return t.transform(px, py, direction='INVERSE')


def geographic_grid(r, kinds, centred=True):
    kind = str(r.choice(kinds))
    dx = float(r.choice([5.0, 7.5, 9.0, 10.0, 12.0, 6.0]))
    if kind.startswith('global'):
        n = int(round(360/dx))
        if kind == 'global0':
            x = (np.arange(n)+0.5)*dx
        elif kind == 'global180':
            x = -180 + (np.arange(n)+0.5)*dx
        elif kind == 'global0n':
            x = np.arange(n)*dx
        elif kind == 'global180n':
            x = -180 + np.arange(n)*dx
        elif kind == 'global0c':
            x = np.arange(n+1)*dx
        elif kind == 'global180c':
            x = -180 + np.arange(n+1)*dx
        ny = int(r.integers(9, 16))
        dy = 180.0/ny
        if kind[-1] in 'nc':
            y = np.linspace(-90, 90, ny+1)
        else:
            y = -90 + (np.arange(ny)+0.5)*dy
        return Grid(x, y, 360.0, kind=kind)
    lo = dict(regE=20.0, regW0=200.0, regW180=-160.0, regPM=-22.0, regDL=152.0, regDLm=-205.0)[kind]
    nx, ny = int(r.integers(8, 22)), int(r.integers(7, 18))
    dx = float(r.choice([0.25, 0.5, 1.0, 2.0]))
    dy = float(r.choice([0.25, 0.5, 1.0]))
    lo = lo + dx*int(r.integers(0, 8))
    y0 = float(r.uniform(-75, 55))
    y0 = np.round(y0/dy)*dy
    off = float(r.choice([0.0, 0.5]))
    x = lo + (np.arange(nx)+off)*dx
    y = y0 + (np.arange(ny)+off)*dy
    return Grid(x, y, None, kind=kind)


def fine_grid(r):
    """a region with a few kilometers between nodes"""
    nx, ny = int(r.integers(8, 18)), int(r.integers(8, 18))
    d = float(r.choice([0.03125, 0.0625, 0.125]))
    x = float(r.choice([20.0, 200.0, 152.0])) + np.arange(nx)*d
    y = float(r.choice([-64.0, -8.0, 30.0, 56.0])) + np.arange(ny)*d
    return Grid(x, y, None, kind='regE')


CATS = {'+proj': 'x'}
PROJECTED = ['3031', '3413',
    '+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=-70 +x_0=0 +y_0=0 +ellps=WGS84 +units=km +no_defs',
    '+proj=stere +lat_0=90 +lat_ts=75 +lon_0=0 +x_0=0 +y_0=0 +ellps=WGS84 +units=km +no_defs']


def projected_grid(r):
    crs = str(r.choice(PROJECTED))
    km = 1.0 if 'units=km' in crs else 1000.0
    nx, ny = int(r.integers(8, 20)), int(r.integers(8, 20))
    d = float(r.choice([5.0, 10.0, 20.0]))*km
    x0 = np.round(r.uniform(-2500, 2000))*km
    y0 = np.round(r.uniform(-2500, 2000))*km
    x = x0 + (np.arange(nx)+0.5)*d
    y = y0 + (np.arange(ny)+0.5)*d
    return Grid(x, y, None, crs=crs, kind='projected')


def land(r, ny, nx, style=None):
    """True where dry"""
    style = style or str(r.choice(['none', 'block', 'specks', 'coast']))
    m = np.zeros((ny, nx), bool)
    if style == 'block':
        a, b = int(r.integers(0, ny-3)), int(r.integers(0, nx-3))
        m[a:a+int(r.integers(2, max(3, ny//2))), b:b+int(r.integers(2, max(3, nx//2)))] = True
    elif style == 'specks':
        m[r.random((ny, nx)) < 0.12] = True
    elif style == 'coast':
        k = ny//2 + np.round(2*np.cumsum(r.normal(size=nx))/3).astype(int)
        k = np.clip(k, 2, ny-2)
        m[np.arange(ny)[:, None] < k[None, :]] = True
        if r.random() < 0.5:
            m = m[::-1]
    return m


# ---------------------------------------------------------------- truth
class Nodes:
    def __init__(self, x, y, mask, depth=None, period=None):
        self.x, self.y = np.asarray(x, float), np.asarray(y, float)
        self.mask = mask
        self.depth = depth
        self.period = period
        self.data = {}


def locate(nodes, px, py, geographic=True):
    """(inside, i, j, fx, fy) of each point among the nodes"""
    x, y = nodes.x, nodes.y
    px = np.array(px, float)
    if nodes.period:
        px = x[0] + np.mod(px - x[0], nodes.period)
        n = len(x)
        if np.isclose(x[-1]-x[0], nodes.period):
            xe = x
        else:
            xe = np.append(x, x[0] + nodes.period)
        inside = np.ones(px.shape, bool)
    else:
        xe = x
        if geographic:
            for k in (360.0, -360.0):
                alt = px + k
                px = np.where(((px < x[0]) | (px > x[-1])) & (alt >= x[0]) & (alt <= x[-1]), alt, px)
        inside = (px >= x[0]) & (px <= x[-1])
    inside = inside & (py >= y[0]) & (py <= y[-1])
    i = np.clip(np.searchsorted(xe, px, side='right')-1, 0, len(xe)-2)
    j = np.clip(np.searchsorted(y, py, side='right')-1, 0, len(y)-2)
    fx = (px - xe[i])/(xe[i+1]-xe[i])
    fy = (py - y[j])/(y[j+1]-y[j])
    return inside, i, j, fx, fy, px, xe


def expect(nodes, field, px, py, method, geographic=True, mask=None):
    """(value, state) of a field at each point"""
    mask = nodes.mask if mask is None else mask
    inside, i, j, fx, fy, pw, xe = locate(nodes, px, py, geographic)
    nx = len(nodes.x)
    c = [(j, i), (j, (i+1) % nx if nodes.period and len(xe) > nx else i+1),
         (j+1, i), (j+1, (i+1) % nx if nodes.period and len(xe) > nx else i+1)]
    W = np.array([(1-fx)*(1-fy), fx*(1-fy), (1-fx)*fy, fx*fy])
    V = np.array([field[a, b] for a, b in c])
    M = np.array([mask[a, b] for a, b in c])
    state = np.full(np.shape(px), VALID)
    if method == 'nearest':
        k = (fx > 0.5).astype(int) + 2*(fy > 0.5).astype(int)
        val = np.take_along_axis(V, k[None], 0)[0]
        bad = np.take_along_axis(M, k[None], 0)[0]
        tie = (np.abs(fx-0.5) < 1e-5) | (np.abs(fy-0.5) < 1e-5)
        state[bad] = MASKED
        state[tie] = UNDECIDED
    elif method == 'bilinear':
        w = np.where(M, 0.0, W)
        s = w.sum(0)
        with np.errstate(all='ignore'):
            val = np.where(M, 0, V*W).sum(0)/s
        state[M.all(0)] = MASKED
        # exact at the corners, within the tolerance of numpy.isclose
        y = nodes.y
        for (a, b), m in zip(c, range(4)):
            xc = xe[i + (m % 2)]
            near = (np.abs(pw-xc) <= 2e-5*(np.abs(xc)+(360 if geographic else 0))+2e-8) & (np.abs(py-y[a]) <= 2e-5*np.abs(y[a])+2e-8)
            exact = (np.abs(pw-xc) <= 1e-12*(1+np.abs(xc))) & (np.abs(py-y[a]) <= 1e-12*(1+np.abs(y[a])))
            val = np.where(exact, V[m], val)
            state = np.where(exact, np.where(M[m], MASKED, VALID), np.where(near, UNDECIDED, state))
        state[(s < 1e-5) & (state == VALID)] = UNDECIDED
        # on an edge of the cell with both ends masked, the next cell may be taken
        for edge, a, b in ((fx < 1e-5, 0, 2), (fx > 1-1e-5, 1, 3), (fy < 1e-5, 0, 1), (fy > 1-1e-5, 2, 3)):
            state[edge & M[a] & M[b]] = UNDECIDED
    else:
        heavy = (M & (W > 1e-5)).any(0)
        light = (M & (W <= 1e-5)).any(0)
        val = np.where(M & (W <= 1e-5), 0, V*W).sum(0)
        state[heavy] = MASKED
        state[light & ~heavy] = UNDECIDED
        # on the edge of a cell, either cell may be taken
        for low, k, lim in ((fx < 1e-5, -1, 0), (fx > 1-1e-5, 1, len(xe)-2)):
            if low.any():
                i2 = np.where(low, i+k, i)
                i2 = i2 % (len(xe)-1) if nodes.period else np.clip(i2, 0, len(xe)-2)
                touch = low & (mask[j, i2 % nx] | mask[j, (i2+1) % nx] | mask[j+1, i2 % nx] | mask[j+1, (i2+1) % nx])
                state[touch & ~heavy] = UNDECIDED
        for low, k in ((fy < 1e-5, -1), (fy > 1-1e-5, 1)):
            if low.any():
                j2 = np.clip(np.where(low, j+k, j), 0, len(nodes.y)-2)
                touch = low & (mask[j2, i] | mask[j2, (i+1) % nx] | mask[j2+1, i] | mask[j2+1, (i+1) % nx])
                state[touch & ~heavy] = UNDECIDED
    state = np.where(inside, state, MASKED)
    return val, state


def points(r, g, n, nodes=None, margin=0.0, seams=True):
    """coordinates in the grid's system (x, y), inside the domain"""
    x0, x1 = (g.x[0], g.x[-1]) if not g.period else (g.x[0], g.x[0] + g.period)
    px = r.uniform(x0 + margin*g.dx, x1 - margin*g.dx, n)
    py = r.uniform(g.y[0] + margin*g.dy, g.y[-1] - margin*g.dy, n)
    if g.period and seams:
        k = r.random(n) < 0.3
        s = r.choice([0.0, 180.0, 360.0, -180.0, g.x[0], g.x[-1]], n) + r.uniform(-1, 1, n)*g.dx
        s = np.where(r.random(n) < 0.25, r.choice([0.0, 180.0, 359.999, 0.001, 179.999], n), s)
        px = np.where(k, s, px)
    if not g.geographic:
        return px, py
    k = r.random(n) < 0.12
    px[k] = g.x[r.integers(1, len(g.x)-1, k.sum())]
    k2 = r.random(n) < 0.12
    py[k2] = g.y[r.integers(1, len(g.y)-1, k2.sum())]
    return px, py


def convention(r, lon, style=None):
    style = style or str(r.choice(['180', '360', 'as-is', 'mixed']))
    l180 = (np.asarray(lon) + 180) % 360 - 180
    l360 = np.asarray(lon) % 360
    if style == '180':
        return l180, style
    if style == '360':
        return l360, style
    if style == 'mixed':
        return np.where(r.random(len(lon)) < 0.5, l180, l360), style
    return np.array(lon), style


# ---------------------------------------------------------------- writers
def fields(r, cons, ny, nx):
    out = {}
    for c in cons:
        a = 10.0**r.uniform(-1.5, 0.8)
        z = a*(r.normal(size=(ny, nx)) + 1j*r.normal(size=(ny, nx)))
        out[c] = z.astype(np.complex64)
    return out


def be(*v, t='i'):
    return struct.pack('>' + t*len(v), *v)


def otis_grid(path, xlim, ylim, hz, mz, nob=0, dt=12.0, r=None):
    ny, nx = hz.shape
    b = be(32) + be(nx, ny) + be(*ylim, *xlim, t='f') + be(dt, t='f') + be(nob) + be(32)
    if nob == 0:
        b += be(4, 0, 4)
    else:
        b += be(8*nob) + np.arange(1, 2*nob+1).astype('>i4').tobytes() + be(8*nob)
    b += be(4*nx*ny) + hz.astype('>f4').tobytes() + be(4*nx*ny)
    b += be(4*nx*ny) + mz.astype('>i4').tobytes() + be(4*nx*ny)
    pathlib.Path(path).write_bytes(b)


def otis_header(xlim, ylim, nx, ny, cons):
    n = 4*(7+len(cons))
    return be(n) + be(nx, ny, len(cons)) + be(*ylim, *xlim, t='f') + \
        b''.join(c.ljust(4).encode() for c in cons) + be(n)


def otis_elevation(path, xlim, ylim, cons, z):
    ny, nx = z[cons[0]].shape
    b = [otis_header(xlim, ylim, nx, ny, cons)]
    for c in cons:
        a = np.stack([z[c].real, z[c].imag], -1).astype('>f4')
        b += [be(8*nx*ny), a.tobytes(), be(8*nx*ny)]
    pathlib.Path(path).write_bytes(b''.join(b))


def otis_transport(path, xlim, ylim, cons, u, v):
    ny, nx = u[cons[0]].shape
    b = [otis_header(xlim, ylim, nx, ny, cons)]
    for c in cons:
        a = np.stack([u[c].real, u[c].imag, v[c].real, v[c].imag], -1).astype('>f4')
        b += [be(16*nx*ny), a.tobytes(), be(16*nx*ny)]
    pathlib.Path(path).write_bytes(b''.join(b))


# ---------------------------------------------------------------- models
class Model:
    """base: files on disk and the truth"""
    types = ('z',)
    has_depth = False
    gzip_ok = False

    def named(self, files):
        """file names as paths or strings; one file on its own"""
        k = (len(self.grid.x) + 3*len(self.grid.y)) % 4
        if isinstance(files, list):
            files = [str(f) for f in files] if k == 1 else list(files)
            return files[0] if len(files) == 1 and k in (1, 2) else files
        return str(files) if k == 1 else files

    def unit(self, kind, val, depth):
        """stored values to output units"""
        return val*self.scale

    def truth(self, t, con, px, py, method):
        nd = self.nodes[t.lower()]
        val, state = expect(nd, nd.data[con], px, py, method, self.grid.geographic)
        d = None
        if nd.depth is not None:
            d, _ = expect(nd, nd.depth, px, py, method, self.grid.geographic)
        return self.unit(t, val, d), state, d

    def inside(self, px, py):
        return locate(self.nodes['z'], px, py, self.grid.geographic)[0]


def c_grid(hz, is_global):
    """depth at u and v nodes of a C-grid, zero where either side is dry"""
    wet = hz > 0
    left = np.roll(hz, 1, axis=1)
    lw = np.roll(wet, 1, axis=1)
    if not is_global:
        left[:, 0], lw[:, 0] = hz[:, 0], wet[:, 0]
    down = np.vstack([hz[:1], hz[:-1]])
    dw = np.vstack([wet[:1], wet[:-1]])
    hu = np.where(wet & lw, 0.5*(hz + left), 0.0)
    hv = np.where(wet & dw, 0.5*(hz + down), 0.0)
    return hu, hv


class OTISModel(Model):
    fmt = 'OTIS'
    types = ('z', 'u', 'v', 'U', 'V')
    has_depth = True
    scale = 1.0

    def __init__(self, r, tmp, grid=None, layout=None, ncons=None, landstyle=None):
        g = grid
        if g is None:
            if r.random() < 0.25:
                g = projected_grid(r)
            else:
                g = geographic_grid(r, ['global0', 'global180', 'regE', 'regW0', 'regW180', 'regPM', 'regDL'])
        self.grid = g
        nx, ny = len(g.x), len(g.y)
        xlim = np.array([g.x[0]-g.dx/2, g.x[-1]+g.dx/2])
        ylim = np.array([g.y[0]-g.dy/2, g.y[-1]+g.dy/2])
        dt = float(r.choice([12.0, 0.0, 3.5]))
        self.cons = [CONS[i] for i in r.permutation(len(CONS))[:ncons or howmany(r)]]
        if ncons is None and r.random() < 0.2:
            # names that fill their fields
            self.cons = (['msqm', 'eps2'] + self.cons)[:int(r.integers(2, 5))]
        self.dt = dt
        dry = land(r, ny, nx, landstyle)
        hz = np.where(dry, 0.0, r.uniform(20, 4000, (ny, nx))).astype(np.float32)
        mz = (~dry).astype(int)
        # cells that are excluded from the elevations although they have depth
        self.zmask = dry.copy()
        if r.random() < 0.3:
            k = r.random((ny, nx)) < 0.05
            mz[k] = 0
            self.zmask |= k
        self.hz, self.mz = hz, mz
        u = fields(r, self.cons, ny, nx)
        v = fields(r, self.cons, ny, nx)
        z = fields(r, self.cons, ny, nx)
        nan = r.random() < 0.25
        if nan:
            for c in self.cons:
                for f in (u, v, z):
                    k = r.random((ny, nx)) < 0.03
                    f[c][k] = np.nan + 1j*np.nan
        for c in self.cons:
            u[c][dry] = 0
            v[c][dry] = 0
            z[c][dry] = 0
        self.nan = nan
        hu, hv = c_grid(hz.astype(float), g.period is not None)
        gx = g.x.copy()
        glim = xlim.copy()
        # longitudes that are wholly negative are stored so when dt is zero
        p = g.period
        self.nodes = dict(z=Nodes(gx, g.y, self.zmask, hz.astype(float), p),
            u=Nodes(gx-g.dx/2, g.y, hu == 0, hu, p),
            v=Nodes(gx, g.y-g.dy/2, hv == 0, hv, p))
        for t, f in zip('zuv', (z, u, v)):
            self.nodes[t].data = f
        tmp = pathlib.Path(tmp)
        self.layout = layout or str(r.choice(['one', 'list']))
        self.grid_file = tmp/'grid'
        otis_grid(self.grid_file, glim, ylim, hz, mz, nob=int(r.choice([0, 0, 3])), dt=dt)
        if self.layout == 'one':
            self.zfile, self.ufile = tmp/'h.model', tmp/'u.model'
            otis_elevation(self.zfile, glim, ylim, self.cons, z)
            otis_transport(self.ufile, glim, ylim, self.cons, u, v)
        else:
            self.zfile, self.ufile = [], []
            for c in self.cons:
                f1, f2 = tmp/f'h.{c}', tmp/f'u.{c}'
                otis_elevation(f1, glim, ylim, [c], z)
                otis_transport(f2, glim, ylim, [c], u, v)
                self.zfile.append(f1)
                self.ufile.append(f2)
        self.gridkey = 'OTIS'

    def unit(self, t, val, depth):
        return val/(depth/100.0) if t in 'uv' else val

    def truth(self, t, con, px, py, method):
        nd = self.nodes[t.lower()]
        f = nd.data[con]
        nanm = np.isnan(f)
        val, state = expect(nd, np.where(nanm, 0, f), px, py, method, self.grid.geographic,
            mask=nd.mask | nanm)
        d, ds = expect(nd, nd.depth, px, py, method, self.grid.geographic)
        # what is masked in depth is masked
        state = np.where(ds == MASKED, MASKED, state)
        inz = locate(self.nodes['z'], px, py, self.grid.geographic)[0]
        inn = locate(nd, px, py, self.grid.geographic)[0]
        state = np.where(inz, np.where(inn, state, UNDECIDED), MASKED)
        return self.unit(t, val, d), state, d

    def file(self, t):
        return self.zfile if t == 'z' else self.ufile

    def extract(self, lon, lat, **kw):
        import pyTMD.io.OTIS as M
        t = kw.get('type', 'z')
        a, p, D, c = M.extract_constants(lon, lat, self.named(self.grid_file), self.named(self.file(t)),
            self.grid.crs, grid=self.gridkey, **kw)
        return a, p, D, c

    def read(self, **kw):
        import pyTMD.io.OTIS as M
        t = kw.get('type', 'z')
        return M.read_constants(self.named(self.grid_file), self.named(self.file(t)), self.grid.crs, grid=self.gridkey, **kw)

    def interp(self, lon, lat, c, **kw):
        import pyTMD.io.OTIS as M
        a, p, D = M.interpolate_constants(lon, lat, c, **kw)
        return a, p, D, list(c.fields)

    def definition(self, t='z', name='synthetic'):
        f = self.file('z' if t == 'z' else 'u')
        mf = [str(i) for i in f] if isinstance(f, list) else str(f)
        d = dict(name=name, format=self.fmt, type='z' if t == 'z' else ['u', 'v'],
            grid_file=str(self.grid_file), projection=self.grid.crs)
        if t == 'z':
            d.update(model_file=mf, variable='tide_ocean')
        else:
            d['model_file'] = dict(u=mf, v=mf) if isinstance(mf, list) else dict(u=[mf], v=[mf])
        return d


class TMD3Model(OTISModel):
    fmt = 'TMD3'

    def __init__(self, r, tmp, grid=None, ncons=None, landstyle=None, **kw):
        g = grid
        if g is None:
            if r.random() < 0.3:
                g = projected_grid(r)
            else:
                g = geographic_grid(r, ['global0', 'global180', 'regE', 'regW0', 'regW180', 'regPM', 'regDL'])
        self.grid = g
        nx, ny = len(g.x), len(g.y)
        self.cons = [CONS[i] for i in r.permutation(len(CONS))[:ncons or howmany(r)]]
        dry = land(r, ny, nx, landstyle)
        hz = np.where(dry, 0.0, r.uniform(20, 4000, (ny, nx))).astype(np.float32)
        flex = np.where(dry, 0.0, r.choice([100.0, 50.0, 12.5], (ny, nx)))
        self.flex = flex
        self.zmask = dry.copy()
        u, v, z = (fields(r, self.cons, ny, nx) for _ in range(3))
        for f in (u, v, z):
            for c in f:
                f[c][dry] = 0
        hu, hv = c_grid(hz.astype(float), g.period is not None)
        p = g.period
        self.nodes = dict(z=Nodes(g.x, g.y, self.zmask, hz.astype(float), p),
            u=Nodes(g.x-g.dx/2, g.y, hu == 0, hu, p), v=Nodes(g.x, g.y-g.dy/2, hv == 0, hv, p))
        for t, f in zip('zuv', (z, u, v)):
            self.nodes[t].data = f
        self.hz, self.mz, self.nan = hz, (~dry).astype(int), False
        path = pathlib.Path(tmp)/'model.nc'
        with netCDF4.Dataset(path, 'w') as d:
            d.createDimension('x', nx)
            d.createDimension('y', ny)
            d.createDimension('constituents', len(self.cons))
            d.createVariable('x', 'f8', ('x',))[:] = g.x
            d.createVariable('y', 'f8', ('y',))[:] = g.y[::-1]
            d.createVariable('wct', 'f4', ('y', 'x'))[:] = hz[::-1]
            d.createVariable('mask', 'i1', ('y', 'x'))[:] = (~dry)[::-1].astype('i1')
            d.createVariable('flexure', 'f4', ('y', 'x'))[:] = flex[::-1]
            c = d.createVariable('constituents', 'i4', ('constituents',))
            c[:] = np.arange(len(self.cons))
            c.constituent_order = ' '.join(self.cons)
            for k, f in (('h', z), ('U', u), ('V', v)):
                re = d.createVariable(k+'Re', 'f4', ('constituents', 'y', 'x'))
                im = d.createVariable(k+'Im', 'f4', ('constituents', 'y', 'x'))
                for i, cc in enumerate(self.cons):
                    re[i] = f[cc].real[::-1]
                    im[i] = -f[cc].imag[::-1]
        self.grid_file = self.zfile = self.ufile = path
        self.layout = 'one'
        self.gridkey = 'TMD3'


class ATLASModel(Model):
    fmt = 'ATLAS-netcdf'
    types = ('z', 'u', 'v', 'U', 'V')
    has_depth = True

    def __init__(self, r, tmp, grid=None, ncons=None, landstyle=None, compressed=None, **kw):
        g = grid or geographic_grid(r, ['global0', 'global0n', 'global180', 'regE', 'regW0', 'regW180', 'regPM', 'regDL'])
        self.grid = g
        nx, ny = len(g.x), len(g.y)
        self.compressed = bool(r.random() < 0.3) if compressed is None else compressed
        self.scale = float(r.choice([1e-3, 1e-4, 1.0]))
        self.cons = [CONS[i] for i in r.permutation(len(CONS))[:ncons or howmany(r)]]
        p = g.period
        X = dict(z=g.x, u=g.x-g.dx/2, v=g.x)
        Y = dict(z=g.y, u=g.y, v=g.y-g.dy/2)
        self.nodes = {}
        for t in 'zuv':
            dry = land(r, ny, nx, landstyle)
            h = np.where(dry, 0.0, r.uniform(20, 4000, (ny, nx))).astype(np.float32)
            nd = Nodes(X[t], Y[t], dry, h.astype(float), p)
            nd.data = fields(r, self.cons, ny, nx)
            for c in self.cons:
                nd.data[c][dry] = 0
            self.nodes[t] = nd
        tmp = pathlib.Path(tmp)
        suffix = '.nc.gz' if self.compressed else '.nc'
        self.grid_file = tmp/('grid'+suffix)
        self._write(self.grid_file, self._grid)
        self.zfile, self.ufile = [], []
        for c in self.cons:
            f1, f2 = tmp/f'h_{c}{suffix}', tmp/f'u_{c}{suffix}'
            self._write(f1, lambda d, c=c: self._con(d, c, ('h',)))
            self._write(f2, lambda d, c=c: self._con(d, c, ('u', 'v')))
            self.zfile.append(f1)
            self.ufile.append(f2)

    def _write(self, path, fn):
        plain = path.with_name(path.name.replace('.gz', ''))
        with netCDF4.Dataset(plain, 'w') as d:
            d.createDimension('nx', len(self.grid.x))
            d.createDimension('ny', len(self.grid.y))
            d.createDimension('nct', 4)
            fn(d)
        if path != plain:
            path.write_bytes(gzip.compress(plain.read_bytes(), 1))
            plain.unlink()

    def _grid(self, d):
        for t in 'zuv':
            nd = self.nodes[t]
            d.createVariable(f'lon_{t}', 'f8', ('nx',))[:] = nd.x
            d.createVariable(f'lat_{t}', 'f8', ('ny',))[:] = nd.y
            d.createVariable(f'h{t}', 'f4', ('nx', 'ny'))[:] = nd.depth.T

    def _con(self, d, c, keys):
        d.createVariable('con', 'S1', ('nct',))[:] = np.array([x.encode() for x in c.ljust(4)], 'S1')
        for k in keys:
            nd = self.nodes['z' if k == 'h' else k]
            d.createVariable(k+'Re', 'f4', ('nx', 'ny'))[:] = nd.data[c].real.T
            d.createVariable(k+'Im', 'f4', ('nx', 'ny'))[:] = nd.data[c].imag.T

    def unit(self, t, val, depth):
        return self.scale*(val/(depth/100.0) if t in 'uv' else val)

    def file(self, t):
        return list(self.zfile if t == 'z' else self.ufile)

    def extract(self, lon, lat, **kw):
        import pyTMD.io.ATLAS as M
        return M.extract_constants(lon, lat, self.named(self.grid_file), self.named(self.file(kw.get('type', 'z'))),
            compressed=self.compressed, scale=self.scale, **kw)

    def read(self, **kw):
        import pyTMD.io.ATLAS as M
        return M.read_constants(self.named(self.grid_file), self.named(self.file(kw.get('type', 'z'))), compressed=self.compressed, **kw)

    def interp(self, lon, lat, c, **kw):
        import pyTMD.io.ATLAS as M
        a, p, D = M.interpolate_constants(lon, lat, c, scale=self.scale, **kw)
        return a, p, D, list(c.fields)

    def definition(self, t='z', name='synthetic'):
        d = dict(name=name, format=self.fmt, type='z' if t == 'z' else ['u', 'v'],
            grid_file=str(self.grid_file), scale=self.scale, compressed=self.compressed)
        f = [str(i) for i in self.file('z' if t == 'z' else 'u')]
        d['model_file'] = f if t == 'z' else dict(u=f, v=f)
        if t == 'z':
            d['variable'] = 'tide_ocean'
        return d


class AmpPhase(Model):
    """formats that store amplitude and phase"""
    ascii = False
    voids = ['fill', 'fill', 'nan']
    # whether there are points without a tide
    still = True

    def setup(self, r, g, ncons, landstyle, decimals=None):
        nx, ny = len(g.x), len(g.y)
        if decimals is not None:
            # the limits are written with five decimals
            for k, n in (('x', nx), ('y', ny)):
                v = np.round(getattr(g, k)[[0, -1]], 5)
                setattr(g, k, np.linspace(v[0], v[1], n))
        self.grid = g
        if not hasattr(self, 'cons'):
            self.cons = [CONS[i] for i in r.permutation(len(CONS))[:ncons or howmany(r)]]
        self.nodes, self.amp, self.ph = {}, {}, {}
        self.void = str(r.choice(self.voids))
        for t in self.types:
            nd = Nodes(g.x, g.y, None, None, g.period)
            self.amp[t], self.ph[t], nd.masks = {}, {}, {}
            for c in self.cons:
                dry = land(r, ny, nx, landstyle)
                a = r.uniform(0.5, 300, (ny, nx))
                p = r.uniform(0, 360, (ny, nx))
                if decimals is not None:
                    a, p = np.round(a, decimals), np.round(p, decimals)
                if g.kind[-1:] == 'c':
                    # the last meridian repeats the first
                    a[:, -1], p[:, -1], dry[:, -1] = a[:, 0], p[:, 0], dry[:, 0]
                # amphidromic points, and crests at the time of reference
                k = r.random((ny, nx))
                a[(k < 0.04) & self.still] = 0.0
                p[(k < 0.04) & (p < 1.0)] = 7.0
                p[k > 0.96] = 0.0
                if g.kind[-1:] == 'c':
                    a[:, -1], p[:, -1] = a[:, 0], p[:, 0]
                a, p = a.astype(np.float32), p.astype(np.float32)
                self.amp[t][c], self.ph[t][c], nd.masks[c] = a, p, dry
                nd.data[c] = a.astype(float)*np.exp(-1j*np.radians(p.astype(float)))
            self.nodes[t] = nd

    def truth(self, t, con, px, py, method):
        nd = self.nodes[t.lower()]
        val, state = expect(nd, nd.data[con], px, py, method, True, mask=nd.masks[con])
        return val*self.scale, state, None

    def invalid(self, v, dry):
        """how netCDF files mark invalid nodes: fill values, nan, zero amplitude and phase"""
        out = np.ma.array(v, mask=dry)
        if self.void == 'nan':
            out = np.where(dry, np.float32(np.nan), v)
        elif self.void == 'zero':
            out = np.where(dry, np.float32(0.0), v)
        return out

    def put(self, path, fn):
        plain = path.with_name(path.name.replace('.gz', ''))
        fn(plain)
        if path != plain:
            path.write_bytes(gzip.compress(plain.read_bytes(), 1))
            plain.unlink()


GLOBALS = ['global0', 'global180', 'global0n', 'global180n', 'global0c']
REGIONS = ['regE', 'regW0', 'regW180', 'regPM', 'regDL']


class GOTModel(AmpPhase):
    types = ('z',)

    def __init__(self, r, tmp, grid=None, ncons=None, landstyle=None, ascii=None, compressed=None, **kw):
        self.ascii = bool(r.random() < 0.5) if ascii is None else ascii
        self.fmt = 'GOT-ascii' if self.ascii else 'GOT-netcdf'
        self.gridkey = 'ascii' if self.ascii else 'netcdf'
        self.compressed = bool(r.random() < 0.4) if compressed is None else compressed
        self.scale = float(r.choice([1e-2, 1e-3, 1.0]))
        g = grid or geographic_grid(r, GLOBALS + REGIONS)
        self.setup(r, g, ncons, landstyle, decimals=2 if self.ascii else None)
        tmp = pathlib.Path(tmp)
        self.files = []
        for c in self.cons:
            f = tmp/(c + ('.d' if self.ascii else '.nc') + ('.gz' if self.compressed else ''))
            self.put(f, lambda p, c=c: (self._ascii if self.ascii else self._nc)(p, c))
            self.files.append(f)

    def _ascii(self, p, c):
        g = self.grid
        fill = 999.0
        ny, nx = len(g.y), len(g.x)
        out = []
        for what, arr in (('amplitude', self.amp), ('phase', self.ph)):
            a = np.where(self.nodes['z'].masks[c], fill, arr['z'][c])
            out.append(f'{c.upper()} ocean tide {what} (synthetic)')
            out.append('file made by the monitors')
            out.append(f'{ny:5d}{nx:5d}')
            out.append(f'{g.y[0]:12.5f}{g.y[-1]:12.5f}')
            out.append(f'{g.x[0]:12.5f}{g.x[-1]:12.5f}')
            out.append(f'{fill:9.2f}{fill:9.2f}')
            out.append('(11f8.2)')
            for row in a:
                for k in range(0, nx, 11):
                    out.append(''.join(f'{v:8.2f}' for v in row[k:k+11]))
        p.write_text('\n'.join(out) + '\n')

    def _nc(self, p, c):
        g = self.grid
        with netCDF4.Dataset(p, 'w') as d:
            d.createDimension('longitude', len(g.x))
            d.createDimension('latitude', len(g.y))
            d.createVariable('longitude', 'f8', ('longitude',))[:] = g.x
            d.createVariable('latitude', 'f8', ('latitude',))[:] = g.y
            for k, arr in (('amplitude', self.amp), ('phase', self.ph)):
                v = d.createVariable(k, 'f4', ('latitude', 'longitude'), fill_value=np.float32(999.0))
                v[:] = self.invalid(arr['z'][c], self.nodes['z'].masks[c])
            d.Constituent = c.upper()

    def extract(self, lon, lat, **kw):
        import pyTMD.io.GOT as M
        kw.pop('type', None)
        a, p, c = M.extract_constants(lon, lat, self.named(list(self.files)), grid=self.gridkey,
            compressed=self.compressed, scale=self.scale, **kw)
        return a, p, None, c

    def read(self, **kw):
        import pyTMD.io.GOT as M
        kw.pop('type', None)
        return M.read_constants(self.named(list(self.files)), grid=self.gridkey, compressed=self.compressed, **kw)

    def interp(self, lon, lat, c, **kw):
        import pyTMD.io.GOT as M
        kw.pop('type', None)
        a, p = M.interpolate_constants(lon, lat, c, scale=self.scale, **kw)
        return a, p, None, list(c.fields)

    def definition(self, t='z', name='synthetic'):
        return dict(name=name, format=self.fmt, type='z', scale=self.scale, compressed=self.compressed,
            model_file=[str(f) for f in self.files], variable='tide_ocean')


class FESModel(AmpPhase):
    voids = ['fill', 'fill', 'nan', 'zero']
    KEYS = {'FES2012': ('lon', 'lat', dict(z=('Ha', 'Hg'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
        'FES2014': ('lon', 'lat', dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
        'HAMTIDE11': ('LON', 'LAT', dict(z=('AMPL', 'PHAS'), u=('UAMP', 'UPHA'), v=('VAMP', 'VPHA')))}
    KEYS['FES2022'] = KEYS['EOT20'] = KEYS['FES2014']

    def __init__(self, r, tmp, grid=None, ncons=None, landstyle=None, ascii=None, compressed=None, **kw):
        self.ascii = bool(r.random() < 0.35) if ascii is None else ascii
        self.types = ('z',) if self.ascii else ('z', 'u', 'v')
        self.fmt = 'FES-ascii' if self.ascii else 'FES-netcdf'
        self.version = str(r.choice(['FES1999', 'FES2004'] if self.ascii else
            ['FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11']))
        self.version = kw.get('version', self.version)
        if 'cons' in kw:
            self.cons = kw['cons']
        self.compressed = bool(r.random() < 0.4) if compressed is None else compressed
        self.scale = float(r.choice([1e-2, 1.0, 1e-3]))
        self.still = kw.get('still', True)
        g = grid or geographic_grid(r, GLOBALS + ['global180c'] + REGIONS)
        self.setup(r, g, ncons, landstyle, decimals=2 if self.ascii else None)
        tmp = pathlib.Path(tmp)
        self.files = {}
        for t in self.types:
            self.files[t] = []
            (tmp/t).mkdir(exist_ok=True)
            for c in self.cons:
                f = tmp/t/(c + ('.asc' if self.ascii else '.nc') + ('.gz' if self.compressed else ''))
                self.put(f, lambda p, c=c, t=t: (self._ascii if self.ascii else self._nc)(p, c, t))
                self.files[t].append(f)

    def _ascii(self, p, c, t):
        g = self.grid
        fill = 999.9
        m = self.nodes[t].masks[c]
        a = np.where(m, fill, self.amp[t][c])
        b = np.where(m, fill, self.ph[t][c])
        nx, ny = len(g.x), len(g.y)
        out = [f'{g.x[0]:12.5f}{g.x[-1]:12.5f}', f'{g.y[0]:12.5f}{g.y[-1]:12.5f}',
            f'{g.dx:12.5f}{g.dy:12.5f}', f'{nx:7d}{ny:7d}', f'{fill:9.1f}{fill:9.1f}']
        for i in range(ny):
            for k in range(0, nx, 30):
                out.append(' '.join(f'{v:.2f}' for v in a[i, k:k+30]))
                out.append(' '.join(f'{v:.2f}' for v in b[i, k:k+30]))
        p.write_text('\n'.join(out) + '\n')

    def _nc(self, p, c, t):
        g = self.grid
        X, Y, K = self.KEYS[self.version]
        with netCDF4.Dataset(p, 'w') as d:
            d.createDimension(X, len(g.x))
            d.createDimension(Y, len(g.y))
            d.createVariable(X, 'f8', (X,))[:] = g.x
            d.createVariable(Y, 'f8', (Y,))[:] = g.y
            # both components of the currents of HAMTIDE are in the same file
            for t in ('uv' if t in 'uv' and self.version == 'HAMTIDE11' else t):
                for k, arr in zip(K[t], (self.amp, self.ph)):
                    v = d.createVariable(k, 'f4', (Y, X), fill_value=np.float32(1.844674e+19))
                    v[:] = self.invalid(arr[t][c], self.nodes[t].masks[c])

    def extract(self, lon, lat, **kw):
        import pyTMD.io.FES as M
        kw.setdefault('type', 'z')
        a, p = M.extract_constants(lon, lat, self.named(list(self.files[kw['type']])), version=self.version,
            compressed=self.compressed, scale=self.scale, **kw)
        return a, p, None, list(self.cons)

    def read(self, **kw):
        import pyTMD.io.FES as M
        kw.setdefault('type', 'z')
        return M.read_constants(self.named(list(self.files[kw['type']])), version=self.version,
            compressed=self.compressed, **kw)

    def interp(self, lon, lat, c, **kw):
        import pyTMD.io.FES as M
        kw.setdefault('type', 'z')
        a, p = M.interpolate_constants(lon, lat, c, scale=self.scale, **kw)
        return a, p, None, list(c.fields)

    def definition(self, t='z', name='synthetic'):
        d = dict(name=name, format=self.fmt, scale=self.scale, compressed=self.compressed,
            version=self.version, type='z' if t == 'z' else ['u', 'v'])
        if t == 'z':
            d.update(model_file=[str(f) for f in self.files['z']], variable='tide_ocean')
        else:
            d['model_file'] = {k: [str(f) for f in self.files[k]] for k in 'uv'}
        return d


FORMATS = dict(OTIS=OTISModel, TMD3=TMD3Model, ATLAS=ATLASModel, GOT=GOTModel, FES=FESModel)


# ---------------------------------------------------------------- oracle
def complex_of(a, p):
    """complex constants of (amplitude, phase in degrees), and their mask"""
    m = np.ma.getmaskarray(a) | np.ma.getmaskarray(p)
    z = np.ma.getdata(a)*np.exp(-1j*np.radians(np.ma.getdata(p)))
    return z, m


def judge(case, model, got, t, px, py, method, kind, note='', only=None):
    """compare extracted constants with the truth; True if they agree"""
    a, p, D, c = got
    n = len(px)
    ok = case.expect(list(c) == list(model.cons), 'constituents:'+kind, f'{c} expected {model.cons}')
    ok &= case.expect(np.shape(a) == (n, len(model.cons)) and np.shape(p) == np.shape(a),
        'shape:'+kind, f'{np.shape(a)}')
    if not ok:
        return False
    am, pm = np.ma.getmaskarray(a), np.ma.getmaskarray(p)
    ok &= case.expect(np.array_equal(am, pm), 'mask-pair:'+kind, 'amplitude and phase are masked differently')
    z, m = complex_of(a, p)
    for j, con in enumerate(model.cons):
        want, state, d = model.truth(t, con, px, py, method)
        use = state != UNDECIDED
        if only is not None:
            use &= only
        if not use.any():
            continue
        case.evaluations += int(use.sum())
        case.event('valid points', int((use & (state == VALID)).sum()))
        case.event('masked points', int((use & (state == MASKED)).sum()))
        bad = use & (m[:, j] != (state == MASKED))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            case.fail('validity:'+kind, f'{note} {con} type {t} method {method} grid {model.grid.kind}: '
                f'point ({px[i]}, {py[i]}) is {"masked" if m[i, j] else "valid"}, expected the opposite '
                f'({bad.sum()} of {n})')
            ok = False
            continue
        v = use & (state == VALID)
        if v.any():
            nd = model.nodes[t.lower()]
            s = np.nanmax(np.abs(nd.data[con]))
            scale = np.abs(want) + (s/np.abs(d)*100 if t in 'uv' and d is not None else s)*model.scale
            err = np.abs(z[:, j] - want)
            w = v & ~(err <= 2e-5*scale)
            if w.any():
                i = int(np.flatnonzero(w)[0])
                case.fail('value:'+kind, f'{note} {con} type {t} method {method} grid {model.grid.kind}: '
                    f'at ({px[i]}, {py[i]}) got {z[i, j]} expected {want[i]} ({w.sum()} of {v.sum()})')
                ok = False
            ph = np.ma.getdata(p)[v, j]
            ok &= case.expect(np.all((ph >= 0) & (ph <= 360)), 'phase-range:'+kind, f'{ph.min()} {ph.max()}')
        if D is not None and v.any() and d is not None:
            dd = np.ma.getdata(D)
            ok &= case.expect(np.all(np.abs(dd[v]-d[v]) <= 1e-5*np.abs(d[v])+1e-3*0), 'depth:'+kind,
                f'{note} type {t} {method}: {dd[v][:3]} expected {d[v][:3]}')
    return ok


class CompactModel:
    """ATLAS-compact: a global solution and local ones, in one file"""

    def __init__(self, r, tmp, nlocal=None):
        nx, ny = int(r.choice([24, 36])), int(r.choice([12, 18]))
        dx, dy = 360.0/nx, 180.0/ny
        self.grid = Grid((np.arange(nx)+0.5)*dx, -90+(np.arange(ny)+0.5)*dy, 360.0, kind='compact')
        self.cons = [CONS[i] for i in r.permutation(len(CONS))[:howmany(r)]]
        if r.random() < 0.2:
            self.cons += ['eps2', 'msqm']
        self.hz = r.uniform(10, 4000, (ny, nx)).astype('f4')
        self.mz = (r.random((ny, nx)) > 0.2).astype(int)
        self.pmask = r.integers(0, 5, (ny, nx))
        self.data = {t: fields(r, self.cons, ny, nx) for t in 'zuv'}
        self.local = {}
        n = int(r.integers(0, 4)) if nlocal is None else nlocal
        d = 1/30.
        for k in range(n):
            ly, lx = int(r.integers(3, 9)), int(r.integers(3, 9))
            lon0 = float(int(r.integers(5, 110))*3 + k*0.5) - (180.0 if r.random() < 0.4 else 0)
            lat0 = float(int(r.integers(-80, 80)) + 2*k/3.)
            L = dict(lon=np.array([lon0, lon0+lx*d]), lat=np.array([lat0, lat0+ly*d]))
            # a solution may hold only some of the constituents
            have = [c for c in self.cons if r.random() < 0.7] or self.cons[:1]
            if r.random() < 0.5:
                have = have + ['m8']
            L['cons'] = have
            M = r.random((ly, lx)) < 0.3
            M[0, 0] = False
            L['depth'] = np.ma.array(r.uniform(10, 900, (ly, lx)).astype('f4'), mask=M)
            for t in 'zuv':
                L[t] = {}
                mt = r.random((ly, lx)) < 0.3
                mt[-1, -1] = False
                for c in have:
                    f = fields(r, [c], ly, lx)[c]
                    L[t][c] = np.ma.array(f, mask=mt)
            self.local[f'local {k}'] = L
        tmp = pathlib.Path(tmp)
        self.grid_file, self.zfile, self.ufile = tmp/'grid', tmp/'h', tmp/'u'
        self.zlim, self.ylim = [0.0, 360.0], [-90.0, 90.0]
        self._grid()
        self._elevation()
        self._transport()

    def rec(self, *parts):
        b = b''.join(parts)
        return be(len(b)) + b + be(len(b))

    def idx(self, m):
        j, i = np.nonzero(~np.ma.getmaskarray(m))
        return (i+1).astype('>i4').tobytes() + (j+1).astype('>i4').tobytes()

    def _grid(self):
        ny, nx = self.hz.shape
        b = [self.rec(be(nx, ny), be(*self.ylim, *self.zlim, t='f'), be(12.0, t='f'), be(0)), be(4, 0, 4),
            self.rec(self.hz.astype('>f4').tobytes()), self.rec(self.mz.astype('>i4').tobytes()),
            self.rec(self.pmask.astype('>i4').tobytes())]
        for k, L in self.local.items():
            d = L['depth']
            ly, lx = d.shape
            b += [self.rec(be(lx, ly, int(d.count())), be(*L['lat'], *L['lon'], t='f'), k.ljust(20).encode()),
                self.rec(self.idx(d)), self.rec(d.compressed().astype('>f4').tobytes())]
        self.grid_file.write_bytes(b''.join(b))

    def ri(self, *f):
        return np.stack([p for z in f for p in (z.real, z.imag)], -1).astype('>f4').tobytes()

    def _header(self):
        ny, nx = self.hz.shape
        return self.rec(be(nx, ny, len(self.cons)), be(*self.ylim, *self.zlim, t='f'),
            b''.join(c.ljust(4).encode() for c in self.cons))

    def _elevation(self):
        b = [self._header()] + [self.rec(self.ri(self.data['z'][c])) for c in self.cons]
        for k, L in self.local.items():
            z0 = L['z'][L['cons'][0]]
            ly, lx = z0.shape
            b += [self.rec(be(lx, ly, len(L['cons']), int(z0.count())), be(*L['lat'], *L['lon'], t='f'),
                b''.join(c.ljust(4).encode() for c in L['cons']), k.ljust(20).encode()), self.rec(self.idx(z0))]
            b += [self.rec(self.ri(L['z'][c].compressed())) for c in L['cons']]
        self.zfile.write_bytes(b''.join(b))

    def _transport(self):
        b = [self._header()] + [self.rec(self.ri(self.data['u'][c], self.data['v'][c])) for c in self.cons]
        for k, L in self.local.items():
            u0, v0 = L['u'][L['cons'][0]], L['v'][L['cons'][0]]
            ly, lx = u0.shape
            b += [self.rec(be(lx, ly, len(L['cons']), int(u0.count()), int(v0.count())),
                be(*L['lat'], *L['lon'], t='f'),
                b''.join(c.ljust(4).encode() for c in L['cons']), k.ljust(20).encode()),
                self.rec(self.idx(u0)), self.rec(self.idx(v0))]
            for c in L['cons']:
                b += [self.rec(self.ri(L['u'][c].compressed())), self.rec(self.ri(L['v'][c].compressed()))]
        self.ufile.write_bytes(b''.join(b))
