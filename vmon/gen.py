"""gen.py -- workload generators shared by the checks"""
import json
import pathlib
import numpy as np

_D = json.loads((pathlib.Path(__file__).parent/'data'/'doodson_ref.json').read_text())
ALL = sorted(_D)
# constituents with a reference phase in the OTIS scheme
from vmon.ref_tides import OTIS as _O
OTIS_SET = sorted(_O)
MAJOR = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2']
CORRECTIONS = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']


def days(rng, n, sort=None):
    """days relative to 1992-01-01, from integers to centuries-spanning"""
    style = rng.integers(0, 5)
    if style == 0:
        t = rng.uniform(-15000, 25000, n)
    elif style == 1:
        t = np.round(rng.uniform(-8000, 15000, n))
    elif style == 2:
        t = rng.uniform(0, 12000) + np.arange(n)*rng.choice([1/24., 1/1440., 0.5, 7.0])
    elif style == 3:
        t = np.full(n, rng.uniform(0, 12000))
    else:
        t = rng.uniform(9000, 13000, n)
        t[::2] = t[0]
    if sort:
        t = np.sort(t)
    return t


def deltat(rng, n, forms=('zero', 'scalar', 'array')):
    f = forms[rng.integers(0, len(forms))]
    if f == 'zero':
        return 0.0
    if f == 'scalar':
        return float(rng.uniform(30, 90)/86400.0)
    return rng.uniform(30, 90, n)/86400.0


def at(d, i):
    return float(np.broadcast_to(np.asarray(d, dtype=float), (np.size(d),))[i]) \
        if np.size(d) > 1 else float(np.ravel(d)[0])


def subset(rng, pool, lo=1, hi=None):
    n = int(rng.integers(lo, (hi or len(pool)) + 1))
    return [pool[i] for i in rng.permutation(len(pool))[:n]]


def hc(rng, npts, nc, pmask=0.0):
    z = rng.normal(size=(npts, nc)) + 1j*rng.normal(size=(npts, nc))
    z *= 10.0**rng.uniform(-2, 1, size=(1, nc))
    m = rng.random((npts, nc)) < pmask
    z = np.ma.array(z, mask=m)
    return z


def dress(rng, x, p=0.5):
    """the same values in another layout of memory: strides, order,
    bytes, without permission to write"""
    x = np.asanyarray(x)
    if x.ndim == 0 or rng.random() > p:
        return x
    k = int(rng.integers(0, 5))
    if k == 0:
        # every other row of a larger array
        y = x.repeat(2, axis=0)
        if y.dtype.kind in 'fc':
            y[1::2] = -77.7
        return y[::2]
    if k == 1:
        # backwards
        return x[::-1].copy()[::-1]
    if k == 2:
        # by columns
        return x.copy(order='F') if x.ndim > 1 else x.copy()
    if k == 3:
        y = x.copy()
        y.flags.writeable = False
        return y
    return x.astype(x.dtype.newbyteorder('>'))


def many(rng, n):
    """indices of a large batch of the rows of a small one"""
    N = int(rng.choice([130, 257, 600, 1025, 2500]))
    return rng.integers(0, n, N)


def size(rng, lo, hi):
    """a small number, and sometimes a large one"""
    if rng.random() < 0.03:
        return int(rng.choice([64, 130, 257, 600, 1025]))
    return int(rng.integers(lo, hi))
