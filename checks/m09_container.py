"""M09: the container of tidal constituents, and their names"""
import copy
import numpy as np
import pyTMD.io
import pyTMD.arguments
from vmon.core import Check

check = Check('M09', 'The container of constituents keeps what it is given',
    'a case counts when a history of operations agreed with a list-and-dictionary model, or a name was parsed; key = operations done, nesting, shape, or name pattern',
    ['adding a constituent that is already in the container is not judged'])

NAMES = ['sa', 'ssa', 'mm', 'msf', 'mt', 'mf', 'alpha1', '2q1', 'sigma1', 'q1', 'rho1', 'o1', 'tau1', 'm1', 'chi1', 'pi1', 'p1', 's1', 'k1', 'psi1',
    'phi1', 'beta1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'n2', 'nu2', 'm2', 'm2a', 'm2b', 'lambda2', 'l2', 't2', 's2', 'alpha2', 'beta2', 'delta2',
    'gamma2', 'r2', 'k2', 'eta2', 'mns2', '2sm2', 'm3', 'mk3', 's3', 'mn4', 'm4', 'ms4', 'mk4', 'so1', 's4', 's5', 'm6', 's6', 's7', 's8', 'm8', 'mks2',
    'msqm', 'mtm', 'n4', 'eps2', 'ups1', 'z0', 'node']
PRIMES = ["m1'", "l2'", "n2'", "m3'"]
REMAP = {'2n': '2n2', 'alp1': 'alpha1', 'alp2': 'alpha2', 'bet1': 'beta1', 'bet2': 'beta2', 'del2': 'delta2', 'e2': 'eps2', 'ep2': 'eps2', 'gam2': 'gamma2',
    'la2': 'lambda2', 'lam2': 'lambda2', 'lm2': 'lambda2', 'msq': 'msqm', 'omega0': 'node', 'om0': 'node', 'rho': 'rho1', 'sig1': 'sigma1', 'the': 'theta1', 'the1': 'theta1'}
PATTERNS = ['{}', '{}.nc', '{}.nc.gz', '{}_FES2012_SLEV.nc', 'h_{}_tpxo9_atlas_30_v5.nc', 'u_{}_tpxo9_atlas_30', 'hf.{}_tpxo8_atlas_30c_v1.nc', '{}load.d', '{}x.nc',
    '{}_5.5D.nc', 'HAMcurrent11a_{}.nc', '{}.hamtide11a.nc', '{}_ocean_eot20.nc', '{}_load_eot20.nc', '{}_RE14_oceantide.nc', '{}_DTU23.d', '{}_fes2022.nc', '{}.d']


@check.scenario(quick=1600, thorough=12000, floor=1000)
def names(case):
    r = case.rng
    i = case.index
    pool = list(NAMES) + PRIMES + list(REMAP)
    name = pool[i % len(pool)]
    pattern = PATTERNS[(i // len(pool)) % len(PATTERNS)]
    if name in REMAP and 'eot20' in pattern:
        pattern = '{}.nc'
    want = REMAP.get(name, name)
    text = [name, name.upper(), name.capitalize(), ''.join(str(r.choice([c, c.upper()])) for c in name)][int(r.integers(4))]
    full = pattern.format(text)
    case.note(name=full, expected=want)
    ok, got = case.quietly('names:exception', pyTMD.io.constituents.parse, full)
    if ok:
        case.expect(got == want, 'names:value', f'{full} is {got!r}, expected {want!r}')
    ok, got = case.quietly('names:file', pyTMD.io.model.parse_file, case.tmp/'u1_dir'/full if r.random() < 0.5 else full)
    if ok:
        case.expect(got == want, 'names:file', f'file {full} is {got!r}, expected {want!r}')
    case.nontrivial(want, pattern)
    # names without a constituent
    bad = str(r.choice(['', 'bathymetry.dat', 'readme', 'x.nc', 'grid']))
    case.raises(ValueError, 'names:unknown', pyTMD.io.constituents.parse, bad)
    case.expect(pyTMD.io.model.parse_file(bad) is None, 'names:unknown-file', bad)
    case.raises(ValueError, 'names:unknown-file', pyTMD.io.model.parse_file, bad, raise_error=True)


def field(r, shape):
    z = r.standard_normal(shape) + 1j*r.standard_normal(shape)
    k = r.random()
    if k < 0.2:
        z = z.real + 0j
    elif k < 0.3:
        z = 1j*z.imag
    elif k < 0.4:
        z = -np.abs(z.real) - 0j
    m = r.random(shape) < r.choice([0, 0, 0.3, 1.0])
    return np.ma.array(z, mask=m, fill_value=complex(r.choice([1e20, np.nan, 0.0])) if r.random() < 0.5 else None)


def same(a, b):
    return (np.ma.isMaskedArray(a) and a.shape == b.shape and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
        and np.array_equal(np.ma.getdata(a)[~np.ma.getmaskarray(b)], np.ma.getdata(b)[~np.ma.getmaskarray(b)]))


@check.scenario(quick=700, thorough=14000, floor=400)
def histories(case):
    """random histories against a list and a dictionary"""
    r = case.rng
    shape = [(1,), (7,), (3, 4), (1, 5)][r.integers(4)]
    extra = {}
    if r.random() < 0.5:
        extra = dict(longitude=np.arange(4.0), latitude=np.arange(3.0), bathymetry=np.ma.ones((3, 4)))
    c = pyTMD.io.constituents(**extra)
    order, data = [], {}
    ops = []
    pool = [str(v) for v in r.permutation(NAMES + ['2mk3', 'unknown9'])]
    n = int(r.integers(3, 25))
    for _ in range(n):
        op = str(r.choice(['append', 'append', 'append', 'get', 'pop', 'update', 'iterate', 'nested', 'amplitude', 'phase', 'missing', 'set', 'alias', 'break', 'update-other', 'copy', 'next']))
        free = [p for p in pool if p not in order]
        if op in ('get', 'pop', 'update', 'amplitude', 'phase', 'set', 'alias', 'break', 'copy') and not order:
            continue
        name = str(r.choice(order)) if order else None
        ops.append(op)
        if op == 'append':
            name, z = free[0], field(r, shape)
            out = c.append(name, z)
            case.expect(out is c, 'append', 'append does not return the container')
            order.append(name)
            data[name] = z.copy()
        elif op == 'get':
            case.expect(same(c.get(name), data[name]), 'get', f'{name} after {ops}')
            case.expect(same(c[name], data[name]), 'item', f'{name} after {ops}')
        elif op == 'alias':
            # copies given out do not alter the container
            z = c.get(name)
            if z.shape:
                np.ma.getdata(z)[...] = 99.0
                z[...] = np.ma.masked
            case.expect(same(c.get(name), data[name]), 'get-copy', f'altering a copy of {name} altered the container')
        elif op == 'pop':
            z = c.pop(name)
            case.expect(same(z, data[name]), 'pop', f'{name} after {ops}')
            order.remove(name)
            del data[name]
            case.expect(not hasattr(c, name), 'pop-left', f'{name} is still in the container')
        elif op == 'update':
            z = field(r, shape)
            case.expect(c.update(name, z) is c, 'update', 'update does not return the container')
            data[name] = z.copy()
        elif op == 'set':
            z = field(r, shape)
            c[name] = z
            data[name] = z.copy()
        elif op == 'missing':
            k = free[0]
            case.raises(KeyError, 'update-missing', c.update, k, field(r, shape))
            case.raises((ValueError, KeyError, AttributeError), 'pop-missing', c.pop, k)
            case.raises((AttributeError, KeyError), 'get-missing', c.get, k)
            case.expect(not hasattr(c, k), 'missing-added', k)
        elif op == 'update-other':
            # only constituents can be updated
            k = str(r.choice(list(extra) + ['fields']))
            case.raises(KeyError, 'update-other', c.update, k, field(r, shape))
            for e, v in extra.items():
                case.expect(getattr(c, e) is v, 'attribute', f'{e} was altered')
        elif op == 'amplitude':
            a = c.amplitude(name)
            z = data[name]
            m = np.ma.getmaskarray(z)
            case.expect(np.array_equal(np.ma.getmaskarray(a), m), 'amplitude-mask', name)
            case.close(np.ma.getdata(a)[~m], np.abs(np.ma.getdata(z)[~m]), 'amplitude', rtol=1e-14, atol=1e-300)
            case.expect(same(c.get(name), z), 'amplitude-altered', name)
        elif op == 'phase':
            p = c.phase(name)
            z = data[name]
            m = np.ma.getmaskarray(z)
            case.expect(np.array_equal(np.ma.getmaskarray(p), m), 'phase-mask', name)
            v, w = np.ma.getdata(p)[~m], np.ma.getdata(z)[~m]
            case.expect(bool(np.all((v >= 0) & (v <= 360))), 'phase-range', name)
            # phase lags
            case.close(np.abs(w)*np.exp(-1j*np.radians(v)), w, 'phase', rtol=1e-13, atol=1e-14)
            case.expect(same(c.get(name), z), 'phase-altered', name)
        elif op == 'iterate':
            got = [(k, z) for k, z in c]
            case.expect([k for k, _ in got] == order and all(same(z, data[k]) for k, z in got), 'iterate', f'{[k for k, _ in got]} for {order}')
        elif op == 'break':
            # a loop that is left and started again
            for k, z in c:
                break
            got = [k for k, _ in c]
            case.expect(got == order, 'iterate-again', f'{got} for {order}')
        elif op == 'next':
            # one after another from where a loop starts, and no further than the last
            iter(c)
            got = []
            for _ in range(len(order) + 3):
                try:
                    got.append(next(c))
                except StopIteration:
                    break
            case.expect([k for k, _ in got] == order and all(same(z, data[k]) for k, z in got), 'next', f'{[k for k, _ in got]} for {order}')
            case.raises(StopIteration, 'next-after', next, c)
        elif op == 'nested':
            got = [(a, b) for a, _ in c for b, _ in c]
            case.expect(got == [(a, b) for a in order for b in order], 'iterate-nested', f'{len(got)} pairs of {len(order)} constituents')
            got = list(zip([a for a, _ in c], [b for b, _ in c]))
            z2 = [(a[0], b[0]) for a, b in zip(c, c)]
            case.expect(got == z2 == [(a, a) for a in order], 'iterate-zip', f'{z2} for {order}')
        elif op == 'copy':
            c2 = copy.deepcopy(c)
            c2.pop(name)
            case.expect(list(c.fields) == order and same(c.get(name), data[name]), 'deepcopy', name)
        # invariants of every state
        case.expect(list(c.fields) == order, 'fields', f'{c.fields} for {order} after {ops}')
        case.expect(len(c) == len(order), 'length', f'{len(c)} for {len(order)}')
        case.expect(c.shape == (shape if order else None), 'shape', f'{c.shape} for {shape}')
        for k in order:
            case.expect(same(getattr(c, k), data[k]), 'stored', f'{k} after {ops}')
        if case.found:
            return
    text = str(c)
    case.expect(all(k in text for k in order) and text.startswith('pyTMD.constituents'), 'string', text)
    # numbers of the constituents
    for attr, form in (('doodson_number', None), ('cartwright_number', 'Cartwright'), ('extended_doodson', 'Extended')):
        ok, got = case.quietly('numbers:exception', getattr, c, attr)
        if not ok:
            continue
        case.expect(len(got) == len(order), 'numbers:length', attr)
        for k, v in zip(order, got):
            try:
                w = pyTMD.arguments.doodson_number(k) if form is None else pyTMD.arguments.doodson_number(k, formalism=form)
            except (AssertionError, ValueError):
                w = None
            case.expect(np.array_equal(v, w) if w is not None and v is not None else v is w, 'numbers:value', f'{attr} of {k}: {v} for {w}')
            if k == 'unknown9':
                case.expect(v is None, 'numbers:unknown', f'{v}')
    case.event('operations', len(ops))
    case.nontrivial(len(shape), len(order), '>'.join(sorted(set(ops))))
