"""P04: identity, numbers and frequency of each constituent"""
import json
import pathlib
import numpy as np
import pyTMD.arguments as args
import pyTMD.math
from vmon.core import Check
from vmon import gen, ref_tides as ref

check = Check('P04', 'Each constituent ID names one tidal line',
    'a case counts per distinct constituent (or number) whose identity was compared',
    ['Doodson vectors are a snapshot of the published tables checked against the '
     'sums implied by the compound names'])
PARAM = json.loads((pathlib.Path(ref.__file__).parent/'data'/'parameters.json').read_text())
CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']
RATES = None
DIG = {c: i-8 for i, c in enumerate('RSTUVWXYZABCDEFGHIJKLMNOP')}


def decode_doodson(d):
    s = str(d)
    if not isinstance(d, (str, np.str_)):
        s = '%07.3f' % float(d)
    s = s.replace('.', '')
    v = [{'X': 10, 'E': 11}.get(c) if c in 'XE' else int(c) for c in s]
    return [v[0]] + [x-5 for x in v[1:]]


@check.scenario(quick=70, thorough=140, floor=50)
def identity(case):
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    k = (case.index // len(CORR))
    cons = gen.ALL[k::max(1, (70 if case.tier == 'quick' else 140)//len(CORR))]
    tab = args.coefficients_table(cons, corrections=corr)
    case.note(corrections=corr, constituents=cons)
    case.expect(np.shape(tab) == (7, len(cons)), 'table-shape', str(np.shape(tab)))
    w = args.frequency(cons, corrections=corr)
    dn = args.doodson_number(cons, corrections=corr, raise_error=False)
    ca = args.doodson_number(cons, corrections=corr, formalism='Cartwright')
    xd = args.doodson_number(cons, corrections=corr, formalism='extended', raise_error=False)
    for j, c in enumerate(cons):
        v = ref.coefficients(c, corr)
        case.expect(np.array_equal(tab[:, j], v), f'doodson:{c}', f'{tab[:, j]} expected {v}')
        wr = ref.frequency(c, corr)
        case.expect(abs(w[j]-wr) < 3e-12*(1+np.abs(v[:6]).sum()), f'frequency:{c}',
            f'{w[j]} expected {wr}')
        case.expect(np.array_equal(ca[c], v[:6]), f'cartwright:{c}', str(ca[c]))
        if max(v) > 15 or min(v) < -8:
            # there is no digit for it: it must be refused and not mistaken
            case.expect(xd[c] is None, f'extended-unrepresentable:{c}', str(xd[c]))
            case.raises(ValueError, f'extended-unrepresentable:{c}', args.doodson_number, c, formalism='Extended')
        else:
            case.expect([DIG[x] for x in str(xd[c])] == list(map(int, v)), f'extended:{c}', str(xd[c]))
            case.expect(np.array_equal(args._from_extended_doodson(xd[c]), v), f'extended-inverse:{c}', str(xd[c]))
        e = np.array(v[1:6]) + 5
        if v[0] > 11 or v[0] < 0 or e.max() > 11 or e.min() < 0:
            case.expect(dn[c] is None, f'unrepresentable:{c}', str(dn[c]))
            case.raises(ValueError, f'unrepresentable:{c}', args.doodson_number, c)
        else:
            case.expect(decode_doodson(dn[c]) == list(map(int, v[:6])), f'number:{c}', str(dn[c]))
            case.expect(np.array_equal(args._from_doodson_number(dn[c]), v[:6]), f'number-inverse:{c}', '')
            one = args.doodson_number(c.upper(), corrections=corr)
            case.expect(one == dn[c], f'number-one:{c}', f'{one} {dn[c]}')
        case.nontrivial(corr, c)
        if c in PARAM:
            p = args._constituent_parameters(c)
            case.close(p, PARAM[c], f'parameters:{c}', rtol=1e-12, atol=1e-15)
            case.expect(p[4] == v[0], f'species:{c}', str(p))
            case.close(args._constituent_parameters(c.upper()), p, 'parameters-case')
        else:
            case.expect(args._constituent_parameters(c) == (0, 0, 0, 0, 0), f'parameters:{c}', '')
            case.raises(ValueError, 'parameters-unknown', args._constituent_parameters, c, raise_error=True)
    # one string, a tuple and an array of IDs
    c = cons[int(r.integers(0, len(cons)))]
    case.close(args.coefficients_table(c, corrections=corr)[:, 0], ref.coefficients(c, corr), 'single-id')
    o = r.permutation(len(cons))
    case.close(args.coefficients_table(tuple(np.array(cons)[o]), corrections=corr), tab[:, o], 'id-order')
    bad = c + 'zz'
    case.raises(ValueError, 'unknown-id', args.coefficients_table, [bad])
    case.raises(ValueError, 'unknown-id', args.doodson_number, [c, bad])
    case.expect(args.doodson_number(bad, raise_error=False) is None, 'unknown-id', '')


@check.scenario(quick=30, thorough=300, floor=20)
def compound(case):
    """frequency of a compound tide is the signed sum of its parents'"""
    corr = CORR[case.index % len(CORR)]
    names = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', 'j1', 'l2', 'nu2', 'mu2']
    w = dict(zip(names, args.frequency(names, corrections=corr)))
    sums = {'m4': '+m2+m2', 'ms4': '+m2+s2', 'mn4': '+m2+n2', 'm6': '+m2+m2+m2', 'm8': '+m2+m2+m2+m2',
        'mk3': '+m2+k1', 'mo3': '+m2+o1', '2mk3': '+m2+m2-k1', '2sm2': '+s2+s2-m2', 'mk4': '+m2+k2',
        's4': '+s2+s2', 'n4': '+n2+n2', 'sn4': '+s2+n2', 'sk4': '+s2+k2', 'msf': '+s2-m2',
        '2mn6': '+m2+m2+n2', '2ms6': '+m2+m2+s2', 'msn6': '+m2+s2+n2', '2sm6': '+s2+s2+m2',
        'msk6': '+m2+s2+k2', 'so3': '+s2+o1', 'sk3': '+s2+k1', '3mn8': '+m2+m2+m2+n2',
        'mns2': '+m2+n2-s2', 'mks2': '+m2+k2-s2', 'snk6': '+s2+n2+k2', '2ms2': '+m2+m2-s2',
        '2mn2': '+m2+m2-n2', 'nk3': '+n2+k1', 'nsk5': '+n2+s2+k1', '2mns4': '+m2+m2+n2-s2',
        '4msn8': None, 'mq3': '+m2+q1', 'no3': '+n2+o1', 'm10': '+m2+m2+m2+m2+m2', 'sp3': '+s2+p1'}
    have = [c for c in sums if c in gen.ALL and sums[c]]
    for c, x in zip(have, args.frequency(have, corrections=corr)):
        s = sums[c]
        want = sum((1 if s[i] == '+' else -1)*w[s[i+1:i+3]] for i in range(0, len(s), 3))
        case.expect(abs(x-want) < 2e-11, f'compound:{c}', f'{x} expected {want}')
        case.nontrivial(c)
    # random Cartwright numbers through each formalism and back
    r = case.rng
    for _ in range(40):
        v = np.r_[r.integers(0, 12), r.integers(-5, 7, 5)]
        d = args._to_doodson_number(v)
        want = ''.join('0123456789XE'[k] for k in np.r_[v[0], v[1:]+5])
        s = str(d) if isinstance(d, str) else '%07.3f' % d
        case.expect(s == f'{want[:3]}.{want[3:]}', 'to-doodson', f'{v} -> {d}')
        s = str(want[:3] + '.' + want[3:])
        case.expect(np.array_equal(args._from_doodson_number(s), v), 'from-doodson', f'{s}')
        x = r.integers(-8, 16, 7)
        e = args._to_extended_doodson(x)
        case.expect([DIG[q] for q in str(e)] == list(x), 'to-extended', f'{x} -> {e}')
        case.expect(np.array_equal(args._from_extended_doodson(e), x), 'from-extended', f'{e}')
    for v in ([12, 0, 0, 0, 0, 0], [2, 7, 0, 0, 0, 0], [1, -6, 0, 0, 0, 0], [-1, 0, 0, 0, 0, 0]):
        case.raises(ValueError, 'doodson-range', args._to_doodson_number, v)
        case.expect(args._to_doodson_number(v, raise_error=False) is None, 'doodson-range', '')


@check.scenario(quick=60, thorough=600, floor=40)
def aliasing(case):
    """a sampled line cannot be told from its alias"""
    r = case.rng
    corr = CORR[case.index % len(CORR)]
    cons = gen.subset(r, [c for c in gen.ALL if c not in ('z0',)], 4, 12)
    dt = float(r.choice([9.9156*86400, 35*86400., 0.99349*86400, 10.0*3600,
        r.uniform(3600, 40*86400)]))
    w = np.array([ref.frequency(c, corr) for c in cons])
    P = np.asarray(args.aliasing_period(cons, dt, corrections=corr))
    case.note(sampling=dt, constituents=cons)
    fs = 1/dt
    for c, x, p in zip(cons, w/(2*np.pi), P):
        if abs(x) < 1e-12:
            continue
        fa = 1/p
        want = min(abs(x - k*fs) for k in range(int(abs(x)/fs)-2, int(abs(x)/fs)+4))
        case.expect(abs(fa - want) < 1e-11, 'alias', f'{c} sampled at {dt}: {fa} expected {want} Hz')
        case.expect(fa <= fs/2*(1+1e-9), 'nyquist', f'{fa} {fs}')
        case.nontrivial(c, round(dt))
    f, s = r.uniform(0.01, 30, 20), r.uniform(0.3, 4, 20)
    fa = pyTMD.math.aliasing(f, s)
    k = np.arange(50)[:, None]
    case.close(np.cos(2*np.pi*fa*k/s), np.cos(2*np.pi*f*k/s), 'alias-samples', rtol=0, atol=1e-8)


@check.scenario(quick=40, thorough=400, floor=30)
def love(case):
    """body tide Love numbers, with the free core nutation resonance"""
    r = case.rng
    band = case.index % 3
    model = ['1066A', 'PEM-C', 'C2', 'PREM'][int(r.integers(0, 4))]
    om = [10**r.uniform(-8, np.log10(2e-5)), r.uniform(2.1e-5, 9.9e-5), r.uniform(1.01e-4, 1e-3)][band]
    got = args._love_numbers(om, model=model)
    want = ref.love(om, model)
    case.close(got, want, 'love', rtol=1e-4 if abs(om-7.3087e-5) < 1e-9 else 1e-7)
    case.raises(ValueError, 'love-model', args._love_numbers, om, model='unknown')
    case.nontrivial(band, model)
