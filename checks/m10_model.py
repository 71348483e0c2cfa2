"""M10: the model class: known models, definition files and what is made of them"""
import copy
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys
import numpy as np
import pyTMD.io
import pyTMD.io.model as M
from vmon.core import Check, Skip
from vmon import synth

check = Check('M10', 'Models are found, defined and described as the database and files say',
    'a case counts when a model was made and each attribute compared; key = model or format, form of the files, source')

HERE = pathlib.Path(__file__).resolve().parent.parent
MODELS = json.loads((HERE/'vmon'/'data'/'models.json').read_text())
KNOWN = [(t, m) for t in ('elevation', 'current') for m in MODELS[t]]
FORMATS = ['ATLAS-compact', 'ATLAS-netcdf', 'FES-ascii', 'FES-netcdf', 'GOT-ascii', 'GOT-netcdf', 'OTIS', 'TMD3']
# names of variables in products
VARIABLES = {
    'tide_ocean': dict(atl03='tide_ocean', atl06='tide_ocean', atl07='height_segment_ocean', atl10='height_segment_ocean', atl11='tide_ocean', atl12='tide_ocean_seg',
        gla12='d_ocElv', long_name='ocean_tide_elevation', description='Ocean tidal elevations derived from harmonic constants'),
    'tide_load': dict(atl03='tide_load', atl06='tide_load', atl07='height_segment_load', atl10='height_segment_load', atl11='tide_load', atl12='tide_load_seg',
        gla12='d_ldElv', long_name='load_tide_elevation', description='Local displacement due to ocean tidal loading derived from harmonic constants'),
    'tide_lpe': dict(atl03='tide_equilibrium', atl06='tide_equilibrium', atl07='height_segment_lpe', atl10='height_segment_lpe', atl11='tide_equilibrium',
        atl12='tide_equilibrium_seg', gla12='d_eqElv', long_name='equilibrium_tide_elevation', description='Long-period equilibrium tide elevations'),
}
CURRENTS = dict(atl03=None, atl06=None, atl07=None, atl10=None, atl11=None, atl12=None, gla12=None,
    long_name=dict(u='zonal_tidal_current', v='meridional_tidal_current'),
    description=dict(u='Depth-averaged tidal zonal current derived from harmonic constants', v='Depth-averaged tidal meridional current derived from harmonic constants'))
CORRECTIONS = {'ATLAS-compact': 'ATLAS', 'ATLAS-netcdf': 'ATLAS', 'FES-ascii': 'FES', 'FES-netcdf': 'FES', 'GOT-ascii': 'perth3', 'GOT-netcdf': 'GOT', 'OTIS': 'OTIS', 'TMD3': 'TMD3'}
FILES = {'ATLAS-compact': 'ATLAS', 'ATLAS-netcdf': 'netcdf', 'FES-ascii': 'ascii', 'FES-netcdf': 'netcdf', 'GOT-ascii': 'ascii', 'GOT-netcdf': 'netcdf', 'OTIS': 'OTIS', 'TMD3': 'TMD3'}
TOKENS = {'2n': '2n2', 'la2': 'lambda2', 'sig1': 'sigma1', 'e2': 'eps2'}


def described(case, m, fmt, t, variable, kind):
    want = VARIABLES.get(variable, {}) if t == 'z' else CURRENTS
    for k, v in want.items():
        case.expect(getattr(m, k) == v, kind+':attributes', f'{k} is {getattr(m, k)!r}, expected {v!r} for {variable}')
    case.expect(m.corrections == CORRECTIONS[fmt], kind+':corrections', f'{m.corrections} for {fmt}')
    case.expect(m.file_format == FILES[fmt], kind+':file-format', f'{m.file_format} for {fmt}')


def flat(f):
    if isinstance(f, dict):
        return sum([flat(v) for v in f.values()], [])
    return list(f) if isinstance(f, (list, tuple)) else [f]


def apply(f, fn):
    if isinstance(f, dict):
        return {k: apply(v, fn) for k, v in f.items()}
    return [fn(v) for v in f] if isinstance(f, (list, tuple)) else fn(f)


def constituent(path):
    import re
    n = pathlib.Path(path).name.lower()
    n = re.sub(r'hamcurrent11a_|\.hamtide11a|_fes20\d\d|_slev|_ocean_eot20|_load_eot20|\.gz$|\.nc|\.asc', '', n)
    return TOKENS.get(n, n)


@check.scenario(quick=160, thorough=1600, floor=120)
def known(case):
    """models of the database, in a directory of empty files"""
    r = case.rng
    t, name = KNOWN[case.index % len(KNOWN)]
    ref = MODELS[t][name]
    gz = bool(r.random() < 0.3)
    suffix = '.gz' if gz else ''
    files = flat(ref['model_file'])
    if ref.get('grid_file'):
        files = files + [ref['grid_file']]
    root = case.tmp/'models'
    for f in files:
        p = root/(f+suffix)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.touch()
    case.note(model=name, type=t, compressed=gz)
    give = [root, str(root)][int(r.integers(2))]
    fn = lambda **k: getattr(M(give, compressed=gz, **k), t)(name)
    ok, m = case.quietly('known:exception', fn)
    if ok:
        want = apply(ref['model_file'], lambda f: root/(f+suffix))
        case.expect(m.model_file == want, 'known:files', f'{m.model_file} for {want}')
        if ref.get('grid_file'):
            case.expect(m.grid_file == root/(ref['grid_file']+suffix), 'known:grid', f'{m.grid_file}')
        for k in ('name', 'format', 'type', 'scale', 'projection', 'variable', 'version'):
            case.expect(getattr(m, k) == ref.get(k), 'known:'+k, f'{name}: {getattr(m, k)!r}, expected {ref.get(k)!r}')
        case.expect(m.compressed == gz and m.gzip == suffix, 'known:compressed', f'{m.gzip}')
        cons = None
        if ref['format'].startswith('FES'):
            f = ref['model_file']
            cons = [constituent(i) for i in flat(f['u'] if isinstance(f, dict) else f)]
        case.expect(m.constituents == cons, 'known:constituents', f'{m.constituents} for {cons}')
        described(case, m, ref['format'], ref['type'], ref.get('variable'), 'known')
        case.nontrivial(t, name, gz)
    # missing files
    lost = files[int(r.integers(len(files)))]
    (root/(lost+suffix)).unlink()
    case.raises(FileNotFoundError, 'known:missing', fn)
    ok, m = case.quietly('known:unverified', fn, verify=False)
    if ok:
        case.expect(m.model_file == apply(ref['model_file'], lambda f: root/(f+suffix)), 'known:unverified', f'{m.model_file}')
    # the other compression is missing too
    case.raises(FileNotFoundError, 'known:compression', lambda: getattr(M(root, compressed=not gz), t)(name))
    case.raises(ValueError, 'known:unlisted', lambda: getattr(M(root), t)(name + '_x'))
    other = 'current' if t == 'elevation' else 'elevation'
    if name not in MODELS[other]:
        case.raises(ValueError, 'known:unlisted', lambda: getattr(M(root, verify=False), other)(name))
    # asking once more gives the same (the database is left alone)
    again = getattr(M(root, verify=False), t)(name)
    case.expect(again.model_file == apply(ref['model_file'], lambda f: root/f), 'known:again', f'{again.model_file}')


@check.scenario(quick=24, thorough=100, floor=16)
def listings(case):
    """lists of models, and databases added to the one of pyTMD"""
    r = case.rng
    E, C = MODELS['elevation'], MODELS['current']
    of = lambda *f: sorted(m for m, v in E.items() if v['format'] in f)
    want = dict(ocean_elevation=sorted(m for m, v in E.items() if v['variable'] in ('tide_ocean', 'tide_lpe')),
        load_elevation=sorted(m for m, v in E.items() if v['variable'] == 'tide_load'), ocean_current=sorted(C),
        OTIS=of('OTIS'), ATLAS_compact=of('ATLAS-compact'), TMD3=of('TMD3'), ATLAS=of('ATLAS-netcdf'),
        GOT=of('GOT-ascii', 'GOT-netcdf'), FES=of('FES-ascii', 'FES-netcdf'), formats=FORMATS)
    for k, v in want.items():
        got = getattr(M, k)()
        case.expect(got == v, 'listings:'+k, f'{set(got) ^ set(v)}')
    # additional databases
    name = 'ZZ-' + str(int(r.integers(1000)))
    fmt = str(r.choice(['OTIS', 'GOT-netcdf', 'FES-netcdf', 'ATLAS-netcdf']))
    new = dict(name=name, format=fmt, type='z', variable='tide_ocean', scale=0.5, version='v', projection='EPSG:4326', grid_file='grid.zz',
        model_file=['m2.zz', 'la2.zz'])
    over = dict(MODELS['elevation']['GOT4.8'], scale=7.0)
    dbs = []
    for i, content in enumerate([{'elevation': {name: new}}, {'elevation': {'GOT4.8': over}, 'current': {}}][:int(r.integers(1, 3))]):
        p = case.tmp/f'extra{i}.json'
        p.write_text(json.dumps(content))
        dbs.append([p, str(p)][int(r.integers(2))])
    case.note(format=fmt, databases=len(dbs))
    ok, m = case.quietly('listings:extra', lambda: M(case.tmp, verify=False).elevation(name, extra_databases=dbs))
    if ok:
        case.expect(m.model_file == [case.tmp/'m2.zz', case.tmp/'la2.zz'] and m.grid_file == case.tmp/'grid.zz' and m.format == fmt and m.scale == 0.5,
            'listings:extra-value', f'{m.model_file}')
        case.expect(m.constituents == (['m2', 'lambda2'] if fmt.startswith('FES') else None), 'listings:extra-constituents', f'{m.constituents}')
    ok, m = case.quietly('listings:extra-builtin', lambda: M(case.tmp, verify=False).elevation('GOT4.8', extra_databases=dbs))
    if ok:
        case.expect(m.scale == (7.0 if len(dbs) == 2 else 0.01), 'listings:extra-builtin', f'{m.scale}')
    ok, m = case.quietly('listings:extra-current', lambda: M(case.tmp, verify=False).current('CATS2008', extra_databases=dbs))
    # nothing is left of them
    case.raises(ValueError, 'listings:extra-left', lambda: M(case.tmp, verify=False).elevation(name))
    case.expect(M(case.tmp, verify=False).elevation('GOT4.8').scale == 0.01, 'listings:extra-left', 'GOT4.8')
    load = getattr(sys.modules.get('pyTMD.io.model'), 'load_database', None)
    db = load(dbs) if load else None
    if db is not None:
        case.expect(sorted(db.keys()) == ['current', 'elevation'] and name in db['elevation'] and set(C) <= set(db['current']) and set(E) <= set(db['elevation']),
            'listings:database', f'{list(db.keys())}')
    case.nontrivial('extra', fmt, len(dbs))


def random_definition(r, root):
    """a definition, the files it takes, and what becomes of it"""
    fmt = str(r.choice(FORMATS))
    given = fmt
    remap = {'ATLAS-compact': 'ATLAS', 'ATLAS-netcdf': 'netcdf', 'FES-netcdf': 'FES', 'GOT-ascii': 'GOT'}
    if fmt in remap and r.random() < 0.3:
        given = remap[fmt]
    t = 'z' if fmt.startswith('GOT') or r.random() < 0.6 else ['u', 'v']
    d = dict(name='model ' + str(r.integers(100)), format=given, type=t)
    if t == 'z':
        d['variable'] = str(r.choice(['tide_ocean', 'tide_load', 'tide_lpe']))
    if fmt in ('OTIS', 'ATLAS-compact', 'TMD3'):
        d['projection'] = ['EPSG:4326', '3031', dict(proj='stere', lat_0=90, type='crs')][int(r.integers(3))]
    else:
        d['scale'] = float(r.choice([0.01, 1e-3, 1.0]))
        d['compressed'] = bool(r.random() < 0.5)
    if fmt.startswith('FES'):
        d['version'] = 'FES2014'
    if r.random() < 0.3:
        d['reference'] = 'https://example.com/' + str(r.integers(10))
    cons = [str(c) for c in r.permutation(['m2', 's2', 'la2', '2n2', 'k1', 'o1', 'mf', 'mm', 'ssa', 'm4'])[:int(r.integers(1, 6))]]
    return fmt, t, d, cons


@check.scenario(quick=500, thorough=9000, floor=300)
def definition(case):
    """definition files"""
    r = case.rng
    root = case.tmp/'data'
    fmt, t, d, cons = random_definition(r, root)
    gridded = fmt in ('OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf')
    listed = fmt in ('ATLAS-netcdf', 'FES-ascii', 'FES-netcdf', 'GOT-ascii', 'GOT-netcdf')
    use_dir = bool(r.random() < 0.5)
    ext = '.nc.gz' if d.get('compressed') else '.nc'
    path = lambda *p: str(root.joinpath(*p))
    if use_dir:
        # files are found in a directory
        dirs = dict(u='east', v='north') if t != 'z' else dict(z='ocean')
        want = {}
        given = {}
        form = int(r.integers(3))
        for k, sub in dirs.items():
            names = [f'{sub}/{c}_x{ext}' for c in cons]
            for n in [str(v) for v in r.permutation(names + [f'{sub}/notes.txt'])]:
                p = root/n
                p.parent.mkdir(parents=True, exist_ok=True)
                p.touch()
            if form == 0:
                given[k] = f'{sub}/*{ext}'
                want[k] = sorted(root/n for n in names)
            elif form == 1:
                # list of names, in the order given
                given[k] = list(names)
                want[k] = [root/n for n in names]
            else:
                given[k] = [f'{sub}/[a-l0-9]*{ext}', f'{sub}/[m-z]*{ext}']
                low = [n for n in names if n.split('/')[1][0] < 'm']
                want[k] = sorted(root/n for n in low) + sorted(root/n for n in names if n not in low)
        if gridded:
            d['grid_file'] = 'grid/grid_x'
        d['model_file'] = given['z'] if t == 'z' else given
        want = want['z'] if t == 'z' else want
        grid = (root/'grid/grid_x').resolve()
        directory = [root, str(root)][int(r.integers(2))]
        case.note(definition=d, directory=True)
    else:
        if listed or (fmt == 'OTIS' and r.random() < 0.4):
            f = {k: [path(f'{k}_{c}{ext}') for c in cons] for k in (['z'] if t == 'z' else ['u', 'v'])}
        else:
            one = path('uv.model')
            f = {k: one for k in (['z'] if t == 'z' else ['u', 'v'])}
        d['model_file'] = f['z'] if t == 'z' else f
        want = apply(d['model_file'], pathlib.Path)
        if gridded:
            d['grid_file'] = path('grid_x')
        grid = root/'grid_x'
        directory = None
        case.note(definition=d, directory=False)
    explicit = None
    if fmt.startswith('FES') and r.random() < 0.3:
        explicit = ['q1'] * len(cons)
        d['constituents'] = explicit
    text = json.dumps(d, indent=int(r.integers(0, 5)) or None)
    source = str(r.choice(['path', 'str', 'stringio', 'bytesio', 'open']))
    f = case.tmp/'definition.json'
    f.write_text(text)
    fid = None
    if source == 'path':
        give = f
    elif source == 'str':
        give = str(f)
    else:
        # (after lines that were read before)
        lines = int(r.choice([0, 0, 1, 3]))
        head = 'of another kind {"name"\n'*lines
        if source == 'stringio':
            give = fid = io.StringIO(head + text)
        elif source == 'bytesio':
            give = fid = io.BytesIO((head + text).encode())
        else:
            f.write_text(head + text)
            give = fid = f.open('r')
        for i in range(lines):
            fid.readline()
        start = fid.tell()
    ok, m = case.quietly('definition:exception', lambda: M(directory).from_file(give))
    if fid is not None:
        # files that were given open remain so, where they were
        case.expect(not fid.closed, 'definition:closed', source)
        if not fid.closed:
            case.expect(fid.tell() == start, 'definition:position', f'{fid.tell()} {start}')
            if ok:
                ok2, m2 = case.quietly('definition:twice', lambda: M(directory).from_file(give))
                if ok2:
                    case.expect(m2.model_file == m.model_file, 'definition:twice', 'second reading differs')
            fid.close()
    if not ok:
        return
    case.expect(m.format == fmt, 'definition:format', f'{m.format} for {d["format"]}')
    case.expect(m.model_file == want, 'definition:files', f'{m.model_file} for {want}')
    if gridded:
        case.expect(m.grid_file == grid, 'definition:grid', f'{m.grid_file} for {grid}')
    for k in ('name', 'type', 'projection', 'scale', 'variable', 'version', 'reference'):
        case.expect(getattr(m, k) == d.get(k), 'definition:'+k, f'{getattr(m, k)!r} for {d.get(k)!r}')
    case.expect(m.compressed == d.get('compressed', False), 'definition:compressed', f'{m.compressed}')
    if fmt.startswith('FES'):
        w = want if t == 'z' else want['u']
        strip = lambda p: pathlib.Path(p).name.replace('z_', '').replace('u_', '').replace('_x', '').replace(ext, '')
        w = explicit or [TOKENS.get(strip(p), strip(p)) for p in w]
        case.expect(m.constituents == w, 'definition:constituents', f'{m.constituents} for {w}')
    described(case, m, fmt, t, d.get('variable'), 'definition')
    case.nontrivial(fmt, t == 'z', use_dir, source, d['format'] != fmt, explicit is not None)
    # the dictionary of the model, and back
    before = copy.deepcopy({k: v for k, v in vars(m).items()})
    fields = ['name', 'format', 'type', 'grid_file', 'model_file', 'projection', 'variable', 'scale', 'constituents', 'version', 'reference']
    ok, a = case.quietly('serialize:exception', m.to_dict)
    ok2, s = case.quietly('serialize:exception', m.to_dict, serialize=True)
    if ok and ok2:
        want = {k: getattr(m, k) for k in fields if getattr(m, k) is not None}
        case.expect(a == want, 'serialize:dictionary', f'{a} for {want}')
        case.expect(s == apply_all(want), 'serialize:value', f'{s}')
        ok, txt = case.quietly('serialize:json', json.dumps, s)
        if ok:
            s['compressed'] = m.compressed
            ok, b = case.quietly('serialize:read', lambda: M().from_file(io.StringIO(json.dumps(s))))
            if ok:
                for k in fields + ['compressed']:
                    case.expect(getattr(b, k) == getattr(m, k), 'serialize:'+k, f'{getattr(b, k)!r} for {getattr(m, k)!r}')
        sub = [str(k) for k in r.permutation(fields)[:3]]
        ok, a = case.quietly('serialize:exception', m.to_dict, fields=sub)
        if ok:
            case.expect(a == {k: want[k] for k in sub if k in want}, 'serialize:fields', f'{a}')
        b = M().from_dict(m.to_dict())
        case.expect(all(getattr(b, k) == getattr(m, k) for k in fields), 'serialize:from-dict', 'differs')
    case.expect(before == {k: v for k, v in vars(m).items()}, 'serialize:altered', 'the model was altered')


def apply_all(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = apply_all(v)
        elif isinstance(v, (list, tuple)):
            out[k] = [str(i) if isinstance(i, pathlib.Path) else i for i in v]
        else:
            out[k] = str(v) if isinstance(v, pathlib.Path) else v
    return out


@check.scenario(quick=160, thorough=2400, floor=100)
def refused(case):
    """definitions that say too little, or are none"""
    r = case.rng
    fmt, t, d, cons = random_definition(r, case.tmp)
    path = lambda n: str(case.tmp/n)
    d['model_file'] = {k: [path(f'{k}_{c}.nc') for c in cons] for k in 'uv'} if t != 'z' else [path(f'{c}.nc') for c in cons]
    if fmt in ('OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf'):
        d['grid_file'] = path('grid')
    give = lambda x: M().from_file(io.StringIO(json.dumps(x)))
    ok, m = case.quietly('refused:complete', give, d)
    for k in ('name', 'format', 'type', 'model_file', 'grid_file', 'projection', 'scale', 'version'):
        if k in d:
            less = {a: b for a, b in d.items() if a != k}
            if k == 'scale' and fmt in ('OTIS', 'ATLAS-compact', 'TMD3'):
                continue
            case.raises(Exception, 'refused:incomplete', give, less)
    case.raises(Exception, 'refused:format', give, dict(d, format=str(r.choice(['ascii', 'OTI', 'fes', '']))))
    case.raises(IOError, 'refused:text', M().from_file, io.StringIO('name\tmodel\nformat\tOTIS\n'))
    case.raises(ValueError, 'refused:ascii', lambda: M().from_file(io.StringIO(json.dumps(d)), format='ascii'))
    case.raises(FileNotFoundError, 'refused:missing', lambda: M().from_file(case.tmp/'none.json'))
    ok, m = case.quietly('refused:empty', lambda: M().from_dict(dict(d, model_file=[], constituents=[])).to_dict(serialize=True))
    if ok:
        case.expect(m['model_file'] == [], 'refused:empty', f'{m}')
    case.nontrivial(fmt, t == 'z')


def pairs(got):
    a, p = got[0], got[1]
    return [np.ma.getdata(v)[~np.ma.getmaskarray(a)] for v in (a, p)] + [np.ma.getmaskarray(a), np.ma.getmaskarray(p)]


@check.scenario(quick=200, thorough=4000, floor=120)
def dispatch(case):
    """a model object used many times gives what a new one gives"""
    r = case.rng
    key = ['OTIS', 'TMD3', 'ATLAS', 'GOT', 'FES'][case.index % 5]
    s = synth.FORMATS[key](r, case.tmp)
    currents = 'u' in s.types and r.random() < 0.6
    types = ['u', 'v'] if currents else ['z']
    f = case.tmp/'definition.json'
    f.write_text(json.dumps(s.definition('u' if currents else 'z')))
    make = lambda: M().from_file(f)
    m = make()
    attrs = copy.deepcopy(vars(m))
    g = s.grid
    history = []
    held = None
    for _ in range(int(r.integers(3, 7))):
        t = str(r.choice(types))
        n = int(r.integers(1, 15))
        px, py = synth.points(r, g, n)
        lon, lat = g.lonlat(px, py)
        if g.geographic:
            lon, _ = synth.convention(r, lon)
        method = str(r.choice(['spline', 'linear', 'nearest', 'bilinear']))
        kw = dict(type=t, method=method)
        op = str(r.choice(['extract', 'node', 'read', 'interpolate', 'module', 'extrapolate']))
        if op == 'interpolate' and held and r.random() < 0.4:
            # of the type that was read
            t = held
            kw.pop('type')
        given = t != 'z' or r.random() < 0.6
        if not given:
            # (elevations are the type of the model)
            kw.pop('type', None)
        bymodule = r.random() < 0.5
        history.append(f'{op}:{t}' + ('' if given else '-'))
        if op in ('read', 'interpolate'):
            held = t
        if op in ('extract', 'node', 'module', 'extrapolate'):
            if op == 'node':
                kw['append_node'] = True
            if op == 'extrapolate':
                kw.update(extrapolate=True, cutoff=np.inf)
            fn = (lambda *a, **k: pyTMD.io.extract_constants(*a, m, **k)) if op == 'module' and hasattr(pyTMD.io, 'extract_constants') else m.extract_constants
            ok, got = case.quietly('dispatch:exception', fn, lon, lat, **kw)
            if not ok:
                return
            a, p, c = got
            cons = list(s.cons)
            if op == 'node':
                if 'node' not in cons:
                    cons.append('node')
                    node(case, a[:, -1], p[:, -1], lat, 'dispatch')
                    a, p, c = a[:, :-1], p[:, :-1], c[:-1]
                case.expect(got[2] == cons, 'dispatch:constituents', f'{got[2]} for {cons}')
            only = None
            if op == 'extrapolate':
                only = np.array([s.truth(t, con, px, py, method)[1] == synth.VALID for con in s.cons]).all(0)
            synth.judge(case, s, (a, p, None, list(c)), t, px, py, method, 'dispatch', note=' '.join(history), only=only)
        elif op == 'read':
            add = bool(r.random() < 0.3)
            kw = dict(append_node=add, **(dict(type=t) if given else {}))
            ok, c = case.quietly('dispatch:exception', pyTMD.io.read_constants, m, **kw) if bymodule else case.quietly('dispatch:exception', m.read_constants, **kw)
            if not ok:
                return
            cons = list(s.cons) + (['node'] if add and 'node' not in s.cons else [])
            case.expect(list(c.fields) == cons, 'dispatch:read', f'{c.fields} for {cons}')
        else:
            ok, got = case.quietly('dispatch:exception', pyTMD.io.interpolate_constants, lon, lat, m, **kw) if bymodule else \
                case.quietly('dispatch:exception', m.interpolate_constants, lon, lat, **kw)
            if not ok:
                return
            a, p = got
            extra = a.shape[1] - len(s.cons)
            if extra:
                case.expect(extra == 1, 'dispatch:columns', f'{a.shape}')
                a, p = a[:, :len(s.cons)], p[:, :len(s.cons)]
            synth.judge(case, s, (a, p, None, list(s.cons)), t, px, py, method, 'dispatch', note=' '.join(history))
        if case.found:
            return
    for k, v in attrs.items():
        case.expect(getattr(m, k) == v, 'dispatch:altered', f'{k} is {getattr(m, k)} and was {v} after {history}')
    case.nontrivial(key, g.kind, '>'.join(history))


def node(case, amp, ph, lat, kind):
    """equilibrium node tide: amplitude of Cartwright and Edden, latitude term, and tilt"""
    want = 0.027929*(1.0+0.299-0.606)*np.sqrt(5/(4*np.pi))*(1.5*np.sin(np.radians(np.asarray(lat, float)))**2-0.5)
    a, p = np.ma.getdata(amp), np.ma.getdata(ph)
    # (signed amplitudes have phases of 180 degrees)
    case.expect(not np.ma.getmaskarray(amp).any() and not np.ma.getmaskarray(ph).any(), kind+':node-mask', 'masked')
    case.close(a*np.exp(-1j*np.radians(p)), -want, kind+':node', rtol=1e-12, atol=1e-15)


@check.scenario(quick=60, thorough=600, floor=30)
def nodes(case):
    r = case.rng
    n = int(r.integers(1, 30))
    lat = r.uniform(-90, 90, n)
    lat[:1] = r.choice([-90.0, 0.0, 90.0, 35.26438968])
    form = str(r.choice(['array', 'int', 'float32', 'scalar', 'grid']))
    x = dict(array=lat, int=np.round(lat).astype(int), float32=lat.astype('f4'), scalar=float(lat[0]), grid=np.broadcast_to(lat[:, None], (n, 3)).copy())[form]
    case.note(form=form, latitude=np.ravel(x))
    ok, got = case.quietly('nodes:exception', M.node_equilibrium, x)
    if ok:
        a, p = got
        case.expect(a.shape == np.atleast_1d(x).shape == p.shape, 'nodes:shape', f'{a.shape}')
        if a.shape == np.atleast_1d(x).shape:
            if form == 'float32':
                case.expect(a.dtype == np.float64, 'nodes:dtype', f'{a.dtype}')
            node(case, a, p, np.atleast_1d(x), 'nodes') if form != 'float32' else case.close(np.ma.getdata(a), 0.027929*0.693*np.sqrt(5/(4*np.pi))*(1.5*np.sin(np.radians(x.astype(float)))**2-0.5), 'nodes:float32', rtol=1e-5, atol=1e-8)
            case.nontrivial(form, n)


# directories of the models as documented ("Directories" of Getting-Started)
DIRECTORIES = {
    'CATS0201': 'cats0201_tmd', 'CATS2008': 'CATS2008', 'CATS2008_load': 'CATS2008a_SPOTL_Load', 'CATS2008-v2023': 'CATS2008_v2023',
    'AODTM-5': 'aodtm5_tmd', 'AOTIM-5': 'aotim5_tmd', 'AOTIM-5-2018': 'Arc5km2018', 'Arc2kmTM': 'Arc2kmTM', 'Gr1km-v2': 'greenlandTMD_v2',
    'TPXO7.2': 'TPXO7.2_tmd', 'TPXO7.2_load': 'TPXO7.2_load', 'TPXO8-atlas': 'tpxo8_atlas', 'TPXO9.1': 'TPXO9.1/DATA',
    'TPXO9-atlas': 'TPXO9_atlas', 'TPXO9-atlas-v2': 'TPXO9_atlas_v2', 'TPXO9-atlas-v3': 'TPXO9_atlas_v3', 'TPXO9-atlas-v4': 'TPXO9_atlas_v4',
    'TPXO9-atlas-v5': 'TPXO9_atlas_v5', 'TPXO10-atlas-v2': 'TPXO10_atlas_v2',
    'GOT4.7': 'GOT4.7/grids_oceantide', 'GOT4.7_load': 'GOT4.7/grids_loadtide', 'GOT4.8': 'got4.8/grids_oceantide', 'GOT4.8_load': 'got4.8/grids_loadtide',
    'GOT4.10': 'GOT4.10c/grids_oceantide', 'GOT4.10_load': 'GOT4.10c/grids_loadtide', 'GOT5.5': 'GOT5.5/ocean_tides', 'GOT5.5_load': 'GOT5.5/load_tides',
    'RE14': 'RE14_LongPeriodTides_rel/oceantides', 'FES2014': 'fes2014/ocean_tide', 'FES2014_load': 'fes2014/load_tide',
    'FES2022': 'fes2022b/ocean_tide_20241025', 'FES2022_load': 'fes2022b/load_tide', 'EOT20': 'EOT20/ocean_tides', 'EOT20_load': 'EOT20/load_tides',
    'DTU23': 'DTU23_OceanTide/DTU23', 'HAMTIDE11': 'hamtide'}


@check.scenario(quick=len(KNOWN), thorough=len(KNOWN), floor=len(KNOWN)-4)
def published(case):
    """each entry of the database of pyTMD: that of its provider, consistent, where the documentation has it"""
    import pyTMD.utilities
    t, name = KNOWN[case.index % len(KNOWN)]
    db = json.loads(pathlib.Path(pyTMD.utilities.get_data_path(['data', 'database.json'])).read_text())
    case.note(model=name, type=t)
    if not case.expect(name in db[t], 'published:entry', f'{name} is not in the database'):
        return
    e = db[t][name]
    providers = pathlib.Path(pyTMD.__file__).resolve().parent.parent/'providers'
    held = []
    for p in sorted(providers.glob('*.json')):
        d = json.loads(p.read_text())
        held += [d[t][name]] if name in d.get(t, {}) else []
    if held:
        case.expect(len(held) == 1 and held[0] == e, 'published:provider', f'{len(held)} providers of {name}: {str(held)[:300]} and {str(e)[:300]}')
    # the objects that users look at
    m = M(verify=False).from_dict(dict(e))
    for k, v in e.items():
        case.expect(getattr(m, k) == v, 'published:model', f'{k} is {getattr(m, k)!r}')
    files = flat(e['model_file'])
    for k, some in (e['model_file'].items() if isinstance(e['model_file'], dict) else [('z', e['model_file'])]):
        some = flat(some)
        case.expect(len(set(some)) == len(some) and len({constituent(f) for f in some}) == len(some), 'published:repeated', f'{k}: {some}')
    case.expect((e['type'] == 'z') == (t == 'elevation') and (t == 'elevation') != isinstance(e['model_file'], dict), 'published:type', f"{e['type']}")
    case.expect(name.endswith('-nc') == (e['format'] == 'ATLAS-netcdf'), 'published:format', f"{name} {e['format']}")
    if e['format'].endswith('netcdf'):
        case.expect(all(f.endswith('.nc') for f in files), 'published:suffix', f'{files}')
    if t == 'elevation':
        case.expect(('_load' in name) == (e['variable'] == 'tide_load'), 'published:variable', f"{e['variable']}")
    base = DIRECTORIES.get(name) or DIRECTORIES.get(name[:-3] if name.endswith('-nc') and name != 'TPXO8-atlas-nc' else name)
    if base and not (t == 'current' and name.startswith('FES')):
        where = {f.rpartition('/')[0] for f in files + ([e['grid_file']] if e.get('grid_file') else [])}
        case.expect(where == {base}, 'published:directory', f'{where} documented as {base}')
    # elevations and currents are of one model
    other = db['current' if t == 'elevation' else 'elevation'].get(name)
    if other:
        for k in ('format', 'grid_file', 'projection', 'name'):
            case.expect(other.get(k) == e.get(k), 'published:pair', f'{k}: {other.get(k)} and {e.get(k)}')
    case.nontrivial(t, name)


@check.scenario(quick=6, thorough=60, floor=0)
def merged(case):
    """the program that makes the database merges the files of the providers"""
    r = case.rng
    source = pathlib.Path(pyTMD.__file__).resolve().parent.parent/'providers'
    program = source/'_providers_to_database.py'
    if not program.exists():
        raise Skip('no such program')
    here, out = case.tmp/'providers', case.tmp/'out'
    here.mkdir()
    out.mkdir()
    (here/program.name).write_bytes(program.read_bytes())
    (here/'README.rst').write_text('not a provider\n')
    want = dict(elevation={}, current={})
    real = case.index % 3 == 0
    if real:
        for p in sorted(source.glob('*.json')):
            (here/p.name).write_bytes(p.read_bytes())
            for t, v in json.loads(p.read_text()).items():
                want[t].update(v)
    for k in range(int(r.integers(1, 5))):
        d = {}
        for t in ('elevation', 'current'):
            if r.random() < 0.75:
                d[t] = {f'model {k}-{i}é': dict(format=str(r.choice(FORMATS)), name=f'm{i}', type='z' if t == 'elevation' else ['u', 'v'],
                    scale=float(r.random()), model_file=[f'a/{j}' for j in range(3)] if t == 'elevation' else dict(u='a', v='b'))
                    for i in range(int(r.integers(0, 4)))}
                want[t].update(d[t])
        (here/f'provider{k}.json').write_text(json.dumps(d), encoding='utf-8')
    before = {p.name: p.read_bytes() for p in here.iterdir()}
    # the database of a copy of the package is the one that is written
    package = pathlib.Path(pyTMD.__file__).resolve().parent
    shutil.copytree(package, out/'pyTMD', ignore=shutil.ignore_patterns('__pycache__'))
    database = out/'pyTMD'/'data'/'database.json'
    held = {p.relative_to(out): p.stat().st_mtime_ns for p in out.rglob('*') if p.is_file() and p != database}
    argv = [str(a) for a in r.choice(['--pretty', '--verbose', '-p'], int(r.integers(0, 3)), replace=False)]
    case.note(argv=argv, providers=sorted(before))
    code = ('import sys, runpy, pathlib, pyTMD; '
        f'assert pathlib.Path(pyTMD.__file__).resolve().is_relative_to({str(out.resolve())!r}); '
        f'sys.argv = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name="__main__")')
    p = subprocess.run([sys.executable, '-B', '-c', code, str(here/program.name)] + argv, cwd=case.tmp, capture_output=True, text=True,
        env=dict(os.environ, PYTHONPATH=str(out)), timeout=120)
    if not case.expect(p.returncode == 0, 'merged:exception', p.stderr[-600:]):
        return
    case.expect({p.relative_to(out): p.stat().st_mtime_ns for p in out.rglob('*') if p.is_file() and p != database} == held,
        'merged:files', 'other files of the package changed')
    got = json.loads(database.read_text())
    case.expect(got == want, 'merged:content', f'{str(got)[:200]} expected {str(want)[:200]}')
    case.expect({p.name: p.read_bytes() for p in here.iterdir() if p.is_file()} == before, 'merged:sources', 'the files of providers changed')
    case.nontrivial('merged', real, len(want['elevation']), len(want['current']))
