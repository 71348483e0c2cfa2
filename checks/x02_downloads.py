"""X02: the download programs"""
import contextlib
import gzip
import hashlib
import importlib.util
import io
import json
import logging
import lzma
import os
import pathlib
import resource
import signal
import sys
import tarfile
import time
import zipfile
import numpy as np
import pyTMD
import pyTMD.io
from vmon.core import Check
from vmon.servers import SRV, servers, redirected

check = Check('X02', 'Download programs leave complete copies of what the archives hold',
    'a case counts when the files on disk were compared with those in the archive after a run; key = program, model, options, what had happened before',
    ['web and FTP servers of our own on the loopback interface', 'archives made with zipfile, tarfile and lzma',
     'processes stopped or refused by the system in the middle of a file (RLIMIT_FSIZE)'])

SCRIPTS = pathlib.Path(pyTMD.__file__).resolve().parent.parent/'scripts'
_LOADED = {}
# times of files: even seconds, as those of the programs
T0, T1 = 1000000000, 1700000000


def program(name):
    if name not in _LOADED:
        spec = importlib.util.spec_from_file_location(f'x02_{name}', SCRIPTS/f'{name}.py')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _LOADED[name] = m
    return _LOADED[name]


def run(case, name, argv, hosts, limit=None, kill=False):
    """None, or what ended the program; with a limit it runs in a process that may not write files larger than that"""
    m = program(name)
    logging.getLogger(m.__name__).handlers.clear()

    def inside():
        keep = sys.argv
        logging.disable(logging.NOTSET)
        sys.argv = [name + '.py'] + [str(a) for a in argv]
        try:
            with redirected(hosts), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                m.main()
        except SystemExit as e:
            return f'exit {e.code}'
        except Exception as e:
            return repr(e)
        finally:
            sys.argv = keep
            logging.disable(logging.CRITICAL)
    if limit is None:
        return inside()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            code = 0 if inside() is None else 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    case.event('processes with a limit on files')
    if os.WIFSIGNALED(status):
        case.event('processes killed within a file')
        return f'signal {os.WTERMSIG(status)}'
    return None if os.WEXITSTATUS(status) == 0 else f'status {os.WEXITSTATUS(status)}'


def blob(r, most=20000):
    n = int(r.choice([0, 1, 300, 4096, int(r.integers(0, most))]))
    if r.random() < 0.5:
        return r.integers(0, 256, n, dtype=np.uint8).tobytes()
    return bytes(int(r.integers(0, 256)) for _ in range(7))*(n//7)


def when(r):
    return int(r.integers(T0//100, T1//100))*100


def tree(root):
    """path: (content, modification time, mode) of every file below"""
    out = {}
    for p in sorted(pathlib.Path(root).rglob('*')):
        if p.is_file():
            s = p.stat()
            out[str(p.relative_to(root))] = (p.read_bytes(), s.st_mtime, s.st_mode & 0o777)
    return out


def plain(path, data):
    return gzip.decompress(data) if path.endswith('.gz') else data


def put(root, path, data, t):
    p = pathlib.Path(root)/path
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(data)
    os.utime(p, (t, t))


class Local:
    """what should be on disk"""

    def __init__(self, case, root, mode, dated=True):
        self.case, self.root, self.mode, self.dated = case, root, mode, dated
        self.extra = False
        # whether a fault is always met
        self.sure = True
        self.log = False

    def compare(self, wanted, before, failed, kind):
        """wanted: path: (content, time) in the archive; before: the tree ahead of the run"""
        case, now = self.case, tree(self.root)
        done = kept = 0
        for path, (data, t) in wanted.items():
            old = before.get(path)
            # an up to date file stays as it is
            stays = old is not None and self.dated and t <= old[1]
            if path not in now:
                if not (failed and old is None):
                    case.fail(f'{kind}:missing', f'{path} is missing' + (' after a failure' if failed else ''))
                continue
            got = now[path]
            try:
                same = plain(path, got[0]) == data
            except Exception:
                same = False
            fresh = same and (not self.dated or abs(got[1] - t) < 1) and got[2] == self.mode
            if stays or failed and old is not None and got == old:
                if old[0] != b'' or not fresh:
                    case.expect(got == old, f'{kind}:untouched', f'{path}: up to date, but changed ({len(old[0])} to {len(got[0])} bytes, {old[1]} to {got[1]})')
                kept += 1
                continue
            done += 1
            if not case.expect(same, f'{kind}:content', f'{path}: {len(got[0])} bytes are not those of the archive' + (' after a failure' if failed else '')):
                continue
            case.expect(not self.dated or abs(got[1] - t) < 1, f'{kind}:time', f'{path}: {got[1]} for {t}')
            case.expect(got[2] == self.mode, f'{kind}:mode', f'{path}: {got[2]:o} for {self.mode:o}')
        for path in set(now) - set(wanted):
            if self.log and path.startswith('AVISO_FES_tides_') and path.endswith('.log'):
                continue
            if path in before:
                case.expect(now[path] == before[path], f'{kind}:others', f'{path} is not in the archive, but changed')
            elif not failed and not self.extra:
                case.fail(f'{kind}:unselected', f'{path} should not have been written')
        for path in set(before) - set(now) - set(wanted):
            if not self.extra:
                case.fail(f'{kind}:others', f'{path} was removed')
        if failed:
            self.extra = True
        case.event('files written', done)
        case.event('files up to date', kept)
        return done, kept


def history(case, local, publish, execute, kind, fault):
    """a few runs with changes of the archive and of the local files between them, the last without faults"""
    r = case.rng
    # local files before the first run
    wanted = publish(None)
    for path, (data, t) in wanted.items():
        k = r.random()
        if k < 0.12:
            put(local.root, path, gzip.compress(b'edited') if path.endswith('.gz') else b'edited', t + 100*int(r.integers(0, 3)))
        elif k < 0.24:
            put(local.root, path, b'old and short', t - 100*int(r.integers(1, 1000)))
        elif k < 0.3:
            put(local.root, path, data*2 + b'old and long', t - 100*int(r.integers(1, 1000)))
    if r.random() < 0.4:
        put(local.root, 'mine/notes.txt', b'notes', T0)
        put(local.root, 'mine.nc', b'notes', T0)
    story = []
    for k in range(int(r.integers(1, 4)) + 1):
        last = story and k >= 1 and (r.random() < 0.4 or k == 3)
        step = 'fine' if last or r.random() < 0.5 else fault
        if k and r.random() < 0.4:
            wanted = publish('again')
            story.append('published')
        elif k and wanted and r.random() < 0.3:
            p = pathlib.Path(local.root)/str(r.choice(sorted(wanted)))
            if p.exists():
                p.unlink()
                story.append('removed')
        before = tree(local.root)
        problem = execute(step)
        failed = problem is not None
        if step == 'fine':
            case.expect(not failed, f'{kind}:failed', f'{problem} after {story}')
            if failed:
                return story
        story.append(step if failed else 'fine')
        if step not in ('fine', 'limit', 'kill') and local.sure:
            case.expect(failed, f'{kind}:fault', f'{step} went unnoticed')
        local.compare(wanted, before, failed, kind)
        if local.case.found:
            return story
        if last:
            break
    before = tree(local.root)
    problem = execute('fine')
    case.expect(problem is None, f'{kind}:failed', f'{problem} after {story}')
    local.compare(wanted, before, problem is not None, kind)
    # and once more: nothing to do
    if local.dated and problem is None and not local.log:
        before = {p: (v, os.stat(os.path.join(local.root, p)).st_mtime_ns) for p, v in tree(local.root).items()}
        problem = execute('fine')
        after = {p: (v, os.stat(os.path.join(local.root, p)).st_mtime_ns) for p, v in tree(local.root).items()}
        case.expect(problem is None and before == after, f'{kind}:again', f'{problem}: a second run changed ' +
            ', '.join(p for p in after if after.get(p) != before.get(p)))
    return story


def common(r):
    mode = int(r.choice([0o775, 0o750, 0o700, 0o755]))
    argv = [] if mode == 0o775 and r.random() < 0.5 else ['--mode', f'{mode:o}']
    if r.random() < 0.3:
        argv += ['--timeout', '30']
    return mode, argv


def tar(members, mode, r):
    """members: (name, content or type, time)"""
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode=mode, format=int(r.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT, tarfile.USTAR_FORMAT]))) as t:
        for name, data, when_ in members:
            m = tarfile.TarInfo(name)
            m.mtime = when_
            if data is None:
                m.type, m.mode = tarfile.DIRTYPE, 0o755
                t.addfile(m)
            elif isinstance(data, str):
                m.type, m.linkname = tarfile.SYMTYPE, data
                t.addfile(m)
            else:
                m.size = len(data)
                t.addfile(m, io.BytesIO(data))
    return f.getvalue()


GOT = {'GOT4.8': ('2022-07/got4.8.tar.gz', 'w:gz', 'got4.8', 'grids_oceantide'),
    'GOT4.10': ('2023-12/got4.10c.tar.gz', 'w:gz', 'GOT4.10c', 'grids_loadtide'),
    'GOT5.5': ('2024-07/GOT5.5.tar%201.gz', 'w:gz', 'GOT5.5', 'ocean_tides'),
    'GOT5.5D': ('2024-07/GOT5.5D.tar%201.gz', 'w:gz', 'GOT5.5D', 'ocean_tides'),
    'GOT5.6': ('2024-07/GOT5.6.tar%201.gz', 'w:gz', 'GOT5.6', 'ocean_tides'),
    'RE14': ('2022-07/re14_longperiodtides_rel.tar', 'w', 'RE14_LongPeriodTides_rel', 'oceantides')}


def found(case, kind, root, name, compressed, currents=False):
    """the model class finds what was downloaded"""
    m = pyTMD.io.model(str(root), compressed=compressed)
    ok, _ = case.quietly(f'{kind}:model', m.elevation if not currents else m.current, name)
    case.event('models found')


@check.scenario(quick=90, thorough=1500, floor=45)
def got(case):
    r = case.rng
    s = servers()
    root = pathlib.Path(case.tmp)/'models'
    model = str(r.choice(list(GOT)))
    path, how, top, sub = GOT[model]
    fmt = str(r.choice(['netcdf', 'ascii']))
    gz = bool(r.random() < 0.4)
    mode, argv = common(r)
    argv += ['--directory', root, '--tide', model] + (['--format', fmt] if fmt == 'ascii' or r.random() < 0.5 else []) + (['--gzip'] if gz else [])
    if model in pyTMD.models.elevation:
        db = pyTMD.models.elevation[model]
        files = [f[:-3] if f.endswith('.gz') else f for f in db['model_file']]
    whole = model in ('GOT5.5', 'RE14') and fmt == 'netcdf'
    names = [f'{top}/{sub}/{c}.{x}' for c in r.choice(['m2', 's2', 'k1', 'q1', 'mf', 'S_a', 'l_2x', 'aDS', '2n2load'], int(r.integers(1, 6)), replace=False) for x in ('d', 'nc')]
    if whole:
        names += [f for f in files if f not in names]
    names += [f'{top}/{n}' for n in r.choice(['README.txt', 'doc.pdf', 'check.f', 'a.d/readme', 'no_suffix'], int(r.integers(0, 4)), replace=False)]
    hidden = [f'{top}/.DS_Store', f'{top}/{sub}/._m2.nc', f'{top}/{sub}/._readme', '._' + top]
    state = {n: [blob(r), when(r)] for n in names}
    state.update({n: [b'rubbish', when(r)] for n in hidden if r.random() < 0.5})

    def publish(how_):
        if how_:
            for n in r.choice(sorted(state), 3):
                state[n] = [blob(r), max(T0, state[n][1] + 100*int(r.integers(-500, 5000)))]
        out = {}
        for n, (data, t) in state.items():
            base, sfx = os.path.basename(n), os.path.splitext(n)[1]
            if base.startswith(('._', '.DS')) or sfx == ('.nc' if fmt == 'ascii' else '.d'):
                continue
            out[n + '.gz' if gz and sfx in ('.nc', '.d') else n] = (data, t)
        return out

    def execute(step):
        members = [(top, None, T0)] if r.random() < 0.5 else []
        members += [(n, d, t) for n, (d, t) in state.items()]
        if r.random() < 0.3:
            members.append((f'{top}/link.nc', 'README.txt', T0))
        data = tar(members, how, r)
        s['web'].clear()
        s['web']['/'] = (b'', 'none')
        s['web']['/sites/default/files/' + path] = (data if step != 'corrupt' else data[:len(data)*2//3], 'short' if step == 'short' else 'none')
        if step == 'missing':
            s['web'].pop('/sites/default/files/' + path)
        limit = int(r.integers(1, 8000)) if step in ('limit', 'kill') else None
        return run(case, 'gsfc_got_tides', argv, ('earth.gsfc.nasa.gov',), limit=limit, kill=step == 'kill')

    fault = str(r.choice(['short', 'corrupt' if how == 'w:gz' else 'short', 'missing', 'limit', 'kill', 'limit', 'kill']))
    case.note(model=model, format=fmt, gzip=gz, mode=oct(mode), fault=fault)
    local = Local(case, root, mode)
    story = history(case, local, publish, execute, 'got', fault)
    if whole and not case.found:
        found(case, 'got', root, model, gz)
    case.nontrivial('got', model, fmt, gz, fault, ','.join(story))


ARCTIC = {'AODTM-5': ('10.18739/A2901ZG3N', 'aodtm5_tmd', ['grid_Arc5km', 'h0_Arc5km.oce', 'UV0_Arc5km', 'Model_Arc5km', 'xy_ll_S']),
    'AOTIM-5': ('10.18739/A2S17SS80', 'aotim5_tmd', ['grid_Arc5km', 'h_Arc5km.oce', 'UV_Arc5km', 'Model_Arc5km', 'xy_ll_S']),
    'AOTIM-5-2018': ('10.18739/A21R6N14K', 'Arc5km2018', ['grid_Arc5km2018', 'h_Arc5km2018', 'UV_Arc5km2018', 'Model_Arc5km2018', 'xy_ll_S']),
    'Arc2kmTM': ('10.18739/A2D21RK6K', 'Arc2kmTM', ['grid_Arc2kmTM_v1', 'h_Arc2kmTM_v1', 'UV_Arc2kmTM_v1', 'Model_Arc2kmTM_v1', 'xy_ll_Arc2kmTM_v1']),
    'Gr1kmTM': ('10.18739/A2B853K18', 'Gr1kmTM', ['grid_Gr1kmTM_v1', 'h_Gr1kmTM_v1', 'UV_Gr1kmTM_v1', 'Model_Gr1kmTM_v1', 'xy_ll_Gr1kmTM_v1'])}


@check.scenario(quick=60, thorough=1000, floor=30)
def arctic(case):
    r = case.rng
    s = servers()
    root = pathlib.Path(case.tmp)/'models'
    models = [str(m) for m in r.choice(list(ARCTIC), int(r.integers(1, 3)), replace=False)]
    mode, argv = common(r)
    argv += ['--directory', root, '--tide', *models]
    state = {}
    for m in models:
        doi, sub, files = ARCTIC[m]
        state[m] = {f: blob(r) for f in files}

    def publish(how):
        if how:
            m = models[int(r.integers(len(models)))]
            f = str(r.choice(sorted(state[m])))
            state[m][f] = blob(r)
        return {f"{ARCTIC[m][1]}/{f}": (d, T1) for m in models for f, d in state[m].items()}

    def execute(step):
        s['web'].clear()
        s['web']['/'] = (b'', 'none')
        for i, m in enumerate(models):
            f = io.BytesIO()
            with zipfile.ZipFile(f, 'w', int(r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))) as z:
                for n in ('bagit.txt', 'manifest-md5.txt', 'metadata/resource.rdf'):
                    z.writestr(n, b'about')
                for n, d in state[m].items():
                    z.writestr(('data/' if r.random() < 0.7 else 'data/inner/' if r.random() < 0.5 else '') + n, d)
                z.writestr('data/readme.pdf', b'about')
            data = f.getvalue()
            path = '/metacat/d1/mn/v2/packages/application%2Fbagit-097/resource_map_doi%3A' + ARCTIC[m][0].replace('/', '%2F')
            bad = i == len(models)-1
            if step == 'missing' and bad:
                continue
            s['web'][path] = (data[:len(data)*2//3] if step == 'corrupt' and bad else data, 'short' if step == 'short' and bad else 'none')
        return run(case, 'arcticdata_tides', argv, ('arcticdata.io',))

    fault = str(r.choice(['short', 'corrupt', 'missing']))
    case.note(models=models, mode=oct(mode), fault=fault)
    local = Local(case, root, mode, dated=False)
    story = history(case, local, publish, execute, 'arctic', fault)
    if not case.found:
        for m in models:
            found(case, 'arctic', root, m, False)
            found(case, 'arctic', root, m, False, currents=True)
    case.nontrivial('arctic', len(models), fault, ','.join(story))


AVISO = 'ftp-access.aviso.altimetry.fr'
A, B, C2, D = 'fes1999_fes2004', 'fes2012_heights', 'fes2012_currents', 'fes2014_elevations_and_load'
# (what it needs, path in the archive, compression of the tar or None, keeps its directories)
FES = {'FES1999': [('', f'{A}/readme_fes1999.html', None, 0), ('', f'{A}/fes1999.tar.gz', 'w:gz', 0)],
    'FES2004': [('', f'{A}/readme_fes2004.html', None, 0), ('', f'{A}/fes2004.tar.gz', 'w:gz', 0)],
    'FES2012': [('', f'{B}/readme_fes2012_heights_v1.1', None, 0), ('', f'{B}/fes2012_heights_v1.1.tar.lzma', 'w:xz', 0),
        ('c', f'{C2}/readme_fes2012_currents_v1.1', None, 0)] + [('c', f'{C2}/fes2012_currents_v1.1_block{i}.tar.lzma', 'w:xz', 1) for i in (1, 2, 3, 4)],
    'FES2014': [('', f'{D}/readme_fes2014_elevation_and_load_v1.2.txt', None, 0), ('', f'{D}/fes2014b_elevations/ocean_tide.tar.xz', 'w:xz', 1),
        ('l', f'{D}/fes2014a_loadtide/load_tide.tar.xz', 'w:xz', 1), ('c', 'fes2014a_currents/readme_fes2014_currents_v1.2.txt', None, 0),
        ('c', 'fes2014a_currents/eastward_velocity.tar.xz', 'w:xz', 1), ('c', 'fes2014a_currents/northward_velocity.tar.xz', 'w:xz', 1)],
    'FES2022': [('', 'fes2022b/ocean_tide_20241025', 'list', 1), ('l', 'fes2022b/load_tide', 'list', 1), ('e', 'fes2022b/ocean_tide_extrapolated', 'list', 1)]}


@check.scenario(quick=110, thorough=1800, floor=55)
def fes(case):
    r = case.rng
    s = servers()
    root = pathlib.Path(case.tmp)/'models'
    model = str(r.choice(list(FES) + ['FES2014', 'FES2022', 'FES2022']))
    opts = {k for k in 'lce' if r.random() < 0.45}
    gz = bool(r.random() < 0.4)
    mode, argv = common(r)
    argv += ['--directory', root, '--tide', model] + (['--gzip'] if gz else [])
    argv += [o for k, o in (('l', '--load'), ('c', '--currents'), ('e', '--extrapolated')) if k in opts]
    log = bool(r.random() < 0.3)
    argv += ['--log'] if log else []
    user, password = 'some@one.org', 'p%s word'
    if r.random() < 0.5:
        rc = pathlib.Path(case.tmp)/'netrc'
        password = 'p%sword'
        rc.write_text(f'machine urs.nasa.gov login me password x\nmachine {AVISO} login {user} password {password}\n')
        argv += ['--netrc', rc]
    else:
        argv += ['--netrc', pathlib.Path(case.tmp)/'none', '--user', user, '--password', password]
    model_check = model in ('FES2014', 'FES2022') and r.random() < 0.5
    ext = {'FES1999': '.asc', 'FES2004': '.asc'}.get(model, '.nc')
    # (path in the archive): members with (content, time); the archive's own time
    state = {}
    for need, path, how, keeps in FES[model]:
        cs = [str(c) for c in r.choice(['m2', 's2', 'k1', 'o1', 'mf', '2n2'], int(r.integers(1, 4)), replace=False)]
        stem = path.split('/')[-1].split('.tar')[0]
        if how is None:
            state[path] = [blob(r), when(r)]
        elif how == 'list':
            if model_check:
                cs = {os.path.basename(f).split('_')[0].split('.')[0] for f in pyTMD.models.elevation['FES2022']['model_file']}
            state[path] = {f'{c}_fes2022.nc.xz': [blob(r, 3000 if model_check else 20000), when(r)] for c in cs}
            for f in ('readme.txt', 'grid.nc', 'old.asc', 'other.asc.xz', 'noext'):
                if r.random() < 0.3:
                    state[path][f] = [blob(r), when(r)]
        else:
            if model_check:
                cs = {os.path.basename(f).split('.')[0] for f in pyTMD.models.elevation['FES2014']['model_file']}
            sub = stem if model == 'FES2014' else str(r.choice(['', 'data', 'a/b'])) if not keeps else f'{stem[-6:]}'
            state[path] = {(f'{sub}/' if sub else '') + f'{c}_{stem}{ext}'.replace(f'_{stem}', '' if model == 'FES2014' else f'_{stem}'): [blob(r, 3000 if model_check else 20000), when(r)] for c in cs}
            if r.random() < 0.5:
                state[path][(f'{sub}/' if sub else '') + f'about_{stem}.txt'] = [blob(r), when(r)]
    used = [x for x in FES[model] if x[0] == '' or x[0] in opts]

    def name(n, base):
        return n + '.gz' if gz and os.path.splitext(base)[1] in ('.asc', '.nc') else n

    def publish(how_):
        if how_:
            for _ in range(2):
                path = str(r.choice(sorted(state)))
                step = lambda t: max(T0, t + 100*int(r.integers(-500, 5000)))
                if isinstance(state[path], list):
                    state[path] = [blob(r), step(state[path][1])]
                else:
                    n = str(r.choice(sorted(state[path])))
                    state[path][n] = [blob(r), step(state[path][n][1])]
        out = {}
        for need, path, how, keeps in used:
            if how is None:
                n = path.split('/')[-1]
                out[model.lower() + '/' + name(n, n)] = tuple(state[path])
            elif how == 'list':
                for n, v in state[path].items():
                    n = n[:-3] if n.endswith('.xz') else n
                    out[f'{path}/{name(n, n)}'] = tuple(v)
            else:
                for n, v in state[path].items():
                    n = n if keeps else os.path.basename(n)
                    out[model.lower() + '/' + name(n, n)] = tuple(v)
        return out

    def execute(step):
        s['ftp'].clear()
        s['ftp_log'].clear()
        hit, how = used[int(r.integers(len(used)))][1:3]
        # files that are up to date are not asked for
        local.sure = str(how).startswith('w:') or step == 'gone'
        for need, path, how, keeps in FES[model]:
            full = 'auxiliary/tide_model/' + path
            bad = step if path == hit and step in ('dropped', 'aborted') else None
            if how is None:
                s['ftp'][full] = (state[path][0], state[path][1], bad)
            elif how == 'list':
                for n, (d, t) in state[path].items():
                    d = lzma.compress(d, preset=0) if n.endswith('.xz') else d
                    s['ftp'][f'{full}/{n}'] = (d, t, bad)
            else:
                members = ([(os.path.dirname(n) or 'd', None, T0) for n in state[path]] if r.random() < 0.5 else [])
                members += [(n, d, t) for n, (d, t) in state[path].items()]
                s['ftp'][full] = (tar(members, how, r), T1, bad)
        if step == 'gone':
            for k in [k for k in s['ftp'] if k.startswith('auxiliary/tide_model/' + hit)]:
                s['ftp'].pop(k)
                if '/' in k:
                    s['ftp'][k + '.other'] = (b'', T0, None) if FES[model][0][2] != 'list' else (b'', T0, 'aborted')
        limit = int(r.integers(1, 8000)) if step in ('limit', 'kill') else None
        old = tree(root)
        out = run(case, 'aviso_fes_tides', argv, (AVISO,), limit=limit, kill=step == 'kill')
        if log and out is None and limit is None:
            new = tree(root)
            logs = [p for p in new if p.startswith('AVISO_FES_tides_')]
            if case.expect(len(logs) >= 1, 'fes:log', 'there is no log file'):
                text = new[max(logs)][0].decode()
                case.expect(model in text, 'fes:log', 'without the model')
                for p in new:
                    if p not in logs and new[p] != old.get(p):
                        case.expect(str(root/p) in text, 'fes:log', f'{p} is not in the log')
        case.expect(f'USER {user}' in s['ftp_log'] and f'PASS {password}' in s['ftp_log'], 'fes:credentials', f'{s["ftp_log"][:3]}')
        return out

    fault = str(r.choice(['dropped', 'aborted', 'limit', 'kill'] + (['gone'] if model != 'FES2022' else ['aborted'])))
    case.note(model=model, options=sorted(opts), gzip=gz, mode=oct(mode), fault=fault)
    local = Local(case, root, mode)
    local.log = log
    story = history(case, local, publish, execute, 'fes', fault)
    if model_check and not case.found:
        found(case, 'fes', root, model, gz)
        if 'l' in opts:
            found(case, 'fes', root, model + '_load', gz)
        if 'c' in opts and model == 'FES2014':
            found(case, 'fes', root, model, gz, currents=True)
        if 'e' in opts and model == 'FES2022':
            found(case, 'fes', root, model + '_extrapolated', gz)
    case.nontrivial('fes', model, ''.join(sorted(opts)), gz, fault, ','.join(story))


@check.scenario(quick=60, thorough=800, floor=30)
def box(case):
    r = case.rng
    s = servers()
    root = pathlib.Path(case.tmp)/'models'
    model = str(r.choice(['TPXO9-atlas-v5', 'TPXO9-atlas-v4-nc', 'TPXO9-atlas-nc', 'TPXO9-atlas-v5-nc', 'TPXO10-atlas-v2-nc']))
    db = pyTMD.models.elevation[model]
    want_u = bool(r.random() < 0.5)
    paths = [db['grid_file'], *db['model_file']]
    top = os.path.dirname(db['model_file'][0])
    cur = [f for f in pyTMD.models.current[model]['model_file']['u']]
    mode = int(r.choice([0o775, 0o640, 0o600, 0o644]))
    token, folder = 'T0ken-x', str(int(r.integers(1e6, 1e9)))
    argv = ['--directory', root, '--token', token, '--folder', folder, '--tide', model, '--mode', f'{mode:o}'] + (['--currents'] if want_u else [])
    entries, stamps = [], {}
    for i, p in enumerate(dict.fromkeys(paths + cur + [f'{top}/README.txt', f'{top}/Model.v5', f'{top}/old_h_q1'])):
        data = blob(r, 500)
        put(root, p, data, T0 + i)
        n = os.path.basename(p)
        t = when(r) + int(r.integers(100))
        off = int(r.choice([0, -8, -7, 2, 5.5*1]))*3600 + int(r.choice([0, 1800]))*(r.random() < 0.2)
        sign, o = ('-', -off) if off < 0 else ('+', off)
        text = time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(t + off)) + f'{sign}{o//3600:02d}:{o % 3600//60:02d}'
        if off == 0 and r.random() < 0.3:
            text = text[:-6] + 'Z'
        e = dict(type='file', id=str(1000+i), name=n, sha1=hashlib.sha1(data).hexdigest())
        entries.append(e)
        stamps[p] = t
        s['web'][f'/2.0/files/{e["id"]}'] = (json.dumps(dict(e, modified_at=text)).encode(), 'none')
    entries.append(dict(type='folder', id='7', name='h_older', sha1=''))
    r.shuffle(entries)
    chosen = {p for p in stamps if os.path.basename(p).startswith(('grid', 'h') + (('u',) if want_u else ()))}
    fault = str(r.choice(['fine', 'fine', 'checksum', 'absent' if want_u else 'checksum']))
    hit = None
    if fault == 'checksum':
        hit = str(r.choice(sorted(chosen)))
        put(root, hit, b'damaged', T0 + 7)
    elif fault == 'absent':
        hit = str(r.choice(sorted(chosen & set(cur))))
        (root/hit).unlink()
    s['web']['/2.0/folders/' + folder + '/items'] = (json.dumps(dict(total_count=len(entries), entries=[dict(e) for e in entries])).encode(), 'none')
    s['web']['/'] = (b'', 'none')
    case.note(model=model, currents=want_u, fault=fault, file=hit)
    before = tree(root)
    problem = run(case, 'verify_box_tpxo', argv, ('api.box.com', 'app.box.com'))
    after = tree(root)
    case.expect((problem is None) == (fault == 'fine'), 'box:verdict', f'{fault}: {problem}')
    for p in sorted(set(before) | set(after)):
        if not case.expect(p in before and p in after and before[p][0] == after[p][0], 'box:content', f'{p} is not as it was'):
            continue
        if p == hit or p not in chosen:
            case.expect(before[p] == after[p], 'box:others', f'{p} was changed')
        elif fault == 'fine':
            case.expect(after[p][1] == stamps[p], 'box:time', f'{p}: {after[p][1]} for {stamps[p]}')
            case.expect(after[p][2] == mode, 'box:mode', f'{p}: {after[p][2]:o} for {mode:o}')
        case.event('files compared')
    asked = [h.get('Authorization') for path, h in s['requests'] if path.startswith('/2.0')]
    case.expect(asked and all(a == f'Bearer {token}' for a in asked), 'box:credentials', f'{asked[:3]}')
    case.nontrivial('box', model, want_u, fault)
