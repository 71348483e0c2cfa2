"""U02: downloads, listings, checksums and dates of the utilities"""
import calendar
import contextlib
import ftplib
import hashlib
import io
import json
import os
import pathlib
import posixpath
import socket
import threading
import time
import datetime
import logging
import numpy as np
import pyTMD.utilities as ut
from vmon.core import Check
from vmon.servers import SRV, servers

check = Check('U02', 'Files and listings arrive complete and as they are on the server',
    'a case counts when what was returned or stored was compared with what the server holds; key = protocol, options, fault',
    ['servers of our own on the loopback interface'])

def blob(r):
    n = int(r.choice([0, 1, 100, 16384, 16385, 40000, int(r.integers(0, 60000))]))
    return r.integers(0, 256, n, dtype=np.uint8).tobytes()


def names(r, n):
    a = 'abcdefghijklmnopqrstuvwxyz0123456789'
    return sorted({''.join(r.choice(list(a), int(r.integers(1, 9)))) + str(r.choice(['.nc', '.d', '.gz', '.txt', '', '.tar.gz'])) for _ in range(n)})


def destination(case, r, data, fault):
    """(path given, path meant, what is there before)"""
    d = pathlib.Path(case.tmp)
    k = int(r.integers(0, 4))
    p = d.joinpath('new', 'deep', 'file') if k == 0 else d.joinpath('file')
    old = None
    if k == 1:
        old = b'older data'
    elif k == 2:
        old = data
    if old is not None:
        p.write_bytes(old)
        os.utime(p, (1e9, 1e9))
    given = str(p) if r.random() < 0.5 else p
    if r.random() < 0.2:
        # from the home directory, which is here
        given = type(given)('~/' + str(p.relative_to(d)))
    return given, p, old


@contextlib.contextmanager
def home(path):
    keep = os.environ.get('HOME')
    os.environ['HOME'] = str(path)
    try:
        yield
    finally:
        os.environ.pop('HOME') if keep is None else os.environ.update(HOME=keep)


def directory_mode(mode):
    m = os.umask(0)
    os.umask(m)
    return mode & ~m


@check.scenario(quick=300, thorough=4000, floor=150)
def http_download(case):
    with home(case.tmp):
        _http_download(case)


def _http_download(case):
    r = case.rng
    s = servers()
    data = blob(r)
    fault = str(r.choice(['none', 'none', 'none', 'chunked', 'unsized', 'short', 'broken-chunk', 'missing']))
    if fault == 'short' and len(data) < 2:
        fault = 'none'
    parts = names(r, int(r.integers(1, 4)))
    path = '/' + '/'.join(parts)
    if fault != 'missing':
        s['web'][path] = (data, fault)
    base = f'http://127.0.0.1:{SRV["web"]}'
    HOST = [base, *parts] if r.random() < 0.6 else base + path
    kw = {}
    if r.random() < 0.4:
        kw['chunk'] = int(r.choice([1, 100, 5000, 1 << 20])) if len(data) < 2000 else int(r.choice([5000, 1 << 20]))
    given, p, old = destination(case, r, data, fault)
    store = r.random() < 0.75
    if store:
        kw['local'] = given
        h = r.random()
        if h < 0.4:
            kw['hash'] = ut.get_hash(given)
        elif h < 0.5:
            kw['hash'] = 'f'*32
        if r.random() < 0.4:
            kw['mode'] = int(r.choice([0o600, 0o640, 0o775, 0o700]))
    if r.random() < 0.2:
        kw['timeout'] = 30
    cddis = r.random() < 0.3
    case.note(host=HOST, fault=fault, size=len(data), cddis=cddis, old=None if old is None else len(old), **{k: str(v) for k, v in kw.items()})
    if cddis:
        user, pw = 'user', 'pass:word'
        call = lambda: ut.from_cddis(HOST, username=user, password=pw, build=False, **kw)
    else:
        call = lambda: ut.from_http(HOST, **kw)
    bad = fault in ('short', 'broken-chunk', 'missing')
    before = p.stat() if p.exists() else None
    if bad:
        case.raises(Exception, 'download:fault', call)
        case.expect((p.read_bytes() if p.exists() else None) == old, 'download:partial', f'{fault} changed the local file')
    else:
        ok, g = case.quietly('download', call)
        if not ok:
            return
        case.expect(g.getvalue() == data and g.tell() == 0 and g.read() == data, 'download:content', f'{len(g.getvalue())} of {len(data)} bytes')
        case.expect(g.filename == parts[-1], 'download:filename', g.filename)
        md5 = hashlib.md5(data).hexdigest()
        if store and kw.get('hash', '') != md5:
            if case.expect(p.exists(), 'download:stored'):
                case.expect(p.read_bytes() == data, 'download:stored')
                case.expect((p.stat().st_mode & 0o777) == kw.get('mode', 0o775), 'download:mode', oct(p.stat().st_mode))
                if 'deep' in p.parts:
                    # the directory made for it is no more open than the file
                    want = directory_mode(kw.get('mode', 0o775))
                    case.expect((p.parent.stat().st_mode & 0o777) == want, 'download:directory', f'{oct(p.parent.stat().st_mode)} {oct(want)}')
        elif old is not None:
            case.expect(p.read_bytes() == old and p.stat().st_mtime == before.st_mtime, 'download:untouched')
        else:
            case.expect(not p.exists(), 'download:untouched')
    req = s['requests']
    if case.expect(len(req) == 1 and req[0][0] == path, 'download:request', f'{req}'):
        auth = req[0][1].get('Authorization')
        if cddis:
            import base64
            case.expect(auth == 'Basic ' + base64.b64encode(b'user:pass:word').decode(), 'download:credentials')
        else:
            case.expect(auth is None, 'download:credentials', 'credentials were sent')
    case.nontrivial('http', fault, store, cddis, 'hash' in kw, old is not None)


def listing(r, style):
    """a page as the servers write it, and what it holds"""
    n = int(r.integers(0, 12))
    files = names(r, n)
    r.shuffle(files)
    t = [int(x)//60*60 for x in r.integers(0, 1.7e9, len(files))]
    if style == 'apache':
        rows = ['<tr><th valign="top">x</th><th><a href="?C=N;O=D">Name</a></th><th><a href="?C=M;O=A">Last modified</a></th></tr>',
            '<tr><th colspan="5"><hr></th></tr>']
        out = []
        if r.random() < 0.5:
            rows.append('<tr><td valign="top"><img src="/back.gif"></td><td><a href="/up/">Parent Directory</a></td><td>&nbsp;</td>'
                '<td align="right">  - </td><td>&nbsp;</td></tr>')
            rows[-1] = rows[-1].replace('<td>&nbsp;</td><td align="right">  - </td>', '<td align="right">  </td><td align="right">  - </td>')
            out.append(('/up/', None))
        for f, m in zip(files, t):
            d = time.strftime('%Y-%m-%d %H:%M', time.gmtime(m))
            rows.append(f'<tr><td valign="top"><img src="/x.gif"></td><td><a href="{f}">{f}</a></td><td align="right">{d}  </td>'
                f'<td align="right">12K</td><td>&nbsp;</td></tr>')
            out.append((f, m))
        page = '<html><body><table>' + '\n'.join(rows) + '</table></body></html>'
    elif style == 'cddis':
        dirs = names(r, int(r.integers(0, 4)))
        page = '<html><body>' + ''.join(f'<div class="archiveDir"><div class="archiveDirTextContainer"><a href="{d}">{d}</a></div></div>' for d in dirs)
        out = [(d, None) for d in dirs]
        for f, m in zip(files, t):
            d = time.strftime('%Y:%m:%d %H:%M:%S', time.gmtime(m))
            page += (f'<div class="archiveItem"><div class="archiveItemTextContainer"><a class="archiveItemText" href="{f}">{f}</a>'
                f'<span class="fileInfo">{d}&nbsp;&nbsp;1234KB</span></div></div>')
            out.append((f, m))
        page += '</body></html>'
    elif style == 'iers':
        out, rows = [], []
        for f, m in zip(files, t):
            m = m//86400*86400
            d = time.strftime('%Y-%m-%d', time.gmtime(m))
            rows.append(f'<tr><td class="$tdclass">{f}</td><td class="$tdclass"><span>{d}</span></td><td class="$tdclass">v</td>'
                f'<td class="$tdclass"><a href="{f}">x</a></td></tr>')
            out.append((f, m))
        page = '<html><body><table>' + ''.join(rows) + '</table></body></html>'
        out = out[::-1]
    else:
        page = '<html><body><pre>' + ''.join(f'<a href="{f}">{f}</a>   x\n' for f in files) + '</pre></body></html>'
        out = [(f, None) for f in files]
    return page.encode(), out


@check.scenario(quick=300, thorough=4000, floor=150)
def http_listing(case):
    import re
    r = case.rng
    s = servers()
    style = str(r.choice(['apache', 'cddis', 'iers', 'uhslc']))
    page, items = listing(r, style)
    s['web']['/data/set'] = (page, 'none')
    base = f'http://127.0.0.1:{SRV["web"]}'
    found = r.random() < 0.9
    HOST = [base, 'data', 'set' if found else 'none']
    if r.random() < 0.5:
        HOST = posixpath.join(*HOST)
    kw = {}
    if style != 'iers':
        if r.random() < 0.5:
            kw['pattern'] = str(r.choice([r'\.nc$', 'a', '^[a-m]', 'zzzz', r'\.(d|gz)$', '']))
        if r.random() < 0.5:
            kw['sort'] = bool(r.random() < 0.8)
    case.note(style=style, items=items, **kw)
    fn = dict(apache=ut.http_list, cddis=ut.cddis_list, iers=ut.iers_list, uhslc=ut.uhslc_list)[style]
    if style == 'cddis':
        kw.update(build=False, username='u', password='p')
    if not found:
        case.raises(Exception, 'listing:missing', fn, HOST, **kw)
        return
    # the answer does not depend on where we are
    zone = str(r.choice(['UTC', 'America/Los_Angeles', 'Asia/Tokyo']))
    keep = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        ok, g = case.quietly('listing', fn, HOST, **kw)
    finally:
        os.environ.pop('TZ') if keep is None else os.environ.update(TZ=keep)
        time.tzset()
    if not ok:
        return
    if kw.get('pattern'):
        items = [i for i in items if re.search(kw['pattern'], i[0])]
    if kw.get('sort'):
        items = sorted(items, key=lambda i: i[0])
    got = [(n, None) for n in g] if style == 'uhslc' else list(zip(*g))
    if style != 'uhslc':
        case.expect(len(g[0]) == len(g[1]) == len(items), 'listing:length', f'{len(g[0])} {len(g[1])} {len(items)}')
    case.expect([(str(a), b) for a, b in got] == items, 'listing', f'{got} {items}')
    case.nontrivial('listing', style, kw.get('pattern'), kw.get('sort'), len(items) > 0)


@check.scenario(quick=200, thorough=3000, floor=100)
def ftp(case):
    with home(case.tmp):
        _ftp(case)


def _ftp(case):
    import re
    r = case.rng
    s = servers()
    s['user'] = bool(r.random() < 0.5)
    port, ftplib.FTP.port = ftplib.FTP.port, SRV['ftp']
    try:
        data = blob(r)
        when = int(r.integers(0, 1.7e9))
        parts = names(r, int(r.integers(1, 4)))
        fault = [None, None, None, 'dropped', 'aborted', 'missing'][int(r.integers(0, 6))]
        path = posixpath.join(*parts)
        if fault != 'missing':
            s['ftp'][path] = (data, when, fault)
        HOST = ['127.0.0.1', *parts] if r.random() < 0.7 else '/127.0.0.1/' + path
        if isinstance(HOST, str) and len(parts) < 1:
            HOST = ['127.0.0.1', *parts]
        kw = {}
        given, p, old = destination(case, r, data, fault)
        store = r.random() < 0.75
        if store:
            kw['local'] = given
            h = r.random()
            if h < 0.4:
                kw['hash'] = ut.get_hash(given)
            elif h < 0.5:
                kw['hash'] = 'f'*32
            if r.random() < 0.4:
                kw['mode'] = int(r.choice([0o600, 0o640, 0o775, 0o700]))
        if r.random() < 0.3:
            kw.update(username='me', password='secret')
        kw['timeout'] = 30
        case.note(host=HOST, fault=fault, size=len(data), when=when, old=None if old is None else len(old), **{k: str(v) for k, v in kw.items()})
        before = p.stat() if p.exists() else None
        if fault:
            case.raises(Exception, 'ftp:fault', ut.from_ftp, HOST, **kw)
            case.expect((p.read_bytes() if p.exists() else None) == old, 'ftp:partial')
        else:
            ok, g = case.quietly('ftp', ut.from_ftp, HOST, **kw)
            if not ok:
                return
            case.expect(g.getvalue() == data and g.tell() == 0 and g.filename == parts[-1], 'ftp:content')
            if store and kw.get('hash', '') != hashlib.md5(data).hexdigest():
                if case.expect(p.exists(), 'ftp:stored'):
                    st = p.stat()
                    case.expect(p.read_bytes() == data, 'ftp:stored')
                    case.expect(st.st_mtime == when, 'ftp:time', f'{st.st_mtime} {when}')
                    case.expect((st.st_mode & 0o777) == kw.get('mode', 0o775), 'ftp:mode', oct(st.st_mode))
                    if 'deep' in p.parts:
                        want = directory_mode(kw.get('mode', 0o775))
                        case.expect((p.parent.stat().st_mode & 0o777) == want, 'ftp:directory', f'{oct(p.parent.stat().st_mode)} {oct(want)}')
            elif old is not None:
                case.expect(p.read_bytes() == old and p.stat().st_mtime == before.st_mtime, 'ftp:untouched')
            else:
                case.expect(not p.exists(), 'ftp:untouched')
        if 'username' in kw:
            case.expect('USER me' in s['ftp_log'], 'ftp:credentials')
        # a directory, in which subdirectories have no times
        files = names(r, int(r.integers(0, 10)))
        r.shuffle(files)
        s['ftp_dir'] = {f: None if r.random() < 0.2 else int(r.integers(0, 1.7e9)) for f in files}
        kw = dict(timeout=30)
        if r.random() < 0.5:
            kw['basename'] = True
        if r.random() < 0.5:
            kw['pattern'] = str(r.choice([r'\.nc$', 'a', 'zzzz', r'\.(d|gz)$']))
        if r.random() < 0.5:
            kw['sort'] = True
        ok, g = case.quietly('ftp-list', ut.ftp_list, ['127.0.0.1', 'pub', 'x'], **kw)
        if ok:
            items = [(f if kw.get('basename') else f'pub/x/{f}', t) for f, t in s['ftp_dir'].items()]
            if kw.get('pattern'):
                items = [i for i in items if re.search(kw['pattern'], i[0])]
            if kw.get('sort'):
                items = sorted(items, key=lambda i: i[0])
            case.expect(list(zip(*g)) == items and len(g[0]) == len(g[1]), 'ftp-list', f'{g} {items}')
        ok, g = case.quietly('ftp-check', ut.check_ftp_connection, '127.0.0.1', 'me', 'secret')
        if ok:
            case.expect(g is True, 'ftp-check')
        case.nontrivial('ftp', fault, store, 'hash' in kw, len(files) > 0)
    finally:
        ftplib.FTP.port = port


@check.scenario(quick=500, thorough=10000, floor=250)
def helpers(case):
    r = case.rng
    # checksums
    data = blob(r)
    if r.random() < 0.06:
        # longer than any buffer
        data = r.integers(0, 256, 4096, dtype='u1').tobytes()*int(r.integers(1, 1500)) + data
    d = pathlib.Path(case.tmp)
    p = d.joinpath('file.bin')
    p.write_bytes(data)
    alg = str(r.choice(['md5', 'sha1', 'sha256', 'sha512']))
    kw = {} if alg == 'md5' and r.random() < 0.5 else dict(algorithm=alg)
    want = hashlib.new(alg, data).hexdigest()
    bio = io.BytesIO(data)
    bio.seek(int(r.integers(0, len(data)+1)))
    for src in (p, str(p), bio):
        case.expect(ut.get_hash(src, **kw) == want, 'hash', str(type(src)))
    case.expect(ut.get_hash(d.joinpath('absent'), **kw) == '', 'hash:absent')
    case.raises(ValueError, 'hash:algorithm', ut.get_hash, p, algorithm='none')
    case.raises(ValueError, 'hash:algorithm', ut.get_hash, bio, algorithm='none')
    # copies keep the content, the time and the permissions
    mode, when = int(r.choice([0o600, 0o644, 0o755])), int(r.integers(1, 1.7e9))
    p.chmod(mode)
    os.utime(p, (when, when))
    q = d.joinpath('copy.bin')
    if r.random() < 0.4:
        q.write_bytes(b'x'*100000)
    move = bool(r.random() < 0.5)
    ok, _ = case.quietly('copy', ut.copy, *(str(v) if r.random() < 0.5 else v for v in (p, q)), **(dict(move=move) if move or r.random() < 0.5 else {}))
    if ok:
        st = q.stat()
        case.expect(q.read_bytes() == data and st.st_mtime == when and (st.st_mode & 0o777) == mode, 'copy')
        case.expect(p.exists() != move, 'copy:move')
    # paths and urls
    parts = names(r, int(r.integers(1, 5)))
    scheme = str(r.choice(['http://', 'https://', 'ftp://', 's3://', '', '/']))
    url = scheme + '/'.join(['host.org', *parts])
    ok, g = case.quietly('url', ut.url_split, url)
    if ok:
        first = scheme + 'host.org' if scheme not in ('', '/') else 'host.org'
        case.expect(tuple(g) == (first, *parts), 'url', f'{url} {g}')
    # command line files
    toks = names(r, int(r.integers(0, 5)))
    line = str(r.choice([' ', '  ', '\t'])).join(toks) + str(r.choice(['', '  ', '\n', ' # a comment', '# one #two']))
    ok, g = case.quietly('arguments', lambda: list(ut.convert_arg_line_to_args(line)))
    if ok:
        case.expect(g == toks, 'arguments', f'{line!r} {g}')
    # numerals
    v = int(r.integers(1, 4000))
    rom, w = '', v
    for a, b in zip((1000, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1), 'M CM D CD C XC L XL X IX V IV I'.split()):
        rom += b*(w//a)
        w %= a
    case.expect(ut.roman_to_int(rom) == v and ut.roman_to_int(rom.lower()) == v, 'roman', rom)
    f = float(r.choice([r.uniform(-1e6, 1e6), float(r.integers(-50, 50)), r.integers(-50, 50) + 0.5]))
    case.expect(ut.ceil(f) == int(np.ceil(f)), 'ceil', str(f))
    case.expect(ut.even(f) == 2*int(np.floor(f/2)), 'even', str(f))
    # dates, wherever we are
    t = int(r.integers(-1e9, 4e9))
    dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    zone = str(r.choice(['UTC', 'America/Los_Angeles', 'Asia/Tokyo']))
    keep = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        for fmt in ('%Y-%m-%d %H:%M:%S', '%Y%m%d%H%M%S', '%Y:%m:%d %H:%M:%S'):
            case.expect(ut.get_unix_time(dt.strftime(fmt) + ' ', format=fmt) == t, 'date', f'{dt} {fmt}')
        case.expect(ut.get_unix_time(dt.strftime('%Y-%m-%d %H:%M:%S')) == t, 'date')
        # dates with an offset in their format
        off = int(r.integers(-47, 48))*900
        there = dt.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(seconds=off)))
        text = there.strftime('%Y-%m-%dT%H:%M:%S%z')
        case.expect(ut.get_unix_time(text, format='%Y-%m-%dT%H:%M:%S%z') == t, 'date:offset', f'{text} in {zone}')
        for text in (dt.isoformat(), dt.isoformat() + 'Z', dt.strftime('%b %d %Y %H:%M:%S'),
                dt.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(hours=5))).isoformat()):
            case.expect(ut.get_unix_time(text) == t, 'date:zone', f'{text} in {zone}: {ut.get_unix_time(text)} is not {t}')
            case.expect(ut.isoformat(text)[:19] == text[:19] or ' ' in text, 'isoformat', text)
        case.expect(ut.isoformat(dt.strftime('%d %b %Y %H:%M:%S')) == dt.isoformat(), 'isoformat', f'{dt}')
    finally:
        os.environ.pop('TZ') if keep is None else os.environ.update(TZ=keep)
        time.tzset()
    for junk in ('', 'not a date', None and '', 'xx:yy'):
        if junk is not None:
            case.expect(ut.get_unix_time(junk) is None and ut.isoformat(junk) is None, 'date:invalid', repr(junk))
    # a logger can be asked for again, with another level
    if hasattr(ut, 'build_logger'):
        name = f'vmon-{case.index}-{int(r.integers(0, 1 << 30))}'
        out = io.StringIO()
        said = []
        off = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        for k in range(int(r.integers(1, 4))):
            level = int(r.choice([logging.DEBUG, logging.INFO, logging.ERROR, logging.CRITICAL]))
            fmt = dict(format='%(message)s')
            log = ut.build_logger(name, level=level, stream=out, **fmt)
            for word, at in (('debug', logging.DEBUG), ('info', logging.INFO), ('error', logging.ERROR), ('critical', logging.CRITICAL)):
                log.log(at, f'{word}{k}')
                if at >= level:
                    said.append(f'{word}{k}')
        logging.disable(off)
        case.expect(out.getvalue().split() == said, 'logger', f'{out.getvalue().split()} is not {said}')
        logging.Logger.manager.loggerDict.pop(name, None)
    rel = ['data', 'doodson.json']
    for q in (rel, posixpath.join(*rel), pathlib.Path(*rel)):
        g = ut.get_data_path(q)
        case.expect(g.is_absolute() and g == pathlib.Path(ut.__file__).absolute().parent.joinpath(*rel), 'data-path')
    calls = []
    class Thing:
        @ut.reify
        def value(self):
            calls.append(1)
            return object()
    a, b = Thing(), Thing()
    case.expect(a.value is a.value and a.value is not b.value and len(calls) == 2, 'reify')
    case.expect(ut.import_dependency('json') is json, 'import')
    case.raises(ImportError, 'import', ut.import_dependency, 'no_such_module_at_all', raise_exception=True)
    case.nontrivial('helpers', alg, zone, move, scheme)
