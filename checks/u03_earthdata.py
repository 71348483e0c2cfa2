"""U03: logins, tokens and files of servers that ask for an account"""
import base64
import builtins
import getpass
import hashlib
import io
import os
import pathlib
import stat
import string
import urllib.error
import urllib.request
import numpy as np
import pyTMD.utilities as U
from vmon.core import Check
from vmon import earthdata as E

check = Check('U03', 'Accounts are found where documented and shown to the hosts that ask for them',
    'a case counts when the requests that reached the hosts were compared with the account given; key = function, source of the account, outcome',
    ['hosts of our own on the loopback interface, which follow the redirections and cookies of Earthdata Login'])
LETTERS = string.ascii_letters + string.digits
SIGNS = '!@#$%^&*()_-+=[]{};,.<>?/|~` '


def account(r):
    user = ''.join(r.choice(list(LETTERS + '._-'), int(r.integers(3, 14))))
    word = ''.join(r.choice(list(LETTERS + (SIGNS if r.random() < 0.6 else '')), int(r.integers(6, 24))))
    if r.random() < 0.15:
        word += 'é:ß'
    if r.random() < 0.1:
        # a phrase, or a name that is an address
        word += '-'.join(''.join(r.choice(list(LETTERS), 8)) for _ in range(int(r.integers(2, 30))))
        user += '@' + ''.join(r.choice(list(LETTERS), 20)) + '.org'
    return user.strip('.-') or 'someone', word.strip() or 'secret'


def sent(log, host=None):
    """accounts in the requests to a host"""
    out = []
    for cmd, h, path, auth, _ in log:
        if auth and (host is None or h == host):
            out.append(base64.b64decode(auth.partition(' ')[2]).decode())
    return out


class Typed:
    """answers for the prompts, and a record of them"""
    def __init__(self, names, words):
        self.names, self.words, self.asked = list(names), list(words), []

    def __enter__(self):
        self.old = builtins.input, getpass.getpass

        def name(prompt=''):
            self.asked.append(('name', prompt))
            if not self.names:
                raise EOFError('nobody answers')
            return self.names.pop(0)

        def word(prompt='Password: ', stream=None):
            self.asked.append(('word', prompt))
            if not self.words:
                raise EOFError('nobody answers')
            return self.words.pop(0)
        builtins.input, getpass.getpass = name, word
        return self

    def __exit__(self, *args):
        builtins.input, getpass.getpass = self.old


def netrc_line(r, host, user, word):
    sep = '\n\t' if r.random() < 0.3 else ' '
    return f'machine {host}{sep}login {user}{sep}password {word}\n'


def place(case, r, user, word, kinds):
    """put an account in one place: keywords for the call"""
    kw = {}
    kind = str(r.choice(kinds))
    home = case.tmp/'home'
    home.mkdir(exist_ok=True)
    os.environ['HOME'] = str(home)
    rc = home/'.netrc'
    if r.random() < 0.4:
        rc = case.tmp/'other'
        kw['netrc'] = str(rc) if r.random() < 0.6 else rc
    others = ''.join(netrc_line(r, h, 'wrong', 'wrong1') for h in r.permutation(['example.com', 'cddis.nasa.gov', 'urs.earthdata.gov'])[:int(r.integers(0, 3))])
    if kind == 'netrc':
        rc.write_text(others + netrc_line(r, E.URS, user, word) if r.random() < 0.5 else netrc_line(r, E.URS, user, word) + others)
        rc.chmod(int(r.choice([0o600, 0o644])))
    elif others and r.random() < 0.5:
        rc.write_text(others)
        rc.chmod(0o600)
    if kind == 'environment':
        os.environ['EARTHDATA_USERNAME'], os.environ['EARTHDATA_PASSWORD'] = user, word
    elif kind == 'keywords':
        kw.update(username=user, password=word)
        if r.random() < 0.3:
            os.environ['EARTHDATA_USERNAME'], os.environ['EARTHDATA_PASSWORD'] = 'wrong', 'wrong1'
    elif kind == 'word':
        # the password alone is asked for
        kw['username'] = user
    return kind, kw, rc


@check.scenario(quick=160, thorough=2500, floor=100)
def login(case):
    """attempt_login"""
    r = case.rng
    S = E.start()
    S['user'], S['password'] = user, word = account(r)
    S['key'] = ''.join(r.choice(list(LETTERS), 12))
    body = r.bytes(int(r.integers(1, 5000)))
    S['web'] = {('cddis.nasa.gov', '/archive'): b'<html></html>', ('cddis.nasa.gov', '/archive/a/file'): body}
    home = os.environ.get('HOME')
    try:
        with E.connected():
            plain = not set(word) & set(' #"\'\\') and word.isascii()
            kind, kw, rc = place(case, r, user, word, ['environment', 'keywords', 'word', 'nothing'] + (['netrc']*2 if plain else []))
            # the account is refused for some time
            wrong = int(r.integers(0, 5)) if r.random() < 0.35 else 0
            retries = int(r.integers(1, 6)) if r.random() < 0.4 else None
            if retries is not None:
                kw['retries'] = retries
            n = retries or 5
            names, words = [], []
            if kind == 'nothing':
                names, words = [user], [word]
            elif kind == 'word':
                words = [word]
            if wrong:
                # an account that is wrong comes first: the one given is typed after some attempts
                S['user'], S['password'] = 'z' + user, 'z' + word
                names += ['q']*(wrong - 1) + ['z' + user] + ['q']*8
                words += ['w']*(wrong - 1) + ['z' + word] + ['w']*8
            header = bool(r.random() < 0.3)
            if header:
                kw.update(authorization_header=True, password_manager=bool(r.random() < 0.5))
            if r.random() < 0.2:
                kw.update(redirect=bool(r.random() < 0.5))
            case.note(source=kind, retries=retries, wrong=wrong, header=header, keywords=sorted(kw))
            with Typed(names, words) as typed:
                try:
                    opener = U.attempt_login(E.URS, **kw)
                    out = 'in'
                except RuntimeError as e:
                    out = 'refused'
                except Exception as e:
                    out = f'{type(e).__name__}: {e}'
            want = 'in' if wrong < n else 'refused'
            if not case.expect(out == want, 'login:outcome', f'{out} instead of {want}'):
                return
            first = {'nothing': 2, 'word': 1}.get(kind, 0)
            asked = len(typed.asked)
            if out == 'in':
                case.expect(asked == first + 2*wrong, 'login:prompts', f'{asked} prompts instead of {first + 2*wrong}: {typed.asked}')
            else:
                # (whether it asks again before giving up is not said)
                case.expect(first + 2*(n - 1) <= asked <= first + 2*n, 'login:prompts', f'{asked} prompts for {n} attempts')
            case.expect(all(E.URS in p for _, p in typed.asked), 'login:prompt text', str(typed.asked))
            # what the host of the accounts was shown, and in which order
            shown = sent(S['log'], E.URS)
            given = [f'{user}:{word}'] + ['q:w']*8
            if wrong:
                given[wrong] = f'z{user}:z{word}'
            distinct = [k for i, k in enumerate(shown) if i == 0 or shown[i-1] != k]
            tried = [k for i, k in enumerate(given[:(wrong + 1) if out == 'in' else n]) if i == 0 or given[i-1] != k]
            case.expect(distinct == tried, 'login:accounts', f'{distinct} instead of {tried}')
            if not header:
                # the account is for the host of the accounts alone
                other = [k for c, h, p, a, _ in S['log'] if h != E.URS and a for k in [h]]
                case.expect(not other, 'login:others', f'account was shown to {other}')
            if kind == 'netrc':
                case.expect(stat.S_IMODE(rc.stat().st_mode) == 0o600, 'login:netrc mode', oct(rc.stat().st_mode))
            if out == 'in':
                n0 = S['sessions']
                got = opener.open('https://cddis.nasa.gov/archive/a/file').read()
                case.expect(got == body, 'login:content')
                case.expect(S['sessions'] == n0, 'login:session', 'the session was not kept')
                got = urllib.request.urlopen('https://cddis.nasa.gov/archive/a/file').read()
                case.expect(got == body, 'login:installed')
                if not header:
                    # another host that asks for an account is not given this one
                    where = str(r.choice(['ssd.jpl.nasa.gov', 'cddis.nasa.gov']))
                    S['asking'] = {(where, '/private'): str(r.choice(['Please enter your Earthdata Login credentials', 'here']))}
                    S['web'][where, '/private'] = b'secret'
                    n0 = len(S['log'])
                    try:
                        opener.open(f'https://{where}/private').read()
                        got = 'answered'
                    except urllib.error.HTTPError as e:
                        got = e.code
                    case.expect(got == 401 and not sent(S['log'][n0:]), 'login:asking', f'{where} was shown {sent(S["log"][n0:])} and gave {got}')
            case.nontrivial('login', kind, out, wrong, header)
            case.event('requests', len(S['log']))
    finally:
        if home is not None:
            os.environ['HOME'] = home


@check.scenario(quick=120, thorough=2000, floor=80)
def tokens(case):
    """tokens of an account are made, listed and revoked"""
    r = case.rng
    S = E.start()
    S['user'], S['password'] = user, word = account(r)
    S['web'] = {('cddis.nasa.gov', '/archive'): b'<html></html>'}
    token = ''.join(r.choice(list(LETTERS + '-_.'), int(r.integers(20, 200))))
    entry = dict(access_token=token, token_type='Bearer', expiration_date='11/20/2026')
    what = str(r.choice(['get', 'list', 'revoke']))
    path = {'get': '/api/users/token', 'list': '/api/users/tokens', 'revoke': '/api/users/revoke_token'}[what]
    kw = {}
    if r.random() < 0.3:
        path = '/api/v2/' + what
        kw['HOST'] = f'https://{E.URS}{path}'
    S['api'] = {('GET' if what == 'list' else 'POST', path): [entry]*int(r.integers(0, 3)) if what == 'list' else entry if what == 'get' else None}
    fault = None
    if r.random() < 0.3:
        fault = int(r.choice([403, 404, 500, 503]))
        S['fault'] = {path: fault}
    elif r.random() < 0.1:
        fault = 'nobody'
    home = os.environ.get('HOME')
    try:
        with E.connected():
            plain = not set(word) & set(' #"\'\\') and word.isascii()
            kind, k, rc = place(case, r, user, word, ['keywords'] + (['netrc'] if plain else []))
            if 'netrc' in k:
                # another netrc cannot be named here
                if kind == 'netrc':
                    (case.tmp/'home'/'.netrc').write_bytes(rc.read_bytes())
                k.pop('netrc')
            kw.update(k)
            before = bool(r.random() < 0.4)
            if before:
                # the login was made before: nothing is asked
                with Typed([], []):
                    U.attempt_login(E.URS, username=user, password=word, authorization_header=True)
                kw['build'] = False
                kw.pop('username', None), kw.pop('password', None)
            if fault == 'nobody':
                S['hosts'] = {'cddis.nasa.gov'} if before else S['hosts']
                if not before:
                    fault = None
            S['log'].clear()
            case.note(what=what, source=kind, fault=fault, before=before, path=path)
            with Typed([], []):
                try:
                    out = U.get_token(**kw) if what == 'get' else U.list_tokens(**kw) if what == 'list' else U.revoke_token(token, **kw)
                    failed = None
                except RuntimeError as e:
                    failed = e
            asked = [l for l in S['log'] if l[2].startswith('/api/')]
            if fault:
                case.expect(failed is not None, 'tokens:failure', f'{fault} went unnoticed')
            elif case.expect(failed is None, 'tokens:failed', repr(failed)):
                want = S['api']['GET' if what == 'list' else 'POST', path]
                case.expect(out == want, 'tokens:answer', f'{out} instead of {want}')
            if fault != 'nobody':
                case.expect(len(asked) == 1, 'tokens:requests', str(asked))
                for cmd, host, p, auth, _ in asked:
                    case.expect(cmd == ('GET' if what == 'list' else 'POST'), 'tokens:method', cmd)
                    case.expect(p == path + (f'?token={token}' if what == 'revoke' else ''), 'tokens:path', p)
                case.expect(set(sent(asked)) == {f'{user}:{word}'}, 'tokens:account', str(sent(asked)))
            case.nontrivial(what, kind, str(fault), before)
    finally:
        if home is not None:
            os.environ['HOME'] = home


@check.scenario(quick=120, thorough=2000, floor=80)
def archive(case):
    """files and listings of an archive that asks for an account"""
    r = case.rng
    S = E.start()
    S['user'], S['password'] = user, word = account(r)
    body = r.bytes(int(r.integers(0, 60000)))
    name = ''.join(r.choice(list(LETTERS), 6)) + '.data'
    path = '/archive/products/' + name
    entries = [''.join(r.choice(list(LETTERS), 5)) + e for e in ('.a', '.b', '.Z')]
    dirs = ['iers', 'gnss']
    page = '<html><body>' + ''.join(f'<div class="archiveDir"><div class="archiveDirTextContainer"><a class="archiveDirText">{d}</a></div></div>' for d in dirs) \
        + ''.join(f'<div class="archiveItem"><div class="archiveItemTextContainer"><a class="archiveItemText">{e}</a><span class="fileInfo">2021:0{i+1}:05 10:20:3{i} {i}KB</span></div></div>' for i, e in enumerate(entries)) + '</body></html>'
    S['web'] = {('cddis.nasa.gov', '/archive'): b'<html></html>', ('cddis.nasa.gov', path): body, ('cddis.nasa.gov', '/archive/products'): page.encode()}
    missing = bool(r.random() < 0.15)
    home = os.environ.get('HOME')
    try:
        with E.connected():
            plain = not set(word) & set(' #"\'\\') and word.isascii()
            kind, kw, rc = place(case, r, user, word, ['keywords'] + (['netrc'] if plain else []))
            if kw.pop('netrc', None) and kind == 'netrc':
                (case.tmp/'home'/'.netrc').write_bytes(rc.read_bytes())
            if kind == 'netrc':
                (case.tmp/'home'/'.netrc').chmod(0o600)
            listing = bool(r.random() < 0.4)
            right = bool(r.random() < 0.8)
            if not right:
                S['password'] = 'other' + word
            local = case.tmp/'into'/'here'/name
            case.note(source=kind, listing=listing, right=right, missing=missing)
            host = 'https://cddis.nasa.gov' + ('/archive/products' if listing else path)
            if missing:
                host += 'zz'
            if r.random() < 0.5:
                host = ['https://cddis.nasa.gov'] + host.split('/')[3:]
            if not listing:
                kw['local'] = local if r.random() < 0.5 else str(local)
            try:
                out = U.cddis_list(host, sort=True, **kw) if listing else U.from_cddis(host, **kw)
                failed = None
            except Exception as e:
                failed = e
            if missing or not right:
                case.expect(failed is not None, 'archive:failure', 'went unnoticed')
                case.expect(listing or not local.exists(), 'archive:left', 'a file was made')
            elif case.expect(failed is None, 'archive:failed', repr(failed)):
                if listing:
                    t = {e: 1609841*0 + np.datetime64(f'2021-0{i+1}-05T10:20:3{i}').astype('datetime64[s]').astype(float) for i, e in enumerate(entries)}
                    want = sorted(dirs + entries)
                    case.expect(list(out[0]) == want and [t.get(k) for k in want] == list(out[1]), 'archive:listing', f'{out} for {want}')
                else:
                    case.expect(out.read() == body, 'archive:content')
                    case.expect(local.exists() and local.read_bytes() == body, 'archive:file')
            # the account in every request that has one
            case.expect(set(sent(S['log'], E.URS)) <= {f'{user}:{word}'} and sent(S['log'], E.URS), 'archive:account', str(set(sent(S['log']))))
            case.nontrivial('list' if listing else 'file', kind, right, missing)
    finally:
        if home is not None:
            os.environ['HOME'] = home


@check.scenario(quick=60, thorough=800, floor=40)
def kernels(case):
    """ephemerides of the JPL, and answers in JSON"""
    r = case.rng
    S = E.start()
    with E.connected():
        if r.random() < 0.5:
            kernel = f"de{int(r.integers(400, 450))}{'' if r.random() < 0.5 else 's'}.bsp"
            if r.random() < 0.3:
                kernel = kernel.replace('de', str(r.choice(['DE', 'mar', 'L'])))
            body = r.bytes(int(r.integers(1, 50000)))
            there = r.random() < 0.8
            S['web'] = {('ssd.jpl.nasa.gov', '/ftp/eph/planets/bsp/' + kernel): body} if there else {}
            local = case.tmp/'a'/'b'/(kernel if r.random() < 0.5 else kernel + 'x')
            kw = dict(local=local if r.random() < 0.6 else str(local))
            if local.name == kernel and r.random() < 0.6:
                kw['kernel'] = None
            else:
                kw['kernel'] = kernel
            mode = int(r.choice([0o644, 0o640, 0o775]))
            kw['mode'] = mode
            old = None
            if there and r.random() < 0.4:
                local.parent.mkdir(parents=True)
                old = body if r.random() < 0.5 else b'older'
                local.write_bytes(old)
                os.utime(local, (1e9, 1e9))
                kw['hash'] = hashlib.md5(old).hexdigest()
            case.note(kernel=kernel, there=bool(there), old=None if old is None else len(old))
            try:
                U.from_jpl_ssd(**kw)
                failed = None
            except Exception as e:
                failed = e
            case.expect((failed is None) == bool(there), 'kernels:outcome', repr(failed))
            if there:
                case.expect(local.exists() and local.read_bytes() == body, 'kernels:content')
                if old == body:
                    case.expect(local.stat().st_mtime == 1e9, 'kernels:again', 'a file that was the same was written')
                else:
                    case.expect(stat.S_IMODE(local.stat().st_mode) == mode, 'kernels:mode')
            else:
                case.expect(not local.exists(), 'kernels:left')
            case.nontrivial('kernel', bool(there), old is None, kw['kernel'] is None)
        else:
            def value(d=0):
                k = int(r.integers(0, 6 if d < 3 else 4))
                return [None, bool(r.random() < 0.5), float(np.round(r.normal(), 6)), 'é' + str(r.integers(99)), None, None][k] if k < 4 else \
                    [value(d+1) for _ in range(int(r.integers(0, 4)))] if k == 4 else {f'k{i}': value(d+1) for i in range(int(r.integers(0, 4)))}
            import json
            v = {'top': value()}
            fault = int(r.choice([404, 500])) if r.random() < 0.3 else None
            S['web'] = {('ssd.jpl.nasa.gov', '/api/some.json'): json.dumps(v, ensure_ascii=bool(r.random() < 0.5)).encode()}
            S['fault'] = {'/api/some.json': fault} if fault else {}
            nobody = r.random() < 0.1
            host = 'https://' + ('nowhere.org' if nobody else 'ssd.jpl.nasa.gov') + '/api/some.json'
            if r.random() < 0.5:
                host = [host[:host.index('/api')], 'api', 'some.json']
            case.note(fault=fault, nobody=bool(nobody))
            try:
                out, failed = U.from_json(host), None
            except Exception as e:
                out, failed = None, e
            if nobody or fault:
                case.expect(failed is not None and (nobody or isinstance(failed, RuntimeError)), 'json:failure', repr(failed))
            elif case.expect(failed is None, 'json:failed', repr(failed)):
                case.expect(out == v, 'json:value', f'{out} instead of {v}')
                case.expect(any('application/json' in (l[4] or '') for l in S['log']), 'json:accept')
            case.nontrivial('json', str(fault), bool(nobody))
