"""NASA Earthdata as seen from a client: hosts of our own that ask for a login, with a log of what they were sent

every https connection is made in the clear to one server on the loopback interface, which tells the hosts apart
by the header of the request; nothing else can be reached
"""
import base64
import contextlib
import http.client
import http.server
import json
import os
import socket
import threading
import urllib.parse
import urllib.request

URS = 'urs.earthdata.nasa.gov'
STATE = {}


class Hosts(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *args):
        pass

    def answer(self, code, body=b'', **headers):
        self.send_response(code)
        for k, v in headers.items():
            for i in v if isinstance(v, list) else [v]:
                self.send_header(k.replace('_', '-'), i)
        self.send_header('Content-Length', str(len(body)))
        self.send_header('Connection', 'close')
        self.end_headers()
        self.wfile.write(body)
        self.close_connection = True

    def allowed(self):
        given = self.headers.get('Authorization', '')
        return given.startswith('Basic ') and base64.b64decode(given[6:]) == f"{STATE['user']}:{STATE['password']}".encode()

    def do_GET(self):
        host = self.headers.get('Host', '').split(':')[0]
        STATE['log'].append((self.command, host, self.path, self.headers.get('Authorization'), self.headers.get('Accept')))
        url = urllib.parse.urlsplit(self.path)
        query = urllib.parse.parse_qs(url.query)
        fault = STATE['fault'].get(url.path) or STATE['fault'].get(host)
        if fault:
            return self.answer(fault, b'no')
        if host == URS and url.path.startswith('/api/'):
            if not self.allowed():
                return self.answer(401, b'{}')
            return self.answer(200, json.dumps(STATE['api'].get((self.command, url.path))).encode()) if (self.command, url.path) in STATE['api'] else self.answer(405)
        if host == URS and url.path == '/oauth/authorize':
            if not self.allowed():
                return self.answer(401, b'login', WWW_Authenticate='Basic realm="Please enter your Earthdata Login credentials"')
            return self.answer(302, Location=f"https://{query['host'][0]}/login?code=good&to={urllib.parse.quote(query['to'][0])}")
        if host in STATE['protected']:
            if url.path == '/login' and query.get('code') == ['good']:
                STATE['sessions'] += 1
                return self.answer(302, Location=f"https://{host}{query['to'][0]}", Set_Cookie=f"session={STATE['key']}; Path=/")
            if f"session={STATE['key']}" not in self.headers.get('Cookie', ''):
                return self.answer(302, Location=f'https://{URS}/oauth/authorize?host={host}&to={urllib.parse.quote(url.path)}')
        if (host, url.path) in STATE['asking'] and not self.headers.get('Authorization'):
            # a host that is not the one of the accounts, and asks for one
            return self.answer(401, b'who', WWW_Authenticate=f'Basic realm="{STATE["asking"][host, url.path]}"')
        body = STATE['web'].get((host, url.path))
        if body is None:
            return self.answer(404)
        return self.answer(200, body, Content_Type='text/html')

    do_POST = do_GET


def start():
    if STATE.get('pid') != os.getpid():
        STATE.clear()
        s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Hosts)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=0.5), daemon=True).start()
        STATE.update(pid=os.getpid(), port=s.server_address[1])
    STATE.update(log=[], fault={}, api={}, web={}, asking={}, protected={'cddis.nasa.gov'}, sessions=0, key='k', user='', password='', hosts={URS, 'cddis.nasa.gov', 'ssd.jpl.nasa.gov'})
    return STATE


@contextlib.contextmanager
def connected():
    """https goes to the hosts above and nowhere else"""
    connect = http.client.HTTPSConnection.connect
    opener = urllib.request._opener

    def plain(self):
        if self.host not in STATE['hosts']:
            raise OSError(f'{self.host} is not one of the hosts')
        self.sock = socket.create_connection(('127.0.0.1', STATE['port']), 20)
    http.client.HTTPSConnection.connect = plain
    urllib.request._opener = None
    keep = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith('_proxy') or k.startswith('EARTHDATA_')}
    os.environ['no_proxy'] = '*'
    try:
        yield
    finally:
        http.client.HTTPSConnection.connect = connect
        urllib.request._opener = opener
        for k in [k for k in os.environ if k.startswith('EARTHDATA_')]:
            del os.environ[k]
        os.environ.update(keep)
