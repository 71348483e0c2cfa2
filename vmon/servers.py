"""web and FTP servers of our own on the loopback interface, with faults"""
import contextlib
import http.server
import os
import posixpath
import socket
import socketserver
import threading
import time
import urllib.request

SRV = {}


class Web(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *args):
        pass

    def do_GET(self):
        s = SRV['state']
        s['requests'].append((self.path, dict(self.headers)))
        item = s['web'].get(self.path)
        if callable(item):
            item = item(self)
        if item is None:
            self.send_error(404, 'Nothing here')
            self.close_connection = True
            return
        body, fault = item
        self.send_response(200)
        self.send_header('Connection', 'close')
        if fault == 'chunked' or fault == 'broken-chunk':
            self.send_header('Transfer-Encoding', 'chunked')
            self.end_headers()
            for i in range(0, len(body), 5000):
                c = body[i:i+5000]
                self.wfile.write(b'%x\r\n' % len(c) + c + b'\r\n')
            if fault == 'chunked':
                self.wfile.write(b'0\r\n\r\n')
            else:
                self.wfile.write(b'100\r\nxx')
        else:
            if fault != 'unsized':
                self.send_header('Content-Length', str(len(body)))
            self.end_headers()
            if fault == 'short':
                body = body[:len(body)*2//3]
            for i in range(0, len(body), 7001):
                self.wfile.write(body[i:i+7001])
        self.close_connection = True


class Ftp(socketserver.StreamRequestHandler):
    """as much of RFC 959 as the client needs"""
    def say(self, text):
        self.wfile.write((text + '\r\n').encode())

    def data(self, blob, cut=None):
        conn, _ = self.passive.accept()
        with conn:
            conn.sendall(blob if cut is None else blob[:cut])
        self.passive.close()

    def handle(self):
        s = SRV['state']
        self.say('220 ready')
        while True:
            line = self.rfile.readline().decode().strip()
            if not line:
                return
            cmd, _, arg = line.partition(' ')
            cmd = cmd.upper()
            s['ftp_log'].append(line)
            if cmd == 'USER':
                self.say('331 password' if s['user'] else '230 in')
            elif cmd == 'PASS':
                self.say('230 in')
            elif cmd == 'TYPE' or cmd == 'NOOP':
                self.say('200 fine')
            elif cmd in ('PASV', 'EPSV'):
                self.passive = socket.socket()
                self.passive.bind(('127.0.0.1', 0))
                self.passive.listen(1)
                p = self.passive.getsockname()[1]
                self.say(f'227 Entering Passive Mode (127,0,0,1,{p >> 8},{p & 255})' if cmd == 'PASV' else f'229 Entering (|||{p}|)')
            elif cmd == 'NLST':
                self.say('150 here')
                listed = s['ftp_dir'] or [posixpath.basename(k) for k in s['ftp'] if posixpath.dirname(k) == arg]
                self.data(''.join(f'{posixpath.join(arg, k)}\r\n' for k in listed).encode())
                self.say('226 done')
            elif cmd == 'RETR':
                name = posixpath.basename(arg)
                if arg not in s['ftp']:
                    self.say('550 no such file')
                    continue
                blob, _, fault = s['ftp'][arg]
                self.say('150 here')
                self.data(blob, len(blob)//2 if fault else None)
                if fault == 'dropped':
                    return
                self.say('426 aborted' if fault else '226 done')
            elif cmd == 'MDTM':
                t = s['ftp_dir'].get(posixpath.basename(arg))
                if arg in s['ftp']:
                    t = s['ftp'][arg][1]
                self.say('550 not a file' if t is None else '213 ' + time.strftime('%Y%m%d%H%M%S', time.gmtime(t)))
            elif cmd == 'QUIT':
                self.say('221 bye')
                return
            else:
                self.say('502 unknown')


class Threaded(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True


def servers():
    """started once in each process"""
    if SRV.get('pid') != os.getpid():
        SRV.clear()
        web = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Web)
        web.daemon_threads = True
        ftp = Threaded(('127.0.0.1', 0), Ftp)
        for s in (web, ftp):
            threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=0.5), daemon=True).start()
        SRV.update(pid=os.getpid(), web=web.server_address[1], ftp=ftp.server_address[1])
        for k in ('http_proxy', 'HTTP_PROXY', 'ftp_proxy', 'all_proxy', 'ALL_PROXY'):
            os.environ.pop(k, None)
        os.environ['no_proxy'] = '*'
    SRV['state'] = dict(web={}, requests=[], ftp={}, ftp_dir={}, ftp_log=[], user=True)
    return SRV['state']


@contextlib.contextmanager
def redirected(hosts):
    """connections to these hosts reach the servers of ours, other ones nothing; web requests are plain http"""
    make, urlopen = socket.create_connection, urllib.request.urlopen
    asked = []

    def connect(address, *a, **k):
        host, port = address
        if host in hosts:
            asked.append((host, port))
            address = ('127.0.0.1', SRV['ftp'] if port == 21 else SRV['web'])
        elif host != '127.0.0.1':
            raise OSError(f'{host} is not one of the servers')
        return make(address, *a, **k)

    def plain(request, *a, **k):
        k.pop('context', None)
        url = request if isinstance(request, str) else request.full_url
        url = url.replace('https://', 'http://')
        if isinstance(request, str):
            request = url
        else:
            request.full_url = url
        return urlopen(request, *a, **k)

    socket.create_connection, urllib.request.urlopen = connect, plain
    try:
        yield asked
    finally:
        socket.create_connection, urllib.request.urlopen = make, urlopen
        urllib.request._opener = None
