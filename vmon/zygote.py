"""zygote.py -- a process that has made no call, and forks one that makes a single call

The process is started anew (not forked), with a hash seed, a time zone and a
working directory of its own.  Each request is answered by a fork of it, so
that what a call gives there depends on no other call.
"""
import os
import pathlib
import pickle
import struct
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def take(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(exactly(struct.unpack('<q', exactly(8))[0]))


class Zygote:
    def __init__(self, hashseed, tz, cwd):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TZ=tz, PYTHONPATH=os.pathsep.join([str(HERE), os.environ.get('PYTHONPATH', '')]))
        self.p = subprocess.Popen([sys.executable, '-B', '-c', 'from vmon import zygote; zygote.serve()'], env=env, cwd=str(cwd),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def __call__(self, name, seed, tmp):
        send(self.p.stdin.fileno(), (name, seed, str(tmp)))
        return take(self.p.stdout.fileno())

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve():
    # answers go to the descriptor of the standard output, and nothing else
    out = os.dup(1)
    os.dup2(2, 1)
    from vmon import core, calls
    import pyTMD
    import pyTMD.compute  # noqa: F401
    while True:
        try:
            name, seed, tmp = take(0)
        except EOFError:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                ans = calls.run(*calls.draw(name, seed, tmp))
            except BaseException as exc:
                ans = ('broken', repr(exc)[:300])
            send(w, ans)
            os._exit(0)
        os.close(w)
        try:
            ans = take(r)
        except EOFError:
            ans = ('broken', 'no answer')
        os.close(r)
        os.waitpid(pid, 0)
        send(out, ans)
