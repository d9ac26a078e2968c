"""References computed by processes in which the code under test has never been used."""
import os
import pickle
import signal
import struct

_P = {}


def _write(fd, x):
    b = pickle.dumps(x)
    b = struct.pack(">Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd):
    def take(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(take(struct.unpack(">Q", take(8))[0]))


def start(fn):
    """Fork a process that answers each request x with fn(x), computed in a child of its own."""
    a, b = os.pipe()
    c, d = os.pipe()
    pid = os.fork()
    if pid:
        os.close(a)
        os.close(d)
        _P.update(to=b, frm=c)
        return
    os.close(b)
    os.close(c)
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        while True:
            try:
                x = _read(a)
            except EOFError:
                break
            q, w = os.pipe()
            k = os.fork()
            if k == 0:
                try:
                    signal.alarm(100)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    try:
                        v = (True, fn(x))
                    except Exception as e:
                        v = (False, "%s: %s" % (type(e).__name__, str(e)[:300]))
                    _write(w, v)
                finally:
                    os._exit(0)
            os.close(w)
            try:
                v = _read(q)
            except EOFError:
                v = (False, "the process died")
            os.close(q)
            os.waitpid(k, 0)
            _write(d, v)
    finally:
        os._exit(0)


class Failed(Exception):
    pass


def ask(x):
    _write(_P["to"], x)
    ok, v = _read(_P["frm"])
    if not ok:
        raise Failed(v)
    return v
