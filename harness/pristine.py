"""An oracle with no past: each request is answered by a fresh fork of a process that has
imported colosseum but never used it."""
import os
import pickle
import struct
import sys

import docs


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    (n,) = struct.unpack(">I", _read(fd, 4))
    return pickle.loads(_read(fd, n))


class Pristine:
    def __init__(self, fn):
        import colosseum.engine  # noqa: F401
        import colosseum.declaration  # noqa: F401

        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                while True:
                    args = _recv(r1)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            out = ("ok", fn(*args))
                        except BaseException as e:
                            out = ("error", f"{type(e).__name__}: {e}")
                        _send(w2, out)
                        os._exit(0)
                    os.waitpid(pid, 0)
            except BaseException:
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def __call__(self, *args):
        _send(self.w, args)
        return _recv(self.r)


_servers = {}


def pristine(fn):
    """The server for fn, of this process; must first be asked for before colosseum is used."""
    key = (os.getpid(), fn.__name__)
    if key not in _servers:
        _servers[key] = Pristine(fn)
    return _servers[key]
