"""A server that computes references in processes where nothing ran before.

It is forked off after the library was imported. Each request is answered by a new child of the
server, so that no reference depends on another.
"""

import os
import pickle
import struct

from . import core


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _write(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _load(fd):
    (n,) = struct.unpack("<Q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


class Pristine:
    """server = Pristine(func); server(request) == func(request) in a pristine process."""

    def __init__(self, func, timeout=60):
        ask_r, self._ask = os.pipe()
        self._answer, ans_w = os.pipe()
        self.pid = os.fork()
        self.cache = {}
        if self.pid == 0:
            code = 0
            try:
                os.close(self._ask)
                os.close(self._answer)
                while True:
                    try:
                        req = _load(ask_r)
                    except EOFError:
                        break
                    _write(ans_w, core.fork_call(lambda: func(req), timeout))
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(ask_r)
        os.close(ans_w)

    def __call__(self, request):
        key = pickle.dumps(request)
        if key not in self.cache:
            _write(self._ask, request)
            status, value = _load(self._answer)
            if status != "ok":
                raise core.Violation("reference", f"a new analysis ended with {status}: {value}")
            self.cache[key] = value
        return self.cache[key]

    def close(self):
        os.close(self._ask)
        os.close(self._answer)
        os.waitpid(self.pid, 0)
