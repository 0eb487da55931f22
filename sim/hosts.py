"""Processes with different environments: hash seed, allocator, order of imports, directory, locale.

Each host is an interpreter that imports the library once and forks a child for each request, which
arrives over a socket in the scratch directory of the check.
"""

import os
import pickle
import random
import socket
import struct
import subprocess
import sys
import time

from . import core

HOSTS = [
    {"hash": "0", "env": {}, "order": 0},
    {"hash": "1", "env": {"PYTHONMALLOC": "malloc", "TZ": "Asia/Tokyo", "LANG": "C"}, "order": 1},
    {"hash": "4242", "env": {"USER": "somebody", "PAD": "x" * 3000, "TZ": "America/Los_Angeles"},
     "order": 2},
    {"hash": "3141592653", "env": {"MALLOC_ARENA_MAX": "1", "MALLOC_PERTURB_": "85"}, "order": 3},
]
# Hosts that C14 adds: the library without its compiler, with its kernels not compiled, or with
# another processor.
EXTRA = [
    {"hash": "0", "env": {}, "order": 0, "hide": "numba"},
    {"hash": "0", "env": {}, "order": 0, "interpret": True},
    {"hash": "0", "order": 0, "env": {
        "NUMBA_CPU_NAME": "generic", "NUMBA_CPU_FEATURES": "", "NPY_DISABLE_CPU_FEATURES":
        "AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
        "OPENBLAS_CORETYPE": "Nehalem"}},
]
NAMES = ["0", "1", "2", "3", "no compiler", "kernels interpreted", "other processor"]


def path(i):
    return os.path.join(os.environ["SIM_SCRATCH"], f"host{i}")


def start(module, which=range(len(HOSTS))):
    """Start the hosts. They end with the process group of the check. Returns a function that waits."""
    out = {}
    for i in which:
        h = (HOSTS + EXTRA)[i]
        cwd = path(i) + ".cwd"
        os.makedirs(cwd, exist_ok=True)
        env = {**os.environ, **h["env"], "PYTHONHASHSEED": h["hash"]}
        out[i] = subprocess.Popen(
            [sys.executable, "-c", "import sys; sys.path.insert(0, %r); "
             "from sim import hosts; hosts.serve(%d, %r)" % (core.VERIF, i, module)],
            cwd=cwd, env=env, stdin=subprocess.DEVNULL)

    def wait():
        deadline = time.monotonic() + 240
        for i, p in out.items():
            while not os.path.exists(path(i)):
                if p.poll() is not None or time.monotonic() > deadline:
                    raise core.HarnessError(f"host {i} did not start")
                time.sleep(0.05)

    return wait


def serve(i, name):
    import importlib
    import signal

    host = (HOSTS + EXTRA)[i]
    if host["order"] == 1:
        import scipy.stats  # noqa: F401
        import tomli  # noqa: F401
    module = importlib.import_module(name)
    if host.get("hide"):
        hide(host["hide"])
    if host.get("interpret"):
        core.load_deps()
        import numba

        from . import sched

        sched.install_locks()
        numba.config.DISABLE_JIT = True
        try:
            core.import_library()
        finally:
            numba.config.DISABLE_JIT = False
        core.load_deps = lambda: None
    if host["order"] >= 2:
        core.load_deps()
        sys.path.insert(0, os.path.join(core.REPO, "src"))
        first = ["variation", "site", "tools", "motion"][host["order"]:]
        for m in first:
            importlib.import_module("pystrata." + m)
        core.load_deps = lambda: None
    broken = None
    try:
        core.prepare(module, start=False)
    except Exception as e:  # noqa: BLE001
        if i < len(HOSTS):
            raise
        broken = f"the library cannot be imported: {type(e).__name__}: {e}"
    s = socket.socket(socket.AF_UNIX)
    s.bind(path(i) + ".tmp")
    s.listen(64)
    os.rename(path(i) + ".tmp", path(i))
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                s.close()
                req = _recv(c)
                if broken:
                    _send(c, ("violation", ("import", f"{NAMES[i]}: {broken}")))
                    os._exit(0)
                if req == "session":
                    module.on_session(i, c)
                    os._exit(0)
                try:
                    reply = ("ok", module.on_host(i, req))
                except core.Violation as e:
                    reply = ("violation", (e.kind, e.message))
                except BaseException:  # noqa: BLE001
                    import traceback

                    reply = ("died", traceback.format_exc())
                _send(c, reply)
            finally:
                os._exit(0)
        c.close()


def hide(package):
    """The modules of pystrata cannot import the package."""
    import builtins

    real = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split(".")[0] == package and \
                ((globals or {}).get("__name__") or "").split(".")[0] == "pystrata":
            raise ModuleNotFoundError(f"No module named {package!r}", name=package)
        return real(name, globals, locals, fromlist, level)

    builtins.__import__ = hook


def _send(c, obj):
    data = pickle.dumps(obj)
    c.sendall(struct.pack("<Q", len(data)) + data)


def _recv(c):
    def read(n):
        out = b""
        while len(out) < n:
            b = c.recv(n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    (n,) = struct.unpack("<Q", read(8))
    return pickle.loads(read(n))


def call(i, req, timeout=100):
    """module.on_host(i, req) in a new child of host i."""
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(timeout)
    try:
        c.connect(path(i))
        _send(c, req)
        status, value = _recv(c)
    finally:
        c.close()
    if status == "violation":
        raise core.Violation(*value)
    if status != "ok":
        raise core.HarnessError(value)
    return value


def session(i, timeout=100):
    """A connection to a new child of host i, which runs module.on_session(i, connection)."""
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(timeout)
    c.connect(path(i))
    _send(c, "session")
    return c


def clutter(seed):
    """Change the layout of the memory."""
    r = random.Random(seed)
    keep = []
    for _ in range(r.randrange(2000)):
        keep.append([bytes(r.randrange(1, 3000)), {"k": object()}, set(range(r.randrange(20)))])
        if r.random() < 0.4:
            keep.pop(r.randrange(len(keep)))
    return keep
