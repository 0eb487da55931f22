"""Simulated disk: files below one directory, with planned faults.

Python's own buffering, text and gzip layers run on a raw file whose operations are the *effects* of
the process on the disk. A fault is a JSON object with a `kind`:

    open      the n-th open fails                     write   the n-th write fails (errno)
    full      writes fail once `bytes` were written   short   writes transfer at most `size` bytes
    close     the n-th close of a written file fails  rename  the n-th rename fails
    remove    the n-th removal fails                  crash   the process dies at the n-th effect,
    read      a read beyond `bytes` fails (errno)             of which `part` bytes are done
    shortread reads transfer at most `size` bytes     int     KeyboardInterrupt at the n-th call

After a crash no effect reaches the disk any more, and every further operation dies as well. With
several directories, each is a device of its own: files cannot be renamed or linked from one to another.
"""

import builtins
import errno
import io
import os
import sys

ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "ESTALE": errno.ESTALE, "EINTR": errno.EINTR}


class Crash(BaseException):
    """The process was killed."""


_real = {n: getattr(os, n) for n in ("open", "replace", "rename", "remove", "unlink", "write",
                                     "close", "fsync", "link", "truncate", "ftruncate", "read",
                                     "symlink", "sendfile")}
_real_open = builtins.open


class Disk:
    def __init__(self, root, ctx, readonly=False, others=()):
        self.roots = [os.path.realpath(r) for r in (root, *others)]
        self.ctx = ctx
        self.readonly = readonly  # a file system that cannot be written
        self.on_read = None
        self.on_effect = None
        self.faults = []
        self.files = []
        self.fds = {}
        self.dead = False
        self.off = False
        self.reset([])

    # -- plan

    def reset(self, faults):
        """Start an operation with these faults."""
        self.faults = [dict(f) for f in faults]
        self.n = {}
        self.written = self.bytes_read = 0
        self.fired = []
        self.dead = False
        self.files = [f for f in self.files if not f.closed]

    def fire(self, kind, err=None):
        self.fired.append(kind)
        self.ctx.count("fault:disk " + kind + (f" {err}" if err else ""))

    def match(self, kind):
        """The faults of a kind whose turn it is."""
        k = self.n[kind] = self.n.get(kind, 0) + 1
        for f in self.faults:
            if f["kind"] == kind and (f.get("n", 1) == k or f.get("stay") and k >= f["n"]):
                return f
        return None

    def fail(self, f, path=None):
        self.fire(f["kind"], f["err"])
        raise OSError(ERR[f["err"]], os.strerror(ERR[f["err"]]) + " [injected]", path)

    def effect(self, kind, path, size=None):
        """An effect is about to happen. Returns the number of bytes to do before the crash."""
        if self.readonly:
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), os.fsdecode(path))
        if self.on_effect:
            self.on_effect("disk " + kind)
        if self.dead:
            raise Crash
        k = self.n["effect"] = self.n.get("effect", 0) + 1
        self.ctx.log("disk", kind, os.path.basename(str(path)).split(".")[0], size)
        for f in self.faults:
            if f["kind"] == "int" and k >= f["n"] and not f.get("done"):
                if sys.exception() is not None:
                    continue  # no code can clean up if its clean-up is interrupted
                f["done"] = True
                self.fire("interrupt")
                raise KeyboardInterrupt("injected")
            if f["kind"] == "crash" and f["n"] == k:
                self.fire("crash")
                self.dead = True
                return int((size or 0) * f.get("part", 0))
        return None

    def inside(self, path):
        if self.off or not isinstance(path, (str, bytes, os.PathLike)):
            return False
        return self.device(path) is not None

    def device(self, path):
        p = os.path.abspath(os.fsdecode(path))
        real = os.path.realpath(os.path.dirname(p))
        for i, root in enumerate(self.roots):
            if (p + os.sep).startswith(root + os.sep) or (real + os.sep).startswith(root + os.sep):
                return i
        return None

    # -- operating system

    def raw_open(self, path, flags, mode):
        if flags & (os.O_CREAT | os.O_TRUNC):
            if self.effect("create", path) is not None:
                raise Crash
        elif self.dead:
            raise Crash
        f = self.match("open")
        if f:
            self.fail(f, os.fsdecode(path))
        if self.on_read:
            self.on_read("open")
        return _real["open"](path, flags, mode)

    def change(self, kind, what, path, call):
        if self.effect(what, path) is not None:
            raise Crash
        f = self.match(kind)
        if f:
            self.fail(f, os.fsdecode(path))
        return call()

    def write(self, fd, data, path):
        part = self.effect("write", path, len(data))
        if part is not None:
            if part:
                _real["write"](fd, bytes(data)[:part])
            raise Crash
        f = self.match("write")
        if f:
            self.fail(f)
        n = len(data)
        for f in self.faults:
            if f["kind"] == "short" and n > f["size"]:
                n = f["size"]
                self.fire("short write")
            if f["kind"] == "full":
                left = f["bytes"] - self.written
                if left <= 0 and n:
                    self.fail(f)
                n = min(n, left)
        done = _real["write"](fd, bytes(data)[:n])
        self.written += done
        return done

    def before_read(self, size):
        """Limit of a read."""
        if self.on_read:
            self.on_read("read")
        if self.dead:
            raise Crash
        k = self.n["readcall"] = self.n.get("readcall", 0) + 1
        for f in self.faults:
            if f["kind"] == "readint" and k >= f["n"] and not f.get("done"):
                if sys.exception() is not None:
                    continue
                f["done"] = True
                self.fire("interrupt while reading")
                raise KeyboardInterrupt("injected")
            if f["kind"] == "shortread" and (size < 0 or size > f["size"]):
                size = f["size"]
                self.fire("short read")
            if f["kind"] == "read":
                if f.get("done"):
                    continue
                left = f["bytes"] - self.bytes_read
                if left <= 0:
                    f["done"] = f.get("once")
                    self.fail(f)
                size = left if size < 0 else min(size, left)
        return size

    # -- installation

    def install(self):
        disk = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            if isinstance(file, int) and file in disk.fds or disk.inside(file):
                return disk.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is not None or not disk.inside(path):
                return _real["open"](path, flags, mode, dir_fd=dir_fd)
            fd = disk.raw_open(path, flags, mode)
            disk.fds[fd] = path
            return fd

        def two(name):
            def call(src, dst, **kw):
                if not (disk.inside(src) or disk.inside(dst)):
                    return _real[name](src, dst, **kw)
                if name != "symlink" and disk.device(src) != disk.device(dst):
                    disk.ctx.count("probe:rename to another device")
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), os.fsdecode(src))
                return disk.change("rename", name, dst, lambda: _real[name](src, dst, **kw))

            return call

        def one(name):
            def call(path, **kw):
                if not disk.inside(path):
                    return _real[name](path, **kw)
                return disk.change("remove", name, path, lambda: _real[name](path, **kw))

            return call

        def os_write(fd, data):
            return disk.write(fd, data, disk.fds[fd]) if fd in disk.fds else _real["write"](fd, data)

        def os_close(fd):
            disk.fds.pop(fd, None)
            return _real["close"](fd)

        def sendfile(out, *args, **kw):
            # copying falls back to reading and writing
            if out in disk.fds:
                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
            return _real["sendfile"](out, *args, **kw)

        builtins.open = io.open = sim_open
        os.sendfile = sendfile
        os.open = os_open
        for n in ("replace", "rename", "link", "symlink"):
            setattr(os, n, two(n))
        for n in ("remove", "unlink"):
            setattr(os, n, one(n))
        os.write, os.close = os_write, os_close
        os.getpid = lambda: 4242  # part of names of temporary files

    def open(self, file, mode, buffering, encoding, errors, newline, closefd, opener=None):
        """As io.open."""
        if not isinstance(file, int):
            file = os.fspath(file)
        modes = set(mode)
        binary, plus = "b" in modes, "+" in modes
        kind = next((m for m in "rwax" if m in modes), "r")
        flags = {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND,
                 "x": os.O_CREAT | os.O_EXCL}[kind]
        flags |= os.O_RDWR if plus else (os.O_RDONLY if kind == "r" else os.O_WRONLY)
        flags |= os.O_CLOEXEC
        if isinstance(file, int):
            raw = Raw(self, file, kind + ("+" if plus else ""), closefd, self.fds[file])
        elif opener is not None:
            fd = opener(file, flags)
            raw = Raw(self, fd, kind + ("+" if plus else ""), True, file)
        else:
            fd = self.raw_open(file, flags, 0o666)
            raw = Raw(self, fd, kind + ("+" if plus else ""), True, file)
        self.files.append(raw)
        try:
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if plus:
                buf = io.BufferedRandom(raw, size)
            elif kind == "r":
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def leaked(self):
        return [os.path.basename(os.fsdecode(f.path)) for f in self.files if not f.closed]


class Raw(io.FileIO):
    def __init__(self, disk, fd, mode, closefd, path):
        # the file exists already: do not truncate or create it again
        super().__init__(fd, {"w": "w", "x": "w", "a": "a", "r": "r"}[mode[0]] + mode[1:], closefd)
        self.disk = disk
        self.path = self.name = path
        self.wrote = mode[0] != "r" or "+" in mode

    def write(self, data):
        return self.disk.write(self.fileno(), data, self.path)

    def truncate(self, size=None):
        if self.disk.effect("truncate", self.path) is not None:
            raise Crash
        return super().truncate(size)

    def readinto(self, b):
        n = self.disk.before_read(len(b))
        done = super().readinto(memoryview(b)[:n]) if n < len(b) else super().readinto(b)
        self.disk.bytes_read += done
        return done

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        out = super().read(self.disk.before_read(size))
        self.disk.bytes_read += len(out)
        return out

    def readall(self):
        out = b""
        while True:
            b = self.read(1 << 16)
            if not b:
                return out
            out += b

    def close(self):
        if self.closed:
            return
        disk = self.disk
        fd = self.fileno()
        try:
            if self.wrote and not disk.dead and not disk.off:
                if disk.effect("close", self.path) is not None:
                    raise Crash
                f = disk.match("close")
                if f:
                    disk.fail(f)
        finally:
            disk.fds.pop(fd, None)
            super().close()
