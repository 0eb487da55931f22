"""Trace events of the library as the points at which the simulator acts.

`Interrupter` raises an exception at the n-th event of an operation; `count_events` measures how many
events an operation has. Events are executed lines of frames whose code lies in
pystrata. Nothing is raised while an exception is being handled or a clean-up (`finally`, `except`, the
end of a `with` block) is under way: no code can be expected to clean up if its own clean-up is
interrupted. Nothing is raised at a `try` line either: the interpreter does not look for signals there.
"""

import ast
import dis
import linecache
import sys

from .core import LIB

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


# Frames without events. Hash values of layers depend on memory addresses, and with them the number of
# comparisons in sets and dictionaries.
SKIP = ("<module>", "__hash__", "__eq__")


def skipped(frame):
    """The frame, or one of its two callers, is without events."""
    for _ in range(3):
        if frame is None:
            return False
        if frame.f_code.co_name in SKIP:
            return True
        frame = frame.f_back
    return False


_cleanup = {}


def cleanup_lines(filename):
    """Lines of handlers and finally blocks, and lines of `try` statements."""
    if filename not in _cleanup:
        body, tries = set(), set()
        try:
            tree = ast.parse("".join(linecache.getlines(filename)))
        except SyntaxError:
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                tries.add(node.lineno)
                for part in [*node.finalbody, *node.handlers]:
                    body.update(range(part.lineno, part.end_lineno + 1))
        _cleanup[filename] = body, tries
    return _cleanup[filename]


def leaves_with(frame):
    """The frame is about to call __exit__ of a with block."""
    nones = 0
    for ins in dis.get_instructions(frame.f_code):
        if ins.offset < frame.f_lasti:
            continue
        if ins.opname == "PUSH_EXC_INFO":
            return ins.offset == frame.f_lasti
        if ins.opname == "LOAD_CONST" and ins.argval is None:
            nones += 1
            if nones == 3:
                return True
        elif ins.opname not in ("SWAP", "NOP", "COPY"):
            return False
    return False


def in_cleanup(frame, is_lib):
    """An exception here would hit code that cannot be expected to handle it."""
    body, tries = cleanup_lines(frame.f_code.co_filename)
    if frame.f_lineno in tries or leaves_with(frame):
        return True
    while frame is not None:
        if is_lib(frame.f_code):
            body, _ = cleanup_lines(frame.f_code.co_filename)
            if frame.f_lineno in body or frame.f_code.co_name in ("__enter__", "__exit__", "__del__"):
                return True
        frame = frame.f_back
    return False


class StepLimit(BaseException):
    """The operation made no end within the allowed number of events."""


class Tracer:
    """Counts events; raises `exc` at event number `at` (1-based) if given."""

    def __init__(self, at=None, exc=None, limit=5_000_000, prefixes=(LIB,), record=False):
        self.at = at
        self.exc = exc
        self.limit = limit
        self.prefixes = prefixes
        self.count = 0
        self.fired = None
        self.lines = {} if record else None
        self._known = {}

    def pick(self, spec):
        """Number of the event that {at, line} stands for, out of those that were recorded.

        at is a fraction of all events, or, with line, of the lines that were executed; line is then a
        fraction of the times that it was executed."""
        if spec.get("line") is None or not self.lines:
            return max(1, round(spec["at"] * self.count))
        keys = sorted(self.lines)
        hits = self.lines[keys[min(int(spec["at"] * len(keys)), len(keys) - 1)]]
        return hits[min(int(spec["line"] * len(hits)), len(hits) - 1)]

    def _is_lib(self, code):
        name = code.co_filename
        try:
            return self._known[name]
        except KeyError:
            ok = self._known[name] = name.startswith(self.prefixes)
            return ok

    def _global(self, frame, event, arg):
        if event == "call" and self._is_lib(frame.f_code) and not skipped(frame):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.lines is not None:
                key = (frame.f_code.co_filename, frame.f_lineno)
                self.lines.setdefault(key, []).append(self.count)
            if self.at is not None and self.count >= self.at and self.fired is None:
                if sys.exception() is None and not in_cleanup(frame, self._is_lib):
                    self.fired = (frame.f_code.co_name, frame.f_lineno)
                    raise self.exc("injected")
            if self.count > self.limit:
                raise StepLimit()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        return False


def gen_interrupt(rng):
    """Plan of an exception at an event of an operation."""
    out = {"at": round(rng.random(), 6), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    if rng.random() < 0.5:
        out["line"] = rng.choice([0.0, 1.0, round(rng.random(), 3)])
    return out


def count_events(func):
    """Number of events of a call, and its result or exception."""
    t = Tracer()
    try:
        with t:
            value = func()
        return t.count, value, None
    except Exception as e:  # noqa: BLE001
        return t.count, None, e
