"""Simulated wall clock: the process sees a time that only the simulator moves."""

import time

START = 1_700_000_000.0


class _Clock:
    def __init__(self):
        self.now = START

    def time(self):
        return self.now

    def time_ns(self):
        return int(self.now * 1e9)

    def monotonic(self):
        return self.now - START

    def sleep(self, dt):
        self.now += max(dt, 0)


CLOCK = _Clock()
_real = {}


def install():
    for name in ("time", "time_ns", "monotonic", "sleep", "perf_counter"):
        _real[name] = getattr(time, name)
    time.time = CLOCK.time
    time.time_ns = CLOCK.time_ns
    time.sleep = CLOCK.sleep
    # time.monotonic is used by threading in this process; it is left to the harness


def advance(dt):
    CLOCK.now += dt
