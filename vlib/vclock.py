"""Virtual clock.  Import before the code under test: module `time` functions
are replaced by shims that use the virtual clock only while one is active."""
import time as _t

REAL_TIME, REAL_SLEEP, REAL_MONO, REAL_PERF = _t.time, _t.sleep, _t.monotonic, _t.perf_counter
ACTIVE = None


class VClock:
    def __init__(self, t0=1.7e9):
        self.now = t0
        self.sleeps = []

    def __enter__(self):
        global ACTIVE
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None

    def advance(self, dt):
        self.now += dt


_t.time = lambda: ACTIVE.now if ACTIVE else REAL_TIME()
_t.monotonic = lambda: ACTIVE.now if ACTIVE else REAL_MONO()
_t.perf_counter = lambda: ACTIVE.now if ACTIVE else REAL_PERF()


def _sleep(s):
    if ACTIVE:
        ACTIVE.sleeps.append(s)
        ACTIVE.advance(max(s, 0))
    else:
        REAL_SLEEP(s)


_t.sleep = _sleep
