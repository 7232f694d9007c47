"""A clock that moves only when told to.  Import before gama: time functions may be bound at import."""
import time
import threading        # noqa: binds the real clock for its own waiting
import multiprocessing.connection, subprocess, logging, selectors, queue  # noqa

BASE = 1_600_000_000.0


class Clock:
    now = 0.0
    real = dict(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter)

    @classmethod
    def advance(cls, s):
        cls.now += s


class NoTimeout:
    """Stands in for stopit's timeouts, which run in real time."""
    EXECUTED, EXECUTING, TIMED_OUT, INTERRUPTED, CANCELED = range(0, 5)

    def __init__(self, seconds, swallow_exc=True):
        self.seconds, self.state = seconds, self.EXECUTED

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True

    def cancel(self):
        pass


def install(timeouts=True):
    import stopit
    if timeouts:
        stopit.ThreadingTimeout = NoTimeout
    time.time = lambda: BASE + Clock.now
    time.monotonic = lambda: 5000.0 + Clock.now
    time.perf_counter = lambda: 7000.0 + Clock.now
    time.time_ns = lambda: int((BASE + Clock.now) * 10 ** 9)
