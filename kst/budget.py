"""Nested wall-clock limits: analysing one construct must not use up the time of the others."""
import signal
import time
from contextlib import contextmanager


class Timeout(Exception):
    pass


def _fire(*_):
    raise Timeout('time limit')


@contextmanager
def limit(seconds):
    old = signal.getsignal(signal.SIGALRM)
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    t0 = time.monotonic()
    signal.signal(signal.SIGALRM, _fire)
    signal.setitimer(signal.ITIMER_REAL, min(seconds, left) if left else seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(left - (time.monotonic() - t0), 0.05))
