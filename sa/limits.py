"""Wall-clock limits: what takes too long is left undecided, never reported."""
import contextlib
import signal
import time

START = time.monotonic()
EACH, TOTAL = [100], [600]      # one scenario or comparison; the whole check


class TimeUp(BaseException):
    """Not an Exception, so that nothing in between takes it for its own."""


def _ring(signum, frame):
    raise TimeUp()


@contextlib.contextmanager
def limited():
    left = min(EACH[0], TOTAL[0] - (time.monotonic() - START))
    if left <= 0:
        raise TimeUp()
    if signal.getitimer(signal.ITIMER_REAL)[0] > 0:
        yield                           # within another limit
        return
    before = signal.signal(signal.SIGALRM, _ring)
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)


def thorough():
    EACH[0], TOTAL[0] = 600, 3000
