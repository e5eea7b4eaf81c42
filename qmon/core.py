"""Verdicts, the observation log and the evidence file."""
import hashlib
import json
import os
import signal
import time
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")


class Violation(Exception):
    """The monitor saw an execution that refutes the property."""


class Inconclusive(Exception):
    """The execution neither refutes nor supports the property (timeout, out of memory)."""


class CaseTimeout(Exception):
    pass


@contextmanager
def sut(what):
    """Runs code under test on input for which the property promises an answer: any
    exception it raises is an observation that refutes the property."""
    try:
        yield
    except (Violation, Inconclusive, CaseTimeout):
        raise
    except MemoryError as e:
        raise Inconclusive("out of memory in %s" % what) from e
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300])) from e


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Obs(dict):
    """Counters of what the monitors of one case observed."""

    def hit(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def distinct(self, name, value):
        """Counts different values seen over the whole run under one name."""
        if not isinstance(value, bytes):
            value = repr(value).encode()
        self["distinct:%s:%s" % (name, hashlib.sha256(value).hexdigest()[:16])] = 1


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"), default=str)


def digest(obj):
    return hashlib.sha256(canon(obj).encode()).hexdigest()[:16]


@contextmanager
def alarm(seconds):
    def fire(signum, frame):
        raise CaseTimeout("case did not finish within %ds" % seconds)

    old = signal.signal(signal.SIGALRM, fire)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def rng_for(*parts):
    """Deterministic random generator for a case: independent of PYTHONHASHSEED."""
    import random

    return random.Random(int(hashlib.sha256(repr(parts).encode()).hexdigest()[:15], 16))


def now():
    return time.monotonic()
