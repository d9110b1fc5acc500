"""Shared machinery: violations, parts, and the call guard around the code under test."""
import contextlib
import json
import signal
import traceback


class Violation(Exception):
    """The property is broken on the current case."""


class Inconclusive(Exception):
    """The case cannot decide anything (e.g. it ran out of its time allowance)."""


class Skip(Exception):
    """The generated case falls outside the property's domain (counted, never an alarm)."""


@contextlib.contextmanager
def sut(what):
    """Code under test is called on input inside the stated domain: it must not raise."""
    try:
        yield
    except (Violation, Inconclusive, Skip, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: the SUT may raise anything
        if isinstance(e, MemoryError):
            raise Inconclusive('MemoryError')
        if type(e).__module__.startswith('hypothesis'):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-4:]))
        raise Violation('%s raised %s: %s  [%s]' % (what, type(e).__name__, str(e)[:300], where))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    """One executable check: a generator of plain (JSON) cases and an oracle over a case."""

    def __init__(self, name, strategy, run, quick, thorough, jit=False, examples=(), timeout=60, setup=None):
        self.name = name
        self.strategy = strategy      # () -> hypothesis strategy of JSON-able values
        self.run = run                # case -> dict(nontrivial=bool, label=str) ; raises Violation
        self.quick = quick            # (shards, examples per shard)
        self.thorough = thorough
        self.jit = jit
        self.examples = list(examples)
        self.timeout = timeout        # per-case allowance, seconds (inconclusive beyond)
        self.setup = setup


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Inconclusive('case exceeded %d s' % seconds)
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def canon(case):
    return json.loads(json.dumps(case))


def close(a, b, rtol=1e-9, atol=1e-12):
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) if a.size else True)
