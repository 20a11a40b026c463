"""Executable contracts: every target pairs a real function of /repo with an oracle that does not use rosemary.

A target is   target(name, call, gen, oracle)
  call(*args)            runs the real code
  gen(R)                 yields argument tuples: edge cases, exhaustive small ranges, then seeded random ones
  oracle(args, outcome)  None when the outcome is right, else a string saying what was expected
`outcome` is Ok(value), Exc(exception) or HANG.
"""
import copy
import os
import random
import signal
import sys
import time

TARGETS = {}


class Target:
    def __init__(self, name, call, gen, oracle, limit, pre, bounds):
        self.name, self.call, self.gen, self.oracle, self.limit, self.pre = name, call, gen, oracle, limit, pre
        self.bounds = bounds


def target(name, call, gen, oracle, limit=10, pre=None, bounds=''):
    assert name not in TARGETS, name
    TARGETS[name] = Target(name, call, gen, oracle, limit, pre, bounds)


class Ok:
    def __init__(self, v):
        self.v = v
    ok = True
    exc = None

    def __repr__(self):
        s = repr(self.v)
        return s if len(s) < 600 else s[:600] + '...'


class Exc:
    ok = False

    def __init__(self, e):
        self.exc = e
        self.v = None

    def __repr__(self):
        return 'raises %s(%s)' % (type(self.exc).__name__, str(self.exc)[:200])


class Hang:
    ok = False
    exc = None
    v = None

    def __repr__(self):
        return 'no result within the time limit'


HANG = Hang()


class _Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise _Timeout()


def run_call(t, args):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, t.limit)
    try:
        try:
            v = t.call(*args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return Ok(v)
    except _Timeout:
        return HANG
    except Exception as e:
        return Exc(e)


class R:
    """Randomness and sizes for generators."""

    def __init__(self, seed, thorough):
        self.rng = random.Random(seed)
        self.thorough = thorough

    def nat(self, bits=64):
        """a natural number with structure: powers, near powers, smooth, even parts, repeated factors, or uniform"""
        r = self.rng
        b = r.randint(1, bits)
        k = r.randint(0, 9)
        if k == 0:
            return 1 << r.randint(0, bits)
        if k == 1:
            return max(0, (1 << b) + r.randint(-3, 3))
        if k == 2:
            return (r.getrandbits(max(1, b // 2)) | 1) << r.randint(0, bits // 2)
        if k == 3:
            p = r.choice([2, 3, 5, 6, 7, 10, 11, 13, 101])
            e = r.randint(0, max(1, int(bits / p.bit_length())))
            return max(0, p ** e + r.choice([-1, 0, 0, 1]))
        if k == 4:
            n = 1
            while n.bit_length() < b:
                n *= r.choice([2, 2, 3, 3, 5, 7, 11, 13])
            return n
        if k == 5:
            x = r.getrandbits(max(1, b // 2)) + 1
            return max(0, x * x + r.choice([-1, 0, 1]))
        return r.getrandbits(b)

    def int(self, bits=64):
        return self.rng.choice([-1, 1]) * self.nat(bits)

    def n(self, quick, thorough=None):
        return (thorough or quick * 8) if self.thorough else quick


def must(cond, msg='precondition'):
    return None if cond else msg


def eq(f):
    """oracle: the call returns f(*args), same type-insensitive value"""
    def o(args, out):
        e = f(*args)
        if not out.ok:
            return 'expected %r' % (e,)
        if out.v != e:
            return 'expected %r' % (e,)
        return None
    return o


def eq_or_raise(f, exc=ValueError):
    """oracle: f(*args) gives the value, or RAISE for an exception of the given type"""
    def o(args, out):
        e = f(*args)
        if e is RAISE:
            if isinstance(out.exc, exc):
                return None
            return 'expected %s' % getattr(exc, '__name__', exc)
        if not out.ok or out.v != e:
            return 'expected %r' % (e,)
        return None
    return o


class _Raise:
    def __repr__(self):
        return 'an exception'


RAISE = _Raise()


def ok_if(p):
    """oracle: the call returns a value v with p(v, *args) true (or a string describing the failure)"""
    def o(args, out):
        if not out.ok:
            return 'expected a result'
        r = p(out.v, *args)
        if r is True or r is None:
            return None
        return r if isinstance(r, str) else 'the result breaks the contract'
    return o


def call_string(name, args):
    return '%s(%s)' % (name, ', '.join(repr(a) for a in args))
