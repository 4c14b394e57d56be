"""Shared vocabulary of the checks: tests, contexts, violations, comparison helpers."""
import hashlib
import json
import math
import os
import sys

import numpy as np


class Violation(Exception):
    """The property does not hold for the generated case."""


class Reject(Exception):
    """The generated case lies outside of the property's domain (counted as trivial)."""


class Test(object):
    """One executable statement: `body(case, ctx)` raises Violation if the property is broken for `case`.

    `strategy` is a zero-argument callable that returns a Hypothesis strategy for JSON-like cases.
    `examples` are fixed cases which are always run (by one worker)."""

    def __init__(self, name, strategy, body, quick=400, thorough=8000, rule='', examples=()):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.rule, self.examples = quick, thorough, rule, list(examples)


class Ctx(object):
    def __init__(self, allowed_known=()):
        self.is_nontrivial = False
        self.labels = []
        self.known_hits = []
        self.allowed_known = set(allowed_known)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def known(self, kid, msg=''):
        """A deviation that is listed as known finding `kid`; a violation if it is not listed."""
        if kid not in self.allowed_known:
            raise Violation('deviation {} is not a listed finding: {}'.format(kid, msg))
        self.known_hits.append(kid)


def canon(case):
    return json.dumps(case, sort_keys=True, default=jsonable)


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (set, tuple)):
        return list(x)
    return repr(x)


def case_hash(name, case):
    return hashlib.blake2b((name + canon(case)).encode(), digest_size=8).hexdigest()


def subseed(*parts):
    return int.from_bytes(hashlib.blake2b('|'.join(map(str, parts)).encode(), digest_size=8).digest(), 'big')


# ---------------------------------------------------------------------------------------------- comparisons

RT, AT = 1e-6, 1e-9


def close(a, b, rtol=RT, atol=AT):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def describe(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shape {} != {}'.format(a.shape, b.shape)
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
    if a.size <= 12:
        return 'got {}, expected {}'.format(np.array2string(a, precision=10), np.array2string(b, precision=10))
    i = int(np.nanargmax(d)) if np.any(np.isfinite(d)) else 0
    return 'max |difference| {:.3g} (got {!r}, expected {!r} at flat index {})'.format(
        float(d.ravel()[i]), float(a.ravel()[i]), float(b.ravel()[i]), i)


def check_close(a, b, what, rtol=RT, atol=AT):
    if not close(a, b, rtol, atol):
        raise Violation('{}: {}'.format(what, describe(a, b)))


def check(cond, what):
    if not cond:
        raise Violation(what)


def logclose(a, b, tol=1e-6):
    a, b = float(a), float(b)
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= tol * (1. + abs(b))


def check_log(a, b, what, tol=1e-6):
    if not logclose(a, b, tol):
        raise Violation('{}: got {!r}, expected {!r}'.format(what, float(a), float(b)))


def scratch():
    d = os.environ.get('VF_SCRATCH')
    if not d:
        import tempfile
        d = tempfile.mkdtemp(prefix='vf.')
        os.environ['VF_SCRATCH'] = d
    return d
