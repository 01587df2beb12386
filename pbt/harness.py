"""What a property module uses: Violation, Check, the recording context, small assertion helpers."""
import contextlib
import hashlib
import io
import json
import math
import os
import shutil
import tempfile
import traceback

import boot


class Violation(Exception):
    """The property does not hold for the case being run."""


class Ctx:
    """Records what a case covered.  One per worker and check."""

    def __init__(self, findings=()):
        self.findings = set(findings)
        self.labels = {}
        self.known_hits = {}
        self._nontrivial = False
        self._excl = 0

    def begin(self):
        self._nontrivial = False
        self._case_labels = set()

    def label(self, name, cond=True):
        if cond:
            self._case_labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def known(self, fid, what):
        """A mismatch that matches the exact signature of a listed finding; not listed: violation."""
        if fid in self.findings:
            self.known_hits[fid] = self.known_hits.get(fid, 0) + 1
            return
        raise Violation('%s [signature %s, which the known-findings file does not list]' % (what, fid))


class Check:
    def __init__(self, name, strategy, run, quick, thorough, rule='', fixed=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.fixed = list(fixed)          # cases always run (JSON values), e.g. past failures


def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def need(d, key, what='result'):
    """Read an item of the code's output; its absence is a finding about the code."""
    try:
        return d[key]
    except (KeyError, IndexError, TypeError):
        raise Violation('%s has no item %r' % (what, key))


def finite(x, what):
    import numpy as np
    a = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(a)):
        raise Violation('%s is not finite: %s' % (what, brief(a)))
    return a


def brief(x, n=6):
    import numpy as np
    a = np.asarray(x).ravel()
    return '[' + ', '.join('%.9g' % v if isinstance(v, (float, np.floating)) else str(v) for v in a[:n]) + \
        (', ...' if a.size > n else '') + ']'


def close(a, b, what, rtol=1e-9, atol=1e-9, ctx=''):
    """|a-b| <= atol + rtol*max(|a|,|b|), elementwise, NaN never close."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            raise Violation('%s: shapes differ %s %s %s' % (what, a.shape, b.shape, ctx))
    ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    if not np.all(ok):
        i = int(np.argmin(ok.ravel()))
        raise Violation('%s: observed %.10g, expected %.10g at index %s of shape %s %s' % (
            what, a.ravel()[i], b.ravel()[i], np.unravel_index(i, a.shape) if a.shape else 0, a.shape, ctx))


def is_close(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def rejects(fn, what, kinds=(Exception,)):
    """fn must raise."""
    try:
        with quiet():
            r = fn()
    except kinds:
        return
    raise Violation('%s was accepted (returned %s) but must be rejected' % (what, str(r)[:80]))


@contextlib.contextmanager
def quiet():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


@contextlib.contextmanager
def scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='hlc_', dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


OF_REPO = (boot.PKG + os.sep, os.path.join(boot.REPO, 'notebook') + os.sep)


def from_repo(exc):
    """Did the exception come out of code of the repository?"""
    tb = exc.__traceback__
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(OF_REPO):
            return True
    return False


def run_case(chk, case, ctx):
    """Run one case; returns None, or the violation message."""
    ctx.begin()
    try:
        chk.run(case, ctx)
    except Violation:
        raise
    except Exception as e:     # noqa
        if type(e).__module__.startswith('hypothesis'):
            raise
        if from_repo(e):
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if os.path.abspath(f.filename).startswith(OF_REPO)][-1]
            raise Violation('the code raised %s: %s at %s:%s (%s) for an input it must handle' % (
                type(e).__name__, str(e)[:160], os.path.relpath(last.filename, boot.REPO), last.lineno, last.name)) from e
        if isinstance(e, (TypeError, ValueError, KeyError, IndexError, AttributeError, ArithmeticError)):
            # the oracle evaluates every result of the code as it stands; one it cannot evaluate has another form
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('the result has a form that cannot be evaluated (%s: %s at %s:%s)' % (
                type(e).__name__, str(e)[:160], os.path.basename(last.filename), last.lineno)) from e
        raise
