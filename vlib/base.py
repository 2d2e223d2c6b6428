"""Shared pieces of the checks: where the code under test is, bounded contract runs, containment."""
import contextlib
import importlib
import io
import os
import random
import shutil
import signal
import sys
import tempfile

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PYLIB = os.path.join(REPO, 'gyp', 'pylib')


def setup_path():
    if PYLIB not in sys.path: sys.path.insert(0, PYLIB)


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang()


@contextlib.contextmanager
def limit(secs):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Bounded:
    """The contract of a function run against the real code on stated inputs.

    cases(tier, rng): yields inputs (Python literals); run(x): None when the contract holds on x, else a message.
    bound: text stating what is covered."""

    def __init__(self, name, cases, run, bound, per=10.0, budget=(25, 240), nontrivial=None):
        self.name, self.cases, self.run, self.bound, self.per, self.budget = name, cases, run, bound, per, budget
        self.nontrivial = nontrivial or (lambda x: True)


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-')
    cwd = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def outcome(f, *a, **k):
    """('ok', value) or ('raise', class name)"""
    try:
        with quiet(): return ('ok', f(*a, **k))
    except Hang: raise
    except Exception as ex: return ('raise', type(ex).__name__, str(ex)[:200])


def diff(what, got, want):
    return None if got == want else "%s: got %r, wanted %r" % (what, got, want)
