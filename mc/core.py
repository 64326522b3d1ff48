"""Explorer and bookkeeping shared by all checks.

A check is a list of *jobs* (picklable tuples); every job explores a finite set of
executions of the real code completely and returns a Report.  Jobs run in forked
workers; their reports are merged in job order, so a run is deterministic.
"""
import copy
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import numpy as np

REPO = os.path.realpath(os.environ.get('VP_REPO', '/repo'))
FAILFAST = bool(os.environ.get('VP_FAILFAST'))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = 0
        self.counts = {}
        self.samples = []
        self.violations = []
        self.notes = []

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def state(self, *arrays):
        self.states.add(digest(*arrays))

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violate(self, what, case, **detail):
        """what: one-line description; case: everything needed to replay it"""
        if len(self.violations) < 20:
            self.violations.append(dict(what=what, case=case, **detail))
        else:
            self.count('violations_not_listed')

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.evaluations += o.evaluations
        self.nontrivial += o.nontrivial
        for k, v in o.counts.items():
            self.count(k, v)
        for s in o.samples:
            self.sample(s, 12)
        self.violations += o.violations
        self.notes += o.notes


def digest(*arrays):
    h = hashlib.blake2b(digest_size=10)
    for a in arrays:
        if a is None:
            h.update(b'-')
        else:
            h.update(np.ascontiguousarray(np.round(np.asarray(a, dtype=float), 10) + 0.).tobytes())
    return h.digest()


class HarnessError(Exception):
    pass


def from_repo(exc):
    """True when the exception was raised while the code under test was running.

    The frame nearest to the raise that belongs to either side decides: code under
    test (or a library called by it) -> behaviour; harness -> our own error."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        # frames of compiled modules carry relative names ('pandas/_libs/..', '<string>')
        fn = os.path.realpath(fn) if os.path.isabs(fn) else ''
        if fn.startswith(REPO + os.sep):
            last = 'repo'
        elif fn.startswith(HERE + os.sep):
            last = 'verif'
        tb = tb.tb_next
    return last == 'repo'


def _guarded(args):
    fn, job = args
    try:
        r = fn(*job)
        return r
    except Exception as e:       # noqa: BLE001
        r = Report()
        text = traceback.format_exc()
        if from_repo(e):
            r.violate('unexpected %s: %s' % (type(e).__name__, str(e)[:200]), case=repr(job)[:2000], traceback=text[-3000:])
        else:
            r.notes.append('HARNESS ' + text)
        return r


def run_jobs(fn, jobs, procs=None):
    """Run fn(*job) for every job in forked workers; merged report."""
    procs = procs or int(os.environ.get('VP_PROCS', '8'))
    total = Report()
    jobs = list(jobs)
    if procs == 1 or len(jobs) == 1:
        for j in jobs:
            total.merge(_guarded((fn, j)))
            if FAILFAST and total.violations:
                break
        return total
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(jobs))) as pool:
        for r in pool.imap(_guarded, [(fn, j) for j in jobs], chunksize=1):
            total.merge(r)
            if FAILFAST and total.violations:       # mutation runs only: leave the rest out
                break
    return total


# ------------------------------------------------------------------ snapshots
def snap(obj):
    """Copy of the complete mutable state of a model (arrays, dicts of arrays, counters)."""
    return {k: _cp(v) for k, v in obj.__dict__.items()}


def _cp(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: _cp(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_cp(x) for x in v]
    if hasattr(v, 'tocsr') and hasattr(v, 'copy'):
        return v.copy()
    return v


def restore(obj, s):
    obj.__dict__.clear()
    obj.__dict__.update({k: _cp(v) for k, v in s.items()})


def explore(obj, actions, apply, depth, visit, rep, prefix=(), enabled=None):
    """All action sequences up to `depth` from the current state of obj, by
    depth-first search with snapshots.  visit(obj, before, history) judges every
    transition and returns False to prune below it."""
    def rec(hist):
        if len(hist) >= depth:
            rep.traces += 1
            return
        base = snap(obj)
        acts = actions if enabled is None else enabled(obj, hist)
        for a in acts:
            restore(obj, base)
            before = base
            h = hist + (a,)
            out = apply(obj, a)
            rep.transitions += 1
            if visit(obj, before, h, out) is False:
                rep.traces += 1
                continue
            rec(h)
        restore(obj, base)
    rec(tuple(prefix))


def close(a, b, rtol, atol):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def jsonable(x):
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, float) and not np.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)
