"""Chosen schedules for the parallel loops of numba kernels and for the batches of joblib.

Must be imported before mizarlabs: the kernels are imported with a recording jit and a prange whose order can be chosen."""
import contextlib
import itertools
import sys
import numba
import numpy as np
from joblib import parallel_backend, register_parallel_backend
from joblib.parallel import ParallelBackendBase

LATE = any(m.startswith("mizarlabs.") for m in sys.modules)
PARALLEL, PLAN = set(), []
KERNELS = ("mizarlabs.transformers.targets.labeling", "mizarlabs.transformers.targets.trend_scanning", "mizarlabs.transformers.trading.bet_sizing",
           "mizarlabs.structural_breaks.sadf", "mizarlabs.structural_breaks.sdfc", "mizarlabs.structural_breaks.cusum_chu_stinchcome_white")


def recording(real):
    def jit(*a, **k):
        d = real(*a, **k)
        if a and callable(a[0]):
            return d
        return lambda f: (PARALLEL.add(f.__code__) if k.get("parallel") else None, d(f))[1]
    return jit


class Loop:
    """one execution of a parallel loop"""

    def __init__(self, frame, items):
        self.frame, self.items = frame, items
        self.writes, self.lines = {}, {}
        self.arrays = {}
        for v in frame.f_locals.values():
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
                self.arrays.setdefault(id(v), v)

    def state(self):
        return {k: (list(v.ravel()) if v.dtype == object else np.array(v).ravel()) for k, v in self.arrays.items()}

    def changed(self, old):
        out = {}
        for k, now in self.state().items():
            was = old[k]
            if isinstance(now, list):
                out.update({(k, c): v for c, (v, w) in enumerate(zip(now, was)) if v is not w})
            else:
                out.update({(k, int(c)): now[c] for c in np.flatnonzero([now[c].tobytes() != was[c].tobytes() for c in range(len(now))])})
        return out

    def put(self, cells):
        for (k, c), v in cells.items():
            a = self.arrays[k]
            a[np.unravel_index(c, a.shape)] = v

    def undo(self, old, cells):
        self.put({(k, c): old[k][c] for k, c in cells})


class Plan:
    """how the parallel loops of a computation run: in order, in another order, or (inside) one iteration while another is under way"""

    def __init__(self, order=None, inside=None):
        self.order, self.inside = order, inside
        self.loops, self.active, self.conflict = [], set(), False

    def run(self, frame, items):
        loop, number = Loop(frame, items), len(self.loops)
        self.loops.append(loop)
        n = len(items)
        if self.inside and self.inside[0] == number:
            yield from self.interleaved(loop, *self.inside[1:])
            return
        for k in (self.order(n) if self.order else range(n)):
            old = loop.state()
            with lines(frame, None) as seen:
                yield items[k]
            loop.writes[k], loop.lines[k] = loop.changed(old), seen[0]

    def interleaved(self, loop, k, j, at):
        """iteration k is under way at its line number at when iteration j runs as a whole"""
        done = False
        for i in range(len(loop.items)):
            if i not in (j, k):
                yield loop.items[i]
            elif not done:
                done = True
                old = loop.state()
                yield loop.items[j]
                w = loop.changed(old)
                loop.undo(old, w)
                with lines(loop.frame, lambda: loop.put(w), at):
                    yield loop.items[k]

    def races(self):
        """pairs of iterations that write the same cell, and the lines at which the one can be when the other runs"""
        out = []
        for x, loop in enumerate(self.loops):
            for j, k in itertools.permutations(list(loop.writes)[:4], 2):
                if set(loop.writes[j]) & set(loop.writes[k]):
                    out += [(x, k, j, p) for p in range(1, min(loop.lines[k], 24))]
        return out


@contextlib.contextmanager
def lines(frame, act, at=None):
    """counts the lines the frame runs, and acts at one of them"""
    seen = [0]

    def local(f, event, arg):
        if event == "line":
            seen[0] += 1
            if act is not None and seen[0] == at + 1:
                act()
        return local
    was, was_local = sys.gettrace(), frame.f_trace
    sys.settrace(lambda *a: None)
    frame.f_trace = local
    try:
        yield seen
    finally:
        sys.settrace(was)
        frame.f_trace = was_local


def prange(*args):
    items = range(*(int(a) for a in args))
    frame = sys._getframe(1)
    if not PLAN or frame.f_code not in PARALLEL or frame in PLAN[-1].active:
        return iter(items)              # not run in parallel (inner loops are not)
    return outer(PLAN[-1], frame, items)


def outer(plan, frame, items):
    plan.active.add(frame)
    try:
        yield from plan.run(frame, items)
    finally:
        plan.active.discard(frame)


def load():
    """imports the kernels with the stand-ins"""
    real = numba.jit, numba.njit
    numba.jit, numba.njit = recording(numba.jit), recording(numba.njit)
    numba.prange = prange
    try:
        for m in KERNELS:
            __import__(m)
    finally:
        numba.jit, numba.njit = real


@contextlib.contextmanager
def plan(order=None, inside=None):
    p = Plan(order, inside)
    PLAN.append(p)
    try:
        yield p
    finally:
        PLAN.pop()


class Later(ParallelBackendBase):
    """several jobs: batches wait until results are asked for and then run in a chosen order"""
    supports_sharedmem = uses_threads = True
    supports_retrieve_callback = False
    pick = staticmethod(lambda n: range(n))

    def effective_n_jobs(self, n_jobs):
        return n_jobs if n_jobs and n_jobs > 0 else 1

    def configure(self, n_jobs=1, parallel=None, **k):
        self.parallel, self.waiting = parallel, []
        return n_jobs

    def submit(self, func, callback=None):
        job = Job(self, func)
        self.waiting.append(job)
        if callback:
            callback(job)
        return job
    apply_async = submit

    def run_all(self):
        todo, self.waiting = self.waiting, []
        for i in type(self).pick(len(todo)):
            todo[i].out = todo[i].func()


class Job:
    out = None

    def __init__(self, backend, func):
        self.backend, self.func = backend, func

    def get(self, timeout=None):
        if self.out is None:
            self.backend.run_all()
        return self.out


register_parallel_backend("symx_later", Later)


@contextlib.contextmanager
def batches(n, pick):
    was, Later.pick = Later.pick, staticmethod(pick)
    try:
        with parallel_backend("symx_later", n_jobs=n):
            yield
    finally:
        Later.pick = was


load()
