"""Parallel exploration of all paths of a property's harnesses."""
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import deque

from . import engine
from .engine import Engine, PathEnd, Stats

PATH_LIMIT_S = 120


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


FUNCS = set()


def monitor(repo):
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    root = os.path.join(repo, "mizarlabs") + os.sep
    mon.use_tool_id(tid, "symx")

    def start(code, off):
        if code.co_filename.startswith(root) and "/tests/" not in code.co_filename and code.co_name != "<module>":
            FUNCS.add(code.co_filename[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


class Result:
    def __init__(self):
        self.stats = Stats()
        self.cex = []             # (case, msg, [assignments])
        self.inconclusive = []
        self.limits = []          # (case, text, [assignments])
        self.suspects = []        # (case, msg, [assignments]): no verdict
        self.timeouts = 0
        self.incomplete = 0
        self.witnesses = []       # (case, assignment, [more])
        self.completed = {}       # case -> completed paths
        self.reached = {}         # case -> checks reached
        self.funcs = set()

    def add(self, o):
        self.stats.add(o.stats)
        self.cex += o.cex
        self.inconclusive += o.inconclusive
        self.limits += o.limits
        self.suspects += o.suspects
        self.timeouts += o.timeouts
        self.incomplete += o.incomplete
        self.witnesses += o.witnesses
        for k, v in o.completed.items():
            self.completed[k] = self.completed.get(k, 0) + v
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.funcs |= o.funcs


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    own = [f for f in tb if "/mizarlabs/" in f.filename]
    f = (own or list(tb))[-1]
    return f"{type(exc).__name__}: {str(exc)[:160]} ({os.path.basename(f.filename)}:{f.lineno} {f.name})"


def run_path(case, prefix, res, rng, wit_p):
    """Run one path; returns the pending alternatives."""
    from .ctx import SymCtx
    eng = Engine(prefix, res.stats)
    engine.CUR = eng
    if case.feas_ms:
        eng.FEAS_MS = case.feas_ms
    ctx = SymCtx(eng)
    completed = False
    name = case.name
    signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)
    random.seed(0)
    try:
        try:
            case.fn(ctx, **case.params)
            completed = not eng.dead
        except PathEnd:
            pass
        except PathTimeout:
            res.timeouts += 1
        except RecursionError as e:
            res.limits.append((name, where(e), []))
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)
            if not eng.dead and len(eng.cex) == 0:
                text = where(e)
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exc()
                try:
                    m = eng.ensure_model()
                    n = sum(1 for c, t, _ in res.limits if c == name)
                    vs = eng.variants(m, n=8 if n < 2 else 2) if n < 10 else []
                    res.limits.append((name, text, vs))
                except PathEnd:
                    pass
            elif not eng.dead:
                pass
        if completed:
            try:
                signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)
                first = res.completed.get(name, 0) == 0
                if not eng.cex and (first or rng.random() < wit_p):
                    rb = eng.robust_model()
                    if rb is not None:
                        sd = None if rng.random() < .5 else rng.randrange(10 ** 6)
                        res.witnesses.append((name, eng.assignment(rb[0], rb[1], seed=sd), True))
                    else:
                        m = eng.ensure_model()
                        if m is not None:
                            res.witnesses.append((name, eng.assignment(m), False))
            except PathEnd:
                completed = False
    except PathTimeout:
        res.timeouts += 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        engine.CUR = None
    if completed:
        res.stats.paths += 1
        res.completed[name] = res.completed.get(name, 0) + 1
    if eng.reached:
        res.reached[name] = res.reached.get(name, 0) + eng.reached
    for msg, a in eng.cex:
        res.cex.append((name, msg, a))
    res.inconclusive += [(name, m) for m in eng.inconclusive]
    if len(res.suspects) < 40:
        res.suspects += [(name, m, a) for m, a in eng.suspects]
    res.incomplete += eng.incomplete
    return eng.pending


def worker(conn, cases, seed, wit_p):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import z3
    z3.set_param("memory_max_size", 3000)
    rng = random.Random(seed)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        ci, prefixes, slice_s = task
        res = Result()
        stack = list(prefixes)
        t0 = time.time()
        done = 0
        while stack and (done == 0 or time.time() - t0 < slice_s) and done < 400:
            p = stack.pop()
            stack.extend(run_path(cases[ci], p, res, rng, wit_p))
            done += 1
        res.funcs = set(FUNCS)
        conn.send((ci, stack, res))


class Explorer:
    def __init__(self, cases, seed=1, workers=8, wit_p=0.02):
        self.cases = cases
        ctx = mp.get_context("fork")
        self.conns, self.procs = [], []
        for w in range(workers):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b, cases, seed * 1000 + w, wit_p), daemon=True)
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)

    def run(self, budget_s, on_cex=None, max_cex=40):
        total = Result()
        t0 = time.time()
        queues = {i: deque([[]]) for i in range(len(self.cases))}
        spent = {i: 0.0 for i in queues}
        idle = list(self.conns)
        busy = {}
        crashed = 0
        self.left = {}
        stop = False
        while True:
            # hand out work, to the case that has had the least time (weighted)
            while idle and not stop:
                if time.time() - t0 > budget_s:
                    stop = True
                    break
                ready = [i for i in queues if queues[i]]
                if not ready:
                    break
                i = min(ready, key=lambda k: spent[k] / self.cases[k].weight)
                q = queues[i]
                n = max(1, min(8, len(q) // 16))
                batch = [q.popleft() for _ in range(min(n, len(q)))]
                c = idle.pop()
                # slices are short while there is little to share out
                c.send((i, batch, 0.15 if len(q) < 16 else 1.0))
                busy[c] = (i, time.time())
                spent[i] += 0.001
            if not busy:
                break
            for c in mp.connection.wait(list(busy), timeout=5):
                i, ts = busy.pop(c)
                try:
                    ci, rest, res = c.recv()
                except EOFError:
                    crashed += 1
                    total.timeouts += 1
                    continue
                spent[i] += time.time() - ts
                total.add(res)
                # depth first for late alternatives, breadth for sharing
                queues[i].extend(rest)
                idle.append(c)
            if len(total.cex) >= max_cex:
                stop = True
            if stop and not busy:
                break
            if time.time() - t0 > budget_s + 30:
                break
        self.left = {self.cases[i].name: len(q) for i, q in queues.items() if q}
        self.spent = {self.cases[i].name: round(s, 1) for i, s in spent.items()}
        self.crashed = crashed
        return total

    def close(self):
        for c in self.conns:
            try:
                c.send(None)
            except OSError:
                pass
        for p in self.procs:
            p.join(0.5)
            if p.is_alive():
                p.kill()
