"""Controlled execution of real code: line-level interleaving of threads and crash points.

A *point* is the execution of a source line in a chosen set of frames (sys.settrace).
"""
import os
import sys
import threading


def make_is_point(files=(), functions=()):
    """files: path suffixes (all their lines); functions: (path suffix, function name)"""
    cache = {}

    def is_point(code):
        r = cache.get(code)
        if r is None:
            fn = code.co_filename
            r = any(fn.endswith(s) for s in files) or any(
                fn.endswith(s) and code.co_name == f for s, f in functions
            )
            cache[code] = r
        return r

    return is_point


class Interleaver:
    """Runs functions in threads, exactly one at a time.  switches = [n0, n1, ...]: the
    first thread executes n0 points, then the next unfinished thread n1 points, ...; when
    the list is exhausted a thread runs until it finishes."""

    def __init__(self, funcs, switches, is_point, first=0, limit=20000000):
        self.funcs, self.switches, self.is_point = funcs, list(switches), is_point
        self.cond = threading.Condition()
        self.turn = first
        self.alive = set(range(len(funcs)))
        self.count = [0] * len(funcs)
        self.since = 0
        self.results = [None] * len(funcs)
        self.errors = [None] * len(funcs)
        self.limit = limit
        self.n_switch = 0

    def _next(self, tid):
        n = len(self.funcs)
        for d in range(1, n + 1):
            t = (tid + d) % n
            if t in self.alive:
                return t
        return None

    def point(self, tid):
        self.count[tid] += 1
        self.since += 1
        if self.switches and self.since > self.switches[0]:
            with self.cond:
                self.switches.pop(0)
                self.since = 0
                nxt = self._next(tid)
                if nxt != tid:
                    self.n_switch += 1
                    self.turn = nxt
                    self.cond.notify_all()
                    while self.turn != tid:
                        self.cond.wait()
                self.since = 1

    def _body(self, tid):
        with self.cond:
            while self.turn != tid:
                self.cond.wait()

        def local(frame, event, arg):
            if event == "line":
                self.point(tid)
            return local

        def glob(frame, event, arg):
            return local if self.is_point(frame.f_code) else None

        sys.settrace(glob)
        try:
            self.results[tid] = self.funcs[tid]()
        except BaseException as e:  # noqa: BLE001
            self.errors[tid] = e
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.discard(tid)
                if self.switches:
                    self.switches.pop(0)
                self.since = 0
                nxt = self._next(tid)
                if nxt is not None:
                    self.turn = nxt
                self.cond.notify_all()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.funcs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.results, self.errors


def count_points(func, is_point):
    it = Interleaver([func], [], is_point)
    it.run()
    if it.errors[0] is not None:
        raise it.errors[0]
    return it.count[0]


def crash_at(func, k, is_point):
    """Runs func in a forked child that dies without any cleanup just before its k-th
    point (k = 1, 2, ...).  -> "crash", "done" or "error" """
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            n = 0

            def local(frame, event, arg):
                nonlocal n
                if event == "line":
                    n += 1
                    if n == k:
                        os._exit(77)
                return local

            sys.settrace(lambda f, e, a: local if is_point(f.f_code) else None)
            try:
                func()
                rc = 0
            except BaseException:  # noqa: BLE001
                rc = 4
            finally:
                sys.settrace(None)
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    return {77: "crash", 0: "done", 4: "error"}.get(rc, f"rc{rc}")
