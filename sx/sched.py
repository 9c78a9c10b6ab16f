"""Two threads whose interleaving is decided by symbolic variables.

Both threads are real ones, but only the one holding the baton runs.  Before
each statement of the code under test the running thread asks whether it has
to hand over (`decide`): in a symbolic run the answer is a decision of the
solver on the position of the context switch, in a replay the position found
by the solver is recognised by file, statement and number of its execution.
"""
import os
import sys
import ast
import threading

TOOL = 3
ROOT = os.path.join(os.path.abspath(os.environ.get("HICKLE_ROOT", "/repo")), "hickle") + os.sep
_STMTS = {}


def statements(filename):
    """line -> first line of the innermost simple statement (or header) holding it"""
    if filename not in _STMTS:
        lines = {}
        try:
            with open(filename, "rb") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if not isinstance(n, (ast.stmt, ast.excepthandler)):
                continue
            body = getattr(n, "body", None)
            last = n.end_lineno
            if isinstance(body, list) and body:
                last = max(n.lineno, body[0].lineno - 1)
            for i in range(n.lineno, last + 1):
                if lines.get(i, 0) < n.lineno:
                    lines[i] = n.lineno
        _STMTS[filename] = lines
    return _STMTS[filename]


class Stop(BaseException):
    """ends a thread whose path was given up"""


class Thread(threading.Thread):
    def __init__(self, sched, fn, name):
        super().__init__(daemon=True)
        self.sched, self.fn, self.label = sched, fn, name
        self.go = threading.Semaphore(0)
        self.over = False
        self.result, self.error = None, None
        self.steps = 0
        self.seen = {}
        self.last = {}
        self.levels = {}       # frame -> number of frames of the package it is nested in, itself included
        self.switched = False

    def run(self):
        self.go.acquire()
        try:
            if self.sched.stop is None:
                self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            self.over = True
            self.sched.events.release()


class Schedule:
    """first runs up to position s1, then second up to s2, then first to its end, then second to its end

    decide(name, n, where): hand over before step n, which is described by where?
    depth: only statements with at most that many frames of the package count as steps (0: all of them)
    """

    def __init__(self, decide, first, second, depth1=0, depth2=None, patience=None):
        self.decide = decide
        self.depth = {"s1": depth1, "s2": depth2}
        self.patience = patience
        self.stop = None
        self.events = threading.Semaphore(0)
        self.threads = [Thread(self, first, "s1"), Thread(self, second, "s2")]
        self.active = None

    # -- called by the running thread
    def step(self, code, line):
        t = threading.current_thread()
        if type(t) is not Thread or t.sched is not self:
            return
        if self.stop is not None:
            raise Stop()
        depth = self.depth[t.label]
        if t.switched or depth is None or all(o.over for o in self.threads if o is not t):
            return
        first = statements(code.co_filename).get(line, line)
        key = id(sys._getframe(2))
        if t.last.get(key) == first:
            return
        t.last[key] = first
        if depth and t.levels.get(key, 0) > depth:
            return
        pos = (code.co_filename[len(ROOT):], first)
        t.seen[pos] = t.seen.get(pos, 0) + 1
        n = t.steps
        t.steps += 1
        if self.decide(t.label, n, "%s:%d:%d" % (pos + (t.seen[pos],))):
            t.switched = True
            self.events.release()
            t.go.acquire()
            if self.stop is not None:
                raise Stop()

    def enter(self, code):
        t = threading.current_thread()
        if type(t) is Thread and t.sched is self:
            f = sys._getframe(2)
            t.last.pop(id(f), None)
            if self.depth[t.label]:
                key, n = id(f), 1
                f = f.f_back
                while f is not None and not f.f_code.co_filename.startswith(ROOT):
                    f = f.f_back
                if f is not None:
                    n += t.levels.get(id(f), 1)
                t.levels[key] = n

    # -- called by the main thread
    def resume(self, t):
        """let t run until it hands over or ends; False if it seems to wait for a lock"""
        if t.over:
            return True
        t.go.release()
        return self.events.acquire(timeout=self.patience)

    def run(self):
        global CURRENT
        CURRENT = self
        watch(True)
        a, b = self.threads
        try:
            for t in self.threads:
                t.start()
            order = [a, b, a, b]
            for t in order:
                if self.stop is None and not t.over and not self.resume(t):
                    # t waits for a lock held by the other one: go on with that one, t follows on its own
                    if t is b:
                        break
                self.fatal(t)
            for t in self.threads:
                while not t.over:
                    t.go.release()
                    t.join(0.05 if self.patience is None else self.patience)
        finally:
            watch(False)
            CURRENT = None
        for t in self.threads:
            t.join()
        if self.stop is not None:
            raise self.stop
        return a, b

    def fatal(self, t):
        from .engine import EngineControl
        if isinstance(t.error, EngineControl) and self.stop is None:
            self.stop = t.error


CURRENT = None


def _start(code, offset):
    if not code.co_filename.startswith(ROOT):
        return sys.monitoring.DISABLE
    if code not in _WATCHED:
        _WATCHED.add(code)
        sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.LINE)
    if CURRENT is not None:
        CURRENT.enter(code)


def _line(code, line):
    if CURRENT is not None:
        CURRENT.step(code, line)


_WATCHED = set()
_READY = False


def watch(on):
    global _READY
    mon = sys.monitoring
    if not _READY:
        mon.use_tool_id(TOOL, "sx")
        mon.register_callback(TOOL, mon.events.PY_START, _start)
        mon.register_callback(TOOL, mon.events.PY_RESUME, _start)
        mon.register_callback(TOOL, mon.events.LINE, _line)
        _READY = True
    mon.set_events(TOOL, mon.events.PY_START if on else 0)
