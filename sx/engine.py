"""Path explorer: re-execution depth-first symbolic execution over z3.

A scenario is an ordinary Python callable.  It is run again and again; every
time it needs the truth value of a symbolic condition the engine decides the
condition with the solver, follows one feasible side and queues the other.
The set of executed paths partitions the (bounded) input space of the
scenario, so when the queue runs empty every value of the symbolic inputs has
been covered and every `check` has been decided by the solver for all of them.
"""
import time
import z3


_PROBES = {}


def probes(sort):
    if sort not in _PROBES:
        if sort.kind() == z3.Z3_FLOATING_POINT_SORT:
            out = [z3.FPVal(v, sort) for v in (-20.25, 400.5, 0.1, 3.0)] + [z3.fpMinusZero(sort), z3.fpNaN(sort), z3.fpPlusInfinity(sort)]
        elif sort.kind() == z3.Z3_INT_SORT:
            out = [z3.IntVal(v) for v in (-1, 0, 1, 300, 2 ** 53 + 1, 2 ** 63, -2 ** 63 - 1, 10 ** 21, -10 ** 50, 10 ** 300)]
        elif sort.kind() == z3.Z3_BV_SORT:
            vals = (0x61, 0x2f, 0x5c, 0x30, 0x22, 0, 0xe9, 0x20, 0x20ac, 0x1f600, 0xfeff, 0x212b, 0x41, 0x130, 0x0a, 0x0d, 0xa0, 0x2028, 0xdf)
            out = [z3.BitVecVal(v, sort) for v in vals if v < 2 ** sort.size()]
        else:
            out = []
        _PROBES[sort] = out
    return _PROBES[sort]


def variables(expr, limit=200):
    """uninterpreted constants of expr, None if there are too many nodes"""
    out, todo, seen = {}, [expr], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if len(seen) > limit:
            return None
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[e.get_id()] = e
        else:
            todo.extend(e.children())
    return list(out.values())


class EngineControl(BaseException):
    """control flow of the engine, never to be swallowed by code under test"""


class PathAbort(EngineControl):
    """current path is infeasible or over budget"""


class Violation(EngineControl):
    """a check failed on the current path; carries the assignment"""

    def __init__(self, message):
        self.message = message


class Nondeterminism(EngineControl):
    pass


CURRENT = None


def engine():
    return CURRENT


class Event:
    __slots__ = ("expr", "forced")

    def __init__(self, expr, forced):
        self.expr = expr
        self.forced = forced


class Engine:
    def __init__(self, max_paths=200000, deadline=None, solver_timeout_ms=20000, max_depth=4000):
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_depth = max_depth
        self.stack = []            # pending prefixes (list of (value tuple), model or None)
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_time = 0.0
        self.checks_discharged = 0
        self.unknowns = 0
        self.incomplete = {}       # reason -> count
        self.exhausted = True
        self.probes_left = 90
        self._asserted = []        # exprs currently on the solver, one push level each
        self.executed = set()      # functions of the code under test entered (co_qualname)

    # ------------------------------------------------------------ solver
    def _check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def note_incomplete(self, reason):
        self.incomplete[reason] = self.incomplete.get(reason, 0) + 1

    # ------------------------------------------------------------ one path
    def _add(self, expr):
        """assert expr as event number self._pos of the current path"""
        pos = self._pos
        if pos < len(self._asserted):
            if self._asserted[pos].eq(expr):
                self._pos += 1
                return
            n = len(self._asserted) - pos
            self.solver.pop(n)
            del self._asserted[pos:]
        self.solver.push()
        self.solver.add(expr)
        self._asserted.append(expr)
        self._pos += 1

    def _sync(self):
        """drop solver levels beyond the current path position"""
        n = len(self._asserted) - self._pos
        if n:
            self.solver.pop(n)
            del self._asserted[self._pos:]

    def model(self):
        if self._model is None:
            self._sync()
            r = self._check()
            if r != z3.sat:
                raise PathAbort("no model (%s)" % r)
            self._model = self.solver.model()
        return self._model

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort("assumption false")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort("assumption false")
        if cond.get_id() in self._known:
            if self._known[cond.get_id()][1]:
                return
            raise PathAbort("assumption contradicts path")
        self._add(cond)
        self._remember(cond, True)
        if self._model is not None:
            if z3.is_true(self._model.eval(cond, model_completion=True)):
                return
            self._model = None
        if self._idx < len(self._prefix):
            return          # prefix replay, known feasible
        self._sync()
        r = self._check()
        if r == z3.unsat:
            raise PathAbort("assumption infeasible")
        if r == z3.unknown:
            self.note_incomplete("solver unknown on assumption")
            raise PathAbort("unknown")
        self._model = self.solver.model()

    def _remember(self, cond, value):
        # keep the expression alive so that its id stays unique
        self._known[cond.get_id()] = (cond, value)

    def branch(self, cond):
        """decide cond on the current path"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        known = self._known.get(cond.get_id())
        if known is not None:
            return known[1] ^ neg
        value = self._decide(cond)
        return value ^ neg

    def decide_fresh(self, cond):
        """branch on a condition which is in normal form and has not been decided before"""
        return self._decide(cond)

    def _decide(self, cond):
        if self._idx < len(self._prefix):
            value = self._prefix[self._idx]
            self._idx += 1
            self._trace.append(value)
            self._add(cond if value else z3.Not(cond))
            self._remember(cond, value)
            if self._idx == len(self._prefix):
                self._model = self._prefix_model
                if self._model is not None and not z3.is_true(
                        self._model.eval(cond if value else z3.Not(cond), model_completion=True)):
                    self._model = None
            return value
        if len(self._trace) >= self.max_depth:
            self.note_incomplete("path depth bound")
            raise PathAbort("depth")
        if self.deadline is not None and time.time() > self.deadline:
            self.exhausted = False
            raise PathAbort("deadline")
        model = self.model()
        value = z3.is_true(model.eval(cond, model_completion=True))
        mine = cond if value else z3.Not(cond)
        other = z3.Not(cond) if value else cond
        self._sync()
        r = self._check(other)
        self.decisions += 1
        if r == z3.sat:
            self.stack.append((tuple(self._trace) + (not value,), self.solver.model()))
        elif r == z3.unknown:
            self.note_incomplete("solver unknown on branch")
        self._trace.append(value)
        self._idx += 1
        self._prefix = self._trace    # keeps idx == len(prefix)
        self._add(mine)
        self._remember(cond, value)
        return value

    def concretize(self, expr, reason=None):
        """fix expr to one value allowed on the current path"""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr) or z3.is_bv_value(expr) or z3.is_true(expr) or z3.is_false(expr):
            return expr
        if self._idx < len(self._prefix):
            value = self._prefix[self._idx]
            self._idx += 1
            self._trace.append(value)
            if self._idx == len(self._prefix):
                self._model = self._prefix_model
        else:
            value = self.model().eval(expr, model_completion=True)
            self._trace.append(value)
            self._idx += 1
            self._prefix = self._trace
            if reason is not None and not self.implied(expr == value):
                self.note_incomplete(reason)
                self._probe(expr, value)
        self._add(expr == value)
        return value

    def _probe(self, expr, taken):
        """values are not covered exhaustively from here on: look at some more than one"""
        before = self._trace[:-1]
        if not z3.is_const(expr):
            # part of the encoding of something: the values which matter are those of the whole
            used = variables(expr)
            if used is not None and len(used) == 1 and used[0].sort().kind() == z3.Z3_BV_SORT:
                done = {taken.sexpr()}
                for v in probes(used[0].sort()):
                    if self.probes_left <= 0:
                        return
                    self._sync()
                    if self._check(used[0] == v) == z3.sat:
                        model = self.solver.model()
                        value = model.eval(expr, model_completion=True)
                        if value.sexpr() not in done:
                            done.add(value.sexpr())
                            self.probes_left -= 1
                            self.stack.append((tuple(before) + (value,), model))
                return
        for v in probes(expr.sort()):
            if self.probes_left <= 0:
                return
            if v.eq(taken):
                continue
            self._sync()
            if self._check(expr == v) == z3.sat:
                self.probes_left -= 1
                self.stack.append((tuple(before) + (v,), self.solver.model()))

    def witnesses(self, assignment):
        """assignments of some inputs which take the current path"""
        try:
            model = self.model()
        except PathAbort:
            return
        yield assignment()
        seen = set()
        for d in sorted(model.decls(), key=lambda d: d.name()):
            if d.arity():
                continue
            for v in probes(d.range()):
                self._sync()
                if self._check(d() == v) == z3.sat:
                    self._model = self.solver.model()
                    a = assignment()
                    if repr(a) not in seen:
                        seen.add(repr(a))
                        yield a

    def value_of(self, expr):
        return self.model().eval(expr, model_completion=True)

    def implied(self, cond):
        """does the path condition imply cond (no effect on the path)"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        self._sync()
        return self._check(z3.Not(cond)) == z3.unsat

    def valid(self, cond):
        """True if cond holds for every value on the current path.

        Otherwise the model of the path is replaced by a counterexample.
        """
        if cond is True:
            self.checks_discharged += 1
            return True
        if cond is False:
            self.model()
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.checks_discharged += 1
            return True
        self._sync()
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.checks_discharged += 1
            return True
        if r == z3.unknown:
            self.note_incomplete("solver unknown on check")
            return True
        self._model = self.solver.model()
        return False

    # ------------------------------------------------------------ driver
    def explore(self, run, on_path):
        """run(engine) once per path; on_path(outcome, engine) after each"""
        global CURRENT
        self.stack.append(((), None))
        while self.stack:
            if self.paths >= self.max_paths or (self.deadline is not None and time.time() > self.deadline):
                self.exhausted = False
                break
            prefix, pmodel = self.stack.pop()
            self._prefix = list(prefix)
            self._prefix_model = pmodel
            self._idx = 0
            self._trace = []
            self._known = {}
            self._pos = 0
            self._model = pmodel if not prefix else None
            CURRENT = self
            try:
                outcome = run(self)
            finally:
                CURRENT = None
            if outcome is None:
                continue
            self.paths += 1
            CURRENT = self
            try:
                stop = on_path(outcome, self)
            finally:
                CURRENT = None
            if stop:
                self.exhausted = False
                break
