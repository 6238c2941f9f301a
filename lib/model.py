"""Driving the posed optimisation problems without a solver.

The package obtains its solver from pyomo's SolverFactory("ipopt"); the sandbox has no ipopt.
`install()` registers a scripted solver under that name.  It receives the very model ipopt would
receive, lets a callback observe it and assign the variables, and reports success.
"""

from __future__ import annotations
import logging
import math
import numpy as np
import pyomo.environ as pyo
from pyomo.core.expr.numvalue import value as pyo_value
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
from pyomo.opt import SolverFactory as OptSolverFactory
from .pbt import HarnessError, Violation, require


def _results():
    r = SolverResults()
    r.solver.status = SolverStatus.ok
    r.solver.termination_condition = TerminationCondition.optimal
    return r


# values outside the bounds are assigned on purpose when probing
logging.getLogger("pyomo").setLevel(logging.ERROR)


class Scripted:
    """A stand-in for ipopt: `handler(model)` observes the problem and assigns the variables."""

    def __init__(self, handler=None):
        self.handler = handler
        self.options = {}

    def solve(self, model, *args, **kwds):
        if self.handler is None:
            raise HarnessError("solve called without a handler")
        self.handler(model)
        return _results()

    def available(self, *args, **kwds):
        return True

    def __bool__(self):
        return True


CONTROLLER = {"handler": None}


class _Registered:
    """What SolverFactory('ipopt') creates while installed."""

    def __init__(self, **kwds):
        self.options = {}
        self.kwds = kwds

    def solve(self, model, *args, **kwds):
        h = CONTROLLER["handler"]
        if h is None:
            raise HarnessError("the scripted ipopt was called without a handler")
        h(model)
        return _results()

    def available(self, *args, **kwds):
        return True

    def license_is_valid(self):
        return True

    def version(self):
        return (3, 14, 0)


def install():
    OptSolverFactory.register("ipopt", doc="scripted stand-in")(_Registered)
    require_registered = pyo.SolverFactory("ipopt")
    if not isinstance(require_registered, _Registered):
        raise HarnessError("could not register the scripted solver")


install()


# ---------------------------------------------------------------- reading the posed problem
def _is_expr(e):
    return hasattr(e, "is_expression_type") and e.is_expression_type()


class Tape:
    """A pyomo expression as a list of operations; shared subexpressions occur once.

    Values of variables and parameters are read anew at every evaluation. `fixed` tells whether the
    structure cannot change between evaluations (no named subexpressions).
    """

    def __init__(self, expr):
        self.root = expr
        self.fixed = True
        self.keep = []  # nodes and argument lists, so that ids stay unique
        self.leaves = []  # (position, leaf)
        self.constants = []
        self.ops = []  # (position, operation, argument positions)
        position = {}
        args_of = {}
        stack = [expr]
        n = 0
        while stack:
            e = stack[-1]
            k = id(e)
            if k in position:
                stack.pop()
                continue
            held = args_of.get(k)
            if held is not None:
                stack.pop()
                position[k] = n
                self.ops.append((n, e._apply_operation, [position[id(a)] for a in held]))
                n += 1
                continue
            if not _is_expr(e):
                stack.pop()
                self.keep.append(e)
                position[k] = n
                if e.__class__ in (float, int):
                    self.constants.append((n, e))
                else:
                    self.leaves.append((n, e))
                n += 1
                continue
            if e.is_named_expression_type():
                self.fixed = False
            held = list(e.args)
            self.keep.append(held)
            self.keep.append(e)
            args_of[k] = held
            for a in held:
                if id(a) not in position:
                    stack.append(a)
        self.size = n
        self.end = position[id(expr)]

    def __call__(self):
        v = [0.0] * self.size
        for n, c in self.constants:
            v[n] = c
        for n, leaf in self.leaves:
            v[n] = pyo_value(leaf)
        for n, op, args in self.ops:
            v[n] = op([v[a] for a in args])
        return v[self.end]


_tapes: dict[int, Tape] = {}


def evaluate(expr):
    """Value of a pyomo expression."""
    t = _tapes.get(id(expr))
    if t is None or t.root is not expr:
        t = Tape(expr)
        if t.fixed and t.size > 50:
            while len(_tapes) >= 6:
                del _tapes[next(iter(_tapes))]
            _tapes[id(expr)] = t
    return t()


def objective_of(model):
    objs = list(model.component_data_objects(pyo.Objective, active=True, descend_into=True))
    require(len(objs) == 1, "the problem has %d active objectives, expected one", len(objs))
    return objs[0]


def objective_value(model):
    """Objective as minimised, at the current variable values."""
    o = objective_of(model)
    try:
        v = evaluate(o.expr)
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        raise Violation(f"the objective cannot be evaluated at an admissible state: {e}") from e
    v = float(v)
    return v if o.sense == pyo.minimize else -v


def variables_of(model):
    return list(model.component_data_objects(pyo.Var, active=True, descend_into=True))


def constraints_of(model):
    return list(model.component_data_objects(pyo.Constraint, active=True, descend_into=True))


def constraint_residual(c):
    """Violation of one constraint at the current values."""
    b = float(evaluate(c.body)) if not isinstance(c.body, (int, float)) else float(c.body)
    r = 0.0
    if c.lower is not None:
        r = max(r, float(pyo_value(c.lower)) - b)
    if c.upper is not None:
        r = max(r, b - float(pyo_value(c.upper)))
    return r


def bounds_of(var):
    lo = var.lb
    hi = var.ub
    lo = -math.inf if lo is None else float(lo)
    hi = math.inf if hi is None else float(hi)
    return lo, hi


PROBE = 987654321.0


class Problem:
    """A step object driven through its public interface, with its posed problem made observable.

    Which variable is which degree of freedom is found by probing: distinct values are assigned to
    the variables during solve() and read back through the step's own accessor.
    """

    def __init__(self, make, read, idle=False):
        """make(solver) -> step; read(step) -> array of the step's unknowns (y or theta); idle: the
        step has nothing to determine, so that it need not pose a problem."""
        self.solver = Scripted()
        self.read = read
        self.model = None
        self.idle = idle
        self.calls = 0  # problems handed to the solver
        self.shape = None
        self.step = make(self.solver)
        self.slot = None  # list of (var, flat index into read(step))

    def _capture(self, model):
        self.model = model
        self.calls += 1

    def capture(self):
        """Let the step pose its current problem; leaves every variable as posed."""
        self.solver.handler = self._capture
        self._solve()
        return self.model

    def _solve(self):
        n = self.calls
        self.step.solve()
        require(self.calls > n or self.idle, "solve() did not hand a problem to the solver")

    def posed(self):
        """Whether the step has handed a problem to the solver."""
        return self.model is not None

    def solve_with(self, assign):
        """step.solve() with assign(model) choosing the result."""

        def handler(model):
            self._capture(model)
            assign(model)

        self.solver.handler = handler
        self._solve()

    def probe(self):
        """Find the degree of freedom of each variable (keeps the values as they were)."""
        model = self.capture()
        if model is None:
            self.shape = np.shape(self.read(self.step))
            self.slot = []
            return self
        variables = variables_of(model)
        old = [v.value for v in variables]
        was = np.asarray(self.read(self.step), float)
        for n, v in enumerate(variables):
            v.set_value(PROBE + n, skip_validation=True)
        flat = np.asarray(self.read(self.step), float).ravel()
        for v, o in zip(variables, old):
            v.set_value(o, skip_validation=True)
        index = {}
        for n, x in enumerate(flat):
            k = round(x - PROBE) if math.isfinite(x) else -1
            if 0 <= k < len(variables) and x == PROBE + k:
                require(k not in index, "the step reports an unknown of the solver twice")
                index[k] = n
            else:  # held fixed without being an unknown of the solver
                require(x == was.ravel()[n], "the step's result is not what the solver returned")
        require(
            len(index) == len(variables), "the step's result does not report all unknowns of the solver"
        )
        self.shape = was.shape
        self.slot = [(v, index[k]) for k, v in enumerate(variables)]
        return self

    def assign(self, array):
        flat = np.asarray(array, float).ravel()
        for v, n in self.slot:
            v.set_value(float(flat[n]), skip_validation=True)

    def start(self):
        """Starting guess, as array of the reported shape."""
        out = self.base() if self.read is None else np.array(self.read(self.step), float)
        out = out.ravel()
        for v, n in self.slot:
            require(v.value is not None, "a variable has no starting value")
            out[n] = v.value
        return out.reshape(self.shape)

    def bounds(self):
        lo = np.zeros(int(np.prod(self.shape)))
        hi = np.zeros(int(np.prod(self.shape)))
        for v, n in self.slot:
            lo[n], hi[n] = bounds_of(v)
        return lo.reshape(self.shape), hi.reshape(self.shape)

    def fixed(self):
        if not self.posed():
            return np.ones(self.shape, bool)
        out = np.ones(int(np.prod(self.shape)), bool)
        for v, n in self.slot:
            out[n] = bool(v.fixed)
        return out.reshape(self.shape)

    def objective_at(self, array):
        if not self.posed():
            return 0.0  # nothing to minimise
        old = [v.value for v, _ in self.slot]
        self.assign(array)
        try:
            return objective_value(self.model)
        finally:
            for (v, _), o in zip(self.slot, old):
                v.set_value(o, skip_validation=True)


def close(a, b, scale, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= rel * scale + abs_
