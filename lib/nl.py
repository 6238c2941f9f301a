"""The file that the solver process receives: a reader of AMPL's text format (.nl), and a stand-in for the
ipopt executable that records these files and writes the answers drawn for the case."""

from __future__ import annotations
import contextlib
import functools
import json
import math
import os
import shutil
import stat
import tempfile
import numpy as np
from .pbt import HarnessError, require

BINARY = {
    0: np.add, 1: np.subtract, 2: np.multiply, 3: np.divide, 5: np.power, 48: np.arctan2,
    20: np.logical_or, 21: np.logical_and, 22: np.less, 23: np.less_equal, 24: np.equal,
    28: np.greater_equal, 29: np.greater, 30: np.not_equal,
}
UNARY = {
    13: np.floor, 14: np.ceil, 34: np.logical_not,
    15: np.abs, 16: np.negative, 37: np.tanh, 38: np.tan, 39: np.sqrt, 40: np.sinh, 41: np.sin,
    42: np.log10, 43: np.log, 44: np.exp, 45: np.cosh, 46: np.cos, 47: np.arctanh, 49: np.arctan,
    50: np.arcsinh, 51: np.arcsin, 52: np.arccosh, 53: np.arccos,
}
SUM = 54
LISTS = {54: None, 11: np.minimum, 12: np.maximum}
IF = 35
PROBE = 987654321.0  # answers of the mode 'probe': distinct values, whatever the bounds


class Problem:
    """Contents of an .nl file."""

    def __init__(self, text):
        self.lines = [l.split("#")[0].strip() for l in text.splitlines()]
        if not text.startswith("g"):
            raise HarnessError("not a text .nl file")
        head = [[int(float(x)) for x in l.split()] for l in self.lines[1:10]]
        self.nvar, self.ncon, self.nobj, self.nrange, self.neq = head[0][:5]
        self.discrete = sum(head[5])
        self.functions = head[4][1]
        self.pos = 10
        self.defined = {}  # common expressions: {index: (linear part, tokens)}
        self.con, self.con_linear = {}, {i: {} for i in range(self.ncon)}
        self.obj, self.obj_linear = None, {}
        self.maximize = False
        self.start = np.full(self.nvar, np.nan)
        self.lower = np.full(self.nvar, -math.inf)
        self.upper = np.full(self.nvar, math.inf)
        self.con_lower = np.full(self.ncon, -math.inf)
        self.con_upper = np.full(self.ncon, math.inf)
        while self.pos < len(self.lines):
            l = self._next()
            if l:
                self._segment(l)
        del self.lines

    def _next(self):
        self.pos += 1
        return self.lines[self.pos - 1]

    def _pairs(self, n):
        return [(int(a), float(b)) for a, b in (self._next().split() for _ in range(n))]

    def _ranges(self, n, lower, upper):
        for i in range(n):
            w = self._next().split()
            k, x = int(w[0]), [float(v) for v in w[1:]]
            if k == 0:
                lower[i], upper[i] = x
            elif k == 1:
                upper[i] = x[0]
            elif k == 2:
                lower[i] = x[0]
            elif k == 4:
                lower[i] = upper[i] = x[0]
            elif k != 3:
                raise HarnessError(f"range kind {k}")

    def _segment(self, l):
        k, w = l[0], l[1:].split()
        if k == "V":
            linear = self._pairs(int(w[1]))
            self.defined[int(w[0])] = (dict(linear), self._expression())
        elif k == "C":
            self.con[int(w[0])] = self._expression()
        elif k == "O":
            if self.obj is not None:
                raise HarnessError("several objectives")
            self.maximize = bool(int(w[1]))
            self.obj = self._expression()
        elif k == "x":
            for i, v in self._pairs(int(w[0])):
                self.start[i] = v
        elif k == "d":
            self._pairs(int(w[0]))
        elif k == "r":
            self._ranges(self.ncon, self.con_lower, self.con_upper)
        elif k == "b":
            self._ranges(self.nvar, self.lower, self.upper)
        elif k == "k":
            for _ in range(int(w[0])):
                self._next()
        elif k == "J":
            self.con_linear[int(w[0])] = dict(self._pairs(int(w[1])))
        elif k == "G":
            self.obj_linear = dict(self._pairs(int(w[1])))
        elif k == "S":
            self._pairs(int(w[1]))
        else:
            raise HarnessError(f"segment {l!r}")

    def _expression(self):
        """Tokens of one expression in prefix notation: ('n', value), ('v', index), ('o', code, arity)."""
        out, open_ = [], 1
        while open_:
            l = self._next()
            open_ -= 1
            k = l[0]
            if k == "n":
                out.append(("n", float(l[1:])))
            elif k in "sl":
                out.append(("n", float(l[1:])))
            elif k == "v":
                out.append(("v", int(l[1:])))
            elif k == "o":
                code = int(l[1:])
                arity = 2 if code in BINARY else 1 if code in UNARY else None
                if code in LISTS:
                    arity = int(self._next())
                elif code == IF:
                    arity = 3
                if arity is None:
                    raise HarnessError(f"operation {l}")
                out.append(("o", code, arity))
                open_ += arity
            else:
                raise HarnessError(f"expression {l!r}")
        return out

    def evaluator(self, x):
        """x: array (nvar, points). Returns f(tokens, linear)."""
        values = {}

        def run(tokens, linear):
            stack = []
            for t in reversed(tokens):
                if t[0] == "n":
                    stack.append(t[1])
                elif t[0] == "v":
                    stack.append(x[t[1]] if t[1] < self.nvar else values[t[1]])
                elif t[1] == SUM:
                    s = 0.0
                    for _ in range(t[2]):
                        s = s + stack.pop()
                    stack.append(s)
                elif t[1] in LISTS:
                    stack.append(functools.reduce(LISTS[t[1]], [stack.pop() for _ in range(t[2])]))
                elif t[1] == IF:
                    c, a, b = stack.pop(), stack.pop(), stack.pop()
                    stack.append(np.where(c, a, b))
                elif t[2] == 2:
                    a, b = stack.pop(), stack.pop()
                    stack.append(BINARY[t[1]](a, b))
                else:
                    stack.append(UNARY[t[1]](stack.pop()))
            (s,) = stack
            for i, c in linear.items():
                s = s + c * x[i]
            return s

        for k in sorted(self.defined):
            values[k] = run(self.defined[k][1], self.defined[k][0])
        return run

    def singular(self, x):
        """Names of operations of the objective without a first or second derivative in the unknowns at a
        column of x, as AMPL's library evaluates them: it reports an error and ipopt gives up."""
        found, defined = [], {}

        def power(a, b, dep_a, dep_b):
            a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
            if dep_b:
                return (a <= 0).any()
            odd = b != np.round(b)
            return dep_a and (((a < 0) & odd) | ((a == 0) & (b < 2) & (b != 0) & (b != 1))).any()

        def run(tokens, linear):
            stack = []  # (value, depends on the unknowns)
            for t in reversed(tokens):
                if t[0] == "n":
                    stack.append((t[1], False))
                elif t[0] == "v":
                    stack.append((x[t[1]], True) if t[1] < self.nvar else defined[t[1]])
                else:
                    args = [stack.pop() for _ in range(t[2])]
                    v, dep = [a[0] for a in args], any(a[1] for a in args)
                    if t[1] == SUM:
                        r = sum(v, 0.0)
                    elif t[1] in LISTS:
                        r = functools.reduce(LISTS[t[1]], v)
                    elif t[1] == IF:
                        r = np.where(v[0], v[1], v[2])
                    else:
                        r = (BINARY if t[2] == 2 else UNARY)[t[1]](*v)
                    if dep:
                        first = np.asarray(v[0], float)
                        if t[1] == 39 and (first <= 0).any():
                            found.append("sqrt")
                        elif t[1] in (42, 43) and (first <= 0).any():
                            found.append("log")
                        elif t[1] == 3 and (np.asarray(v[1], float) == 0).any():
                            found.append("/")
                        elif t[1] == 5 and power(*v, args[0][1], args[1][1]):
                            found.append("power")
                    stack.append((r, dep))
            ((r, dep),) = stack
            for i, c in linear.items():
                r, dep = r + c * x[i], True
            return r, dep

        with np.errstate(all="ignore"):
            for k in sorted(self.defined):
                defined[k] = run(self.defined[k][1], self.defined[k][0])
            run(self.obj, self.obj_linear)
        return found

    def objective(self, x):
        v = self.evaluator(x)(self.obj, self.obj_linear)
        return np.broadcast_to(-v if self.maximize else v, x.shape[1:])

    def residuals(self, x):
        """Violation of each constraint, array (ncon, points)."""
        f = self.evaluator(x)
        out = np.zeros((self.ncon,) + x.shape[1:])
        for i in range(self.ncon):
            v = f(self.con.get(i, [("n", 0.0)]), self.con_linear[i])
            out[i] = np.maximum(np.maximum(self.con_lower[i] - v, v - self.con_upper[i]), 0.0)
        return out

    def tied(self):
        """Variables with a non-zero coefficient in a linear constraint."""
        return sorted({i for c in self.con_linear.values() for i, a in c.items() if a})


SCRIPT = r'''#!PYTHON -IS
import sys, os, json
if len(sys.argv) > 1 and sys.argv[1] == "-v":
    print("Ipopt 3.14.0 (stand-in), ASL(20210000)")
    sys.exit(0)
d = os.path.dirname(os.path.abspath(__file__))
with open(d + "/plan.json") as f:
    plan = json.load(f)
n = len([x for x in os.listdir(d) if x.endswith(".nl")])
source = sys.argv[1]
if not os.path.exists(source):
    source += ".nl"
with open(source) as f:
    text = f.read()
with open(d + "/%06d.nl" % n, "w") as f:
    f.write(text)
with open(d + "/arguments", "a") as f:
    f.write(json.dumps(sys.argv[2:]) + "\n")
lines = text.splitlines()
nvar, ncon = [int(x) for x in lines[1].split()[:2]]
if nvar == 0 or int(lines[1].split()[4]) > nvar:
    print("TOO_FEW_DEGREES_OF_FREEDOM: Exception of type: TOO_FEW_DOF in file: stand-in")
    sys.exit(0)
mode = plan["modes"].get(str(n), plan["default"])
if mode == "crash":
    sys.exit(7)
import random
r = random.Random(plan["salt"] * 1000 + n)
start, lo, hi, tied = [0.0] * nvar, [-1e300] * nvar, [1e300] * nvar, set()
i = 10
while i < len(lines):
    l = lines[i].split("#")[0].strip()
    i += 1
    if l[:1] == "x":
        for j in range(int(l[1:])):
            a, b = lines[i + j].split()
            start[int(a)] = float(b)
        i += int(l[1:])
    elif l[:1] == "b":
        for j in range(nvar):
            w = lines[i + j].split()
            if w[0] in "04":
                lo[j], hi[j] = float(w[1]), float(w[-1])
            elif w[0] == "1":
                hi[j] = float(w[1])
            elif w[0] == "2":
                lo[j] = float(w[1])
        i += nvar
    elif l[:1] == "J":
        k, m = [int(x) for x in l[1:].split()]
        for j in range(m):
            a, b = lines[i + j].split()
            if float(b):
                tied.add(int(a))
        i += m
    elif l[:1] == "G":
        i += int(l[1:].split()[1])
    elif l[:1] == "k":
        i += int(l[1:])
answer = []
for j in range(nvar):
    z = plan["amplitude"] * r.uniform(-1, 1)
    x = start[j] + z
    if not lo[j] < x < hi[j]:
        x = start[j] - z
    if j in tied or not lo[j] < x < hi[j]:
        x = start[j]
    if lo[j] == 0.0 and j not in tied and r.random() < plan["cold"]:
        # the bound is active; ipopt 3.14 solves with bounds relaxed by 1e-8 unless told otherwise,
        # and only projects its answer on request
        honest = {"honor_original_bounds=yes", "bound_relax_factor=0", "bound_relax_factor=0.0"}
        x = 0.0 if honest & set(sys.argv[2:]) else r.uniform(-1e-8, 1e-9)
    if mode == "probe":
        x = plan["probe"] + j
    answer.append(x)
with open(d + "/%06d.json" % n, "w") as f:
    json.dump(answer, f)
code = 500 if mode == "error" else 0
stub = sys.argv[1][:-3] if sys.argv[1].endswith(".nl") else sys.argv[1]
with open(stub + ".sol", "w") as f:
    f.write("\nIpopt 3.14: stand-in\n\nOptions\n3\n1\n1\n0\n%d\n%d\n%d\n%d\n" % (ncon, ncon, nvar, nvar))
    for _ in range(ncon):
        f.write("0.0\n")
    for x in answer:
        f.write("%r\n" % x)
    f.write("objno 0 %d\n" % code)
'''


class Process:
    """The scratch directory of a stand-in executable."""

    def __init__(self, directory):
        self.directory = directory
        path = os.path.join(directory, "ipopt")
        with open(path, "w", encoding="utf-8") as f:
            f.write(SCRIPT.replace("PYTHON", "/opt/venv/bin/python"))
        os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        self.plan(0, 0.0, {})

    def plan(self, salt, amplitude, modes, default="answer", cold=0.0):
        """modes: {number of the solve: 'answer' | 'probe' | 'crash' | 'error'}; cold: how many of the
        unknowns with lower bound zero are answered at that bound, up to the tolerance of ipopt"""
        with open(os.path.join(self.directory, "plan.json"), "w", encoding="utf-8") as f:
            json.dump({"salt": salt, "amplitude": amplitude, "modes": modes, "default": default, "cold": cold,
                "probe": PROBE}, f)

    def count(self):
        return len([x for x in os.listdir(self.directory) if x.endswith(".nl")])

    def received(self, n):
        """The problem of the n-th solve, and the answer given (None: it failed)."""
        stub = os.path.join(self.directory, f"{n:06d}")
        with open(stub + ".nl", encoding="utf-8") as f:
            p = Problem(f.read())
        if not os.path.exists(stub + ".json"):
            return p, None
        with open(stub + ".json", encoding="utf-8") as f:
            return p, np.array(json.load(f), float)


@contextlib.contextmanager
def process():
    """pyomo's own interface to ipopt with a stand-in executable, for the duration of the context."""
    from pyomo.common import Executable
    from pyomo.opt import SolverFactory
    from pyomo.solvers.plugins.solvers.IPOPT import IPOPT
    from . import model

    directory = tempfile.mkdtemp(prefix="verif-ipopt-")
    path = os.environ.get("PATH", "")
    os.environ["PATH"] = directory + os.pathsep + path
    try:
        p = Process(directory)
        Executable("ipopt").rehash()
        if Executable("ipopt").path() != os.path.join(directory, "ipopt"):
            raise HarnessError("the stand-in executable is not found")
        SolverFactory.register("ipopt", doc="The Ipopt NLP solver")(IPOPT)
        yield p
    finally:
        os.environ["PATH"] = path
        Executable("ipopt").rehash()
        model.install()
        shutil.rmtree(directory, ignore_errors=True)


def check_acceptable(p, what):
    """What ipopt demands of a problem."""
    require(p.nvar >= 1, "%s has no unknowns", what)
    require(
        p.neq <= p.nvar, "%s has %d equations for %d unknowns, ipopt rejects it", what, p.neq, p.nvar
    )
    require(p.discrete == 0, "%s has discrete unknowns", what)
    require(p.functions == 0, "%s uses external functions", what)
    require(p.nobj == 1 and p.obj is not None, "%s has %d objectives", what, p.nobj)
    require(not np.isnan(p.start).any(), "%s has unknowns without a starting value", what)
    bad = p.singular(p.start[:, None])
    require(
        not bad, "%s: the objective has no derivatives at the start, ipopt cannot evaluate %s (%d times)", what,
        bad[:1], len(bad),
    )
