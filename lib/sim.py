"""Whole simulations driven by a scripted solver, next to a model of the recorded history."""

from __future__ import annotations
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from . import gen, model, ref, steps
from .model import CONTROLLER, Problem
from .pbt import Violation, require, HarnessError


class SolverFailure(Exception):
    """What an injected failure raises."""


class ValueFailure(SolverFailure, ValueError):
    """What pyomo raises for a problem or result it cannot use."""


class RuntimeFailure(SolverFailure, RuntimeError):
    """What pyomo raises for an infeasible problem."""


class ArithmeticFailure(SolverFailure, ZeroDivisionError):
    pass


class OSFailure(SolverFailure, OSError):
    pass


FAILURES = [SolverFailure, ValueFailure, RuntimeFailure, ArithmeticFailure, OSFailure]


def cases(max_n=3, max_cells=6, reg=False, forcing=False, scale=None, wide=True):
    """Keys of a simulation case."""
    d = steps.meshes(max_n, max_cells, variants=False, reg=reg, scale=scale)
    d.pop("variant", None)
    d["theta0"] = gen.initial_temperatures()
    d["fps"] = gen.fps_values()
    # a small radius only allows a wobble around the reference, a large one everything
    d["radius"] = st.sampled_from(["small", "large"] if wide else ["small"])
    d["salt"] = gen.salts()
    if forcing and not reg:
        d["traction"] = steps.tractions()
        d["external"] = steps.externals()
    return d


class World:
    """Inputs of a simulation, and the answers its solver gives, as functions of the case."""

    def __init__(self, case):
        self.case = case
        c = dict(case)
        self.mesh = m = steps.Mesh(c)
        self.fps = case["fps"][0] / case["fps"][1]
        self.theta0 = case["theta0"] / 100
        size = float(np.max(np.abs(m.points)))
        self.wide = case["radius"] == "large"
        self.radius = (10.0 * (size + m.h) + 10.0 + 100.0 / m.h**2) if self.wide else 0.25 * m.h
        self.theta_radius = self.radius
        self.traction = steps.traction_function(case.get("traction"))
        self.external = steps.external_function(case.get("external"))
        # without forcing, the default arguments of Simulation are used
        self.has_forcing = case.get("traction") is not None or case.get("external") is not None
        self._answers = {}

    # -------------------------------------------------- construction
    def params(self):
        from tvemoves_rufbad.simulation import SimulationParams

        m = self.mesh
        return SimulationParams(
            initial_temperature=self.theta0,
            search_radius=self.radius,
            fps=self.fps,
            scale=m.h,
            regularization=m.reg,
            refinement_factor=self.case["k"] if m.reg is not None else None,
        )

    def simulation(self, domain=None, params=None, traction=None, external=None):
        from tvemoves_rufbad.simulation import Simulation

        domain = domain if domain is not None else self.mesh.domain
        params = params if params is not None else self.params()
        if not self.has_forcing and traction is None and external is None:
            return Simulation(domain, params)
        return Simulation(
            domain, params,
            external_temperature=external or self.external,
            boundary_traction=traction or self.traction,
        )

    # -------------------------------------------------- mapping of variables to degrees of freedom
    def learn(self):
        """Find which variable is which degree of freedom.

        Two step objects are posed for the same mesh and probed through their accessors; their
        variables are listed in the same order as those of the simulation's problems.
        """
        from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
        from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

        m = self.mesh
        zero = lambda t, x, y: [0.0, 0.0]
        mech = Problem(
            lambda s: mechanical_step(
                s, m.grid, MechanicalStepParams(self.theta0, self.radius, self.fps, m.reg),
                m.refined, zero,
            ),
            lambda step: step.y(),
            idle=m.clamped,
        ).probe()
        y = m.reference()
        therm = Problem(
            lambda s: thermal_step(
                s, m.grid, y, y, np.full(m.nf, self.theta0),
                ThermalStepParams(self.radius, self.fps, m.reg), lambda t: 0.0, m.refined,
            ),
            lambda step: step.theta(),
        ).probe()
        self.slots = {}
        for kind, p in (("mech", mech), ("therm", therm)):
            self.slots[kind] = (p.shape, [n for _, n in p.slot])
        self.mech_fixed = mech.fixed()
        self.mech_tied = np.zeros(mech.shape, bool)
        from pyomo.core.expr.visitor import identify_variables

        index = {id(v): n for v, n in mech.slot}
        for c in model.constraints_of(mech.model) if mech.posed() else ():
            for v in identify_variables(c.body):
                self.mech_tied.ravel()[index[id(v)]] = True
        return self

    def bind(self, kind, posed):
        """Slots [(variable, degree of freedom)] of a problem posed by the simulation."""
        shape, order = self.slots[kind]
        variables = model.variables_of(posed)
        require(
            len(variables) == len(order),
            "the %s problem has %d unknowns, expected %d",
            {"mech": "mechanical", "therm": "thermal"}[kind], len(variables), len(order),
        )
        p = Problem.__new__(Problem)
        p.idle, p.read = False, None
        m = self.mesh  # unknowns that the problem does not list are held
        p.base = m.reference if kind == "mech" else lambda: np.full(m.nf, np.nan)
        p.model = posed
        p.shape = shape
        p.slot = list(zip(variables, order))
        return p

    # -------------------------------------------------- answers
    def increment(self, k):
        """How far the answer of time step k is from the one before: the factor of the difference."""
        kinds = [1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 3e-6, 3e-6, 1e-3]
        return kinds[(self.case["salt"] * 13 + k * 7) % len(kinds)]

    def answers(self, kind, k):
        """Answer of time step k >= 1: unrelated to the state before it, or equal or very close to it."""
        if (kind, k) not in self._answers:
            make = self._mech_answer if kind == "mech" else self._therm_answer
            a = make(k)
            f = self.increment(k if kind == "mech" else k + 4)
            if f != 1.0:
                if k > 1:
                    old = self.answers(kind, k - 1)
                else:
                    m = self.mesh
                    old = m.reference() if kind == "mech" else np.full(m.nf, self.theta0)
                b = old + f * (a - old)
                # unknowns that are held keep their exact values
                b = np.where(a == old, old, b)
                if kind == "therm" or self.mesh.min_det(b) >= 0.2 * self.mesh.min_det(old):
                    a = b
            self._answers[kind, k] = a
        return self._answers[kind, k].copy()

    def mech_answer(self, k):
        return self.answers("mech", k)

    def therm_answer(self, k):
        return self.answers("therm", k)

    def _mech_answer(self, k):
        """Deformation for time step k >= 1; independent of the previous one, within the radius."""
        m = self.mesh
        salt = (self.case["salt"] * 31 + k) % 1000003
        held = self.mech_fixed | self.mech_tied
        y0 = m.reference()
        if self.case.get("wild"):
            # anything at all: for what does not evaluate the energies
            scale = 1.0 if m.reg is None else np.array([m.h, 1, 1, 1 / m.h, 1 / m.h, 1 / m.h]) / m.h
            return np.where(held, y0, y0 + gen.noise(salt, y0.shape, 2 * m.h) * scale)
        if m.reg is None:
            amp = 0.11 * m.h
            z = gen.noise(salt, y0.shape, amp)
        else:
            z = gen.noise(salt, y0.shape, 0.1) * np.array([m.h, 1, 1, 1 / m.h, 1 / m.h, 1 / m.h])
            z = np.clip(z, -0.4 * self.radius, 0.4 * self.radius)
        base = y0
        if self.wide and not held.any():
            p = [(salt * 7) % 629 - 314, 60 + salt % 120, 60 + (salt // 7) % 120, salt % 141 - 70, 0, 0]
            base = m.deformation({"A": p, "s": 0, "a": 0})
            _, _, smin = gen.affine(p)
            z = z * smin
        z = np.where(held, 0.0, z)
        floor = 0.2 * m.min_det(base)
        while m.min_det(base + z) < floor:
            z = z / 2
        return base + z

    def _therm_answer(self, k):
        m = self.mesh
        salt = (self.case["salt"] * 17 + 3 * k + 1) % 1000003
        spread = min(0.9 * self.radius, 3.0) / 2
        z = np.abs(gen.noise(salt, (m.nf,), 1.0))
        if salt % 3 == 0:
            z = z * (z > 0.3)  # some vertices at the lowest temperature
        return max(0.0, self.theta0 - spread) + z * spread


class Run:
    """A simulation with the history its solver was made to give."""

    def __init__(self, world: World, fail=None, observer=None):
        """fail: {number of the solve: 'before' | 'after' | 'partial'} raises `error`; observer(run, kind, k, p)
        sees each posed problem before the answer is assigned."""
        self.world = world
        self.fail = dict(fail or {})
        self.error = None
        self.observer = observer
        self.after = None
        self.solves = 0
        self.history = [(world.mesh.reference(), np.full(world.mesh.nf, world.theta0))]
        self.pending = None  # answer of the mechanical problem of the current time step
        self.next_kind = "mech"
        self.sim = None
        self.texts = []

    # -------------------------------------------------- solver
    def handler(self, posed):
        n = self.solves
        self.solves += 1
        k = len(self.history)
        w = self.world
        if self.next_kind == "mech" and not w.slots["mech"][1]:
            # fully clamped: there is no mechanical problem
            self.pending = w.mech_answer(k)
            self.next_kind = "therm"
        kind = self.next_kind
        p = w.bind(kind, posed)
        if self.observer is not None:
            self.observer(self, kind, k, p)
        answer = w.mech_answer(k) if kind == "mech" else w.therm_answer(k)
        mode = self.fail.get(n)
        if mode is not None:
            self.next_kind = "mech"
            self.pending = None
            if mode == "after":
                p.assign(answer + (0.01 * w.mesh.h if kind == "mech" else 0.01))
            elif mode == "partial":
                slot = p.slot
                p.slot = slot[: len(slot) // 2]
                p.assign(answer)
                p.slot = slot
            raise self.error or SolverFailure(f"solve {n}")
        p.assign(answer)
        if self.after is not None:
            self.after(self, kind, k, p, answer)
        if kind == "mech":
            self.pending = answer
            self.next_kind = "therm"
        else:
            self.history.append((self.pending, answer))
            self.pending = None
            self.next_kind = "mech"

    @contextlib.contextmanager
    def active(self):
        outer = CONTROLLER["handler"]  # simulations may be advanced while another one solves
        CONTROLLER["handler"] = self.handler
        try:
            with contextlib.redirect_stderr(io.StringIO()):  # progress bars
                yield
        finally:
            CONTROLLER["handler"] = outer

    # -------------------------------------------------- simulation
    def create(self, **kwds):
        with self.active():
            self.sim = self.world.simulation(**kwds)
        return self

    def look(self):
        """Plot, save, print or evaluate recorded steps, chosen by the case: none of this may matter."""
        from matplotlib import animation, pyplot as plt
        from matplotlib.figure import Figure

        s, n = self.sim, len(self.sim.steps)
        salt = self.world.case["salt"] + 7 * n
        i = salt // 16 % (2 * n) - n
        kind = ["plot", "save", "animate", "text", "evaluate"][salt // 3 % 5]
        if self.world.mesh.reg is not None and self.world.mesh.nf > 12 and kind in ("plot", "save", "animate"):
            kind = "evaluate"
        old = Figure.savefig, animation.Animation.save
        try:
            Figure.savefig = lambda *a, **k: None
            # frames are drawn only, the last ones
            animation.Animation.save = lambda a, *args, **k: [
                a._func(f) for f in (list(a.new_frame_seq())[-2:] if hasattr(a, "_func") else [])
            ]
            if kind == "plot":
                s.plot_step(i)
            elif kind == "save":
                s.save_step(i, "nowhere")
            elif kind == "animate":
                s.save_animation("nowhere")
            elif kind == "text":
                repr(s.steps[i]), str(s.steps[i]), s.max_temp()
            else:
                p = self.world.mesh.points[i % self.world.mesh.n]
                s.steps[i].y(*p), s.steps[i].theta(*p), s.steps[i].y.strain(*p)
        except Exception:  # pylint: disable=broad-except
            if kind not in ("plot", "save", "animate"):
                raise  # whether drawing works is C23's matter
        finally:
            Figure.savefig, animation.Animation.save = old
            plt.close("all")

    def run(self, n=None):
        if (self.world.case["salt"] + len(self.sim.steps)) % 3 == 0:
            self.look()
        with self.active():
            if n is None:
                self.sim.run()
            else:
                self.sim.run(n)

    # -------------------------------------------------- recorded history
    def recorded(self, i):
        return read_step(self.world.mesh, self.sim.steps[i])

    def check_texts(self, what=""):
        """The printed steps stay what they were when they were first seen here."""
        for i, step in enumerate(self.sim.steps):
            text = repr(step), str(step)
            if i == len(self.texts):
                self.texts.append(text)
            require(text == self.texts[i], "%sstep %d is printed as %r, before as %r", what, i, text, self.texts[i])

    def check_recorded(self, indices=None, what=""):
        steps_ = self.sim.steps
        require(
            len(steps_) == len(self.history), "%s%d steps are recorded, expected %d", what,
            len(steps_), len(self.history),
        )
        for i in range(len(steps_)) if indices is None else indices:
            compare_states(
                self.world.mesh, self.recorded(i), self.history[i], f"{what}step {i}"
            )


def read_step(mesh, step):
    """(y, theta) of a recorded step, through its evaluation at points."""
    theta = np.array([float(step.theta(*p)) for p in mesh.fine_points])
    if mesh.reg is None:
        y = np.array([[float(c) for c in step.y(*p)] for p in mesh.points])
        return y, theta
    y = np.zeros((mesh.n, 2, 6))
    for i, p in enumerate(mesh.points):
        v = step.y(*p)
        for c in range(2):
            g = step.y[c].gradient(*p)
            H = step.y[c].hessian(*p)
            y[i, c] = [float(v[c]), g[0], g[1], H[0, 0], H[0, 1], H[1, 1]]
    return y, theta


def compare_states(mesh, got, want, what):
    y, theta = got
    y0, theta0 = want
    h = mesh.h
    size = float(np.max(np.abs(y0[..., 0] if mesh.reg is not None else y0))) + h
    if mesh.reg is None:
        tol = 1e-9 * size * np.ones_like(y0)
    else:
        s = np.array([1, 1 / h, 1 / h, 1 / h**2, 1 / h**2, 1 / h**2])
        big = np.max(np.abs(y0) / s)
        tol = 1e-8 * (big + size) * s * np.ones_like(y0)
    bad = np.argwhere(~(np.abs(y - y0) <= tol))
    if len(bad):
        i = tuple(int(x) for x in bad[0])
        raise Violation(
            f"{what}: deformation {float(y[i])!r} at {list(i)}, expected {float(y0[i])!r}"
        )
    bad = np.argwhere(~(np.abs(theta - theta0) <= 1e-9 * (1 + np.abs(theta0).max())))
    if len(bad):
        i = int(bad[0][0])
        raise Violation(
            f"{what}: temperature {float(theta[i])!r} at {i}, expected {float(theta0[i])!r}"
        )


def reference_objective(world, kind, k, history, pending, unknown):
    """Discrete energy of the problem of time step k >= 1, from the states before it."""
    m = world.mesh
    prev_y, prev_theta = history[k - 1]
    t = (k - 1) / world.fps
    if kind == "mech":
        def g(i):
            x, y = m.points[i]
            return world.traction(t, x, y)

        return m.mech(prev_y, unknown, prev_theta, world.fps, g)
    return m.therm(prev_y, pending, prev_theta, unknown, world.fps, world.external(t))


def check_objective(world, kind, k, history, pending, p, unknown, what):
    got = p.objective_at(unknown)
    t = reference_objective(world, kind, k, history, pending, unknown)
    require(
        abs(got - t.value) <= t.tolerance(),
        "%s: the objective is %r, the discrete energy for the recorded states is %r (terms of total"
        " size %r)", what, got, t.value, t.scale,
    )
