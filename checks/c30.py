"""C30: what the solver process receives is the posed problem, and its answer is what is recorded."""

import contextlib
import io
import logging
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, Violation, require
from lib import gen, nl, sim, steps
from checks.c02 import Traces

PROPERTY = "C30"
BELOW = 1e-7  # how far ipopt may violate the lower bound of the temperatures
RULE = (
    "steps and simulations of both kinds solved through pyomo's own interface to ipopt, with a stand-in"
    " executable: the .nl file it receives is read (unknowns, start, bounds, equations, objective) and compared"
    " with the model of the scheme; its answers, and its crashes and failures, with what is recorded;"
    " non-trivial: an update before the solve (steps), three time steps or a failure (simulations)"
)
ASSUMPTIONS = [
    "ipopt may violate bounds by up to 1e-8, unless told otherwise by its options",
    "answers near the start (positive determinants)",
    "ipopt rejects problems without unknowns and problems with more equations than unknowns",
]


# ---------------------------------------------------------------- single steps
def step_strategy(kind, reg):
    def make(tier):
        if reg:
            d = steps.meshes(2, 2, variants=False, reg=True)
            d["n"] = st.sampled_from([[1, 1], [2, 1], [1, 2], [3, 1], [1, 4], [2, 2], [7, 1]] if kind == "mech"
                                     else [[1, 1], [2, 1], [1, 2]])
            d["k"] = st.just(1)
        else:
            d = steps.meshes(5, 12, scale=st.one_of(gen.unit_scales(), gen.scales()))
        d.update({
            "fps": gen.fps_values(), "theta0": st.integers(0, 300), "radius": st.integers(1, 100000),
            "salt": gen.salts(), "traction": steps.tractions(), "external": steps.externals(),
            "rounds": st.lists(
                st.tuples(st.sampled_from(["", "t", "y", "yt", "ytz", "z"]), gen.salts()).map(list),
                min_size=1, max_size=1 if reg else 3,
            ),
        })
        return st.fixed_dictionaries(d)

    return make


def check_step(kind):
    def check(case, ctx):
        with nl.process() as proc, contextlib.redirect_stdout(io.StringIO()):
            run_steps(kind, case, ctx, proc)

    return check


def run_steps(kind, case, ctx, proc):
    import pyomo.environ as pyo
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

    m = steps.Mesh(case)
    fps, radius, theta0 = case["fps"][0] / case["fps"][1], case["radius"] / 100, case["theta0"] / 100
    t = Traces(case, m) if case.get("variant") in (None, "plain") and kind == "mech" else None
    g, ext = steps.traction_function(case["traction"]), steps.external_function(case["external"])
    y0, salt = m.reference(), case["salt"]
    held0 = np.zeros(y0.shape, bool)
    if m.reg is None:
        held0[m.dirichlet] = True
    else:
        held0[m.dirichlet, :, 0] = True
    unit = m.h if m.reg is None else np.array([m.h, 1, 1, 1 / m.h, 1 / m.h, 1 / m.h])

    def deformation(k):
        z = gen.noise(salt + k, y0.shape, 0.05) * unit
        while m.min_det(y0 + z) < 0.2:
            z = z / 2
        return y0 + np.where(t.held, 0.0, z) if t is not None else y0 + z

    solver = pyo.SolverFactory("ipopt")
    prev_y, y, prev_theta = y0, y0, np.full(m.nf, theta0)
    if kind == "mech":
        step = mechanical_step(
            solver, m.grid, MechanicalStepParams(theta0, radius, fps, m.reg), m.refined, g
        )
        read = lambda: np.asarray(step.y(), float)
    else:
        prev_y, y = deformation(1), deformation(2)
        prev_theta = np.abs(gen.noise(salt + 3, (m.nf,), 2.0))
        step = thermal_step(
            solver, m.grid, prev_y, y, prev_theta, ThermalStepParams(radius, fps, m.reg), ext, m.refined
        )
        read = lambda: np.asarray(step.theta(), float)
    proc.plan(salt, 0.0, {}, "probe")
    time = 0.0
    for n, (what, s) in enumerate(case["rounds"]):
        if n and not what:
            what = "y" if kind == "mech" else "t"  # the answers of the stand-in are replaced
        if "y" in what or (n and kind == "mech"):
            prev_y = deformation(10 * n + 4)
            step.update_prev_y(prev_y)
            if kind == "therm":
                y = deformation(10 * n + 5)
                step.update_y(y)
        if "t" in what or (n and kind == "therm"):
            prev_theta = np.abs(gen.noise(s, (m.nf,), 1.5)) + theta0
            step.update_prev_theta(prev_theta)
        if "z" in what and m.reg is None:
            time = (s % 400) / 50
            if kind == "mech":
                step.update_boundary_traction(time)
            else:
                step.update_external_temperature(time)
        ctx.nontrivial(bool(what))
        old = read()
        before = proc.count()
        step.solve()
        got = read()
        if proc.count() == before:
            require(kind == "mech" and m.clamped, "solve() did not call the solver")
            require(np.array_equal(old, got) and np.array_equal(got, prev_y), "a clamped body moved")
            ctx.label("clamped")
            continue
        require(proc.count() == before + 1, "solve() called the solver %d times", proc.count() - before)
        p, answer = proc.received(before)
        what = f"the {'mechanical' if kind == 'mech' else 'thermal'} problem {n}"
        nl.check_acceptable(p, what)
        flat = got.ravel()
        slot = np.full(p.nvar, -1)
        for i, v in enumerate(flat):
            k = round(v - nl.PROBE) if np.isfinite(v) else -1
            if 0 <= k < p.nvar and v == nl.PROBE + k:
                require(slot[k] < 0, "%s: an answer is reported twice", what)
                slot[k] = i
        require((slot >= 0).all(), "%s: answers of the solver are not reported", what)
        free = np.zeros(flat.shape, bool)
        free[slot] = True
        prev = prev_y if kind == "mech" else prev_theta
        if kind == "mech":
            want = ~held0.ravel()
            require(np.array_equal(free, want), "%s: the unknowns are not the free ones", what)
            require(np.array_equal(flat[~free], prev.ravel()[~free]), "%s: a fixed value changed", what)
        else:
            require(free.all(), "%s: temperatures are not unknown", what)
        scale = 1e-12 * (1 + np.abs(prev).max() + radius)
        base = prev.ravel()[slot]
        lower = base - radius
        if kind == "therm":
            lower = np.maximum(lower, 0.0)
        for name, a, b in (
            ("start", p.start, base), ("lower bound", p.lower, lower), ("upper bound", p.upper, base + radius)
        ):
            bad = np.argwhere(~(np.abs(a - b) <= scale)).ravel()
            if len(bad):
                j = int(bad[0])
                raise Violation(f"{what}: the {name} of unknown {int(slot[j])} is {a[j]!r}, expected {b[j]!r}")
        # objective at the start and at states nearby
        states = [prev]
        for k in range(2):
            if kind == "mech":
                z = np.where(held0, 0.0, gen.noise(s + 17 * k + 1, prev.shape, 0.05) * unit)
                while m.min_det(prev + z) < 0.3 * m.min_det(prev):
                    z = z / 2
                states.append(prev + z)
            else:
                states.append(np.abs(prev + gen.noise(s + 17 * k + 1, prev.shape, 1.0)))
        x = np.array([u.ravel()[slot] for u in states]).T
        values = p.objective(x)
        bad = p.singular(x)
        require(not bad, "%s: the objective has no derivatives (%s) at an admissible state", what, bad[:1])
        for u, v in zip(states, values):
            if kind == "mech":
                e = m.mech(prev_y, u, prev_theta, fps, lambda i: g(time, *m.points[i]))
            else:
                e = m.therm(prev_y, y, prev_theta, u, fps, ext(time))
            require(
                abs(v - e.value) <= e.tolerance(), "%s: the objective is %r, the discrete energy %r", what,
                float(v), e.value,
            )
        if t is not None and m.reg is not None and t.sides:
            check_equations(p, slot, t, s, what)
        elif m.reg is None:
            require(p.ncon == 0, "%s has %d equations", what, p.ncon)
    ctx.label(f"fix {len(gen.fixed_sides(case['fix']))}")


def check_equations(p, slot, t, salt, what):
    cand = t.candidate(salt + 5)
    bad = list(t.violations(cand, salt, 12))
    index = {int(d): j for j, d in enumerate(slot)}
    size = cand.shape
    bad = [(i, b) for i, b in bad if int(np.ravel_multi_index(i, size)) in index]
    x = np.array([u.ravel()[slot] for u in [cand] + [b for _, b in bad]]).T
    r = p.residuals(x).max(axis=0) / t.mesh.h
    require(r[0] < 1e-6, "%s: a deformation that keeps the fixed sides violates an equation by %r", what, r[0])
    for (i, _), e in zip(bad, r[1:]):
        require(e > 1e-3, "%s: changing the prescribed degree of freedom %r violates no equation", what, i)


# ---------------------------------------------------------------- simulations
def sim_strategy(reg):
    def make(tier):
        d = sim.cases(2 if reg else 3, 2 if reg else 6, reg=reg, forcing=True)
        if reg:
            d["k"] = st.just(1)
        d["cold"] = st.sampled_from([0, 0, 20, 60, 100])
        d["runs"] = st.lists(st.integers(1, 1 if reg else 3), min_size=1, max_size=2 if reg else 4)
        d["faults"] = st.lists(
            st.tuples(st.integers(2, 3 if reg else 12), st.sampled_from(["crash", "error"])).map(list),
            max_size=1 if reg else 3,
        )
        return st.fixed_dictionaries(d)

    return make


def check_sim(case, ctx):
    logging.getLogger("pyomo").setLevel(logging.CRITICAL)
    out = io.StringIO()
    with nl.process() as proc, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            run_sim(case, ctx, proc)
        finally:
            logging.getLogger("pyomo").setLevel(logging.ERROR)


def run_sim(case, ctx, proc):
    w = sim.World(case)
    m = w.mesh
    faults = {str(n): mode for n, mode in case["faults"]}
    amplitude = 0.04 * min(m.h, 1.0, 1.0 / m.h) if m.reg is not None else 0.04 * m.h
    proc.plan(case["salt"], amplitude, faults, cold=case["cold"] / 100)
    s = w.simulation()
    history = [(m.reference(), np.full(m.nf, w.theta0))]
    seen = 0  # problems accounted for
    seen = account(w, s, proc, history, seen, False, "construction: ")
    for n in case["runs"]:
        before = len(history)
        failed = None
        try:
            s.run(n)
        except Exception as e:  # pylint: disable=broad-except
            failed = e
            first = [k for k in range(seen, proc.count()) if str(k) in faults]
            if not first:
                raise
            ctx.label("failure")
            ctx.nontrivial()
        seen = account(w, s, proc, history, seen, failed is not None, f"run({n}): ")
        require(
            failed is not None or len(history) == before + n, "run(%d) recorded %d steps", n,
            len(history) - before,
        )
        planned = [k for k in range(proc.count()) if str(k) in faults]
        require(
            failed is not None or not [k for k in planned if k >= seen], "a failing solver went unnoticed"
        )
    ctx.nontrivial(len(history) > 3)
    if m.clamped:
        ctx.label("clamped")


def account(w, s, proc, history, seen, failed, what):
    """Compare the problems received since, and the new recorded steps."""
    m = w.mesh
    recorded = [sim.read_step(m, x) for x in s.steps]
    old = list(history)
    for i, h in enumerate(old):
        sim.compare_states(m, recorded[i], h, f"{what}step {i}")
    size = 1 + np.abs(m.reference()).max()
    todo = list(range(seen, proc.count()))
    k = len(history)
    while todo:
        prev_y, prev_theta = history[-1]
        y = prev_y
        names = ["therm"] if m.clamped else ["mech", "therm"]
        got = []
        for name in names:
            if not todo:
                break
            p, answer = proc.received(todo.pop(0))
            label = f"{what}the {'mechanical' if name == 'mech' else 'thermal'} problem of step {k}"
            nl.check_acceptable(p, label)
            count = m.nf if name == "therm" else None
            require(count is None or p.nvar == count, "%s has %d unknowns", label, p.nvar)
            got.append((name, p, answer))
        complete = len(got) == len(names) and len(recorded) > k
        if not complete:
            require(failed, "%sproblems were solved without recording a step", what)
            # the failed attempt: its problem starts from the last recorded step
            name, p, _ = got[0]
            if name == "mech":
                e = w_objective(w, "mech", k, history, prev_y, prev_y)
                v = float(p.objective(p.start[:, None])[0])
                require(
                    abs(v - e.value) <= e.tolerance(), "%sthe problem after %d steps starts at %r, the energy"
                    " of the last recorded step is %r", what, k, v, e.value,
                )
            require(not todo, "%sthe run went on after a failure of the solver", what)
            break
        new_y, new_theta = recorded[k]
        if m.clamped:
            new_y = m.reference()
        for name, p, answer in got:
            label = f"{what}the {'mechanical' if name == 'mech' else 'thermal'} problem of step {k}"
            old_u, new_u = (prev_y, new_y) if name == "mech" else (prev_theta, new_theta)
            require(answer is not None, "%s failed, but a step was recorded", label)
            if name == "therm" and answer.min() >= -BELOW:
                # temperatures below zero by the tolerance of the solver are recorded as zero
                answer = np.maximum(answer, 0.0)
            # recorded are the answers, and otherwise the values before
            pool = np.sort(new_u.ravel())
            tol = 1e-7 * size * (1 if m.reg is None or name == "therm" else max(1, 1 / m.h**2))
            at = np.clip(np.searchsorted(pool, answer), 1, len(pool) - 1)
            d = np.minimum(np.abs(pool[at] - answer), np.abs(pool[at - 1] - answer))
            require(
                (d <= tol).all(), "%s was answered %r, no such value is recorded", label,
                float(answer[int(d.argmax())]),
            )
            for f in (0.0, 0.5, 1.0):
                x = p.start + f * (answer - p.start)
                v = float(p.objective(x[:, None])[0])
                u = old_u + f * (new_u - old_u)
                e = w_objective(w, name, k, history, new_y, u)
                # the recorded values are only known up to rounding
                slack = 0.0 if m.reg is None else 1e-6 * e.scale
                require(
                    abs(v - e.value) <= e.tolerance() + slack, "%s: objective %r at %r between start and"
                    " answer, the discrete energy for the recorded states is %r", label, v, f, e.value,
                )
        history.append((new_y, new_theta))
        k += 1
    require(len(recorded) == len(history), "%s%d steps are recorded, expected %d", what, len(recorded), len(history))
    return proc.count()


def w_objective(w, name, k, history, y, u):
    return sim.reference_objective(w, name, k, history, y, u)


SUBS = [
    Sub("mechanical", step_strategy("mech", False), check_step("mech"), quick=160, thorough=40000),
    Sub("thermal", step_strategy("therm", False), check_step("therm"), quick=160, thorough=40000),
    Sub("mechanical_regularized", step_strategy("mech", True), check_step("mech"), quick=32, thorough=6000),
    Sub("thermal_regularized", step_strategy("therm", True), check_step("therm"), quick=16, thorough=2000),
    Sub("simulation", sim_strategy(False), check_sim, quick=64, thorough=10000),
    Sub("simulation_regularized", sim_strategy(True), check_sim, quick=8, thorough=800),
]
