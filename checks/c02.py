"""C02: fixed sides never move and nothing else is prescribed."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub, require
from lib import gen, model, ref, sim, steps

PROPERTY = "C02"
RULE = (
    "all ways to fix sides, mesh sizes, with and without regularization; admissibility (fixed values, bounds,"
    " constraints) of random deformations, compared with the trace conditions computed from the geometry:"
    " arbitrary values at all free degrees of freedom are admissible, and changing any single prescribed"
    " one is not; in standalone steps and at every solve of a history; non-trivial: some side is fixed"
)
ASSUMPTIONS = ["deformations within the search radius"]


class Traces:
    """What the fixed sides prescribe, from the geometry of the lattice alone."""

    def __init__(self, case, mesh):
        self.mesh = mesh
        sides = gen.fixed_sides(case["fix"])
        P = np.array(mesh.points)
        right, upper = P[:, 0].max(), P[:, 1].max()
        tol = 1e-6 * mesh.h
        on = {
            "lower": np.abs(P[:, 1]) < tol,
            "upper": np.abs(P[:, 1] - upper) < tol,
            "left": np.abs(P[:, 0]) < tol,
            "right": np.abs(P[:, 0] - right) < tol,
        }
        self.sides = sides
        y0 = mesh.reference()
        held = np.zeros(y0.shape, bool)
        for s in sides:
            v = on[s]
            if mesh.reg is None:
                held[v] = True
            else:
                # the value, the tangential derivative and the second tangential derivative
                d, dd = (1, 3) if s in ("lower", "upper") else (2, 5)
                for j in (0, d, dd):
                    held[v, :, j] = True
        self.held = held
        self.y0 = y0
        h = mesh.h
        self.unit = np.ones(y0.shape) * (
            h if mesh.reg is None else np.array([h, 1, 1, 1 / h, 1 / h, 1 / h])
        )

    def candidate(self, salt, amp=0.5):
        z = gen.noise(salt, self.y0.shape, amp) * self.unit
        return np.where(self.held, self.y0, self.y0 + z)

    def violations(self, candidate, salt, n):
        """Candidates with a single prescribed degree of freedom changed."""
        idx = np.argwhere(self.held)
        if len(idx) == 0:
            return
        r = np.random.default_rng(salt)
        for k in r.permutation(len(idx))[:n]:
            i = tuple(idx[k])
            bad = candidate.copy()
            bad[i] += (0.05 + 0.3 * r.random()) * self.unit[i] * r.choice([-1, 1])
            yield [int(x) for x in i], bad


def excess(p, candidate, h):
    """By how much a candidate violates what the posed problem prescribes (0: admissible), in units
    of the mesh size."""
    if not p.posed():  # nothing to determine
        return np.abs(candidate - p.start()).max() / h
    flat = candidate.ravel()
    worst = 0.0
    for v, n in p.slot:
        if v.fixed:
            worst = max(worst, abs(flat[n] - v.value))
        lo, hi = model.bounds_of(v)
        worst = max(worst, lo - flat[n], flat[n] - hi)
    old = [v.value for v, _ in p.slot]
    p.assign(candidate)
    for c in model.constraints_of(p.model):
        worst = max(worst, model.constraint_residual(c))
    for (v, _), o in zip(p.slot, old):
        v.set_value(o, skip_validation=True)
    return worst / h


def check_problem(p, t, salt, what, n):
    h = t.mesh.h
    cand = t.candidate(salt)
    e = excess(p, cand, h)
    require(
        e < 1e-6, "%s: a deformation that keeps the fixed sides is not admissible (excess %r)", what, e
    )
    for i, bad in t.violations(cand, salt, n):
        e = excess(p, bad, h)
        require(
            e > 1e-3, "%s: changing the prescribed degree of freedom %r is admissible", what, i
        )


def strategy(tier):
    big = tier == "thorough"
    d = steps.meshes(8 if big else 5, 40 if big else 16, variants=False)
    d.update({"salt": gen.salts(), "fps": gen.fps_values(), "theta0": st.integers(0, 300)})
    return st.fixed_dictionaries(d)


def reg_strategy(tier):
    d = steps.meshes(3, 6, variants=False, reg=True)
    d["k"] = st.just(1)
    d.update({"salt": gen.salts(), "fps": gen.fps_values(), "theta0": st.integers(0, 300)})
    return st.fixed_dictionaries(d)


def large_strategy(reg):
    def make(tier):
        d = steps.meshes(variants=False, reg=reg)
        if reg:
            d["k"] = st.just(1)
        d.update({"salt": gen.salts(), "fps": gen.fps_values(), "theta0": st.integers(0, 300)})
        return gen.large(d, reg)

    return make


def check_posed(case, ctx):
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams

    m = steps.Mesh(case)
    t = Traces(case, m)
    radius = 100.0 * (1 + m.h + 1 / m.h**2) + 10 * np.abs(t.y0).max()
    p = model.Problem(
        lambda s: mechanical_step(
            s, m.grid, MechanicalStepParams(case["theta0"] / 100, radius, case["fps"][0], m.reg),
            m.refined, lambda t, x, y: [0.0, 0.0],
        ),
        lambda step: step.y(),
        idle=m.clamped,
    ).probe()
    check_problem(p, t, case["salt"] + 1, "mechanical problem", 12)
    p.step.update_prev_y(t.candidate(case["salt"] + 2, 0.05))
    p.capture()
    check_problem(p, t, case["salt"] + 3, "updated mechanical problem", 6)
    ctx.label(f"{len(t.sides)} sides")
    ctx.nontrivial(bool(t.sides))


def history_strategy(tier):
    big = tier == "thorough"
    d = sim.cases(4 if big else 3, 9 if big else 4, forcing=True)
    d["runs"] = st.lists(st.integers(1, 4), min_size=1, max_size=3)
    return st.fixed_dictionaries(d)


def reg_history_strategy(tier):
    d = sim.cases(2, 2, reg=True)
    d["k"] = st.just(1)
    d["runs"] = st.lists(st.integers(1, 2), min_size=1, max_size=1)
    return st.fixed_dictionaries(d)


def check_history(case, ctx):
    w = sim.World(dict(case, radius="large")).learn()
    t = Traces(case, w.mesh)

    def observer(run, kind, k, p):
        if kind == "mech":
            check_problem(p, t, case["salt"] + k, f"mechanical problem of step {k}", 3)

    r = sim.Run(w, observer=observer).create()
    for n in case["runs"]:
        r.run(n)
    for i in range(len(r.sim.steps)):
        y, _ = r.recorded(i)
        d = np.abs(y - t.y0) / t.unit
        d = np.where(t.held, d, 0.0)
        if (d > 1e-6).any():
            k = tuple(int(x) for x in np.argwhere(d > 1e-6)[0])
            require(
                False, "step %d: the prescribed degree of freedom %r is %r, expected %r", i, list(k),
                float(y[k]), float(t.y0[k]),
            )
    ctx.label(f"{len(t.sides)} sides")
    ctx.nontrivial(bool(t.sides))


SUBS = [
    Sub("posed", strategy, check_posed, quick=800, thorough=150000),
    Sub("posed_regularized", reg_strategy, check_posed, quick=120, thorough=20000),
    Sub("large", large_strategy(False), check_posed, quick=48, thorough=8000),
    Sub("large_regularized", large_strategy(True), check_posed, quick=16, thorough=2000),
    Sub("history", history_strategy, check_history, quick=160, thorough=30000),
    Sub("history_regularized", reg_history_strategy, check_history, quick=32, thorough=4000),
]
