"""C06: solves start at the previous state and stay within the search radius."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub, require
from lib import gen, model, sim, steps

PROPERTY = "C06"
RULE = (
    "sequences of up to 8 updates and solves of all four kinds of step, search radii from 0.01 to 1000,"
    " including radii larger than the temperatures; start, bounds and domain of every unknown checked at"
    " every solve against a model; whole simulations likewise against the recorded steps; non-trivial: an"
    " update after a solve (steps), three time steps (simulations)"
)
ASSUMPTIONS = ["solver answers within the bounds"]


def check_problem(p, prev, radius, fresh, kind, what):
    scale = 1e-12 * (1.0 + np.abs(prev).max() + radius)
    if fresh:
        start = p.start()
        bad = np.argwhere(~(np.abs(start - prev) <= scale))
        if len(bad):
            i = tuple(int(x) for x in bad[0])
            require(
                False, "%s: the starting guess of unknown %r is %r, the previous state is %r",
                what, list(i), float(start[i]), float(prev[i]),
            )
    lo, hi = p.bounds()
    fixed = p.fixed()
    wlo, whi = prev - radius, prev + radius
    if kind == "therm":
        wlo = np.maximum(wlo, 0.0)
    for name, got, want in (("lower", lo, wlo), ("upper", hi, whi)):
        bad = np.argwhere(~((np.abs(got - want) <= scale) | fixed))
        if len(bad):
            i = tuple(int(x) for x in bad[0])
            require(
                False, "%s: the %s bound of unknown %r is %r, expected %r", what, name, list(i),
                float(got[i]), float(want[i]),
            )
    for v, _ in p.slot:
        require(v.is_continuous(), "%s: an unknown is not continuous", what)


def strategy(kind, reg):
    def make(tier):
        big = tier == "thorough"
        if reg:
            d = steps.meshes(2, 2, reg=True)
            d["k"] = st.sampled_from([1, 1, 2]) if kind == "therm" else st.just(1)
        else:
            d = steps.meshes(5 if big else 3, 12 if big else 6, scale=st.one_of(gen.unit_scales(), gen.scales()))
        d.update(steps.start_keys(kind, reg))
        d["radius"] = st.one_of(
            st.sampled_from([1, 10, 100, 1000]), st.integers(1, 1000), st.integers(1000, 100000)
        )
        # every sequence ends with a solve
        d["ops"] = steps.ops_strategy(kind, 12 if big else 7)
        d["last"] = steps.deformations() if kind == "mech" else steps.temperature_states()
        return st.fixed_dictionaries(d)

    return make


def large_strategy(kind):
    def make(tier):
        d = steps.meshes(scale=st.one_of(gen.unit_scales(), gen.scales()))
        d.update(steps.start_keys(kind))
        d["radius"] = st.one_of(st.sampled_from([1, 10, 100, 1000]), st.integers(1, 1000))
        d["ops"] = steps.ops_strategy(kind, 4)
        d["last"] = steps.deformations() if kind == "mech" else steps.temperature_states()
        return gen.large(d)

    return make


def large_sim_strategy(reg):
    def make(tier):
        d = sim.cases(reg=reg, forcing=True)
        d["runs"] = st.lists(st.integers(1, 2), min_size=1, max_size=2)
        return gen.large(d, reg)

    return make


def clip(d, cand):
    """A solver answer within the bounds."""
    r = d.radius
    if d.kind == "mech":
        return np.clip(cand, d.prev_y - r, d.prev_y + r)
    return np.clip(cand, np.maximum(d.prev_theta - r, 0), d.prev_theta + r)


def check_kind(kind):
    def check(case, ctx):
        d = steps.start(case, kind)
        m = d.mesh
        what = ("mechanical" if kind == "mech" else "thermal") + (" regularized" if m.reg is not None else "")

        def observe(_):
            prev = d.prev_y if kind == "mech" else d.prev_theta
            check_problem(d.p, prev, d.radius, d.fresh, kind, what)

        solved = False
        for op in case["ops"] + [{"op": "solve", "v": case["last"]}]:
            ctx.label(op["op"])
            if op["op"] == "solve":
                c = m.deformation(op["v"]) if kind == "mech" else m.temperature(op["v"])
                # determinants do not matter here: no energy is evaluated
                fixed = d.p.fixed()
                c = np.where(fixed, d.unknown(), clip(d, c))

                def assign(model_, c=c):
                    observe(model_)
                    d.p.assign(c)

                d.p.solve_with(assign)
                d.set_unknown(c)
                d.fresh = False
                solved = True
            else:
                steps.apply_op(d, op)
                ctx.nontrivial(solved)
        got = np.asarray(d.step.y() if kind == "mech" else d.step.theta(), float)
        require(np.array_equal(got, d.unknown()), "the step does not report the solver's answer")

    return check


def sim_strategy(reg):
    def make(tier):
        d = sim.cases(2, 2, reg=True) if reg else sim.cases(3, 4, forcing=True)
        d["runs"] = st.lists(st.integers(1, 3 if not reg else 2), min_size=1, max_size=3 if not reg else 1)
        return st.fixed_dictionaries(d)

    return make


def check_sim(case, ctx):
    w = sim.World(case).learn()

    def observer(run, kind, k, p):
        prev = run.history[-1][0 if kind == "mech" else 1]
        check_problem(
            p, prev, w.radius, True, kind,
            f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k}",
        )

    r = sim.Run(w, observer=observer).create()
    for n in case["runs"]:
        r.run(n)
    ctx.nontrivial(len(r.history) > 3)


SUBS = [
    Sub("mechanical", strategy("mech", False), check_kind("mech"), quick=500, thorough=120000),
    Sub("thermal", strategy("therm", False), check_kind("therm"), quick=320, thorough=80000),
    Sub("mechanical_regularized", strategy("mech", True), check_kind("mech"), quick=80, thorough=15000),
    Sub("thermal_regularized", strategy("therm", True), check_kind("therm"), quick=64, thorough=8000),
    Sub("simulation", sim_strategy(False), check_sim, quick=120, thorough=25000),
    Sub("simulation_regularized", sim_strategy(True), check_sim, quick=32, thorough=3000),
    Sub("large_mechanical", large_strategy("mech"), check_kind("mech"), quick=32, thorough=6000),
    Sub("large_thermal", large_strategy("therm"), check_kind("therm"), quick=24, thorough=4000),
    Sub("large_simulation", large_sim_strategy(False), check_sim, quick=16, thorough=3000),
    Sub("large_simulation_regularized", large_sim_strategy(True), check_sim, quick=8, thorough=800),
]
