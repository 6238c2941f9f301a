"""C05: the regularized problems are the C1 discrete energies."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub
from lib import steps, gen

PROPERTY = "C05"
RULE = (
    "meshes of up to 4 cells, refinement factors 1 to 3, regularizations 0 to 3, C1 states with noise in"
    " values, gradients and second derivatives, sequences of updates and solves; both objectives compared"
    " with the energy of the reference element at several states; non-trivial: the state has non-zero"
    " second gradient (mechanical) or differing deformations (thermal)"
)
ASSUMPTIONS = ["deformations with positive determinant at the quadrature points", "temperatures >= 0", "fps > 0"]


def mesh(tier):
    big = tier == "thorough"
    d = steps.meshes(3 if big else 2, 4 if big else 2, reg=True)
    d["k"] = st.sampled_from([1, 1, 2, 3] if big else [1, 1, 1, 2])
    return d


def mech(tier):
    d = mesh(tier)
    d.update(steps.start_keys("mech", True))
    d["ops"] = steps.ops_strategy("mech", 4)
    d["at"] = st.lists(steps.deformations(), min_size=1, max_size=2)
    return st.fixed_dictionaries(d)


def therm(tier):
    d = mesh(tier)
    d.update(steps.start_keys("therm", True))
    d["ops"] = steps.ops_strategy("therm", 4)
    d["at"] = st.lists(steps.temperature_states(), min_size=1, max_size=1)
    return st.fixed_dictionaries(d)


def large(kind):
    def make(tier):
        d = mesh(tier)
        d.update(steps.start_keys(kind, True))
        d["ops"] = steps.ops_strategy(kind, 3)
        d["at"] = st.lists(
            steps.deformations() if kind == "mech" else steps.temperature_states(), min_size=1, max_size=1
        )
        return gen.large(d, True)

    return make


def check_mech(case, ctx):
    d = steps.start(case, "mech")
    for op in case["ops"]:
        ctx.label(op["op"])
        steps.apply_op(d, op)
    for n, v in enumerate(case["at"]):
        u = d.answer(d.mesh.deformation(v))
        d.check_objective(u, f"the mechanical objective at state {n}")
        ctx.nontrivial(bool(v["a"] and v["s"]))
    ctx.label(f"k={case['k']}")
    ctx.label("regularization" if case["reg"] else "regularization 0")


def check_therm(case, ctx):
    d = steps.start(case, "therm")
    for op in case["ops"]:
        ctx.label(op["op"])
        steps.apply_op(d, op)
    for n, v in enumerate(case["at"]):
        u = d.answer(d.mesh.temperature(v))
        d.check_objective(u, f"the thermal objective at state {n}")
        ctx.nontrivial(not np.array_equal(d.prev_y, d.y))
    ctx.label(f"k={case['k']}")


SUBS = [
    Sub("mechanical", mech, check_mech, quick=240, thorough=30000),
    Sub("thermal", therm, check_therm, quick=160, thorough=16000),
    Sub("large_mechanical", large("mech"), check_mech, quick=24, thorough=2000),
    Sub("large_thermal", large("therm"), check_therm, quick=16, thorough=1200),
]
