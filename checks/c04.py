"""C04: the thermal problem is the discrete energy of the scheme."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub
from lib import steps, gen

PROPERTY = "C04"
RULE = (
    "meshes (all fixed sides, lattice, refined, perturbed, reversed and rotated triangles), sequences of"
    " updates of both deformations, temperature, time and of solves; objective compared at several"
    " temperatures after the sequence and at every solve; non-trivial: both deformations differ and the"
    " new temperature is not constant"
)
ASSUMPTIONS = ["deformations with positive determinant", "temperatures >= 0", "fps > 0"]


def strategy(tier):
    big = tier == "thorough"
    d = steps.meshes(6 if big else 3, 16 if big else 6, scale=st.one_of(gen.unit_scales(), gen.scales()))
    d.update(steps.start_keys("therm"))
    d["ops"] = steps.ops_strategy("therm", 8 if big else 5)
    d["at"] = st.lists(steps.temperature_states(), min_size=1, max_size=2)
    return st.fixed_dictionaries(d)


def large_strategy(tier):
    d = steps.meshes(scale=st.one_of(gen.unit_scales(), gen.scales()))
    d.update(steps.start_keys("therm"))
    d["ops"] = steps.ops_strategy("therm", 4)
    d["at"] = st.lists(steps.temperature_states(), min_size=1, max_size=1)
    return gen.large(d)


def check(case, ctx):
    d = steps.start(case, "therm")
    m = d.mesh

    def observe(_):
        d.check_objective(d.unknown(), "the objective at the starting guess")

    for op in case["ops"]:
        ctx.label(op["op"])
        steps.apply_op(d, op, observe)
    for n, v in enumerate(case["at"]):
        u = d.answer(m.temperature(v))
        d.check_objective(u, f"the objective at state {n}")
        ctx.nontrivial(np.ptp(u) > 0 and not np.array_equal(d.prev_y, d.y))
    ctx.label("variant " + case["variant"])


SUBS = [
    Sub("objective", strategy, check, quick=500, thorough=120000),
    Sub("large", large_strategy, check, quick=40, thorough=8000),
]
