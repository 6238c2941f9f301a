"""C03: the mechanical problem is the discrete energy of the scheme."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub
from lib import steps, gen

PROPERTY = "C03"
RULE = (
    "meshes (all fixed sides, lattice, refined, perturbed, reversed and rotated triangles; spacings 1e-6"
    " to 2e4), sequences of updates of previous deformation, temperature, time and of solves;"
    " objective compared at several deformations after the sequence and at every solve; non-trivial:"
    " previous and new deformation differ, neither is a rigid motion"
)
ASSUMPTIONS = ["deformations with positive determinant", "temperatures >= 0", "fps > 0"]


def strategy(tier):
    big = tier == "thorough"
    d = steps.meshes(7 if big else 4, 24 if big else 9, scale=st.one_of(gen.unit_scales(), gen.scales()))
    d.update(steps.start_keys("mech"))
    d["ops"] = steps.ops_strategy("mech", 8 if big else 5)
    d["at"] = st.lists(steps.deformations(), min_size=1, max_size=3)
    return st.fixed_dictionaries(d)


def large_strategy(tier):
    d = steps.meshes(scale=st.one_of(gen.unit_scales(), gen.scales()))
    d.update(steps.start_keys("mech"))
    d["ops"] = steps.ops_strategy("mech", 4)
    d["at"] = st.lists(steps.deformations(), min_size=1, max_size=2)
    return gen.large(d)


def check(case, ctx):
    d = steps.start(case, "mech")
    m = d.mesh
    seen = []

    def at(cand, what):
        u = d.answer(cand)
        d.check_objective(u, what)
        seen.append(not np.array_equal(u, d.prev_y))

    def observe(_):
        at(d.unknown(), "the objective at the starting guess")

    for op in case["ops"]:
        ctx.label(op["op"])
        steps.apply_op(d, op, observe)
    for n, v in enumerate(case["at"]):
        at(m.deformation(v), f"the objective at state {n}")
    ctx.label("variant " + case["variant"])
    ctx.label("traction" if case["traction"] and any(case["traction"]) else "no traction")
    ctx.nontrivial(any(seen) and any(v["a"] or v["A"][1:4] != [100, 100, 0] for v in case["at"]))


SUBS = [
    Sub("objective", strategy, check, quick=800, thorough=200000),
    Sub("large", large_strategy, check, quick=160, thorough=16000),
]
