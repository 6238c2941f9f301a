"""C25: steps are faithful, isolated stores of their data."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub, require
from lib import gen, sim, steps

PROPERTY = "C25"
RULE = (
    "sequences of up to 12 updates, solves, reads, failed solves and modifications of arrays passed in or"
    " handed out, in several memory layouts, for all four kinds of step; all accessors compared exactly with"
    " a model after every operation; non-trivial: at least one modification of a shared-looking array or"
    " a solve, followed by another operation"
)
ASSUMPTIONS = ["temperatures >= 0"]


def extras():
    return [
        st.fixed_dictionaries({"op": st.just("mutate_in"), "v": st.integers(0, 3)}),
        st.fixed_dictionaries({"op": st.just("mutate_out"), "v": st.integers(0, 3)}),
        st.fixed_dictionaries({"op": st.just("exchange"), "v": st.integers(0, 3)}),
    ]


def strategy(kind, reg):
    def make(tier):
        big = tier == "thorough"
        if reg:
            d = steps.meshes(2, 2, reg=True)
            d["k"] = st.sampled_from([1, 1, 2]) if kind == "therm" else st.just(1)
        else:
            d = steps.meshes(5 if big else 3, 12 if big else 6, scale=st.one_of(gen.unit_scales(), gen.scales()))
        d.update(steps.start_keys(kind, reg))
        d["ops"] = steps.ops_strategy(kind, 20 if big else 12, extra=extras())
        return st.fixed_dictionaries(d)

    return make


def large_strategy(kind):
    def make(tier):
        d = steps.meshes(scale=st.one_of(gen.unit_scales(), gen.scales()))
        d.update(steps.start_keys(kind))
        d["ops"] = steps.ops_strategy(kind, 8, extra=extras())
        return gen.large(d)

    return make


def scribble(a):
    if a.flags.writeable:
        a += 7.25


def check_kind(kind):
    def check(case, ctx):
        d = steps.start(case, kind)
        if kind == "mech":
            passed = []
        else:
            passed = list(d.passed)
        d.same("after construction: ")
        busy = 0
        for n, op in enumerate(case["ops"]):
            ctx.label(op["op"])
            what = f"after operation {n} ({op['op']}): "
            if op["op"] == "mutate_in":
                if passed:
                    scribble(passed[op["v"] % len(passed)])
            elif op["op"] == "mutate_out":
                out = [np.asarray(g) for _, g, _ in d.reads()]
                scribble(out[op["v"] % len(out)])
            elif op["op"] == "exchange":
                # arrays a step reports are accepted back
                if kind == "mech":
                    d.step.update_prev_y(d.step.y())
                    d.prev_y = d.y.copy()
                else:
                    d.step.update_prev_theta(d.step.theta())
                    d.prev_theta = d.theta.copy()
                    d.step.update_prev_y(d.step.y())
                    d.prev_y = d.y.copy()
            elif op["op"] == "solve":
                v = op["v"]
                c = d.mesh.deformation(v) if kind == "mech" else d.mesh.temperature(v)
                c = np.where(d.p.fixed(), d.unknown(), c)
                d.p.solve_with(lambda m, c=c: d.p.assign(c))
                d.set_unknown(c)
            else:
                a = steps.apply_op(d, op)
                if a is not None:
                    passed.append(a)
            d.same(what)
            busy += op["op"] in ("mutate_in", "mutate_out", "solve", "exchange")
        ctx.nontrivial(busy >= 1 and len(case["ops"]) >= 2)

    return check


SUBS = [
    Sub("mechanical", strategy("mech", False), check_kind("mech"), quick=640, thorough=120000),
    Sub("thermal", strategy("therm", False), check_kind("therm"), quick=400, thorough=80000),
    Sub("mechanical_regularized", strategy("mech", True), check_kind("mech"), quick=80, thorough=15000),
    Sub("thermal_regularized", strategy("therm", True), check_kind("therm"), quick=64, thorough=8000),
    Sub("large_mechanical", large_strategy("mech"), check_kind("mech"), quick=40, thorough=6000),
    Sub("large_thermal", large_strategy("therm"), check_kind("therm"), quick=32, thorough=4000),
]
