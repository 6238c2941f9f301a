"""C01: the staggered time stepping hands every state over exactly."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, sim

PROPERTY = "C01"
RULE = (
    "simulations (all fixed sides, mesh sizes, frame rates, search radii, forcing, with and without"
    " regularization), 1 to 12 run calls of 1 to 6 steps, solver answers drawn per step; at every solve the"
    " posed objective is compared with the reference energy of the recorded states, and after every call"
    " the recorded history with the solver's answers; non-trivial: at least three time steps"
)
ASSUMPTIONS = [
    "solver answers keep fixed unknowns and constraints and have positive determinant and temperatures >= 0"
]


def strategy(tier):
    big = tier == "thorough"
    d = sim.cases(4 if big else 3, 9 if big else 4, forcing=True)
    d["runs"] = st.lists(
        st.one_of(st.none(), st.integers(1, 3), st.integers(1, 6)), min_size=1,
        max_size=12 if big else 5,
    )
    return st.fixed_dictionaries(d)


def long_strategy(tier):
    d = sim.cases(1, 1, forcing=True)
    d["runs"] = st.lists(st.one_of(st.none(), st.integers(5, 25)), min_size=1, max_size=4)
    return st.fixed_dictionaries(d)


def reg_strategy(tier):
    d = sim.cases(2, 2, reg=True)
    d["runs"] = st.lists(st.one_of(st.none(), st.integers(1, 2)), min_size=1, max_size=2)
    return st.fixed_dictionaries(d)


def check(case, ctx):
    w = sim.World(case).learn()
    r = sim.Run(w)

    def after(run, kind, k, p, answer):
        sim.check_objective(
            w, kind, k, run.history, run.pending, p, answer,
            f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k}",
        )

    r.after = after
    r.create()
    first = 2 if w.slots["mech"][1] else 1  # fully clamped bodies have no mechanical problem
    require(r.solves == first, "construction made %d solves, expected %d", r.solves, first)
    r.check_recorded(what="after construction: ")
    r.check_texts()
    for n in case["runs"]:
        before = len(r.sim.steps)
        r.run(n)
        require(
            len(r.sim.steps) == before + (n or 1), "run(%r) appended %d steps",
            n, len(r.sim.steps) - before,
        )
        for i in (0, before - 1):
            r.check_recorded([i], what=f"after run({n}): ")
        r.check_texts(f"after run({n}): ")
    r.check_recorded()
    ctx.label("wide" if w.wide else "wobble")
    ctx.label("fixed" if w.mech_fixed.any() else "free")
    ctx.nontrivial(len(r.history) > 3)


def check_split(case, ctx):
    """n steps at once are n times one step."""
    w = sim.World(case).learn()
    total = sum(n or 1 for n in case["runs"])
    a = sim.Run(w).create()
    a.run(total)
    b = sim.Run(w).create()
    for _ in range(total):
        b.run()
    require(len(a.sim.steps) == len(b.sim.steps) == total + 2, "different numbers of steps")
    for i in range(total + 2):
        x, y = a.recorded(i), b.recorded(i)
        require(
            (x[0] == y[0]).all() and (x[1] == y[1]).all(),
            "step %d of run(%d) differs from %d single runs", i, total, total,
        )
    ctx.nontrivial(total > 1)


def very_long_strategy(tier):
    d = sim.cases(1, 1, forcing=True)
    d["runs"] = st.lists(st.integers(150, 220), min_size=1, max_size=2 if tier == "quick" else 6)
    return st.fixed_dictionaries(d)


def large_strategy(reg):
    def make(tier):
        d = sim.cases(forcing=True, reg=reg)
        d["runs"] = st.lists(st.one_of(st.none(), st.integers(1, 2)), min_size=1, max_size=2)
        return gen.large(d, reg)

    return make


SUBS = [
    Sub("history", strategy, check, quick=200, thorough=60000),
    Sub("long", long_strategy, check, quick=40, thorough=15000),
    Sub("very_long", very_long_strategy, check, quick=8, thorough=400, shards=4),
    Sub("split", strategy, check_split, quick=48, thorough=15000),
    Sub("regularized", reg_strategy, check, quick=32, thorough=6000),
    Sub("large", large_strategy(False), check, quick=24, thorough=4000),
    Sub("large_regularized", large_strategy(True), check, quick=8, thorough=800),
]
