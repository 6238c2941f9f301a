"""C27: simulations are isolated from each other and deterministic."""

import copy
import numpy as np
from hypothesis import strategies as st
# all of the package, so that children need not import it
import tvemoves_rufbad.simulation  # noqa
from lib.isolate import PackageError, in_child
from lib.model import constraint_residual, constraints_of
from lib.pbt import Sub, Violation, require
from lib import gen, geom, sim, steps

PROPERTY = "C27"
RULE = (
    "2 to 4 simulations sharing domain, parameter and forcing objects (mixed regularized and not, same or"
    " different frame rates, temperatures and solver answers), created and advanced in any order, also"
    " while another one is inside its solver; every recorded step compared bit for bit with the same"
    " simulation run alone on fresh objects and with a repetition; domain, parameters, grids and refinements"
    " compared before and after; simulations over inputs differing in one or two respects, interleaved in"
    " one process and each alone in a fresh process, compared in posed problems and recorded steps;"
    " non-trivial: two simulations advanced alternately"
)
ASSUMPTIONS = ["no concurrent threads"]


def strategy(reg):
    def make(tier):
        d = sim.cases(2, 2 if reg else 3, forcing=True)
        d["sims"] = st.lists(
            st.fixed_dictionaries({
                "salt": gen.salts(),
                "same": st.booleans(),  # share the parameters of the first simulation
                "fps": gen.fps_values(),
                "theta0": st.integers(0, 300),
                "reg": st.sampled_from([None, None, 10] if reg else [None]),
            }),
            min_size=2, max_size=3 if reg else 4,
        )
        d["schedule"] = st.lists(
            st.tuples(
                st.integers(0, 3), st.integers(1, 1 if reg else 3), st.integers(0, 3),
                st.sampled_from([None, None, 0, 1, 2]),
            ).map(list),
            min_size=1, max_size=4 if reg else 8,
        )
        d["nested_creation"] = st.booleans()
        return st.fixed_dictionaries(d)

    return make


def world(case, n):
    s = case["sims"][n]
    c = {k: v for k, v in case.items() if k not in ("sims", "schedule")}
    first = case["sims"][0]
    kind = first if s["same"] else s
    c.update(salt=s["salt"], fps=kind["fps"], theta0=kind["theta0"])
    if kind["reg"] is not None:
        c.update(reg=kind["reg"], k=1)
    return sim.World(c).learn()


def check(case, ctx):
    from dataclasses import asdict

    worlds = [world(case, n) for n in range(len(case["sims"]))]
    domain = worlds[0].mesh.domain
    shown = (domain.width, domain.height, copy.deepcopy(domain.fix))
    grid = domain.grid(worlds[0].mesh.h)
    before = geom.snapshot(grid)
    refined = domain.refine(grid, 2)
    before_refined = geom.snapshot(refined)
    shared = {}
    params = []
    for w, s in zip(worlds, case["sims"]):
        if s["same"]:
            params.append(shared.setdefault("first", worlds[0].params()))
        else:
            params.append(w.params())
    if "first" in shared:
        params[0] = shared["first"]
    kept = [asdict(p) for p in params]

    traction, external = worlds[0].traction, worlds[0].external
    runs = [sim.Run(w) for w in worlds]
    done = [0] * len(runs)
    log = []

    def create(i):
        if runs[i].sim is None:
            if worlds[i].has_forcing:
                runs[i].create(domain=domain, params=params[i], traction=traction, external=external)
            else:
                runs[i].create(domain=domain, params=params[i])

    if not case["nested_creation"]:
        for i in range(len(runs)):
            create(i)
    for i, n, j, at in case["schedule"]:
        i, j = i % len(runs), j % len(runs)
        if runs[i].sim is None:
            create(i)
        if at is not None and i != j:
            # while i is inside its solve number `at` of this call, j is created or advanced
            left = [at]

            def observer(run, kind, k, p, j=j, left=left):
                if left[0] == 0:
                    if runs[j].sim is None:
                        create(j)
                    else:
                        runs[j].run(1)
                        done[j] += 1
                    log.append(j)
                    ctx.label("nested")
                left[0] -= 1

            runs[i].observer = observer
        runs[i].run(n)
        runs[i].observer = None
        done[i] += n
        log.append(i)
    for i in range(len(runs)):
        if runs[i].sim is None:
            create(i)

    require(
        (domain.width, domain.height, domain.fix) == shown, "the simulations changed the domain to %r",
        (domain.width, domain.height, domain.fix),
    )
    for p, want in zip(params, kept):
        require(asdict(p) == want, "the simulations changed their parameters to %r", p)
    require(geom.snapshot(grid) == before, "a grid of the domain changed")
    require(geom.snapshot(refined) == before_refined, "a refined grid of the domain changed")
    require(
        geom.snapshot(domain.grid(worlds[0].mesh.h)) == before, "the domain now gives a different grid"
    )
    require(
        geom.snapshot(domain.refine(domain.grid(worlds[0].mesh.h), 2)) == before_refined,
        "the domain now gives a different refinement",
    )

    for i, r in enumerate(runs):
        r.check_recorded(what=f"simulation {i} of {len(runs)}: ")
        w = world(case, i)
        alone = sim.Run(w).create()
        again = None
        if done[i]:
            alone.run(done[i])
        if i == 0:
            again = sim.Run(w).create()
            for _ in range(done[i]):
                again.run()
        for other, how in ((alone, "alone"), (again, "repeated")):
            if other is None:
                continue
            require(
                len(r.sim.steps) == len(other.sim.steps), "simulation %d has %d steps, %s it has %d",
                i, len(r.sim.steps), how, len(other.sim.steps),
            )
            for k in range(len(r.sim.steps)):
                a, b = r.recorded(k), other.recorded(k)
                require(
                    np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]),
                    "step %d of simulation %d differs from the one %s", k, i, how,
                )
            require(
                r.sim.max_temp() == other.sim.max_temp(), "the maximal temperature of simulation %d differs",
                i,
            )
    ctx.label(f"{len(runs)} simulations")
    ctx.nontrivial(len(set(log)) > 1)




def check_problems(case, ctx):
    """Objectives of every simulation in the interleaving equal its own reference energy."""
    worlds = [world(case, n) for n in range(len(case["sims"]))]
    domain = worlds[0].mesh.domain
    runs = []
    for w in worlds:
        r = sim.Run(w)

        def after(run, kind, k, p, answer, w=w):
            sim.check_objective(
                w, kind, k, run.history, run.pending, p, answer,
                f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k} among"
                f" {len(worlds)} simulations",
            )

        r.after = after
        r.create(domain=domain)
        runs.append(r)
    log = []
    for i, n, _, _ in case["schedule"]:
        runs[i % len(runs)].run(min(n, 2))
        log.append(i % len(runs))
    ctx.nontrivial(len(set(log)) > 1)

# ------------------------------------------------ related inputs, each also alone in a fresh process
def deltas(reg):
    """Changes of one or two inputs of a simulation."""
    d = {
        "fix": gen.fix_specs(),
        "h": gen.unit_scales(),
        "n": gen.counts(2, 2 if reg else 3).map(list),
        "frac": st.sampled_from([[0, 0], [30, 0], [0, 70]]),
        "theta0": st.integers(0, 300),
        "fps": gen.fps_values(),
        "salt": gen.salts(),
    }
    if reg:
        d["reg"] = st.sampled_from([0, 10, 300])
        d["k"] = st.sampled_from([1, 2])
    else:
        d["traction"] = steps.tractions()
        d["external"] = steps.externals()
    one = st.sampled_from(sorted(d)).flatmap(lambda k: st.fixed_dictionaries({k: d[k]}))
    # the mesh is what one is tempted to share
    grid = st.sampled_from(["fix", "h", "n", "frac"]).flatmap(lambda k: st.fixed_dictionaries({k: d[k]}))
    both = st.tuples(one, grid).map(lambda t: {**t[0], **t[1]})
    return st.one_of(st.just({}), one, grid, both)


def strategy_fresh(reg):
    def make(tier):
        d = sim.cases(2, 2 if reg else 3, reg=reg, forcing=not reg)
        d["deltas"] = st.lists(deltas(reg), min_size=1, max_size=2 if reg else 3)
        d["schedule"] = st.lists(st.integers(0, 3), min_size=1, max_size=3 if reg else 5)
        return st.fixed_dictionaries(d)

    return make


def variants(case):
    base = {k: v for k, v in case.items() if k not in ("deltas", "schedule")}
    return [base] + [{**base, **d} for d in case["deltas"]]


def observed(case):
    """A simulation whose posed problems and recorded steps are noted in the second result."""
    r = sim.Run(sim.World(case).learn())
    notes = []

    def observer(run, kind, k, p):
        lo, hi = p.bounds()
        notes.append([kind, k, p.start(), lo, hi, p.fixed()])

    def after(run, kind, k, p, answer):
        c = [constraint_residual(c) for c in constraints_of(p.model)]
        notes[-1] += [p.objective_at(answer), c]

    r.observer, r.after = observer, after
    r.create()
    return r, notes


def grids(w):
    """What the domain gives when asked again."""
    g = w.mesh.domain.grid(w.mesh.h)
    return [geom.snapshot(w.mesh.grid), geom.snapshot(g)] + [
        geom.snapshot(w.mesh.domain.refine(g, k)) for k in (1, 2)
    ]


def outcome(r, notes):
    return {
        "notes": notes,
        "steps": [r.recorded(i) for i in range(len(r.sim.steps))],
        "max": r.sim.max_temp(),
        "fix": r.world.mesh.domain.fix,
        "grids": grids(r.world),
    }


def alone(case, n):
    r, notes = observed(case)
    for _ in range(n):
        r.run(1)
    return outcome(r, notes)


def together(cases, schedule):
    runs = [None] * len(cases)
    for i in schedule:
        i %= len(cases)
        if runs[i] is None:
            runs[i] = observed(cases[i])
        runs[i][0].run(1)
    for i, c in enumerate(cases):
        if runs[i] is None:
            runs[i] = observed(c)
    return [outcome(*r) for r in runs]


def check_fresh(case, ctx):
    """Runs no package code in this process, so that every child starts from the same state."""
    cases = variants(case)
    n = [sum(1 for i in case["schedule"] if i % len(cases) == j) for j in range(len(cases))]
    want = []
    for c, m in zip(cases, n):
        try:
            want.append(in_child(alone, c, m))
        except PackageError as e:
            raise Violation(f"a simulation on its own raises {e}") from e
    try:
        got = in_child(together, cases, case["schedule"])
    except PackageError as e:
        raise Violation(f"simulations that run alone fail after one another: {e}") from e
    except Violation as e:
        raise Violation(f"simulations that run alone fail after one another: {e}") from e
    for i, (a, b) in enumerate(zip(got, want)):
        who = f"simulation {i} of {len(cases)}, with the others before it,"
        require(a["fix"] == b["fix"], "%s has a domain with fixed sides %r", who, a["fix"])
        require(a["grids"] == b["grids"], "%s has a domain with other grids", who)
        require(len(a["notes"]) == len(b["notes"]), "%s solves %d problems", who, len(a["notes"]))
        for u, v in zip(a["notes"], b["notes"]):
            what = f"{'mechanical' if v[0] == 'mech' else 'thermal'} problem of step {v[1]}"
            require(u[:2] == v[:2], "%s poses its problems in another order", who)
            for p, q, name in zip(u[2:6], v[2:6], ("start", "lower bounds", "upper bounds", "fixed unknowns")):
                require(np.array_equal(p, q), "%s has a %s with other %s", who, what, name)
            scale = max(abs(u[6]), abs(v[6]), 1e-300)
            require(
                abs(u[6] - v[6]) <= 1e-9 * scale, "%s has a %s with objective %r instead of %r", who, what,
                u[6], v[6],
            )
            require(
                len(u[7]) == len(v[7]) and np.allclose(sorted(u[7]), sorted(v[7]), rtol=0, atol=1e-9),
                "%s has a %s with other constraints", who, what,
            )
        require(len(a["steps"]) == len(b["steps"]), "%s records %d steps", who, len(a["steps"]))
        for k, (s, t) in enumerate(zip(a["steps"], b["steps"])):
            require(
                np.array_equal(s[0], t[0]) and np.array_equal(s[1], t[1]),
                "%s records another step %d", who, k,
            )
        require(a["max"] == b["max"], "%s has another maximal temperature", who)
    changed = {k for d in case["deltas"] for k in d}
    for k in sorted(changed):
        ctx.label(f"different {k}")
    ctx.nontrivial(bool(changed) and len({i % len(cases) for i in case["schedule"]}) > 1)


SUBS = [
    Sub("interleaved", strategy(False), check, quick=120, thorough=25000),
    Sub("interleaved_mixed", strategy(True), check, quick=40, thorough=4000),
    Sub("problems", strategy(False), check_problems, quick=64, thorough=15000),
    Sub("fresh", strategy_fresh(False), check_fresh, quick=160, thorough=15000),
    Sub("fresh_regularized", strategy_fresh(True), check_fresh, quick=40, thorough=4000),
]
