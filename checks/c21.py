"""C21: invalid requests are rejected without any effect."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub, Violation, require
from lib import gen, sim, steps

PROPERTY = "C21"
RULE = (
    "all combinations of valid and invalid parameters (boundary values, very small and large values, ints,"
    " floats, numpy numbers); step counts <= 0 at any point of a history; arrays of wrong shape (transposed,"
    " flattened, one row more or less, extra or missing axes, empty) given to every update of all four kinds"
    " of step, to their construction and to recorded steps; non-trivial: an invalid request"
)
ASSUMPTIONS = ["finite numbers; integer step counts and refinement factors"]

GOOD_POSITIVE = [1e-9, 1e-3, 0.1, 1, 1.0, 2.5, 30, 1e6]
BAD_POSITIVE = [0, 0.0, -0.0, -1e-12, -1, -2.5, -1e9]


def number(good, bad):
    return st.one_of(
        st.sampled_from([["ok", v] for v in good]), st.sampled_from([["ok", v] for v in good]),
        st.sampled_from([["ok", v] for v in good]), st.sampled_from([["bad", v] for v in bad]),
    )


def params_strategy(tier):
    negative = [-1e-12, -0.5, -1, -1e6]
    return st.fixed_dictionaries({
        "initial_temperature": number([0, 0.0, -0.0, 1e-9, 0.3, 2, 400.0], negative),
        "search_radius": number(GOOD_POSITIVE, BAD_POSITIVE),
        "fps": number(GOOD_POSITIVE, BAD_POSITIVE),
        "scale": number(GOOD_POSITIVE, BAD_POSITIVE),
        "regularization": st.one_of(
            st.just(["ok", None]), number([0, 0.0, -0.0, 1e-9, 0.1, 1, 10.0], negative)
        ),
        "refinement_factor": st.one_of(
            st.just(["ok", None]), number([1, 2, 3, 10], [0, -1, -5])
        ),
        "numpy": st.booleans(),
        "call": st.sampled_from(["keywords", "positions"]),
    })


FIELDS = ["initial_temperature", "search_radius", "fps", "scale", "regularization", "refinement_factor"]


def check_params(case, ctx):
    from tvemoves_rufbad.simulation import SimulationParams

    def value(name):
        v = case[name][1]
        if case["numpy"] and isinstance(v, float):
            return np.float64(v)
        return v

    kwds = {n: value(n) for n in FIELDS}
    bad = [n for n in FIELDS if case[n][0] == "bad"]
    if kwds["regularization"] is not None and kwds["refinement_factor"] is None:
        bad.append("missing refinement factor")
    ctx.label("valid" if not bad else "invalid")
    ctx.nontrivial(bool(bad))
    try:
        if case["call"] == "positions":
            p = SimulationParams(*[kwds[n] for n in FIELDS])
        else:
            p = SimulationParams(**kwds)
    except Exception as e:  # pylint: disable=broad-except
        require(bad, "valid parameters %r were rejected: %s", kwds, e)
        return
    require(not bad, "invalid parameters were accepted: %s in %r", ", ".join(bad), kwds)
    want = dict(kwds)
    if kwds["regularization"] is None:
        want["refinement_factor"] = None
    for n in FIELDS:
        require(
            getattr(p, n) == want[n] or (getattr(p, n) is None and want[n] is None),
            "parameter %s is %r, expected %r", n, getattr(p, n), want[n],
        )
    m, t = p.mechanical_step_params(), p.thermal_step_params()
    require(
        (m.initial_temperature, m.search_radius, m.fps, m.regularization)
        == tuple(want[n] for n in ("initial_temperature", "search_radius", "fps", "regularization")),
        "the parameters of the mechanical step are %r", m,
    )
    require(
        (t.search_radius, t.fps, t.regularization)
        == tuple(want[n] for n in ("search_radius", "fps", "regularization")),
        "the parameters of the thermal step are %r", t,
    )


# ---------------------------------------------------------------- step counts
def counts_strategy(reg):
    def make(tier):
        d = sim.cases(2, 2, reg=True) if reg else sim.cases(3, 4, forcing=True)
        d["runs"] = st.lists(
            st.one_of(st.integers(-3, 0), st.integers(-(10**9), -1), st.integers(1, 2)),
            min_size=1, max_size=6 if not reg else 3,
        )
        return st.fixed_dictionaries(d)

    return make


def check_counts(case, ctx):
    w = sim.World(case).learn()
    r = sim.Run(w)
    r.after = lambda run, kind, k, p, answer: sim.check_objective(
        w, kind, k, run.history, run.pending, p, answer, f"{kind} problem of step {k}"
    )
    r.create()
    for n in case["runs"]:
        if n > 0:
            r.run(n)
            continue
        ctx.nontrivial()
        kept, solves, hottest = list(r.sim.steps), r.solves, r.sim.max_temp()
        try:
            r.run(n)
        except Exception:  # pylint: disable=broad-except
            pass
        else:
            raise Violation(f"run({n}) was accepted")
        require(r.solves == solves, "run(%d) solved a problem", n)
        require(
            len(kept) == len(r.sim.steps) and all(a is b for a, b in zip(kept, r.sim.steps)),
            "run(%d) changed the recorded steps", n,
        )
        require(r.sim.max_temp() == hottest, "run(%d) changed the maximal temperature", n)
    r.check_recorded()


# ---------------------------------------------------------------- shapes
SHAPES = ["fewer", "more", "transposed", "flat", "extra axis", "other mode", "empty", "component", "scalar"]


def wrong(array, shape, mesh):
    a = np.array(array, float)
    out = {
        "fewer": lambda: a[:-1],
        "more": lambda: np.concatenate([a, a[:1]]),
        "transposed": lambda: a.T.copy() if a.ndim > 1 else a[:, None].T.copy(),
        "flat": lambda: a.ravel() if a.ndim > 1 else a[:, None],
        "extra axis": lambda: a[..., None],
        "other mode": lambda: (
            (a[:, :, 0].copy() if a.ndim == 3 else np.repeat(a[:, :, None], 6, axis=2))
            if a.ndim > 1 else np.concatenate([a, a])
        ),
        "empty": lambda: a[:0],
        "component": lambda: a[:, 0].copy() if a.ndim > 1 else a[:1] if len(a) > 1 else a[:0],
        "scalar": lambda: np.array(1.0),
    }[shape]()
    return None if out.shape == a.shape else out


def shapes_strategy(kind, reg):
    def make(tier):
        if reg:
            d = steps.meshes(2, 2, reg=True)
            d["k"] = st.sampled_from([1, 1, 2]) if kind == "therm" else st.just(1)
        else:
            d = steps.meshes(3, 6, variants=False)
        d.update(steps.start_keys(kind, reg))
        which = ["prev_y", "prev_theta"] + (["y"] if kind == "therm" else [])
        d["ops"] = steps.ops_strategy(kind, 4)
        d["bad"] = st.lists(
            st.tuples(st.sampled_from(which), st.sampled_from(SHAPES)).map(list), min_size=1, max_size=5
        )
        return st.fixed_dictionaries(d)

    return make


def check_shapes(kind):
    def check(case, ctx):
        d = steps.start(case, kind)
        m = d.mesh
        for op in case["ops"]:
            steps.apply_op(d, op)
        d.p.capture()
        start, (lo, hi) = d.p.start(), d.p.bounds()
        before = d.p.objective_at(d.unknown())
        d.same()
        for name, shape in case["bad"]:
            base = {"prev_y": d.prev_y, "y": d.y, "prev_theta": d.prev_theta}[name] * 1.01 + 0.125
            a = wrong(base, shape, m)
            if a is None:
                continue
            ctx.label(shape)
            ctx.nontrivial()
            try:
                getattr(d.step, "update_" + name)(a)
            except Exception:  # pylint: disable=broad-except
                pass
            else:
                raise Violation(f"update_{name} accepted an array of shape {a.shape} ({shape})")
            d.same(f"after rejecting {name} of shape {a.shape}: ")
        d.p.capture()
        s2, (l2, h2) = d.p.start(), d.p.bounds()
        require(np.array_equal(start, s2), "a rejected update changed the starting guess")
        require(
            np.array_equal(lo, l2) and np.array_equal(hi, h2), "a rejected update changed the bounds"
        )
        require(
            d.p.objective_at(d.unknown()) == before, "a rejected update changed the objective"
        )

    return check


def construction_strategy(tier):
    d = steps.meshes(3, 4, reg=True)
    d["k"] = st.just(1)
    d["mode"] = st.booleans()
    d["y"] = steps.deformations()
    d["theta"] = steps.temperature_states()
    d["target"] = st.sampled_from(["thermal", "recorded", "no refined grid"])
    d["which"] = st.integers(0, 2)
    d["shape"] = st.sampled_from(SHAPES + ["right"])
    return st.fixed_dictionaries(d)


def check_construction(case, ctx):
    """Construction of steps from arrays: accepted exactly if the shapes are right."""
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    from tvemoves_rufbad.simulation import Step, RegularizedStep

    c = dict(case)
    if not case["mode"]:
        del c["reg"]
    m = steps.Mesh(c)
    if m.n > 9 and m.reg is not None:
        return
    y, theta = m.deformation(case["y"]), m.temperature(case["theta"])
    target = case["target"]
    arrays = [y, y + 0.25, theta] if target == "thermal" else [y, theta]
    valid = True
    if target == "no refined grid":
        valid = m.reg is None
    elif case["shape"] != "right":
        i = case["which"] % len(arrays)
        a = wrong(arrays[i], case["shape"], m)
        if a is None:
            return
        arrays[i] = a
        valid = False
    ctx.label(target + (" valid" if valid else " invalid"))
    ctx.nontrivial(not valid)
    params = ThermalStepParams(1.0, 2.0, m.reg)

    def make():
        if target == "thermal":
            thermal_step(None, m.grid, *arrays, params, lambda t: 0.0, m.refined)
        elif target == "recorded":
            if m.reg is None:
                Step(*arrays, m.domain, m.grid)
            else:
                RegularizedStep(*arrays, m.domain, m.grid, m.refined)
        elif case["which"] == 0:
            thermal_step(None, m.grid, y, y, theta, params, lambda t: 0.0, None)
        elif case["which"] == 1:
            mechanical_step(
                None, m.grid, MechanicalStepParams(0.5, 1.0, 2.0, m.reg), None,
                lambda t, x, y: [0.0, 0.0],
            )
        elif m.reg is not None:
            RegularizedStep(y, theta, m.domain, m.grid, None)

    if valid:
        make()
        return
    try:
        make()
    except Exception:  # pylint: disable=broad-except
        return
    raise Violation(f"{target}: accepted arrays of shapes {[a.shape for a in arrays]}")


SUBS = [
    Sub("parameters", params_strategy, check_params, quick=4000, thorough=400000),
    Sub("step_counts", counts_strategy(False), check_counts, quick=80, thorough=25000),
    Sub("step_counts_regularized", counts_strategy(True), check_counts, quick=24, thorough=2000),
    Sub("shapes_mechanical", shapes_strategy("mech", False), check_shapes("mech"), quick=160, thorough=40000),
    Sub("shapes_thermal", shapes_strategy("therm", False), check_shapes("therm"), quick=120, thorough=30000),
    Sub("shapes_mechanical_regularized", shapes_strategy("mech", True), check_shapes("mech"), quick=32, thorough=5000),
    Sub("shapes_thermal_regularized", shapes_strategy("therm", True), check_shapes("therm"), quick=24, thorough=4000),
    Sub("construction", construction_strategy, check_construction, quick=200, thorough=60000),
]
