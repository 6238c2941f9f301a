"""C07: traction and outside temperature act at the right time and place."""

from hypothesis import strategies as st
import numpy as np
from lib.pbt import Sub, require
from lib import gen, ref, sim, steps

PROPERTY = "C07"
RULE = (
    "simulations with tractions (any function of time and place) and outside temperatures (any function of"
    " time), smooth, changing or switched on and off from frame to frame, all fixed sides, frame rates from 0.1 to 600,"
    " 2 to 30 time steps; objectives at every solve compared with the reference energy, whose forcing is"
    " taken at (k-1)/fps on the free (all) boundary edges found from the geometry; non-trivial: forcing"
    " changes in time and there are at least three time steps"
)
ASSUMPTIONS = ["outside temperature >= 0", "finite tractions"]


def forcing():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["smooth", "table", "table", "linear", "switch", "switch", "slow"]),
        "salt": gen.salts(),
        "which": st.sampled_from(["both", "both", "traction", "external"]),
        "type": st.sampled_from(["list", "tuple", "array"]),
        # decimal magnitude of all forces, and of the outside temperature
        "size": st.one_of(st.just([0, 0]), st.tuples(st.integers(-4, 4), st.integers(-3, 3)).map(list)),
    })


def strategy(tier):
    big = tier == "thorough"
    d = sim.cases(4 if big else 3, 8 if big else 4)
    d["f"] = forcing()
    d["runs"] = st.lists(st.one_of(st.none(), st.integers(1, 4)), min_size=1, max_size=4)
    return st.fixed_dictionaries(d)


def long_strategy(tier):
    d = sim.cases(1, 1)
    d["f"] = forcing()
    d["runs"] = st.lists(st.one_of(st.none(), st.integers(3, 20)), min_size=1, max_size=2)
    return st.fixed_dictionaries(d)


def large_strategy(tier):
    d = sim.cases()
    d["f"] = forcing()
    d["runs"] = st.lists(st.integers(1, 2), min_size=1, max_size=2)
    return gen.large(d)


class Forcing:
    def __init__(self, f, fps):
        self.kind, self.fps = f["kind"], fps
        r = np.random.default_rng(f["salt"])
        sizes = f.get("size", [0, 0])
        self.a = r.uniform(-2, 2, size=(200, 2, 4)) * 10.0 ** sizes[0]
        self.e = r.uniform(0, 4, size=200) * 10.0 ** sizes[1]
        self.on = r.integers(0, 2, size=(200, 2, 1)).astype(float)
        self.part = f["salt"] % 3 == 0
        self.rate = -3 - f["salt"] % 5
        self.type = {"list": list, "tuple": tuple, "array": np.array}[f["type"]]
        self.on_traction = f["which"] in ("both", "traction")
        self.on_external = f["which"] in ("both", "external")

    def coefficients(self, t):
        if self.kind == "table":
            k = int(round(t * self.fps))
            return self.a[k % 200] if 0 <= k < 200 else self.a[0] * 13.0
        if self.kind == "switch":  # on and off from frame to frame
            k = int(round(t * self.fps))
            return self.a[0] * self.on[k % 200]
        if self.kind == "linear":
            return self.a[0] + self.a[1] * t
        if self.kind == "slow":
            return self.a[0] * self.creep(t)
        return self.a[0] + self.a[1] * np.sin(0.7 * t * min(self.fps, 5))

    def creep(self, t):
        """Nearly constant: changes by 1e-3 to 1e-7 per frame."""
        return float(1.0 + 10.0 ** self.rate * np.sin(0.9 * t * self.fps))

    def traction(self, t, x, y):
        if not self.on_traction:
            return self.type([0.0, 0.0])
        a = self.coefficients(t)
        if self.kind == "switch" and self.part and np.sin(5 * x + 3 * y + 11 * t) > 0:
            return self.type([0.0, 0.0])
        v = [float(a[c][0] + a[c][1] * x + a[c][2] * y * y + a[c][3] * np.cos(3 * x + y)) for c in range(2)]
        return self.type(v)

    def external(self, t):
        if not self.on_external:
            return 0.0
        if self.kind == "table":
            k = int(round(t * self.fps))
            return float(self.e[k]) if 0 <= k < 200 else 99.0
        if self.kind == "switch":
            k = int(round(t * self.fps))
            return float(self.e[0] * self.on[k % 200, 1, 0])
        if self.kind == "linear":
            return float(self.e[0] + self.e[1] * abs(t))
        if self.kind == "slow":
            return float(self.e[0] * self.creep(t))
        return float(self.e[0] * (1 + np.sin(0.7 * t * min(self.fps, 5))))


def outline(mesh, sides):
    """(free edges, all boundary edges) from the positions alone."""
    P = np.array(mesh.points)
    tol = 1e-6 * mesh.h
    right, upper = P[:, 0].max(), P[:, 1].max()
    where = {
        "left": np.abs(P[:, 0]) < tol, "right": np.abs(P[:, 0] - right) < tol,
        "lower": np.abs(P[:, 1]) < tol, "upper": np.abs(P[:, 1] - upper) < tol,
    }
    free, every = [], []
    for s, on in where.items():
        c = 0 if s in ("lower", "upper") else 1
        line = sorted(np.flatnonzero(on), key=lambda v: P[v, c])
        edges = [(int(a), int(b)) for a, b in zip(line, line[1:])]
        every += edges
        if s not in sides:
            free += edges
    return free, every


def check(case, ctx):
    w = sim.World(case)
    f = Forcing(case["f"], w.fps)
    w.traction, w.external, w.has_forcing = f.traction, f.external, True
    free, every = outline(w.mesh, gen.fixed_sides(case["fix"]))
    w.mesh.neumann_edges, w.mesh.boundary_edges = free, every
    w.learn()
    r = sim.Run(w)

    def after(run, kind, k, p, answer):
        sim.check_objective(
            w, kind, k, run.history, run.pending, p, answer,
            f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k} at fps {w.fps!r}",
        )

    r.after = after
    r.create()
    for n in case["runs"]:
        r.run(n)
    ctx.label(f.kind)
    ctx.label(case["f"]["which"])
    ctx.label(f"{len(gen.fixed_sides(case['fix']))} fixed")
    ctx.nontrivial(len(r.history) > 3)


SUBS = [
    Sub("forcing", strategy, check, quick=240, thorough=50000),
    Sub("long", long_strategy, check, quick=64, thorough=15000),
    Sub("large", large_strategy, check, quick=32, thorough=5000),
]
