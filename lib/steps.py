"""Step objects driven through their public interface, next to a model of what they must hold."""

from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, geom, ref
from .model import Problem
from .pbt import require, HarnessError


# ---------------------------------------------------------------- generators
def meshes(max_n=4, max_cells=9, scale=None, variants=True, reg=False, max_fine=9, fix=True):
    """Case keys of a mesh; `reg` adds the refinement factor and the regularization."""
    d = {
        "n": gen.counts(max_n, max_cells).map(list),
        "h": scale if scale is not None else gen.unit_scales(),
        "frac": st.sampled_from([[0, 0], [0, 0], [30, 0], [0, 70]]),
    }
    if fix:
        d["fix"] = gen.fix_specs()
    if variants and not reg:
        d["variant"] = st.sampled_from(geom.VARIANTS)
        d["vsalt"] = gen.salts()
        d["k"] = st.sampled_from([1, 1, 1, 2])
    if reg:
        d["reg"] = st.sampled_from([0, 1, 10, 100, 300])
        d["k"] = st.sampled_from([1, 1, 2])
    return d


def deformations():
    """A deformation: affine parameters, salt of the nodal noise and its amplitude."""
    return st.fixed_dictionaries({
        "A": gen.affine_maps(),
        "s": gen.salts(),
        "a": st.sampled_from([0, 20, 100, 100]),
        "layout": st.sampled_from(["C", "C", "F", "strided", "readonly"]),
    })


def temperature_states():
    return st.fixed_dictionaries({
        "t": gen.temperature_kinds(),
        "s": gen.salts(),
        "layout": st.sampled_from(["C", "C", "strided", "readonly"]),
    })


def tractions():
    """Coefficients of a traction, affine in space and not affine in time; None: no traction."""
    c = st.integers(-30, 30)
    big = st.one_of(c, st.sampled_from([-20000, 3000, 10**6]))
    return st.one_of(
        st.none(),
        st.lists(big, min_size=8, max_size=8),
        st.tuples(c, st.just(0), st.just(0), st.just(0), c, st.just(0), st.just(0), st.just(0)).map(list),
        # one more entry: switched off in parts of the boundary and at some times
        st.lists(c, min_size=9, max_size=9),
        st.lists(c, min_size=8, max_size=8),
    )


def traction_function(a):
    if a is None:
        return lambda t, x, y: [0.0, 0.0]
    a = [x / 10 for x in a]

    def g(t, x, y):
        w = np.sin(1.3 * t)
        if len(a) == 9 and np.sin(5 * x + 3 * y + 2.9 * t + a[8]) > 0.3:
            return [0.0, 0.0]
        return [
            float(a[0] + a[1] * w + a[2] * x + a[3] * y * w),
            float(a[4] + a[5] * w * w + a[6] * y + a[7] * x * w),
        ]

    return g


def externals():
    """Coefficients of a non-negative outside temperature; None: zero."""
    return st.one_of(
        st.none(),
        st.tuples(st.integers(0, 50), st.just(0)).map(list),
        st.tuples(st.integers(0, 50), st.integers(-50, 50)).map(list),
        st.tuples(st.sampled_from([2932, 10000, 50]), st.integers(-3000, 3000)).map(list),
    )


def external_function(a):
    if a is None:
        return lambda t: 0.0
    return lambda t: a[0] / 10 + abs(a[1]) / 10 * (1.0 + float(np.sin((1.7 if a[1] > 0 else 0.9) * t)))


# ---------------------------------------------------------------- meshes as plain data
class Mesh:
    def __init__(self, case):
        self.case = case
        self.reg = case["reg"] / 100 if case.get("reg") is not None else None
        if self.reg is None and "variant" in case:
            c = dict(case)
            c["salt"] = case["vsalt"]
            self.grid, self.h, _, _ = geom.variant_grid(c, max_fine=24, amplitude=0.15)
            self.domain = None
        else:
            self.domain, self.h, _, _ = geom.make_domain(case)
            self.grid = self.domain.grid(self.h)
        g = self.grid
        self.points = geom.points_of(g)
        self.triangles = [tuple(t) for t in g.triangles]
        self.boundary_edges = [tuple(e) for e in g.boundary.edges]
        self.neumann_edges = [tuple(e) for e in g.neumann_boundary.edges]
        self.dirichlet = sorted(g.dirichlet_boundary.vertices)
        self.n = len(self.points)
        self.refined = None
        self.fine_points, self.fine_triangles = self.points, self.triangles
        if self.reg is not None:
            self.refined = self.domain.refine(g, case["k"])
            self.fine_points = geom.points_of(self.refined)
            self.fine_triangles = [tuple(t) for t in self.refined.triangles]
        self.nf = len(self.fine_points)
        self._field = None

    @property
    def clamped(self):
        """Whether the fixed sides determine the deformation: every vertex of a piecewise affine one
        is on a fixed side."""
        return self.reg is None and len(set(self.dirichlet)) == self.n

    @property
    def field(self):
        if self._field is None:
            self._field = ref.C1Field(
                self.points, self.triangles, self.fine_points, self.fine_triangles, ref.RADON7
            )
        return self._field

    # -------------------------------------------------- states
    def reference(self):
        """The identity deformation in the format of the steps."""
        P = np.array(self.points)
        if self.reg is None:
            return P
        y = np.zeros((self.n, 2, 6))
        y[:, :, 0] = P
        y[:, 0, 1] = 1.0
        y[:, 1, 2] = 1.0
        return y

    def deformation(self, d):
        """Array for a generated deformation; all determinants are positive."""
        A, b, smin = gen.affine(d["A"])
        P = np.array(self.points)
        amp = smin * d["a"] / 100
        if self.reg is None:
            return P @ A.T + b * self.h + gen.noise(d["s"], P.shape, 0.08 * self.h * amp)
        y = np.zeros((self.n, 2, 6))
        y[:, :, 0] = P @ A.T + b * self.h
        y[:, 0, 1:3] = A[0]
        y[:, 1, 1:3] = A[1]
        h = self.h
        z = gen.noise(d["s"], y.shape, amp) * (np.array([h, 1, 1, 1 / h, 1 / h, 1 / h]) * 0.1)
        floor = 0.2 * float(np.linalg.det(A))
        while True:
            dets = [ref.det2(F) for _, _, _, F, _ in self.field.evaluate(y + z)]
            if min(dets) >= floor:
                return y + z
            z = z / 2

    def min_det(self, y):
        if self.reg is None:
            return min(ref.det2(ref.p1_strain(self.points, t, y)) for t in self.triangles)
        return min(ref.det2(F) for _, _, _, F, _ in self.field.evaluate(y))

    def temperature(self, t):
        return gen.temperatures(t["t"], t["s"], self.nf)

    # -------------------------------------------------- reference energies
    def mech(self, prev_y, y, theta, fps, traction):
        if self.reg is None:
            return ref.mech_p1(
                self.points, self.triangles, self.neumann_edges, prev_y, y, theta, fps, traction
            )
        return ref.mech_c1(self.field, prev_y, y, theta, fps, self.reg)

    def therm(self, prev_y, y, prev_theta, theta, fps, external):
        if self.reg is None:
            return ref.thermal_p1(
                self.points, self.triangles, self.boundary_edges, prev_y, y, prev_theta, theta,
                fps, external,
            )
        return ref.thermal_c1(
            self.field, self.fine_points, prev_y, y, prev_theta, theta, fps
        )


def laid_out(array, layout):
    a = np.array(array, float)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        big = np.zeros((2 * a.shape[0],) + a.shape[1:])
        big[::2] = a
        return big[::2]
    if layout == "readonly":
        a.setflags(write=False)
    return a


# ---------------------------------------------------------------- driven steps
class Driven:
    """A step with the model of its content: prev_y, y, prev_theta, theta and the time of forcing."""

    def __init__(self, mesh: Mesh, kind, radius, fps):
        self.mesh, self.kind, self.radius, self.fps = mesh, kind, radius, fps
        self.time = 0.0
        self.fresh = True  # the unknowns were reset since the last solve
        self.held = {"y": [], "theta": []}  # states held before

    def start_mech(self, theta0, traction):
        from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams

        m = self.mesh
        self.prev_y = m.reference()
        self.y = self.prev_y.copy()
        self.prev_theta = np.full(m.nf, float(theta0))
        self.traction = traction_function(traction)
        params = MechanicalStepParams(theta0, self.radius, self.fps, m.reg)
        self.p = Problem(
            lambda s: mechanical_step(s, m.grid, params, m.refined, self.traction),
            lambda step: step.y(),
            idle=m.clamped,
        )
        self.step = self.p.step
        return self

    def start_therm(self, prev_y, y, prev_theta, external, layouts=("C", "C", "C")):
        from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

        m = self.mesh
        self.prev_y, self.y, self.prev_theta = prev_y, y, prev_theta
        self.theta = prev_theta.copy()
        self.external = external_function(external)
        params = ThermalStepParams(self.radius, self.fps, m.reg)
        self.passed = [laid_out(a, l) for a, l in zip((prev_y, y, prev_theta), layouts)]
        self.p = Problem(
            lambda s: thermal_step(
                s, m.grid, self.passed[0], self.passed[1], self.passed[2], params, self.external,
                m.refined,
            ),
            lambda step: step.theta(),
        )
        self.step = self.p.step
        return self

    # -------------------------------------------------- updates
    def update_prev_y(self, array, layout="C"):
        a = laid_out(array, layout)
        self.step.update_prev_y(a)
        self.prev_y = np.array(array, float)
        if self.kind == "mech":
            self.y = self.prev_y.copy()
            self.fresh = True
        return a

    def update_prev_theta(self, array, layout="C"):
        a = laid_out(array, layout)
        self.step.update_prev_theta(a)
        self.prev_theta = np.array(array, float)
        if self.kind == "therm":
            self.theta = self.prev_theta.copy()
            self.fresh = True
        return a

    def update_y(self, array, layout="C"):
        a = laid_out(array, layout)
        self.step.update_y(a)
        self.y = np.array(array, float)
        return a

    def update_time(self, t):
        """Forcing at a new time; the regularized steps have no forcing."""
        if self.mesh.reg is not None:
            return
        if self.kind == "mech":
            self.step.update_boundary_traction(t)
        else:
            self.step.update_external_temperature(t)
        self.time = t

    # -------------------------------------------------- reads
    def unknown(self):
        return self.y if self.kind == "mech" else self.theta

    def set_unknown(self, value):
        if self.kind == "mech":
            self.y = value
        else:
            self.theta = value

    def reads(self):
        """(name, reported, expected)"""
        s = self.step
        out = [
            ("prev_y", s.prev_y(), self.prev_y),
            ("y", s.y(), self.y),
            ("prev_theta", s.prev_theta(), self.prev_theta),
        ]
        if self.kind == "therm":
            out.append(("theta", s.theta(), self.theta))
        return out

    def same(self, what=""):
        for name, got, want in self.reads():
            g = np.asarray(got, float)
            require(g.shape == want.shape, "%s%s has shape %r, expected %r", what, name, g.shape, want.shape)
            if not np.array_equal(g, want):
                i = tuple(int(k) for k in np.argwhere(g != want)[0])
                require(
                    False, "%s%s reports %r at %r, expected %r", what, name, float(g[i]), list(i),
                    float(want[i]),
                )

    # -------------------------------------------------- solving
    def answer(self, candidate):
        """The candidate, except where the solver may not change the unknowns."""
        fixed = self.p.fixed()
        if self.kind == "therm":
            return np.where(fixed, self.theta, candidate)
        floor = 0.2 * self.mesh.min_det(self.prev_y)
        d = np.where(fixed, 0.0, candidate - self.y)
        for _ in range(60):
            if self.mesh.min_det(self.y + d) >= floor:
                return self.y + d
            d = d / 2
        return self.y.copy()

    def solve_with(self, candidate, observe=None):
        """Solve; the scripted solver answers the candidate at the free unknowns. `observe` sees
        the posed problem first."""
        if self.p.slot is None:
            raise HarnessError("probe first")
        box = {}

        def assign(model):
            if observe is not None:
                observe(model)
            box["a"] = self.answer(candidate)
            self.p.assign(box["a"])

        self.p.solve_with(assign)
        if self.p.posed():
            self.set_unknown(box["a"])
        self.fresh = False

    def reference_objective(self, unknown):
        m = self.mesh
        if self.kind == "mech":
            def g(i):
                x, y = m.points[i]
                return self.traction(self.time, x, y)

            return m.mech(self.prev_y, unknown, self.prev_theta, self.fps, g)
        return m.therm(
            self.prev_y, self.y, self.prev_theta, unknown, self.fps, self.external(self.time)
        )

    def check_objective(self, unknown, what="the objective"):
        if not self.p.posed():
            return self.reference_objective(unknown)  # nothing to minimise
        got = self.p.objective_at(unknown)
        t = self.reference_objective(unknown)
        require(
            abs(got - t.value) <= t.tolerance(),
            "%s is %r, the discrete energy is %r (terms of total size %r)", what, got, t.value,
            t.scale,
        )
        return t


def ops_strategy(kind, max_ops, deform=None, temp=None, extra=()):
    """Sequences of updates and solves."""
    d = deform if deform is not None else deformations()
    t = temp if temp is not None else temperature_states()
    choices = [
        st.fixed_dictionaries({"op": st.just("prev_y"), "v": d}),
        st.fixed_dictionaries({"op": st.just("prev_theta"), "v": t}),
        st.fixed_dictionaries({"op": st.just("time"), "v": st.integers(0, 200)}),
        st.fixed_dictionaries({"op": st.just("solve"), "v": d if kind == "mech" else t}),
    ]
    if kind == "therm":
        choices.append(st.fixed_dictionaries({"op": st.just("y"), "v": d}))
    choices.append(
        st.fixed_dictionaries({
            "op": st.just("nudge"),
            "what": st.sampled_from(
                ["prev_y", "prev_theta"] + (["y"] if kind == "therm" else [])
            ),
            "e": st.sampled_from([0, 1, 300, 100000]),  # 1e-8 of the natural size
            "s": gen.salts(),
        })
    )
    choices.append(
        st.fixed_dictionaries({
            "op": st.just("recall"),
            "what": st.sampled_from(
                ["prev_y", "prev_theta"] + (["y"] if kind == "therm" else [])
            ),
            "from": st.integers(0, 9),
            "s": gen.salts(),
        })
    )
    choices += list(extra)
    return st.lists(st.one_of(choices), min_size=0, max_size=max_ops)


def nudge(d: Driven, op):
    """Update one quantity with values very close, or equal, to the ones it has."""
    m, e = d.mesh, op["e"] * 1e-8
    if op["what"] == "prev_theta":
        z = gen.noise(op["s"], d.prev_theta.shape, e)
        return d.update_prev_theta(np.maximum(d.prev_theta + z, 0.0))
    old = d.prev_y if op["what"] == "prev_y" else d.y
    size = m.h
    if m.reg is not None:
        size = np.array([m.h, 1, 1, 1 / m.h, 1 / m.h, 1 / m.h])
    new = old + gen.noise(op["s"], old.shape, 0.1 * e) * size
    if m.min_det(new) < 0.2 * m.min_det(old):
        new = old.copy()
    return d.update_prev_y(new) if op["what"] == "prev_y" else d.update_y(new)


def recall(d: Driven, op):
    """Update one quantity with values the step has held before, in this or another quantity; with
    salts not divisible by 3, at a part of the vertices only."""
    if op["what"] == "prev_theta":
        pool, old = d.held["theta"] + [d.prev_theta], d.prev_theta
        if d.kind == "therm":
            pool = pool + [d.theta]
    else:
        pool, old = d.held["y"] + [d.y, d.prev_y], d.prev_y if op["what"] == "prev_y" else d.y
    new = pool[-1 - op["from"] % len(pool)].copy()
    if op["s"] % 3:
        keep = np.random.default_rng(op["s"]).integers(0, 2, size=len(old)).astype(bool)
        mixed = new.copy()
        mixed[keep] = old[keep]
        if op["what"] == "prev_theta" or d.mesh.min_det(mixed) >= 0.2 * min(
            d.mesh.min_det(new), d.mesh.min_det(old)
        ):
            new = mixed
    return getattr(d, "update_" + op["what"])(new)


def apply_op(d: Driven, op, observe=None):
    """Apply one generated operation; returns the array passed, if any."""
    d.held["y"] += [d.prev_y, d.y]
    d.held["theta"].append(d.prev_theta)
    if op["op"] == "recall":
        return recall(d, op)
    if op["op"] == "nudge":
        return nudge(d, op)
    m, v = d.mesh, op["v"]
    if op["op"] == "prev_y":
        return d.update_prev_y(m.deformation(v), v["layout"])
    if op["op"] == "prev_theta":
        return d.update_prev_theta(m.temperature(v), v["layout"])
    if op["op"] == "y":
        return d.update_y(m.deformation(v), v["layout"])
    if op["op"] == "time":
        d.update_time(v / 10)
        return None
    if op["op"] == "solve":
        c = m.deformation(v) if d.kind == "mech" else m.temperature(v)
        d.solve_with(c, observe)
        return None
    raise HarnessError(op["op"])


def start(case, kind):
    """Driven step of a generated case, already probed."""
    mesh = Mesh(case)
    fps = case["fps"][0] / case["fps"][1]
    d = Driven(mesh, kind, case["radius"] / 100, fps)
    if kind == "mech":
        d.start_mech(case["theta0"] / 100, case.get("traction"))
    else:
        d.start_therm(
            mesh.deformation(case["prev_y"]), mesh.deformation(case["y"]),
            mesh.temperature(case["prev_theta"]), case.get("external"),
            (case["prev_y"]["layout"], case["y"]["layout"], case["prev_theta"]["layout"]),
        )
    d.p.probe()
    return d


def start_keys(kind, reg=False):
    keys = {
        "fps": gen.fps_values(),
        "radius": st.one_of(
            st.sampled_from([10, 100, 1000]), st.integers(1, 1000), st.sampled_from([10**5, 10**7, 10**9])
        ),
    }
    if kind == "mech":
        keys["theta0"] = gen.initial_temperatures()
        if not reg:
            keys["traction"] = tractions()
    else:
        keys["prev_y"] = deformations()
        keys["y"] = deformations()
        keys["prev_theta"] = temperature_states()
        if not reg:
            keys["external"] = externals()
    return keys
