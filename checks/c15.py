"""C15: piecewise affine interpolation is exact and nodal."""

import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom, ref

PROPERTY = "C15"
RULE = (
    "rectangular, refined and perturbed triangulations with drawn triangle orientations; drawn nodal"
    " values, affine functions and points; non-trivial: nonzero nodal values"
)
ASSUMPTIONS = ["points are perturbed by at most 0.18 spacings, so that all triangles are regular"]


def strategy(tier):
    return make(st.one_of(gen.rectangles(max_n=4, max_cells=9), gen.rectangles(max_n=12, max_cells=24)))


def large_strategy(tier):
    return make(gen.rectangles(max_n=40, max_cells=200))


def huge_strategy(tier):
    return make(gen.huge_rectangles(1000))


def make(rectangles):
    return st.tuples(
        rectangles,
        st.fixed_dictionaries({
            "k": st.sampled_from([1, 1, 2, 3]),
            "variant": st.sampled_from(geom.VARIANTS),
            "salt": gen.salts(),
            "affine": st.lists(st.integers(-20, 20), min_size=3, max_size=3),
            "comb": st.lists(st.integers(-5, 5), min_size=2, max_size=2),
            "wrong": st.integers(1, 5),
            "as_dict": st.booleans(),
        }),
    ).map(lambda t: {**t[0], **t[1]})


def check(case, ctx):
    from tvemoves_rufbad.interpolation import P1Interpolation, P1BoundaryInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    grid, s, nx, ny = geom.variant_grid(case)
    ctx.label(case["variant"])
    pts = geom.points_of(grid)
    n = len(pts)
    salt = case["salt"]
    ctx.nontrivial(salt != 0)
    u = [float(x) for x in gen.noise(salt, (n,), 3.0)]
    v = [float(x) for x in gen.noise(salt and salt + 7, (n,), 3.0)]
    L = s * (nx + ny)
    a, b, c = [x / 10 for x in case["affine"]]
    b, c = b / L, c / L
    f = lambda p: a + b * p[0] + c * p[1]
    al, be = case["comb"]
    wrap = (lambda x: dict(enumerate(x))) if case["as_dict"] else list
    P = P1Interpolation(grid, wrap(u))
    Q = P1Interpolation(grid, wrap(v))
    A = P1Interpolation(grid, wrap([f(p) for p in pts]))
    C = P1Interpolation(grid, wrap([al * x + be * y for x, y in zip(u, v)]))
    require(P.grid is grid, "the interpolation reports another grid")
    coords = geom.barycentric(salt, len(grid.triangles))
    for t, l in zip(grid.triangles, coords):
        bc = BarycentricCoordinates(l[0], l[1])
        x = geom.combine(pts, t, l)
        for k in range(3):
            corner = BarycentricCoordinates(*[[1.0, 0.0], [0.0, 1.0], [0.0, 0.0]][k])
            require(abs(P(t, corner) - u[t[k]]) <= 1e-12, "value at vertex %d of %r is %r, expected %r", t[k], t, P(t, corner), u[t[k]])
        got = P(t, bc)
        want = sum(li * u[i] for li, i in zip(l, t))
        require(abs(got - want) <= 1e-11, "value in %r at %r is %r, expected %r", t, l, got, want)
        require(abs(A(t, bc) - f(x)) <= 1e-10 * 10, "affine function in %r is %r, expected %r", t, A(t, bc), f(x))
        g = A.gradient(t, bc)
        require(len(g) == 2 and abs(g[0] - b) <= 1e-9 * 10 / s and abs(g[1] - c) <= 1e-9 * 10 / s, "gradient of an affine function in %r is %s, expected (%r, %r)", t, g, b, c)
        G = ref.p1_gradient_matrix(*[pts[i] for i in t]) @ np.array([u[i] for i in t])
        g = P.gradient(t, bc)
        require(abs(g[0] - G[0]) <= 1e-9 * 10 / s and abs(g[1] - G[1]) <= 1e-9 * 10 / s, "gradient in %r is %s, expected %s", t, g, G)
        h = Q.gradient(t, bc)
        k = C.gradient(t, bc)
        require(abs(C(t, bc) - al * got - be * Q(t, bc)) <= 1e-10, "not linear in the parameters")
        require(abs(k[0] - al * g[0] - be * h[0]) <= 1e-8 / s and abs(k[1] - al * g[1] - be * h[1]) <= 1e-8 / s, "the gradient is not linear in the parameters")
    # edges
    sides = {}
    for t in grid.triangles:
        for k in range(3):
            sides.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append(t)
    ts = gen.noise(salt and salt + 3, (len(grid.edges),))
    for e, tt in zip(grid.edges, ts):
        t = abs(float(tt))
        want = t * u[e[0]] + (1 - t) * u[e[1]]
        require(abs(P.on_edge(e, t) - want) <= 1e-12, "value on edge %r at %r is %r, expected %r", e, t, P.on_edge(e, t), want)
        require(abs(P.on_edge((e[1], e[0]), 1 - t) - want) <= 1e-12, "value depends on the direction of edge %r", e)
        for tri in sides[frozenset(e)]:
            l = [0.0, 0.0, 0.0]
            l[tri.index(e[0])] = t
            l[tri.index(e[1])] = 1 - t
            require(abs(P(tri, BarycentricCoordinates(l[0], l[1])) - want) <= 1e-11, "triangle %r and edge %r disagree at %r", tri, e, t)
    # boundary interpolation
    bv = list(grid.boundary.vertices)
    B = P1BoundaryInterpolation(grid.boundary, {i: u[i] for i in bv})
    for e, tt in zip(grid.boundary.edges, ts):
        t = abs(float(tt))
        want = t * u[e[0]] + (1 - t) * u[e[1]]
        require(abs(B(e, t) - want) <= 1e-12, "boundary value on edge %r at %r is %r, expected %r", e, t, B(e, t), want)
    # wrong numbers of parameters
    for m in {n - case["wrong"], n + case["wrong"], 0}:
        if m < 0 or m == n:
            continue
        for make, name in ((lambda: P1Interpolation(grid, wrap([0.0] * m)), "P1Interpolation"),):
            try:
                make()
            except ValueError:
                continue
            require(False, "%s accepted %d parameters for %d vertices", name, m, n)
    for m in {len(bv) - case["wrong"], len(bv) + case["wrong"]}:
        if m < 0:
            continue
        try:
            P1BoundaryInterpolation(grid.boundary, {i: 0.0 for i in range(m)})
        except ValueError:
            continue
        require(False, "boundary interpolation accepted %d parameters for %d vertices", m, len(bv))


SUBS = [
    Sub("p1", strategy, check, quick=4800, thorough=800000),
    Sub("large", large_strategy, check, quick=120, thorough=12000),
    Sub("huge", huge_strategy, check, quick=32, thorough=2000),
]
