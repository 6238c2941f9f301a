"""C17: the regularized deformation is continuously differentiable."""

import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C17"
RULE = (
    "rectangular, refined and perturbed triangulations with drawn triangle orientations, drawn nodal"
    " values and derivatives; all inner edges at drawn positions; non-trivial: nonzero parameters"
)
ASSUMPTIONS = ["points are perturbed by at most 0.18 spacings"]


def strategy(tier):
    return make(gen.rectangles(max_n=4, max_cells=6))


def large_strategy(tier):
    return make(gen.rectangles(max_n=30, max_cells=80))


def huge_strategy(tier):
    return make(gen.huge_rectangles(300))


def make(rectangles):
    return st.tuples(
        rectangles,
        st.fixed_dictionaries({
            "k": st.sampled_from([1, 1, 1, 2]),
            "variant": st.sampled_from(geom.VARIANTS),
            "salt": gen.salts(),
            "ts": st.lists(st.integers(0, 100), min_size=1, max_size=3),
        }),
    ).map(lambda t: {**t[0], **t[1]})


def check(case, ctx):
    from tvemoves_rufbad.interpolation import C1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    grid, s, nx, ny = geom.variant_grid(case, max_fine=16)
    ctx.label(case["variant"])
    n = len(grid.points)
    ctx.nontrivial(case["salt"] != 0)
    p = geom.jets(case["salt"], n, s)
    U = C1Interpolation(grid, p.tolist())
    sides = {}
    for t in grid.triangles:
        for k in range(3):
            sides.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append(tuple(t))
    tol = 1e-9 * (nx + ny)
    for m, e in enumerate(grid.edges):
        t = case["ts"][m % len(case["ts"])] / 100
        a = float(U.on_edge(e, t))
        b = float(U.on_edge((e[1], e[0]), 1 - t))
        require(abs(a - b) <= tol * 10, "value on edge %r at %r is %r, in the other direction %r", e, t, a, b)
        seen = []
        for tri in sides[frozenset(e)]:
            l = [0.0, 0.0, 0.0]
            l[tri.index(e[0])] = t
            l[tri.index(e[1])] = 1 - t
            bc = BarycentricCoordinates(l[0], l[1])
            v = float(U(tri, bc))
            g = U.gradient(tri, bc)
            require(abs(v - a) <= tol * 10, "on edge %r at %r the value is %r, from triangle %r it is %r", e, t, a, tri, v)
            seen.append((tri, float(g[0]), float(g[1])))
        if len(seen) == 2:
            (t1, x1, y1), (t2, x2, y2) = seen
            require(abs(x1 - x2) <= tol * 100 / s and abs(y1 - y2) <= tol * 100 / s, "on edge %r at %r the gradient is %r from %r but %r from %r", e, t, (x1, y1), t1, (x2, y2), t2)
        # end points
        for tt, i in ((1.0, e[0]), (0.0, e[1])):
            require(abs(float(U.on_edge(e, tt)) - p[i][0]) <= tol, "value on edge %r at its end %d is %r, prescribed %r", e, i, U.on_edge(e, tt), p[i][0])


SUBS = [
    Sub("c1", strategy, check, quick=2100, thorough=400000),
    Sub("large", large_strategy, check, quick=80, thorough=10000),
    Sub("huge", huge_strategy, check, quick=16, thorough=1500),
]
