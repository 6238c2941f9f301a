"""C14: point location finds exactly the points of the mesh."""

import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C14"
RULE = (
    "coarse and refined grids at all length scales, also with reversed or rotated triangles or"
    " perturbed inner points; queries at vertices, on edges, on the outline (also a few units in the"
    " last place outside), just beside a side, on the domain's curves, inside and clearly outside; non-trivial: a query on an edge or vertex, or outside"
)
ASSUMPTIONS = ["'clearly outside' means at least 1e-6 spacings away from the mesh"]


def queries():
    w = st.integers(0, 1000)
    inside = st.tuples(st.just("in"), st.integers(0, 10**6), w, w, w).map(list)
    edge = st.tuples(st.just("edge"), st.integers(0, 10**6), st.integers(0, 2), w).map(list)
    vertex = st.tuples(st.just("vertex"), st.integers(0, 10**6)).map(list)
    outside = st.tuples(
        st.just("out"), st.integers(0, 3), st.integers(-1500, 1500), st.integers(0, 9)
    ).map(list)
    outline = st.tuples(st.just("outline"), st.integers(0, 10**6), w).map(list)
    ulp = st.tuples(st.just("ulp"), st.integers(0, 3), w, st.integers(0, 4)).map(list)
    curve = st.tuples(
        st.just("curve"), st.integers(2, 40), st.integers(0, 12), st.integers(0, 10**6)
    ).map(list)
    # close to a side of a triangle, after a query on its other side
    near = st.tuples(
        st.just("near"), st.integers(0, 10**6), st.integers(0, 2), st.integers(2, 98), st.integers(20, 70)
    ).map(list)
    return st.lists(
        st.one_of(inside, edge, vertex, outside, outline, ulp, curve, near), min_size=1, max_size=8
    )


def strategy(tier):
    return st.tuples(
        st.one_of(gen.rectangles(max_n=5, max_cells=16), gen.rectangles(max_n=25, max_cells=150)),
        st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
        st.sampled_from(["plain", "plain", "reversed", "rotated", "perturbed"]),
        gen.salts(),
        queries(),
    ).map(lambda t: {**t[0], "k": t[1], "variant": t[2], "salt": t[3], "q": t[4]})


def huge_strategy(tier):
    limit = 900 if tier == "quick" else 3000
    return st.tuples(
        st.one_of(gen.huge_rectangles(limit), gen.rectangles(max_n=12, max_cells=40)),
        st.sampled_from([0, 2, 4, 7, 12]),
        st.sampled_from(["plain", "plain", "reversed", "rotated", "perturbed"]),
        gen.salts(),
        st.tuples(queries(), queries(), queries()).map(lambda t: t[0] + t[1] + t[2]),
    ).map(lambda t: {**t[0], "k": t[1], "variant": t[2], "salt": t[3], "q": t[4], "limit": limit})


def build(case):
    from tvemoves_rufbad.domain import Grid
    from tvemoves_rufbad.tensors import Vector

    domain, s, nx, ny = geom.make_domain(case)
    grid = domain.grid(s)
    k = case["k"]
    if k and nx * ny * k * k <= case.get("limit", 150):
        grid = domain.refine(grid, k)
        s = s / k
        nx, ny = nx * k, ny * k
    if case["variant"] != "plain":
        tri = [tuple(t) for t in grid.triangles]
        points = list(grid.points)
        salt = case["salt"]
        if case["variant"] == "reversed":
            tri = [t[::-1] if (salt + n) % 3 else t for n, t in enumerate(tri)]
        elif case["variant"] == "rotated":
            tri = [t[(salt + n) % 3 :] + t[: (salt + n) % 3] for n, t in enumerate(tri)]
        else:
            outer = set(grid.boundary.vertices)
            d = gen.noise(salt, (len(points), 2), 0.2 * s)
            points = [
                p if i in outer else Vector([p[0] + float(d[i][0]), p[1] + float(d[i][1])])
                for i, p in enumerate(points)
            ]
        grid = Grid(
            list(grid.vertices), list(grid.edges), tri, grid.boundary, grid.dirichlet_boundary,
            grid.neumann_boundary, points,
        )
    return domain, grid, s, nx, ny


def check(case, ctx):
    from tvemoves_rufbad.tensors import Vector

    domain, grid, s, nx, ny = build(case)
    pts = geom.points_of(grid)
    tris = {tuple(t) for t in grid.triangles}
    ctx.label(case["variant"])
    before = geom.snapshot(grid)
    W, H = nx * s, ny * s
    outer = list(grid.boundary.edges)
    for q in case["q"]:
        kind = q[0]
        ctx.label(kind)
        vertex = None
        inside = True
        if kind == "in":
            t = grid.triangles[q[1] % len(grid.triangles)]
            a = [x + 1e-3 for x in q[2:]]
            l = [x / sum(a) for x in a]
            p = geom.combine(pts, t, l)
        elif kind == "near":
            t = grid.triangles[q[1] % len(grid.triangles)]
            t = t[q[2]:] + t[: q[2]]
            delta = 10.0 ** (-q[4] / 10)
            x = q[3] / 100 * (1 - delta)
            p = geom.combine(pts, t, [x, 1 - delta - x, delta])
            other = geom.combine(pts, t, [x, 1 + delta - x, -delta])
            grid.to_barycentric_point(Vector([other[0], other[1]]))
        elif kind == "edge":
            t = grid.triangles[q[1] % len(grid.triangles)]
            a, b = pts[t[q[2]]], pts[t[(q[2] + 1) % 3]]
            r = q[3] / 1000
            p = (a[0] + r * (b[0] - a[0]), a[1] + r * (b[1] - a[1]))
        elif kind == "outline":
            e = outer[q[1] % len(outer)]
            a, b = pts[e[0]], pts[e[1]]
            r = q[2] / 1000
            p = (a[0] + r * (b[0] - a[0]), a[1] + r * (b[1] - a[1]))
        elif kind == "ulp":
            # on the outline up to rounding: a few units in the last place outside
            r = q[2] / 1000
            right, upper = max(x for x, _ in pts), max(y for _, y in pts)
            tiny = q[3] * float(np.spacing(max(right, upper)))
            p = [
                (r * right, -tiny), (right + tiny, r * upper), (r * right, upper + tiny),
                (-tiny, r * upper),
            ][q[1]]
        elif kind == "curve":
            # points of the domain's curves, if the mesh covers the whole domain
            if any(case["frac"]):
                continue
            curve = [c for c in domain.curves(q[1], q[2])]
            c = curve[q[3] % len(curve)]
            p = c[(q[3] // len(curve)) % len(c)]
            p = (float(p[0]), float(p[1]))
        elif kind == "vertex":
            vertex = q[1] % len(pts)
            p = pts[vertex]
        else:
            inside = False
            # at distance `away` off side q[1], at relative position q[2]/1000 along it
            away = [1e-6, 1e-5, 1e-3, 0.03, 0.4, 1.0, 1.5, 10.0, 1e3, 1e6][q[3]] * s
            along = q[2] / 1000
            p = [
                (along * W, -away),
                (W + away, along * H),
                (along * W, H + away),
                (-away, along * H),
            ][q[1]]
        ctx.nontrivial(kind != "in")
        r = grid.to_barycentric_point(Vector([p[0], p[1]]))
        if not inside:
            require(r is None, "the point %r outside the mesh is located in %r", p, r)
            require(
                grid.point_to_vertex(Vector([p[0], p[1]])) is None,
                "a vertex was found at %r outside the mesh", p,
            )
            continue
        require(r is not None, "%s point %r of the mesh is reported as outside", kind, p)
        low = 1e-8 if kind == "near" else 1e-6
        require(tuple(r.triangle) in tris, "%r is not a triangle of the grid", r.triangle)
        l = [float(x) for x in r.coordinates]
        require(
            all(-low <= x <= 1 + low for x in l) and abs(sum(l) - 1) < 1e-9,
            "point %r has coordinates %r in triangle %r", p, l, r.triangle,
        )
        g = geom.combine(pts, r.triangle, l)
        require(
            geom.dist(p, g) <= 1e-8 * s * (nx + ny),
            "coordinates %r in %r give the point %r instead of %r", l, r.triangle, g, p,
        )
        v = grid.point_to_vertex(Vector([p[0], p[1]]))
        if vertex is not None:
            require(v == vertex, "vertex %d was found as %r by its position", vertex, v)
        else:
            near = min(range(len(pts)), key=lambda i: geom.dist(pts[i], p))
            d = geom.dist(pts[near], p)
            if d > 1e-5 * s:
                require(v is None, "vertex %r found at %r, %r away", v, p, d)
            elif d < 1e-10 * s:
                require(v == near, "vertex %d not found at its position", near)
    require(geom.snapshot(grid) == before, "point location changed the grid")


SUBS = [
    Sub("locate", strategy, check, quick=9000, thorough=1200000),
    Sub("huge", huge_strategy, check, quick=64, thorough=6000),
]
