"""C10: a rectangle's grid is a conforming triangulation."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C10"
RULE = (
    "rectangles with nx x ny cells (1..60 per side), spacings over nine orders of magnitude including"
    " decimal values with inexact quotients, remainders from 1e-8 to 1 - 1e-8 spacings, any fixed sides;"
    " non-trivial: more than one cell or an inexact quotient"
)
ASSUMPTIONS = ["spacing at most both side lengths", "remainder either 0 or 1e-8 to 1 - 1e-8 of the spacing"]


def strategy(tier):
    big = 60 if tier == "quick" else 150
    return st.one_of(
        gen.rectangles(max_n=6, max_cells=36),
        gen.rectangles(max_n=big, max_cells=900),
    )


def check(case, ctx):
    domain, s, nx, ny = geom.make_domain(case)
    w, h = domain.width, domain.height
    grid = domain.grid(s)
    inexact = case["frac"][0] == 0 and w / s != nx or case["frac"][1] == 0 and h / s != ny
    ctx.label("inexact quotient" if inexact else "exact quotient")
    ctx.label("remainder" if any(case["frac"]) else "no remainder")
    ctx.nontrivial(nx * ny > 1 or inexact)
    geom.check_lattice_grid(grid, s, nx, ny, gen.fixed_sides(case["fix"]), parts=False)
    pts = geom.points_of(grid)
    # every point is inside the rectangle, up to rounding
    for x, y in pts:
        require(
            -1e-9 * s <= x <= w + 1e-8 * s and -1e-9 * s <= y <= h + 1e-8 * s,
            "point (%r, %r) lies outside the rectangle %r x %r", x, y, w, h,
        )
    # counter-clockwise right triangles of equal area that fill the lattice rectangle
    total = 0.0
    for t in grid.triangles:
        a = geom.signed_area(*[pts[i] for i in t])
        require(abs(a - s * s / 2) <= 1e-6 * s * s, "triangle %r has signed area %r", t, a)
        total += a
    require(
        abs(total - nx * ny * s * s) <= 1e-6 * nx * ny * s * s,
        "the triangles cover %r instead of %r", total, nx * ny * s * s,
    )
    # conforming: an inner edge has exactly two triangles, on opposite sides, an outer one exactly one
    use = {}
    for t in grid.triangles:
        for k in range(3):
            e = (t[k], t[(k + 1) % 3])
            require(e not in use, "two triangles traverse edge %r in the same direction", e)
            use[e] = t
    outer = {e for e in use if (e[1], e[0]) not in use}
    require(
        {frozenset(e) for e in outer} == {frozenset(e) for e in grid.boundary.edges},
        "the boundary edges are not the edges with a single triangle",
    )
    # every call gives the same grid, and the returned grid belongs to the caller
    snap = geom.snapshot(grid)
    grid.points.append(grid.points[0])
    grid.edges.pop()
    grid.triangles.reverse()
    grid.boundary.edges.pop()
    again = geom.snapshot(domain.grid(s))
    require(again == snap, "a second grid of the same domain differs from the first")


def huge_strategy(tier):
    return gen.huge_rectangles(2500 if tier == "quick" else 12000)


SUBS = [
    Sub("grid", strategy, check, quick=9600, thorough=1200000),
    Sub("huge", huge_strategy, check, quick=160, thorough=8000),
]
