"""C19: quadrature and integrators are exact and additive."""

import math
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom, ref

PROPERTY = "C19"
RULE = (
    "random polynomials up to the nominal degree of a drawn rule on grids (rectangular, refined,"
    " perturbed, with reversed triangles and edges, all scales) and on single random triangles and"
    " edges; non-trivial: degree at least one"
)
ASSUMPTIONS = ["tabulated points and weights have 15 digits: tolerance 1e-11 of the sum of magnitudes"]

_DUFFY = ref.duffy(6)


def rules():
    from tvemoves_rufbad import quadrature_rules as q

    return [("CENTROID", q.CENTROID, 1), ("VERTEX", q.VERTEX, 1), ("DUNAVANT2", q.DUNAVANT2, 2),
            ("DUNAVANT3", q.DUNAVANT3, 3), ("DUNAVANT4", q.DUNAVANT4, 4), ("DUNAVANT5", q.DUNAVANT5, 5)]


def monomials(d):
    return [(i, k - i) for k in range(d + 1) for i in range(k + 1)]


# ---------------------------------------------------------------- rules on the reference triangle
def rule_strategy(tier):
    return st.fixed_dictionaries({
        "rule": st.integers(0, 5),
        "coef": st.lists(st.integers(-9, 9), min_size=21, max_size=21),
    })


def check_rule(case, ctx):
    from tvemoves_rufbad import quadrature_rules as q

    name, rule, deg = rules()[case["rule"]]
    ctx.label(name)
    if case["rule"] != 1:
        k = [0, None, 1, 2, 3, 4][case["rule"]]
        require(q.DUNAVANT_QUADRATURE_RULES[k] is rule, "rule of degree %d is not %s", k + 1, name)
    pts = [tuple(float(x) for x in p) for p in rule.points]
    ws = [float(w) for w in rule.weights]
    require(len(pts) == len(ws), "%s: %d points, %d weights", name, len(pts), len(ws))
    require(abs(sum(ws) - 1) <= 1e-12, "%s: weights sum to %r", name, sum(ws))
    for p in pts:
        require(all(-1e-15 <= x <= 1 + 1e-15 for x in p) and abs(sum(p) - 1) < 1e-14, "%s: point %r is outside", name, p)
    pairs = [(float(w), tuple(float(x) for x in p)) for w, p in rule]
    require(pairs == list(zip(ws, pts)), "%s: iteration differs from weights and points", name)
    got = want = size = 0.0
    top = 0
    for c, (i, j) in zip(case["coef"], monomials(deg)):
        # mean over the triangle of l1^i l2^j
        exact = 2 * math.factorial(i) * math.factorial(j) / math.factorial(i + j + 2)
        want += c * exact
        got += c * sum(w * p[0] ** i * p[1] ** j for w, p in zip(ws, pts))
        size += abs(c)
        if c:
            top = max(top, i + j)
    ctx.nontrivial(top >= 1)
    require(abs(got - want) <= 1e-12 * (1 + size), "%s: integral of a polynomial of degree %d is %r, expected %r", name, top, got, want)


# ---------------------------------------------------------------- edge rule
def gauss_strategy(tier):
    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 60)),
        "coef": st.lists(st.integers(-9, 9), min_size=1, max_size=24),
        "top": st.booleans(),
    })


def check_gauss(case, ctx):
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    n = case["n"]
    rule = GaussQuadratureRule(n)
    ws, ps = [float(w) for w in rule.weights], [float(p) for p in rule.points]
    require(len(ws) == len(ps) == n, "%d points requested, %d given", n, len(ps))
    require(abs(sum(ws) - 1) <= 1e-12 and all(0 < p < 1 for p in ps), "weights or points out of range: %r %r", ws, ps)
    require([(float(w), float(p)) for w, p in rule] == list(zip(ws, ps)), "iteration differs from weights and points")
    coef = case["coef"][: 2 * n]
    if case["top"]:
        # the same coefficients for the highest powers that the rule integrates exactly
        coef = [0] * (2 * n - len(coef)) + coef
    got = sum(w * sum(c * p**k for k, c in enumerate(coef)) for w, p in zip(ws, ps))
    want = sum(c / (k + 1) for k, c in enumerate(coef))
    ctx.nontrivial(len(coef) > 1)
    require(abs(got - want) <= 1e-11 * (1 + sum(map(abs, coef))), "%d point rule on degree %d gives %r, expected %r", n, len(coef) - 1, got, want)


# ---------------------------------------------------------------- integrators on meshes
def mesh_strategy(tier):
    return make_mesh(gen.rectangles(max_n=4, max_cells=9))


def large_mesh_strategy(tier):
    return make_mesh(gen.rectangles(max_n=40, max_cells=160))


def make_mesh(rectangles):
    return st.tuples(
        rectangles,
        st.fixed_dictionaries({
            "rule": st.integers(0, 5),
            "k": st.sampled_from([1, 1, 2, 3]),
            "salt": gen.salts(),
            "perturb": st.booleans(),
            "reverse": st.booleans(),
            "coef": st.lists(st.integers(-9, 9), min_size=21, max_size=21),
            "coef2": st.lists(st.integers(-9, 9), min_size=21, max_size=21),
            "npts": st.integers(1, 4),
            "split": st.integers(0, 100),
        }),
    ).map(lambda t: {**t[0], **t[1]})


def huge_mesh_strategy(tier):
    return make_mesh(gen.huge_rectangles(600))


def check_mesh(case, ctx):
    from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
    from tvemoves_rufbad.tensors import Vector

    domain, s, nx, ny = geom.make_domain(case)
    grid = domain.grid(s)
    if case["k"] > 1 and nx * ny * case["k"] ** 2 <= 40:
        grid = domain.refine(grid, case["k"])
        s /= case["k"]
        nx, ny = nx * case["k"], ny * case["k"]
    pts = geom.points_of(grid)
    tris = [tuple(t) for t in grid.triangles]
    edges = [tuple(e) for e in (grid.edges if case["salt"] % 2 else grid.boundary.edges)]
    if case["perturb"]:
        d = gen.noise(case["salt"], (len(pts), 2), 0.2 * s)
        pts = [(p[0] + float(d[i][0]), p[1] + float(d[i][1])) for i, p in enumerate(pts)]
    if case["reverse"]:
        tris = [t[::-1] if (case["salt"] + n) % 2 else t for n, t in enumerate(tris)]
        edges = [e[::-1] if (case["salt"] + n) % 3 else e for n, e in enumerate(edges)]
    points = [Vector(list(p)) for p in pts]
    name, rule, deg = rules()[case["rule"]]
    ctx.label(name)
    ctx.label("perturbed" if case["perturb"] else "lattice")
    ctx.label("reversed" if case["reverse"] else "as listed")
    ms = monomials(deg)
    size = max(nx, ny) * s

    def poly(coef, p):
        x, y = p[0] / size, p[1] / size
        return sum(c * x**i * y**j for c, (i, j) in zip(coef, ms))

    def exact(coef, ts):
        out = 0.0
        for t in ts:
            A = abs(geom.signed_area(*[pts[i] for i in t]))
            out += A * sum(w * poly(coef, geom.combine(pts, t, l)) for w, l in _DUFFY)
        return out

    ctx.nontrivial(any(c for c, (i, j) in zip(case["coef"], ms) if i + j))
    total = nx * ny * s * s
    tol = 1e-11 * total * (1 + sum(map(abs, case["coef"])) + sum(map(abs, case["coef2"]))) * 4

    visits = {}

    def f(t, b):
        visits[tuple(t)] = visits.get(tuple(t), 0) + 1
        return poly(case["coef"], geom.combine(pts, t, [b.l1, b.l2, b.l3]))

    g = lambda t, b: poly(case["coef2"], geom.combine(pts, t, [b.l1, b.l2, b.l3]))
    integ = Integrator(rule, list(tris), points)
    got = float(integ(f))
    require(
        visits == {t: len(rule.points) for t in tris},
        "not every triangle was visited once per quadrature point",
    )
    want = exact(case["coef"], tris)
    require(abs(got - want) <= tol, "%s: integral over the mesh %r, expected %r", name, got, want)
    both = float(integ(lambda t, b: f(t, b) + 2 * g(t, b)))
    require(abs(both - got - 2 * float(integ(g))) <= tol, "the integrator is not linear")
    require(abs(float(integ(f)) - got) <= 1e-15 * abs(got), "a second integration differs")
    k = case["split"] * len(tris) // 100
    parts = [float(Integrator(rule, p, points)(f)) for p in (tris[:k], tris[k:])]
    require(abs(sum(parts) - got) <= tol, "the integral is not additive over parts of the mesh")
    # piecewise: a different function on every triangle
    c = {t: n + 1 for n, t in enumerate(tris)}
    got = float(integ(lambda t, b: c[tuple(t)] * b.l1))
    want = sum(c[t] * abs(geom.signed_area(*[pts[i] for i in t])) / 3 for t in tris)
    require(abs(got - want) <= 1e-11 * abs(want), "integral of the first hat functions %r, expected %r", got, want)
    require(geom.snapshot(grid)[2] == tuple(map(tuple, grid.triangles)), "the grid changed")

    # edges
    n = case["npts"]
    deg1 = 2 * n - 1
    seen = {}

    def fe(e, t):
        seen[tuple(e)] = seen.get(tuple(e), 0) + 1
        return sum(cc * t**k for k, cc in enumerate(case["coef"][: deg1 + 1])) * (1 + edges.index(tuple(e)))

    be = BoundaryIntegrator(n, list(edges), points)
    got = float(be(fe))
    base = sum(cc / (k + 1) for k, cc in enumerate(case["coef"][: deg1 + 1]))
    want = sum(geom.dist(pts[a], pts[b]) * (1 + i) for i, (a, b) in enumerate(edges)) * base
    sz = sum(geom.dist(pts[a], pts[b]) * (1 + i) for i, (a, b) in enumerate(edges)) * (1 + sum(map(abs, case["coef"])))
    require(seen == {e: n for e in edges}, "not every edge was visited once per quadrature point")
    require(abs(got - want) <= 1e-11 * sz, "%d point edge integral %r, expected %r", n, got, want)
    require(abs(float(be(fe)) - got) <= 1e-15 * abs(got), "a second edge integration differs")
    k = case["split"] * len(edges) // 100
    parts = [float(BoundaryIntegrator(n, p, points)(fe)) for p in (edges[:k], edges[k:])]
    require(abs(sum(parts) - got) <= 1e-11 * sz, "the edge integral is not additive")
    length = float(BoundaryIntegrator(n, list(edges), points)(lambda e, t: 1.0))
    require(abs(length - sum(geom.dist(pts[a], pts[b]) for a, b in edges)) <= 1e-11 * sz, "total length %r", length)


# ---------------------------------------------------------------- invalid rules
def bad_strategy(tier):
    return st.fixed_dictionaries({
        "w": st.lists(st.integers(-10, 30), min_size=1, max_size=4),
        "p": st.lists(st.tuples(st.integers(-5, 15), st.integers(-5, 15)).map(list), min_size=4, max_size=4),
        "normalise": st.booleans(),
    })


def check_bad(case, ctx):
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    w = [x / 10 for x in case["w"]]
    if case["normalise"]:
        w[-1] = 1 - sum(w[:-1])
    p = [(x / 10, y / 10) for x, y in case["p"][: len(w)]]
    inside = all(x >= 0 and y >= 0 and x + y <= 1 for x, y in p)
    edge = any(x >= 0 and y >= 0 and abs(x + y - 1) < 1e-9 for x, y in p)
    if edge:
        return
    ok = inside and abs(sum(w) - 1) < 1e-12
    if not ok and abs(sum(w) - 1) < 1e-6 and inside:
        return
    ctx.label("valid" if ok else "invalid")
    ctx.nontrivial()
    try:
        r = TriangleQuadratureRule(list(w), list(p))
    except ValueError:
        require(not ok, "a valid rule was rejected: %r %r", w, p)
        return
    require(ok, "an invalid rule was accepted: %r %r", w, p)
    require([tuple(x)[:2] for x in r.points] == [tuple(x) for x in p] and list(r.weights) == w, "the rule changed its data")


SUBS = [
    Sub("rules", rule_strategy, check_rule, quick=4500, thorough=400000, shards=3),
    Sub("edge_rule", gauss_strategy, check_gauss, quick=4500, thorough=400000, shards=3),
    Sub("integrators", mesh_strategy, check_mesh, quick=3000, thorough=500000),
    Sub("integrators_large", large_mesh_strategy, check_mesh, quick=120, thorough=10000),
    Sub("integrators_huge", huge_mesh_strategy, check_mesh, quick=24, thorough=2000),
    Sub("invalid", bad_strategy, check_bad, quick=3000, thorough=200000, shards=2),
]
