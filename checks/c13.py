"""C13: fine points map to the same point of the coarse grid."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C13"
RULE = (
    "refined and twice refined grids (factors 1..10, any fixed sides, all scales); every fine triangle"
    " in a drawn rotation with drawn coordinates, every fine edge; non-trivial: factor > 1"
)
ASSUMPTIONS = ["fine edges named in the other direction than listed may be rejected"]


def strategy(tier, limit=None, rectangles=None):
    limit = limit or (170 if tier == "quick" else 600)

    def shape(t):
        rect, ks, salt, k2 = t
        n = rect["n"][0] * rect["n"][1]
        k = ks
        while k > 1 and n * k * k > limit:
            k -= 1
        if n * k * k * k2 * k2 > limit:
            k2 = 1
        return {**rect, "k": [k] if k2 == 1 else [k, k2], "salt": salt}

    return st.tuples(
        rectangles or gen.rectangles(max_n=5, max_cells=12),
        st.one_of(st.integers(1, 4), st.integers(1, 11)),
        gen.salts(),
        st.sampled_from([1, 1, 2, 3]),
    ).map(shape)


def large_strategy(tier):
    return strategy(tier, 800, gen.rectangles(max_n=40, max_cells=120))


def huge_strategy(tier):
    """Large factors on few cells, and many cells."""
    limit = 900 if tier == "quick" else 2000

    def shape(t):
        rect, ks, salt = t
        n = rect["n"][0] * rect["n"][1]
        out = []
        for k in ks:
            while k > 1 and n * k * k > limit:
                k -= 1
            out.append(k)
            n *= k * k
        return {**rect, "k": out, "salt": salt}

    one = st.integers(10, 28 if tier == "quick" else 44).map(lambda k: [k])
    two = st.tuples(st.integers(4, 14), st.integers(2, 6)).map(list)
    return st.one_of(
        st.tuples(gen.rectangles(max_n=3, max_cells=4), st.one_of(one, one, two), gen.salts()),
        st.tuples(gen.huge_rectangles(limit // 4), st.sampled_from([[2], [3]]), gen.salts()),
    ).map(shape)


def _barycentric(salt, n):
    """Coordinates in the triangle, with corners, edge points and inner points."""
    r = gen.noise(salt, (n, 3))
    out = []
    for i, row in enumerate(r):
        a = [abs(x) for x in row]
        if i % 7 == 1:
            a[i % 3] = 0.0
        if i % 7 == 3:
            a = [0.0, 0.0, 0.0]
            a[i % 3] = 1.0
        s = sum(a)
        out.append([x / s for x in a] if s > 0 else [1 / 3, 1 / 3, 1 / 3])
    return out


def check(case, ctx):
    from tvemoves_rufbad.domain import BarycentricPoint
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    domain, s, nx, ny = geom.make_domain(case)
    coarse = domain.grid(s)
    fine = None
    for k in case["k"]:
        if fine is not None:
            coarse = fine
        fine = domain.refine(coarse, k)
    k = case["k"][-1]
    ctx.label(f"factor {k}" if k < 6 else "factor >= 6")
    ctx.label("nested" if len(case["k"]) > 1 else "single")
    ctx.nontrivial(k > 1)
    require(
        geom.snapshot(fine.coarse()) == geom.snapshot(coarse),
        "the reported coarse grid is not the grid that was refined",
    )
    cpts, fpts = geom.points_of(coarse), geom.points_of(fine)
    ctri = {tuple(t) for t in coarse.triangles}
    coords = _barycentric(case["salt"], len(fine.triangles))
    tol = 1e-9 * s * max(nx, ny)
    for n, (t, l) in enumerate(zip(fine.triangles, coords)):
        r = (case["salt"] + n) % 3
        named = tuple(t[r:] + t[:r])
        p = geom.combine(fpts, named, l)
        q = fine.to_coarse_barycentric_point(
            BarycentricPoint(named, BarycentricCoordinates(l[0], l[1]))
        )
        require(tuple(q.triangle) in ctri, "%r is not a triangle of the coarse grid", q.triangle)
        ql = [float(x) for x in q.coordinates]
        require(
            all(-1e-9 <= x <= 1 + 1e-9 for x in ql) and abs(sum(ql) - 1) < 1e-12,
            "fine triangle %r, coordinates %r: coarse coordinates %r", named, l, ql,
        )
        got = geom.combine(cpts, q.triangle, ql)
        require(
            geom.dist(p, got) <= tol,
            "fine point %r in triangle %r maps to coarse point %r", p, named, got,
        )
    # fine edges
    cedges = {tuple(e) for e in coarse.edges}
    ts = gen.noise(case["salt"] + 1, (len(fine.edges),))
    on = 0
    for n, e in enumerate(fine.edges):
        t = [0.0, 1.0, abs(float(ts[n])), abs(float(ts[n]))][n % 4]
        # does the fine edge lie on a coarse edge?
        a, b = fpts[e[0]], fpts[e[1]]
        home = None
        for ce in coarse_edge_candidates(coarse, cpts, s / _spacing_factor(case), a, b):
            home = ce
            break
        if home is None:
            try:
                res = fine.to_coarse_edge_point(tuple(e), t)
            except ValueError:
                continue
            require(False, "fine edge %r inside a coarse triangle gives %r", e, res)
        on += 1
        ce, tc = fine.to_coarse_edge_point(tuple(e), t)
        require(tuple(ce) in cedges, "%r is not an edge of the coarse grid as listed", ce)
        tc = float(tc)
        require(-1e-9 <= tc <= 1 + 1e-9, "relative position %r on coarse edge %r", tc, ce)
        want = (t * a[0] + (1 - t) * b[0], t * a[1] + (1 - t) * b[1])
        ca, cb = cpts[ce[0]], cpts[ce[1]]
        got = (tc * ca[0] + (1 - tc) * cb[0], tc * ca[1] + (1 - tc) * cb[1])
        require(
            geom.dist(want, got) <= tol,
            "point %r of fine edge %r (t = %r) maps to %r on coarse edge %r", want, e, t, got, ce,
        )
        # named in the other direction it is rejected, or names the same points
        back = (e[1], e[0])
        try:
            ce, tc = fine.to_coarse_edge_point(back, t)
        except ValueError:
            continue
        require(tuple(ce) in cedges, "%r is not an edge of the coarse grid as listed", ce)
        ca, cb, tc = cpts[ce[0]], cpts[ce[1]], float(tc)
        got = (tc * ca[0] + (1 - tc) * cb[0], tc * ca[1] + (1 - tc) * cb[1])
        want = (t * b[0] + (1 - t) * a[0], t * b[1] + (1 - t) * a[1])
        require(
            geom.dist(want, got) <= tol,
            "point %r of fine edge %r (t = %r) maps to %r on coarse edge %r", want, back, t, got, ce,
        )
    require(on == len(coarse.edges) * k, "%d fine edges lie on coarse edges", on)
    # unknown triangles
    n = len(fpts)
    known = {frozenset(t) for t in fine.triangles}
    t0 = fine.triangles[case["salt"] % len(fine.triangles)]
    bad = [(n, n + 1, n + 2), (t0[0], t0[0], t0[1])]
    for extra in range(0, n, max(1, n // 5)):
        c = (t0[0], t0[1], extra)
        if frozenset(c) not in known:
            bad.append(c)
    centre = BarycentricCoordinates(0.2, 0.3)
    for c in bad:
        try:
            res = fine.to_coarse_barycentric_point(BarycentricPoint(c, centre))
        except ValueError:
            continue
        require(False, "unknown triangle %r was mapped to %r", c, res)


def _spacing_factor(case):
    out = 1
    for k in case["k"][:-1]:
        out *= k
    return out


def coarse_edge_candidates(coarse, cpts, h, a, b):
    """Coarse edges containing the segment ab (by geometry)."""
    key = (id(coarse),)
    if getattr(coarse_edge_candidates, "key", None) is not coarse:
        coarse_edge_candidates.key = coarse
        lines = {}
        for e in coarse.edges:
            p, q = cpts[e[0]], cpts[e[1]]
            i0, j0 = round(min(p[0], q[0]) / h), round(min(p[1], q[1]) / h)
            d = (round(abs(p[0] - q[0]) / h), round(abs(p[1] - q[1]) / h))
            lines[(i0, j0, d)] = tuple(e)
        coarse_edge_candidates.lines = lines
    lines = coarse_edge_candidates.lines
    mx, my = (a[0] + b[0]) / 2 / h, (a[1] + b[1]) / 2 / h
    dx, dy = (b[0] - a[0]) / h, (b[1] - a[1]) / h
    eps = 1e-6
    i0, j0 = int(mx // 1), int(my // 1)
    fx, fy = mx - i0, my - j0
    out = []
    if abs(dy) < eps:  # horizontal
        for j in (j0, j0 + 1):
            if abs(my - j) < eps and (i0, j, (1, 0)) in lines:
                out.append(lines[(i0, j, (1, 0))])
    elif abs(dx) < eps:  # vertical
        for i in (i0, i0 + 1):
            if abs(mx - i) < eps and (i, j0, (0, 1)) in lines:
                out.append(lines[(i, j0, (0, 1))])
    elif abs(dx - dy) < eps and abs(fx - fy) < eps and (i0, j0, (1, 1)) in lines:
        out.append(lines[(i0, j0, (1, 1))])
    return out


SUBS = [
    Sub("maps", strategy, check, quick=2800, thorough=300000),
    Sub("large", large_strategy, check, quick=80, thorough=8000),
    Sub("huge", huge_strategy, check, quick=32, thorough=1500),
]
