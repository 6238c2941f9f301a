"""C18: all views of an interpolation evaluate the same function."""

import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C18"
RULE = (
    "piecewise affine and C1 interpolations on rectangular grids refined by 1..6 (also twice), drawn"
    " parameters and points; every wrapper compared with the underlying interpolation at the same"
    " geometric point; non-trivial: nonzero parameters and a factor > 1"
)
ASSUMPTIONS = ["gradients of piecewise affine functions and Hessians are compared inside triangles only"]


def strategy(tier):
    return make(gen.rectangles(max_n=3, max_cells=6))


def large_strategy(tier):
    return make(gen.rectangles(max_n=24, max_cells=60)).map(lambda c: {**c, "limit": 300})


def huge_strategy(tier):
    """Many cells, or few cells refined often."""
    return st.one_of(
        make(gen.huge_rectangles(150)).map(lambda c: {**c, "k": min(c["k"], 3)}),
        make(gen.rectangles(max_n=2, max_cells=3)).map(lambda c: {**c, "k": c["k"] + 9, "nested": 1}),
    ).map(lambda c: {**c, "limit": 1200})


def make(rectangles):
    return st.tuples(
        rectangles,
        st.fixed_dictionaries({
            "k": st.sampled_from([1, 2, 3, 4, 5, 6]),
            "nested": st.sampled_from([1, 1, 1, 2]),
            "c1": st.booleans(),
            "salt": gen.salts(),
            "picks": st.lists(
                st.tuples(st.integers(0, 10**6), st.integers(0, 18), st.integers(0, 18), st.integers(0, 18)).map(list),
                min_size=1, max_size=6,
            ),
            "t": st.integers(0, 100),
        }),
    ).map(lambda t: {**t[0], **t[1]})


def check(case, ctx):
    from tvemoves_rufbad.interpolation import (
        P1Interpolation, C1Interpolation, RefinedInterpolation, EuclideanInterpolation,
        EuclideanDeformation, Deformation,
    )
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    domain, s, nx, ny = geom.make_domain(case)
    coarse = domain.grid(s)
    if case["nested"] > 1 and nx * ny <= 4:
        coarse = domain.refine(coarse, case["nested"])
        s, nx, ny = s / case["nested"], nx * case["nested"], ny * case["nested"]
    k = case["k"]
    while nx * ny * k * k > case.get("limit", 80):
        k -= 1
    fine = domain.refine(coarse, k)
    c1 = case["c1"]
    ctx.label("C1" if c1 else "P1")
    ctx.label(f"factor {k}")
    salt = case["salt"]
    ctx.nontrivial(salt != 0 and k > 1)
    n = len(coarse.points)
    comps = []
    for c in range(2):
        z = salt and salt + 11 * c
        if c1:
            comps.append(C1Interpolation(coarse, geom.jets(z, n, s).tolist()))
        else:
            comps.append(P1Interpolation(coarse, gen.noise(z, (n,)).tolist()))
    refined = [RefinedInterpolation(u, fine) for u in comps]
    require(refined[0].grid is fine, "the refined view reports another grid")
    D = Deformation(*refined)
    Dc = Deformation(*comps)
    E = EuclideanDeformation(*comps)
    ER = EuclideanInterpolation(refined[0])
    e = [EuclideanInterpolation(u) for u in comps]
    cpts, fpts = geom.points_of(coarse), geom.points_of(fine)
    tol = 1e-8 * (nx + ny)

    def same(a, b, unit, what, *args):
        a, b = np.asarray(a, float), np.asarray(b, float)
        require(a.shape == b.shape and (np.abs(a - b) <= tol * unit).all(), "%s: %r, underlying %r", what % args if args else what, a.tolist(), b.tolist())

    def home(p):
        """Coarse triangle containing the point."""
        for t in coarse.triangles:
            P = [cpts[i] for i in t]
            A = geom.signed_area(*P)
            l = [geom.signed_area(p, P[1], P[2]) / A, geom.signed_area(P[0], p, P[2]) / A, geom.signed_area(P[0], P[1], p) / A]
            if min(l) > -1e-7:
                return tuple(t), l
        return None

    def arr(x):
        return np.array(x.data, float)

    for pick, a, b, c in case["picks"]:
        ft = tuple(fine.triangles[pick % len(fine.triangles)])
        corner = 0 in (a, b, c)
        l = [a + 0.5, b + 0.5, c + 0.5] if not corner else [a, b, c]
        if sum(l) == 0:
            l = [1, 0, 0]
        l = [x / sum(l) for x in l]
        inner = min(l) > 1e-3
        p = geom.combine(fpts, ft, l)
        centre = geom.combine(fpts, ft, [1 / 3] * 3)
        ct, _ = home(centre)
        P = [cpts[i] for i in ct]
        A = geom.signed_area(*P)
        cl = [geom.signed_area(p, P[1], P[2]) / A, geom.signed_area(P[0], p, P[2]) / A, geom.signed_area(P[0], P[1], p) / A]
        fb = BarycentricCoordinates(l[0], l[1])
        cb = BarycentricCoordinates(cl[0], cl[1])
        value = [float(u(ct, cb)) for u in comps]
        grad = [arr(u.gradient(ct, cb)) for u in comps]
        hess = [arr(u.hessian(ct, cb)) for u in comps] if c1 else None
        for i in range(2):
            same(float(refined[i](ft, fb)), value[i], 1, "refined value in %r at %r", ft, l)
            same(arr(refined[i].gradient(ft, fb)), grad[i], 1 / s, "refined gradient in %r at %r", ft, l)
            same(float(D[i](ft, fb)), value[i], 1, "component %d of the refined deformation", i)
            same(float(e[i](*p)), value[i], 1, "Euclidean value at %r", p)
            same(float(E[i](*p)), value[i], 1, "component %d of the Euclidean deformation", i)
            if c1:
                same(arr(refined[i].hessian(ft, fb)), hess[i], 1 / s**2, "refined Hessian in %r at %r", ft, l)
            if c1 or inner:
                same(arr(e[i].gradient(*p)), grad[i], 1 / s, "Euclidean gradient at %r", p)
            if c1 and inner:
                same(arr(e[i].hessian(*p)), hess[i], 1 / s**2, "Euclidean Hessian at %r", p)
        same(float(ER(*p)), value[0], 1, "Euclidean value of the refined view at %r", p)
        same(arr(D(ft, fb)), value, 1, "refined deformation")
        same(arr(Dc(ct, cb)), value, 1, "deformation")
        same(arr(E(*p)), value, 1, "Euclidean deformation at %r", p)
        same(arr(D.strain(ft, fb)), grad, 1 / s, "refined strain")
        same(arr(Dc.strain(ct, cb)), grad, 1 / s, "strain")
        if c1 or inner:
            same(arr(E.strain(*p)), grad, 1 / s, "Euclidean strain at %r", p)
            same(arr(ER.gradient(*p)), grad[0], 1 / s, "Euclidean gradient of the refined view")
        if c1:
            same(arr(D.hyper_strain(ft, fb)), hess, 1 / s**2, "refined second gradient")
            same(arr(Dc.hyper_strain(ct, cb)), hess, 1 / s**2, "second gradient")
            if inner:
                same(arr(E.hyper_strain(*p)), hess, 1 / s**2, "Euclidean second gradient at %r", p)
        # strain entries are derivatives: difference along a line inside the triangle
        if inner:
            step = 1e-4 * min(l) * s / k
            for j in range(2):
                d = [step, 0.0] if j == 0 else [0.0, step]
                up, lo = E(p[0] + d[0], p[1] + d[1]), E(p[0] - d[0], p[1] - d[1])
                F = E.strain(*p)
                for i in range(2):
                    fd = (float(up[i]) - float(lo[i])) / (2 * step)
                    require(abs(fd - float(F[i, j])) <= 1e-4 * k / s * 10, "strain entry (%d, %d) at %r is %r, difference quotient %r", i, j, p, F[i, j], fd)
    # edges
    t = case["t"] / 100
    for m, edge in enumerate(fine.edges):
        a, b = fpts[edge[0]], fpts[edge[1]]
        p = (t * a[0] + (1 - t) * b[0], t * a[1] + (1 - t) * b[1])
        mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        ct, cl = home(mid)
        on_coarse = min(abs(x) for x in cl) < 1e-7
        if not on_coarse:
            if m % 5 == 0:
                try:
                    r = refined[0].on_edge(edge, t)
                except ValueError:
                    continue
                require(False, "the refined view has value %r on an edge inside a coarse triangle", r)
            continue
        P = [cpts[i] for i in ct]
        A = geom.signed_area(*P)
        cl = [geom.signed_area(p, P[1], P[2]) / A, geom.signed_area(P[0], p, P[2]) / A]
        want = [float(u(ct, BarycentricCoordinates(cl[0], cl[1]))) for u in comps]
        got = D.on_edge(tuple(edge), t)
        same(arr(got), want, 1, "refined deformation on edge %r at %r", edge, t)
    ce = tuple(coarse.edges[salt % len(coarse.edges)])
    same(arr(Dc.on_edge(ce, t)), [float(u.on_edge(ce, t)) for u in comps], 1, "deformation on edge %r", ce)
    # outside
    W, H = nx * s, ny * s
    for p in ((W + 0.01 * s, H / 2), (W / 2, -0.01 * s), (-3 * s, -3 * s), (W / 3, H + 5 * s)):
        for f in (e[0], E, E.strain, ER, e[1].gradient):
            try:
                r = f(*p)
            except ValueError:
                continue
            require(False, "evaluation at %r outside the mesh gives %s", p, r)


# ---------------------------------------------------------------- on both sides of an edge
def sides_strategy(tier):
    rect = st.one_of(gen.rectangles(max_n=4, max_cells=8), gen.rectangles(max_n=12, max_cells=40))
    return st.tuples(
        rect,
        st.fixed_dictionaries({
            "k": st.sampled_from([1, 1, 1, 2, 3]),
            "c1": st.booleans(),
            "salt": gen.salts(),
            "edge": st.integers(0, 10**6),
            # position along the edge, and distances on alternating sides
            "picks": st.lists(
                st.tuples(st.integers(2, 98), st.integers(0, 1), st.integers(20, 70)).map(list),
                min_size=2, max_size=8,
            ),
        }),
    ).map(lambda t: {**t[0], **t[1]})


def check_sides(case, ctx):
    """Points at relative distances of 1e-2 to 1e-7 from an inner edge belong to the triangle they lie in."""
    from tvemoves_rufbad.interpolation import (
        P1Interpolation, C1Interpolation, EuclideanInterpolation, EuclideanDeformation,
    )
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    domain, s, nx, ny = geom.make_domain(case)
    grid = domain.grid(s)
    if case["k"] > 1 and nx * ny <= 8:
        grid = domain.refine(grid, case["k"])
        s = s / case["k"]
    n = len(grid.points)
    pts = geom.points_of(grid)
    salt = case["salt"]
    us = [
        C1Interpolation(grid, geom.jets(salt and salt + 11 * c, n, s).tolist()) if case["c1"]
        else P1Interpolation(grid, gen.noise(salt and salt + 11 * c, (n,)).tolist())
        for c in range(2)
    ]
    E = EuclideanDeformation(*us)
    e = EuclideanInterpolation(us[0])
    around = {}
    for t in grid.triangles:
        t = tuple(t)
        for k in range(3):
            around.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append((t, k))
    inner = sorted((sorted(f), x) for f, x in around.items() if len(x) == 2)
    (a, b), both = inner[case["edge"] % len(inner)]
    ctx.label("C1" if case["c1"] else "P1")
    ctx.nontrivial(salt != 0 and len({x[1] for x in case["picks"]}) == 2)
    tol = 1e-8 * (nx + ny)

    def same(got, want, unit, what, p):
        got, want = np.asarray(got, float), np.asarray(want, float)
        require(
            (np.abs(got - want) <= tol * unit).all(), "Euclidean %s at %r is %r, in its triangle %r", what, p,
            got.tolist(), want.tolist(),
        )

    for along, side, d in case["picks"]:
        t, k = both[side]
        delta = 10.0 ** (-d / 10)
        x = along / 100 * (1 - delta)
        l = [0.0, 0.0, 0.0]
        l[k], l[(k + 1) % 3], l[(k + 2) % 3] = x, 1 - delta - x, delta
        p = geom.combine(pts, t, l)
        q = BarycentricCoordinates(l[0], l[1])
        same(float(e(*p)), float(us[0](t, q)), 1, "value", p)
        same(E(*p).data, [float(u(t, q)) for u in us], 1, "deformation", p)
        same(e.gradient(*p).data, us[0].gradient(t, q).data, 1 / s, "gradient", p)
        F = E.strain(*p)
        for i in range(2):
            same([F[i, 0], F[i, 1]], us[i].gradient(t, q).data, 1 / s, "strain", p)
        if case["c1"]:
            H, G = e.hessian(*p), us[0].hessian(t, q)
            same([H[i, j] for i in range(2) for j in range(2)], [G[i, j] for i in range(2) for j in range(2)], 1 / s**2, "Hessian", p)
            h, G1 = E.hyper_strain(*p), us[1].hessian(t, q)
            same(h[1, 0, 1], G1[0, 1], 1 / s**2, "second gradient", p)


SUBS = [
    Sub("views", strategy, check, quick=2100, thorough=300000),
    Sub("sides", sides_strategy, check_sides, quick=800, thorough=100000),
    Sub("large", large_strategy, check, quick=80, thorough=8000),
    Sub("huge", huge_strategy, check, quick=32, thorough=1500),
]
