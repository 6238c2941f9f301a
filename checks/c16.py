"""C16: the Bell element interpolates and reproduces quartics."""

import math
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom, ref

PROPERTY = "C16"
RULE = (
    "single triangles of either orientation, any rotation, sizes 1e-3..1e3, aspect ratios up to 20,"
    " away from the origin by up to 10 diameters; drawn parameters, quartics and points (inner, edge,"
    " vertex); non-trivial: nonzero parameters"
)
ASSUMPTIONS = ["aspect ratio (longest side over height) at most about 20"]


def triangles():
    """Angle, apex position, height, size exponent, offset, orientation."""
    return st.fixed_dictionaries({
        "angle": st.integers(-314, 314),
        "apex": st.integers(-50, 150),  # hundredths of the base
        "height": st.one_of(st.integers(50, 150), st.integers(8, 400)),
        "size": st.sampled_from([0, 0, 0, -1, 1, -3, 3]),
        "offset": st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(list),
        "mirror": st.booleans(),
        "right": st.booleans(),
    })


def vertices(t):
    a = t["angle"] / 100
    apex, height = t["apex"] / 100, t["height"] / 100
    if t["right"]:
        V = np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]])
        a = 0.0 if t["angle"] > 0 else math.pi
    else:
        V = np.array([[0.0, 0.0], [1.0, 0.0], [apex, height]])
    if t["mirror"]:
        V[:, 1] *= -1
    R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    V = V @ R.T
    h = 10.0 ** t["size"]
    o = np.array(t["offset"]) / 10
    return h * (V + o), h


def strategy(tier):
    return st.fixed_dictionaries({
        "t": triangles(),
        "salt": gen.salts(),
        "quartic": st.lists(st.integers(-9, 9), min_size=15, max_size=15),
        "points": st.lists(
            st.tuples(st.integers(0, 20), st.integers(0, 20), st.integers(0, 20)).map(list),
            min_size=1, max_size=4,
        ),
        "comb": st.lists(st.integers(-5, 5), min_size=2, max_size=2),
        "perm": st.integers(0, 5),
    })


MONO = [(i, k - i) for k in range(5) for i in range(k + 1)]


def poly_jet(coef, x, y):
    """Value and derivatives (u, ux, uy, uxx, uxy, uyy) of a quartic."""
    out = np.zeros(6)
    for c, (i, j) in zip(coef, MONO):
        for k, (dx, dy) in enumerate(((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2))):
            if i >= dx and j >= dy:
                f = math.factorial(i) // math.factorial(i - dx) * (math.factorial(j) // math.factorial(j - dy))
                out[k] += c * f * x ** (i - dx) * y ** (j - dy)
    return out


def make_grid(V, order=(0, 1, 2)):
    from tvemoves_rufbad.domain import Grid, Boundary
    from tvemoves_rufbad.tensors import Vector

    edges = [(0, 1), (1, 2), (2, 0)]
    b = Boundary([0, 1, 2], edges)
    return Grid(
        [0, 1, 2], list(edges), [tuple(order)], b, Boundary([], []), b,
        [Vector([float(p[0]), float(p[1])]) for p in V],
    )


def jet(interp, t, l):
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    b = BarycentricCoordinates(l[0], l[1])
    g, H = interp.gradient(t, b), interp.hessian(t, b)
    require(abs(float(H[0, 1]) - float(H[1, 0])) <= 1e-12 * (abs(float(H[0, 1])) + 1e-300), "the Hessian %s is not symmetric", H)
    return np.array([float(interp(t, b)), float(g[0]), float(g[1]), float(H[0, 0]), float(H[0, 1]), float(H[1, 1])])


def _line_weights():
    s = np.array([math.cos(math.pi * (2 * k + 1) / 12) for k in range(6)])
    # derivative at 0 of the interpolating quintic
    return s, np.array([
        sum(
            np.prod([0.0 - s[m] for m in range(6) if m not in (k, j)]) for j in range(6) if j != k
        ) / np.prod([s[k] - s[m] for m in range(6) if m != k])
        for k in range(6)
    ])


_S, _W = _line_weights()


def check(case, ctx):
    from tvemoves_rufbad.interpolation import C1Interpolation

    V, h = vertices(case["t"])
    area = geom.signed_area(*V)
    sides = [np.linalg.norm(V[i] - V[(i + 1) % 3]) for i in range(3)]
    longest = max(sides)
    if longest**2 > 20 * 2 * abs(area):
        return
    ctx.label("clockwise" if area < 0 else "counter-clockwise")
    salt = case["salt"]
    ctx.nontrivial(salt != 0)
    unit = np.array([1.0, 1 / longest, 1 / longest, 1 / longest**2, 1 / longest**2, 1 / longest**2])
    shape = longest**2 / (2 * abs(area))
    tol = 1e-10 * shape**4 * (1 + np.abs(case["t"]["offset"]).max() / 10) ** 2
    grid = make_grid(V)
    T = (0, 1, 2)
    p = geom.jets(salt, 3, longest)
    q = geom.jets(salt and salt + 5, 3, longest)
    U, W = C1Interpolation(grid, p.tolist()), C1Interpolation(grid, q.tolist())
    al, be = case["comb"]
    Z = C1Interpolation(grid, (al * p + be * q).tolist())
    bell = ref.Bell(V)
    o = V.mean(axis=0)
    coef = [c / 10 for c in case["quartic"]]
    nodal = []
    for v in V:
        x = (v - o) / longest
        nodal.append(poly_jet(coef, x[0], x[1]) * unit)
    Q = C1Interpolation(grid, [n.tolist() for n in nodal])
    # nodal values and derivatives
    for k in range(3):
        l = [0.0, 0.0, 0.0]
        l[k] = 1.0
        got = jet(U, T, l)
        require((np.abs(got - p[k]) <= tol * unit * 10).all(), "at vertex %d the interpolation has %r, prescribed %r", k, got.tolist(), p[k].tolist())
    pts = [[x / sum(a) for x in a] for a in case["points"] if sum(a)] or [[1 / 3, 1 / 3, 1 / 3]]
    for l in pts:
        x = sum(li * v for li, v in zip(l, V))
        got = jet(U, T, l)
        R = bell.rows(x[0], x[1])
        want = R @ p.ravel()
        size = np.abs(R) @ np.abs(p.ravel()) + 10 * unit
        require((np.abs(got - want) <= tol * size * 10).all(), "at %r in %r: value and derivatives %r, reference element %r", l, V.tolist(), got.tolist(), want.tolist())
        # quartics
        g = jet(Q, T, l)
        y = (x - o) / longest
        want = poly_jet(coef, y[0], y[1]) * unit
        size = (np.abs(R) @ np.abs(np.array(nodal).ravel())) + sum(map(abs, coef)) * unit
        require((np.abs(g - want) <= tol * size * 10).all(), "quartic at %r: %r, expected %r", l, g.tolist(), want.tolist())
        # linearity
        c = jet(Z, T, l)
        sz = np.abs(R) @ (abs(al) * np.abs(p.ravel()) + abs(be) * np.abs(q.ravel())) + unit
        require((np.abs(c - al * got - be * jet(W, T, l)) <= tol * sz * 10).all(), "not linear in the parameters at %r", l)
        # derivatives are exact: quintic through six points on a line
        step = 0.1
        for d in (np.array([1.0, 0.0]), np.array([0.0, 1.0])):
            # barycentric direction of the Euclidean direction d, per unit length `longest`
            B = np.array([[V[0][0], V[1][0], V[2][0]], [V[0][1], V[1][1], V[2][1]], [1, 1, 1]])
            B[0] -= o[0]
            B[1] -= o[1]
            dl = np.linalg.solve(B, [d[0] * longest, d[1] * longest, 0.0])
            amp = step / max(1.0, float(np.abs(dl).max()))
            js = [jet(U, T, np.array(l) + amp * s * dl) for s in _S]
            slope = sum(w * j for w, j in zip(_W, js)) / (amp * longest)
            k = 0 if d[0] else 1
            spread = max(np.abs(j / unit).max() for j in js) + 1
            e = tol * spread * 10 / amp
            require(abs(slope[0] - got[1 + k]) <= e / longest, "gradient %r at %r, derivative of the value %r", got[1 + k], l, slope[0])
            hx = [got[3], got[4]] if k == 0 else [got[4], got[5]]
            require(abs(slope[1] - hx[0]) <= e / longest**2 and abs(slope[2] - hx[1]) <= e / longest**2, "Hessian %r at %r, derivative of the gradient %r", hx, l, slope[1:3].tolist())
    # normal derivative along the sides is a cubic
    for k in range(3):
        a, b = k, (k + 1) % 3
        e = (V[b] - V[a]) / np.linalg.norm(V[b] - V[a])
        nrm = np.array([-e[1], e[0]])
        dn = []
        for t in (0, 0.25, 0.5, 0.75, 1):
            l = [0.0, 0.0, 0.0]
            l[a], l[b] = 1 - t, t
            j = jet(U, T, l)
            dn.append(nrm[0] * j[1] + nrm[1] * j[2])
        d4 = dn[0] - 4 * dn[1] + 6 * dn[2] - 4 * dn[3] + dn[4]
        require(abs(d4) <= 100 * tol * (max(map(abs, dn)) + 10 / longest), "normal derivative along side %d is no cubic: %r", k, dn)
    # naming of the vertices
    for r in (1, 2):
        order = T[r:] + T[:r]
        U2 = C1Interpolation(make_grid(V, order), p.tolist())
        l = pts[0]
        got, other = jet(U, T, l), jet(U2, order, [l[i] for i in order])
        require((np.abs(got - other) <= tol * (np.abs(got) + 10 * unit) * 10).all(), "naming the triangle %r changes the result: %r, %r", order, got.tolist(), other.tolist())
    # and reversed
    order = (0, 2, 1)
    U2 = C1Interpolation(make_grid(V, order), p.tolist())
    other = jet(U2, order, [pts[0][i] for i in order])
    got = jet(U, T, pts[0])
    require((np.abs(got - other) <= tol * (np.abs(got) + 10 * unit) * 10).all(), "reversing the triangle changes the result: %r, %r", got.tolist(), other.tolist())
    # wrong parameters are rejected
    for bad in ([r[:5] for r in p.tolist()], p.tolist()[:2], p.tolist() + [[0.0] * 6]):
        try:
            C1Interpolation(grid, bad)
        except ValueError:
            continue
        require(False, "wrong parameters %r were accepted", bad)


def sizes_strategy(tier):
    return st.fixed_dictionaries({
        "t": triangles(),
        "salt": gen.salts(),
        "points": st.lists(
            st.tuples(st.integers(0, 20), st.integers(0, 20), st.integers(0, 20)).map(list), min_size=1, max_size=3,
        ),
        # decimal sizes, one after the other
        "sizes": st.lists(st.one_of(st.integers(-60, 60), st.integers(-12, -5)), min_size=2, max_size=5),
    })


def check_sizes(case, ctx):
    """The same triangle in several sizes, with the parameters scaled accordingly."""
    from tvemoves_rufbad.interpolation import C1Interpolation

    V, _ = vertices({**case["t"], "size": 0})
    area = geom.signed_area(*V)
    longest = max(np.linalg.norm(V[i] - V[(i + 1) % 3]) for i in range(3))
    if longest**2 > 20 * 2 * abs(area):
        return
    ctx.nontrivial(case["salt"] != 0 and len(set(case["sizes"])) > 1)
    shape = longest**2 / (2 * abs(area))
    tol = 1e-9 * shape**4 * (1 + np.abs(case["t"]["offset"]).max() / 10) ** 2
    p = geom.jets(case["salt"], 3, longest)
    bell = ref.Bell(V)
    T = (0, 1, 2)
    for n in case["sizes"]:
        h = 10.0 ** (n / 6)
        unit = np.array([1.0, 1 / h, 1 / h, 1 / h**2, 1 / h**2, 1 / h**2])
        U = C1Interpolation(make_grid(h * V), (p * unit).tolist())
        for a in case["points"]:
            l = [x / sum(a) for x in a] if sum(a) else [1 / 3, 1 / 3, 1 / 3]
            x = sum(li * v for li, v in zip(l, V))
            R = bell.rows(x[0], x[1])
            want = R @ p.ravel() * unit
            size = (np.abs(R) @ np.abs(p.ravel()) + 10) * unit
            got = jet(U, T, l)
            require(
                (np.abs(got - want) <= tol * size).all(), "at %r in %r: value and derivatives %r, reference"
                " element %r", l, (h * V).tolist(), got.tolist(), want.tolist(),
            )
            # along the side of the first two vertices
            t = l[0]
            line = [t, 1 - t, 0.0]
            v, w = float(U.on_edge((0, 1), t)), float(jet(U, T, line)[0])
            require(abs(v - w) <= tol * (abs(w) + 10), "on the side at %r: %r, inside %r", t, v, w)


SUBS = [
    Sub("bell", strategy, check, quick=2400, thorough=600000),
    Sub("sizes", sizes_strategy, check_sizes, quick=1600, thorough=400000),
]
