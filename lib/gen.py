"""Generators shared by the checks.  All of them produce plain JSON values."""

from __future__ import annotations
import math
import numpy as np
from hypothesis import strategies as st

SIDES = ["lower", "right", "upper", "left"]


def fix_specs():
    """Every way to name fixed sides: None, a single name, lists in any order, repetitions."""
    return st.one_of(
        st.none(),
        st.sampled_from(SIDES),
        st.permutations(SIDES).flatmap(
            lambda p: st.integers(0, 4).map(lambda n: list(p)[:n])
        ),
        st.lists(st.sampled_from(SIDES), max_size=6),
    )


def fixed_sides(spec):
    if spec is None:
        return set()
    if isinstance(spec, str):
        return {spec}
    return set(spec)


def scales():
    """Mesh spacings as [numerator, denominator]: round, decimal and odd values, over many sizes."""
    return st.one_of(
        st.sampled_from(
            [[1, 1], [1, 2], [1, 4], [1, 10], [2, 10], [3, 10], [1, 3], [7, 10], [2, 1], [1, 20]]
        ),
        st.tuples(st.integers(1, 400), st.sampled_from([1, 7, 10, 100, 1000])).map(list),
        # small and large domains
        st.tuples(st.integers(1, 9), st.sampled_from([10000, 1000000])).map(list),
        st.tuples(st.integers(500, 20000), st.just(1)).map(list),
    )


def unit_scales():
    """Moderate spacings, for the checks of energies."""
    return st.one_of(
        st.sampled_from([[1, 1], [1, 2], [1, 4], [1, 10], [2, 10], [3, 10], [1, 3], [2, 1]]),
        st.tuples(st.integers(2, 60), st.just(20)).map(list),
    )


def counts(max_n, max_cells):
    """(nx, ny) numbers of cells, mostly small, sometimes long and thin."""
    return st.one_of(
        st.tuples(st.integers(1, min(3, max_n)), st.integers(1, min(3, max_n))),
        st.tuples(st.integers(1, max_n), st.integers(1, max_n)),
        st.tuples(st.integers(1, max_n), st.just(1)),
        st.tuples(st.just(1), st.integers(1, max_n)),
    ).map(lambda t: (t[0], max(1, min(t[1], max_cells // t[0]))))


def large_meshes(reg=False):
    """[nx, ny, k]: meshes with inner vertices, long or finely refined ones."""
    if reg:
        return st.sampled_from([
            [3, 3, 1], [3, 2, 1], [2, 3, 1], [4, 1, 1], [1, 5, 1], [6, 1, 1], [2, 2, 2], [1, 2, 2],
            [3, 1, 2], [1, 1, 3], [1, 1, 4], [2, 1, 3], [4, 3, 1],
        ])
    return st.one_of(
        st.tuples(st.integers(4, 8), st.integers(4, 6)),
        st.tuples(st.integers(9, 14), st.integers(1, 2)),
        st.tuples(st.integers(1, 2), st.integers(9, 14)),
        st.tuples(st.integers(15, 40), st.just(1)),
        st.tuples(st.just(1), st.integers(15, 40)),
        st.sampled_from([(70, 1), (1, 70), (130, 1), (1, 130), (2, 66), (66, 2), (12, 11), (9, 15), (20, 7)]),
    ).map(lambda t: [*t, 1])


def large(d, reg=False):
    """Strategy of cases with the keys of d, on large meshes."""

    def put(case):
        case = dict(case)
        nx, ny, k = case.pop("large")
        case["n"] = [nx, ny]
        if "k" in case:
            case["k"] = k
        return case

    return st.fixed_dictionaries({**d, "large": large_meshes(reg)}).map(put)


def rectangles(max_n=6, max_cells=30, scale=None, fix=True):
    """A rectangle with a grid spacing.

    The spacing is a / d; width and height are a whole number of spacings (written as decimal, so
    that the floating point quotient may be inexact) plus a fraction of a spacing.
    """
    frac = st.one_of(
        st.just(0), st.just(0), st.integers(1, 90),
        st.sampled_from([99, 99.9, 99.99, 99.9999, 99.999999, 1e-4, 1e-6]),
    )
    d = {
        "n": counts(max_n, max_cells).map(list),
        "h": scale if scale is not None else scales(),
        "frac": st.tuples(frac, frac).map(list),
    }
    if fix:
        d["fix"] = fix_specs()
    return st.fixed_dictionaries(d)


def huge_rectangles(cells, **kw):
    """Rectangles with many cells: long strips and large blocks of about half the cells to all of them."""
    side = int(cells**0.5)
    n = st.one_of(
        st.tuples(st.integers(cells // 2, cells), st.just(1)),
        st.tuples(st.just(1), st.integers(cells // 2, cells)),
        st.tuples(st.integers(cells // 4, cells // 2), st.just(2)),
        st.tuples(st.just(3), st.integers(cells // 6, cells // 3)),
        st.tuples(st.integers(side // 2, side), st.integers(side // 2, side)),
        st.tuples(st.integers(side, 2 * side), st.integers(side // 4, side // 2)),
    ).map(list)
    return st.tuples(rectangles(max_n=1, max_cells=1, **kw), n).map(lambda t: {**t[0], "n": t[1]})


def rect_numbers(case):
    """(width, height, spacing, nx, ny) of a generated rectangle."""
    a, d = case["h"]
    nx, ny = case["n"]
    h = a / d
    fx, fy = case.get("frac", [0, 0])
    width = (nx * a) / d if fx == 0 else (nx * 100 * a + fx * a) / (100 * d)
    height = (ny * a) / d if fy == 0 else (ny * 100 * a + fy * a) / (100 * d)
    return width, height, h, nx, ny


def noise(salt, shape, amplitude=1.0):
    """Deterministic values in [-amplitude, amplitude], a pure function of the drawn salt; salt 0
    gives zeros."""
    if salt == 0:
        return np.zeros(shape)
    r = np.random.default_rng(salt)
    return np.round(r.uniform(-1.0, 1.0, size=shape), 4) * amplitude


def salts():
    return st.integers(0, 10**6)


def well_conditioned(angle, s1, s2, shear):
    """2x2 matrix with positive determinant from a rotation, two stretches and a shear."""
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, -s], [s, c]]) @ np.array([[s1, shear * s2], [0.0, s2]])


def affine_maps():
    """Parameters of affine deformations: [angle/100, s1/100, s2/100, shear/100, b1/10, b2/10]."""
    ident = st.just([0, 100, 100, 0, 0, 0])
    general = st.tuples(
        st.integers(-314, 314),
        st.integers(60, 180),
        st.integers(60, 180),
        st.integers(-70, 70),
        st.integers(-30, 30),
        st.integers(-30, 30),
    ).map(list)
    return st.one_of(ident, general, general)


def affine(params):
    """(A, b, smallest singular value)"""
    a, s1, s2, sh, b1, b2 = params
    A = well_conditioned(a / 100, s1 / 100, s2 / 100, sh / 100)
    smin = np.linalg.svd(A, compute_uv=False)[-1]
    return A, np.array([b1 / 10, b2 / 10]), float(smin)


def deformation(params, salt, amp, points, h):
    """Nodal positions: affine map plus noise small enough to keep all determinants positive.

    amp in 0..100 scales the noise up to 0.08 * h * (smallest singular value).
    """
    A, b, smin = affine(params)
    P = np.array(points, float)
    return P @ A.T + b + noise(salt, P.shape, 0.08 * h * smin * amp / 100)


def temperatures(kind, salt, n):
    """Non-negative nodal temperatures: kind is [base, spread] in hundredths."""
    base, spread = kind[0] / 100, kind[1] / 100
    return base + spread * np.abs(noise(salt, (n,)))


def temperature_kinds():
    return st.one_of(
        st.just([0, 0]),
        st.tuples(st.sampled_from([0, 0, 10, 50, 200]), st.integers(0, 100)).map(list),
        st.tuples(st.integers(0, 3000), st.integers(0, 1000)).map(list),
        st.tuples(st.sampled_from([29315, 10**5, 10**6]), st.sampled_from([0, 100, 10**5])).map(list),
    )


def initial_temperatures():
    """Hundredths."""
    return st.one_of(
        st.sampled_from([0, 10, 100]), st.integers(0, 3000), st.integers(0, 3000),
        st.sampled_from([27315, 10**5, 10**6]),
    )


def fps_values():
    """Frames per second, as [numerator, denominator]."""
    return st.one_of(
        st.sampled_from([[1, 1], [2, 1], [3, 1], [30, 1], [1, 2], [5, 2], [1, 10]]),
        st.tuples(st.integers(1, 600), st.sampled_from([1, 3, 10])).map(list),
        st.tuples(st.integers(1, 600), st.sampled_from([1, 3, 10])).map(list),
        st.sampled_from([[1500, 1], [10000, 1], [1, 100], [24000, 1001], [1, 7]]),
    )
