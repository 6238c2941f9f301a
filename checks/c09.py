"""C09: thermal constitutive functions are mutually consistent."""

import math
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import ref
from checks import c08

PROPERTY = "C09"
RULE = (
    "strains with positive determinant (as for C08), temperatures 0..500 with many near 0, fps over"
    " three orders of magnitude; non-trivial: positive temperature and a strain that is no rotation"
)
ASSUMPTIONS = ["determinant of the strain at least 1e-6"]


def strategy(tier):
    th = st.one_of(st.integers(0, 200), st.integers(0, 50), st.integers(0, 50000))
    return st.fixed_dictionaries({
        "F": c08.strains(),
        "Fp": c08.strains(),
        "q": st.integers(-314, 314),
        "theta": th,
        "theta2": th,
        "fps": st.one_of(st.integers(1, 60), st.integers(1, 10000)),
    })


_X, _W = np.polynomial.legendre.leggauss(30)


def check(case, ctx):
    from tvemoves_rufbad import helpers as h

    F, Fp = c08.matrix(case["F"]), c08.matrix(case["Fp"])
    M, Mp = c08.pkg(F), c08.pkg(Fp)
    before = (str(M.data), str(Mp.data))
    t, t2, fps = case["theta"] / 100, case["theta2"] / 100, case["fps"] / 10
    sv = np.linalg.svd(F, compute_uv=False)
    ctx.nontrivial(t > 0 and float(((sv - 1) ** 2).sum()) > 1e-6)
    ctx.label("theta = 0" if t == 0 else ("small theta" if t < 1 else "large theta"))
    cond = float(sv[0] / sv[1])
    eps = 1e-12 * (1 + cond)
    ta, tm = c08.terms_a(F), c08.terms_m(F)
    size = ta + tm

    # weight = a - theta a', with a' from a difference quotient of the package's own fraction
    w = float(h.internal_energy_weight(t))
    require(abs(w - ref.energy_weight(t)) <= 1e-12, "energy weight at %r is %r, expected %r", t, w, ref.energy_weight(t))
    a = float(h.austenite_percentage(t))
    e = 1e-3
    lo = max(t, 2 * e)
    da = sum(c * float(h.austenite_percentage(lo + k * e)) for k, c in ((-2, 1), (-1, -8), (1, 8), (2, -1))) / (12 * e)
    w_lo = float(h.internal_energy_weight(lo))
    require(abs(w_lo - (float(h.austenite_percentage(lo)) - lo * da)) <= 1e-7 * (1 + lo), "energy weight at %r is not a - theta a'", lo)
    require(0 <= a <= 1 and w >= -1e-12, "fraction %r or weight %r out of range", a, w)
    # antiderivative
    g = float(h.antider_internal_energy_weight(t))
    g2 = float(h.antider_internal_energy_weight(t2))
    require(abs(float(h.antider_internal_energy_weight(0.0))) <= 1e-14, "the antiderivative does not vanish at 0")
    require(abs(g - ref.energy_weight_antiderivative(t)) <= 1e-12 * (1 + t), "antiderivative at %r is %r, expected %r", t, g, ref.energy_weight_antiderivative(t))
    lo, hi = min(t, t2), max(t, t2)
    integral = 0.0
    cuts = [lo] + [c for c in (0.1, 0.5, 1.0, 2.0, 4.0, 8.0) if lo < c < hi] + [hi]
    for x0, x1 in zip(cuts[:-1], cuts[1:]):
        mid, half = (x0 + x1) / 2, (x1 - x0) / 2
        integral += half * sum(wi * float(h.internal_energy_weight(mid + half * xi)) for xi, wi in zip(_X, _W))
    want = (g2 - g) if t2 >= t else (g - g2)
    require(abs(integral - want) <= 1e-8 * (1 + hi), "integral of the weight over [%r, %r] is %r, difference of the antiderivative %r", lo, hi, integral, want)

    # internal energy
    gap = ref.w_aust(F) - ref.w_mart(F)
    ie = float(h.internal_energy_no_entropy(M, t))
    require(abs(ie - ref.energy_weight(t) * gap) <= eps * size, "internal energy (no entropy) of %s at %r is %r, expected %r", M, t, ie, ref.energy_weight(t) * gap)
    full = float(h.internal_energy(M, t))
    require(abs(full - ie - ref.ENTROPY * t) <= eps * (size + ref.ENTROPY * t), "entropy part of the internal energy at %r is %r", t, full - ie)
    require(float(h.ENTROPY_CONSTANT) == ref.ENTROPY, "entropy constant changed")
    anti = float(h.temp_antrider_internal_energy_no_entropy(M, t))
    require(abs(anti - ref.energy_weight_antiderivative(t) * gap) <= eps * size * (1 + t), "temperature antiderivative of the internal energy at %r is %r", t, anti)
    # internal energy from the coupling energy by a difference quotient in temperature
    base = float(h.total_elastic_potential(M, 0.0))
    e = 1e-3
    c = max(t, 2 * e)
    coup = lambda x: float(h.total_elastic_potential(M, x)) - base
    dc = (coup(c - 2 * e) - 8 * coup(c - e) + 8 * coup(c + e) - coup(c + 2 * e)) / (12 * e)
    got = float(h.internal_energy(M, c))
    require(abs(got - (coup(c) - c * dc + ref.ENTROPY * c)) <= 1e-7 * (1 + c) * (size + 1), "internal energy of %s at %r is not coupling minus theta times its derivative plus entropy", M, c)

    # coupling derivative
    D = h.strain_derivative_coupling_potential(M, t)
    want = ref.austenite(t) * (ref.dw_aust(F) - ref.dw_mart(F))
    for i in range(2):
        for j in range(2):
            require(abs(float(D[i, j]) - want[i][j]) <= 1e-10 * (1 + cond) * size / float(sv[1]), "coupling derivative (%d, %d) of %s at %r is %r, expected %r", i, j, M, t, D[i, j], want[i][j])

    # dissipation rate
    d = float(h.dissipation_potential(Mp, M))
    r = float(h.dissipation_rate(Mp, M, fps))
    require(abs(r - 2 * fps**2 * d) <= 1e-12 * abs(r) and r >= 0, "dissipation rate %r, potential %r, fps %r", r, d, fps)

    # conductivity
    K = h.heat_conductivity_reference(M)
    want = ref.conductivity(F)
    ks = float(np.abs(want).max())
    k = [[float(K[i, j]) for j in range(2)] for i in range(2)]
    for i in range(2):
        for j in range(2):
            require(abs(k[i][j] - want[i][j]) <= eps * ks * (1 + cond), "conductivity of %s is %r, expected %r", M, k, want.tolist())
    require(abs(k[0][1] - k[1][0]) <= eps * ks, "conductivity %r is not symmetric", k)
    require(k[0][0] > 0 and k[1][1] > 0, "conductivity %r is not positive", k)
    if cond < 1e3:
        # determinant of det F F^-1 F^-T is 1
        require(abs(k[0][0] * k[1][1] - k[0][1] * k[1][0] - 1) <= 1e-9 * ks * ks, "conductivity %r has the wrong determinant", k)
    cq, sq = math.cos(case["q"] / 100), math.sin(case["q"] / 100)
    KQ = h.heat_conductivity_reference(c08.pkg(np.array([[cq, -sq], [sq, cq]]) @ F))
    for i in range(2):
        for j in range(2):
            require(abs(float(KQ[i, j]) - k[i][j]) <= eps * ks * (1 + cond), "conductivity changes by a rotation")
    require((str(M.data), str(Mp.data)) == before, "a function changed its argument")


SUBS = [Sub("identities", strategy, check, quick=16000, thorough=2000000)]
