"""C08: elastic energies are frame indifferent with the documented wells."""

import math
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import ref

PROPERTY = "C08"
RULE = (
    "strains R1 [[s1, shear s2], [0, s2]] with stretches 0.05..8, shears -4..4 and all rotations,"
    " special strains (rotations, sheared wells, nearly singular), temperatures 0..500; non-trivial:"
    " the strain is no rotation"
)
ASSUMPTIONS = ["determinant of the strain at least 1e-6"]


def strains():
    angle = st.one_of(st.sampled_from([0, 157, -157, 314]), st.integers(-314, 314))
    general = st.tuples(
        st.just("general"), angle,
        st.one_of(st.integers(40, 250), st.integers(5, 800)),
        st.one_of(st.integers(40, 250), st.integers(5, 800)),
        st.one_of(st.just(0), st.integers(-150, 150), st.integers(-400, 400)),
    )
    rotation = st.tuples(st.just("rotation"), angle, st.just(100), st.just(100), st.just(0))
    well = st.tuples(st.just("well"), angle, st.just(100), st.just(100), st.sampled_from([50, -50]))
    iso = st.tuples(st.just("iso"), angle, angle, st.sampled_from([50, -50]), st.just(0))
    near = st.tuples(
        st.just("near"), angle, st.integers(90, 110), st.integers(90, 110), st.integers(-60, 60)
    )
    return st.one_of(general, general, near, rotation, well, iso).map(list)


def matrix(s):
    kind, a, s1, s2, sh = s
    c, d = math.cos(a / 100), math.sin(a / 100)
    R = np.array([[c, -d], [d, c]])
    if kind == "iso":
        b = s1 / 100
        Q = np.array([[math.cos(b), -math.sin(b)], [math.sin(b), math.cos(b)]])
        return R @ np.array([[1.0, s2 / 100], [0.0, 1.0]]) @ Q
    return R @ np.array([[s1 / 100, sh / 100 * s2 / 100], [0.0, s2 / 100]])


def strategy(tier):
    return st.fixed_dictionaries({
        "F": strains(),
        "Fp": strains(),
        "q": st.integers(-314, 314),
        "theta": st.one_of(st.integers(0, 100), st.integers(0, 50000)),
        "H": st.lists(st.integers(-100, 100), min_size=4, max_size=4),
    })


def pkg(F):
    from tvemoves_rufbad.tensors import Matrix

    return Matrix([[float(F[0][0]), float(F[0][1])], [float(F[1][0]), float(F[1][1])]])


def terms_a(F):
    J = ref.det2(F)
    return float((F * F).sum()) + 2 + 2 * abs(math.log(J)) + (J - 1) ** 2


def terms_m(F):
    J = ref.det2(F)
    i = (F * F).sum() / J
    return float((i + 3) ** 2 + (J * J + 1 / J**2 + 2) ** 2)


def check(case, ctx):
    from tvemoves_rufbad import helpers as h

    F, Fp = matrix(case["F"]), matrix(case["Fp"])
    c, s = math.cos(case["q"] / 100), math.sin(case["q"] / 100)
    Q = np.array([[c, -s], [s, c]])
    th = case["theta"] / 100
    ctx.label(case["F"][0])
    J = ref.det2(F)
    sv = np.linalg.svd(F, compute_uv=False)
    d2 = float(((sv - 1) ** 2).sum())
    ctx.nontrivial(d2 > 1e-6)
    M, Mp, QM, QMp = pkg(F), pkg(Fp), pkg(Q @ F), pkg(Q @ Fp)
    before = (str(M.data), str(Mp.data))
    cond = float(sv[0] / sv[1])
    eps = 1e-12 * (1 + cond)

    wa, wm = float(h.austenite_potential(M)), float(h.martensite_potential(M))
    ta, tm = terms_a(F), terms_m(F)
    require(abs(wa - ref.w_aust(F)) <= eps * ta, "austenite energy of %s is %r, expected %r", M, wa, ref.w_aust(F))
    require(abs(wm - ref.w_mart(F)) <= eps * tm, "martensite energy of %s is %r, expected %r", M, wm, ref.w_mart(F))
    # signs, wells and growth
    require(wa >= -eps * ta and wa >= d2 - eps * ta, "austenite energy %r of %s, distance squared %r to rotations", wa, M, d2)
    require(wm >= -eps * tm, "martensite energy %r of %s is negative", wm, M)
    if case["F"][0] == "rotation":
        require(abs(wa) <= 1e-12, "austenite energy %r of the rotation %s", wa, M)
        require(wm > 0.05, "martensite energy %r of the rotation %s", wm, M)
    if case["F"][0] in ("well", "iso"):
        require(abs(wm) <= 1e-12, "martensite energy %r in the well %s", wm, M)
        require(wa > 0.2, "austenite energy %r in the martensite well %s", wa, M)
    off = max(abs(J - 1), abs(float((F * F).sum()) - 2.25))
    if off > 1e-3:
        require(wm > 1e-9, "martensite energy %r of %s, not in a well", wm, M)
    # invariance
    require(abs(float(h.austenite_potential(QM)) - wa) <= eps * ta, "austenite energy changes by a rotation at %s", M)
    require(abs(float(h.martensite_potential(QM)) - wm) <= eps * tm, "martensite energy changes by a rotation at %s", M)
    # mixture
    a = float(h.austenite_percentage(th))
    require(abs(a - ref.austenite(th)) <= 1e-13, "austenite fraction %r at temperature %r", a, th)
    tot = float(h.total_elastic_potential(M, th))
    want = ref.austenite(th) * ref.w_aust(F) + (1 - ref.austenite(th)) * ref.w_mart(F)
    require(abs(tot - want) <= eps * (ta + tm), "total energy of %s at %r is %r, expected %r", M, th, tot, want)
    require(
        abs(float(h.total_elastic_potential(QM, th)) - tot) <= eps * (ta + tm),
        "total energy changes by a rotation at %s", M,
    )
    require(
        min(wa, wm) - eps * (ta + tm) <= tot <= max(wa, wm) + eps * (ta + tm),
        "total energy %r is no mixture of %r and %r", tot, wa, wm,
    )
    # derivatives
    for name, got, wantD, t in (
        ("austenite", h.derivative_austenite_potential(M), ref.dw_aust(F), ta),
        ("martensite", h.derivative_martensite_potential(M), ref.dw_mart(F), tm),
    ):
        require(tuple(got.shape) == (2, 2), "shape of the %s derivative", name)
        for i in range(2):
            for j in range(2):
                require(
                    abs(float(got[i, j]) - wantD[i][j]) <= 1e-10 * (1 + cond) * t / float(sv[1]),
                    "%s derivative (%d, %d) at %s is %r, expected %r", name, i, j, M, got[i, j], wantD[i][j],
                )
    # difference quotient along a direction: independent of any formula
    H = np.array(case["H"], float).reshape(2, 2) / 100
    e = 1e-4 * float(sv[1])
    for name, f, D, t in (
        ("austenite", h.austenite_potential, h.derivative_austenite_potential(M), ta),
        ("martensite", h.martensite_potential, h.derivative_martensite_potential(M), tm),
    ):
        vals = [float(f(pkg(F + k * e * H))) for k in (-2, -1, 1, 2)]
        fd = (vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * e)
        an = sum(float(D[i, j]) * H[i][j] for i in range(2) for j in range(2))
        require(
            abs(fd - an) <= 1e-6 * (1 + cond) * t / float(sv[1]),
            "%s derivative at %s along %s is %r, difference quotient %r", name, M, H.tolist(), an, fd,
        )
    # dissipation
    d = float(h.dissipation_potential(Mp, M))
    scale = (1 + float((Fp * Fp).sum())) * (1 + float((F * F).sum()) + float((Fp * Fp).sum()))
    require(abs(d - ref.dissipation(Fp, F)) <= 1e-12 * scale, "dissipation of %s -> %s is %r, expected %r", Mp, M, d, ref.dissipation(Fp, F))
    require(d >= 0, "dissipation %r is negative", d)
    dq = float(h.dissipation_potential(QMp, QM))
    require(abs(dq - d) <= 1e-12 * scale, "dissipation changes by a rotation: %r, %r", d, dq)
    delta = h.symmetrized_strain_delta(Mp, M)
    S = ref.sym_rate(Fp, F)
    for i in range(2):
        for j in range(2):
            require(abs(float(delta[i, j]) - S[i][j]) <= 1e-12 * scale, "symmetrized increment %s, expected %s", delta, S.tolist())
    # increments without symmetrized rate dissipate nothing, and only those
    skew = np.array([[0.0, -1.0], [1.0, 0.0]]) * case["H"][0] / 100
    G = Fp + ref.inv_t(Fp) @ skew
    z = float(h.dissipation_potential(Mp, pkg(G)))
    require(abs(z) <= 1e-12 * (1 + float((Fp * Fp).sum()) * float((ref.inv_t(Fp) ** 2).sum())) * (1 + abs(case["H"][0])), "dissipation %r of an increment without symmetrized rate", z)
    require(float(h.dissipation_potential(Mp, Mp)) == 0, "dissipation without increment")
    require((str(M.data), str(Mp.data)) == before, "a potential changed its argument")


def blow_strategy(tier):
    return st.fixed_dictionaries({
        "F": strains(), "axis": st.integers(-157, 157), "dir": st.integers(-157, 157),
        "theta": st.integers(0, 3000),
    })


def check_blow(case, ctx):
    """Energies grow without bound along det -> 0."""
    from tvemoves_rufbad import helpers as h

    F = matrix(case["F"])
    a = case["axis"] / 100
    R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    th = case["theta"] / 100
    ctx.nontrivial()
    prev = None
    for k in range(0, 13):
        e = 10.0 ** (-k / 2)
        G = F @ R @ np.diag([1.0, e]) @ R.T
        J = ref.det2(G)
        wa, wm = float(h.austenite_potential(pkg(G))), float(h.martensite_potential(pkg(G)))
        slack = 1e-9 * (terms_a(G))
        require(wa >= -2 * math.log(J) - 2 - slack, "austenite energy %r at determinant %r", wa, J)
        if J < 0.5:
            require(wm >= (1 / J**2 - 2) ** 2 * (1 - 1e-6), "martensite energy %r at determinant %r", wm, J)
        tot = float(h.total_elastic_potential(pkg(G), th))
        require(tot >= min(wa, wm) - 1e-9 * abs(wm) - slack, "total energy %r below both phases", tot)
    for bad in (h.austenite_potential,):
        # no finite energy at or beyond the singular strain
        for e in (0.0, -0.5):
            G = F @ R @ np.diag([1.0, e]) @ R.T
            if abs(ref.det2(G)) < 1e-12 and e < 0:
                continue
            if e == 0.0:
                G = np.array([[F[0][0], 0.0], [F[1][0], 0.0]])
            try:
                w = bad(pkg(G))
            except (ValueError, ZeroDivisionError):
                continue
            w = complex(w)
            require(
                math.isinf(w.real) or math.isnan(w.real), "energy %r at determinant %r", w, ref.det2(G)
            )


SUBS = [
    Sub("laws", strategy, check, quick=12000, thorough=2000000),
    Sub("blowup", blow_strategy, check_blow, quick=1800, thorough=300000),
]
