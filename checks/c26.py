"""C26: domain curves sample the rectangle evenly."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C26"
RULE = (
    "rectangles of all sizes, 2..60 points per curve, 0..12 inner horizontal and None/0..12 inner"
    " vertical curves; non-trivial: some inner curve"
)
ASSUMPTIONS = ["at least two points per curve"]


def strategy(tier):
    return st.fixed_dictionaries({
        "w": gen.scales(),
        "h": gen.scales(),
        "points": st.one_of(st.integers(2, 5), st.integers(2, 60)),
        "nh": st.one_of(st.integers(0, 3), st.integers(0, 12)),
        "nv": st.one_of(st.none(), st.integers(0, 12)),
        "default": st.booleans(),
    })


def huge_strategy(tier):
    return strategy(tier).flatmap(lambda c: st.fixed_dictionaries({
        **{k: st.just(v) for k, v in c.items()},
        "points": st.integers(2, 2000),
        "nh": st.one_of(st.just(0), st.integers(10, 60)),
        "nv": st.one_of(st.none(), st.integers(0, 60)),
    }))


def check(case, ctx):
    from tvemoves_rufbad.domain import RectangleDomain

    w, h = case["w"][0] / case["w"][1], case["h"][0] / case["h"][1]
    domain = RectangleDomain(w, h, fix="lower")
    n, nh, nv = case["points"], case["nh"], case["nv"]
    if case["default"] and nv is None and nh == 0:
        curves = domain.curves(n)
    elif case["default"] and nv is None:
        curves = domain.curves(n, nh)
    else:
        curves = domain.curves(n, nh, nv)
    v = nh if nv is None else nv
    ctx.label("default vertical" if nv is None else ("same" if nv == nh else "different"))
    ctx.nontrivial(nh + v > 0)
    require(len(curves) == nh + 2 + v + 2, "%d curves, expected %d", len(curves), nh + v + 4)
    tol = 1e-9 * (w + h)
    for c, curve in enumerate(curves):
        require(len(curve) == n, "curve %d has %d points, expected %d", c, len(curve), n)
        for i, p in enumerate(curve):
            r = i / (n - 1)
            if c < nh + 2:
                want = (r * w, c / (nh + 1) * h)
            else:
                want = ((c - nh - 2) / (v + 1) * w, r * h)
            require(
                abs(p[0] - want[0]) <= 1e-9 * w and abs(p[1] - want[1]) <= 1e-9 * h,
                "point %d of curve %d is %r, expected %r", i, c, geom.xy(p), want,
            )
    require((domain.width, domain.height, domain.fix) == (w, h, "lower"), "the domain changed")


def plot_strategy(tier):
    return st.fixed_dictionaries({
        "w": gen.scales(),
        "h": gen.scales(),
        "fix": gen.fix_specs(),
        "axis": st.booleans(),
        "curves": st.integers(0, 3),
    })


def check_plot(case, ctx):
    import numpy as np
    from matplotlib import pyplot as plt
    from tvemoves_rufbad.domain import RectangleDomain

    w, h = case["w"][0] / case["w"][1], case["h"][0] / case["h"][1]
    domain = RectangleDomain(w, h, fix=case["fix"])
    plt.close("all")
    ax0 = None
    if case["axis"]:
        _, ax0 = plt.subplots()
        ax0.plot([0.0, 1.0], [2.0, 3.0])
    open_ = set(plt.get_fignums())
    ax = domain.plot(ax0) if case["axis"] else domain.plot()
    new = set(plt.get_fignums()) - open_
    if ax0 is None:
        require(ax is not None and len(new) == 1, "plotting without an axis made %d figures", len(new))
        for lim, size in ((ax.get_xlim(), w), (ax.get_ylim(), h)):
            require(lim[0] <= 0 and lim[1] >= size, "limits %r hide a part of the rectangle", lim)
    else:
        require(ax is ax0 and not new, "plot did not use the given axis")
        require(
            len(ax.lines) == 1 and ax.lines[0].get_xydata().tolist() == [[0, 2], [1, 3]],
            "plotting changed what was drawn before",
        )
    require(len(ax.patches) == 1, "%d shapes are drawn", len(ax.patches))
    patch = ax.patches[0]
    P = patch.get_patch_transform().transform(patch.get_path().vertices)
    lo, hi = P.min(axis=0), P.max(axis=0)
    require(
        np.allclose(lo / [w, h], 0, atol=1e-12) and np.allclose(hi / [w, h], 1, atol=1e-12),
        "the rectangle is drawn from %r to %r, expected a %r by %r rectangle at the origin",
        lo.tolist(), hi.tolist(), w, h,
    )
    require((domain.width, domain.height, domain.fix) == (w, h, case["fix"]), "the domain changed")
    plt.close("all")
    ctx.nontrivial(w != h)


SUBS = [
    Sub("curves", strategy, check, quick=15000, thorough=1200000, shards=4),
    Sub("huge", huge_strategy, check, quick=64, thorough=4000, shards=4),
    Sub("drawing", plot_strategy, check_plot, quick=200, thorough=20000, shards=4),
]
