"""C12: refining a grid gives the uniform subdivision."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C12"
RULE = (
    "rectangles with 1..6 cells per side, any fixed sides, all length scales, one to three nested"
    " refinements by factors 1..10 with at most a few hundred fine cells; non-trivial: some factor > 1"
)
ASSUMPTIONS = ["spacing at most both side lengths"]


def _limited(case, limit):
    n = case["n"][0] * case["n"][1]
    out = []
    for k in case["k"]:
        if n * k * k > limit and out:
            break
        while k > 1 and n * k * k > limit:
            k -= 1
        out.append(k)
        n *= k * k
    case["k"] = out
    return case


def strategy(tier, limit=None, rectangles=None):
    limit = limit or (170 if tier == "quick" else 700)
    factors = st.one_of(
        st.lists(st.integers(1, 4), min_size=1, max_size=3),
        st.lists(st.integers(1, 12), min_size=1, max_size=1),
        st.lists(st.sampled_from([1, 2, 3, 5]), min_size=2, max_size=2),
    )
    return st.tuples(rectangles or gen.rectangles(max_n=6, max_cells=16), factors).map(
        lambda t: _limited({**t[0], "k": t[1]}, limit)
    )


def large_strategy(tier):
    return strategy(tier, 1200, gen.rectangles(max_n=40, max_cells=150))


def huge_strategy(tier):
    """Large factors on few cells, and many cells."""
    limit = 900 if tier == "quick" else 2500
    top = 28 if tier == "quick" else 48
    one = st.integers(8, top).map(lambda k: [k])
    two = st.tuples(st.integers(4, top // 2), st.integers(2, 6)).map(list)
    few = st.tuples(gen.rectangles(max_n=3, max_cells=4), st.one_of(one, one, two))
    many = st.tuples(gen.huge_rectangles(limit // 4), st.sampled_from([[1], [2], [2], [3]]))
    return st.one_of(few, few, many).map(lambda t: _limited({**t[0], "k": t[1]}, limit))


def check(case, ctx):
    domain, s, nx, ny = geom.make_domain(case)
    fixed = gen.fixed_sides(case["fix"])
    coarse = domain.grid(s)
    chain = [coarse]
    snaps = [geom.snapshot(coarse)]
    total = 1
    for k in case["k"]:
        fine = domain.refine(chain[-1], k)
        total *= k
        what = f"refinement by {case['k'][:len(chain)]}"
        geom.check_lattice_grid(fine, s / total, nx * total, ny * total, fixed, what)
        require(geom.snapshot(chain[-1]) == snaps[-1], "%s changed the coarse grid", what)
        cpts, fpts = geom.points_of(chain[-1]), geom.points_of(fine)
        for v, p in enumerate(cpts):
            require(
                geom.dist(p, fpts[v]) <= 1e-9 * s,
                "%s: coarse vertex %d moved from %r to %r", what, v, p, fpts[v],
            )
        chain.append(fine)
        snaps.append(geom.snapshot(fine))
    direct = domain.grid(s)
    require(geom.snapshot(direct) == snaps[0], "refinement changed later grids of the domain")
    ctx.label(f"{len(case['k'])} refinements")
    ctx.label("nested" if len([k for k in case["k"] if k > 1]) > 1 else "single")
    ctx.nontrivial(any(k > 1 for k in case["k"]))
    # the fine grid owns its lists: changing it does not reach the coarse grid
    fine = chain[-1]
    fine.vertices.append(-1)
    fine.points.append(fine.points[0])
    for b in (fine.boundary, fine.dirichlet_boundary, fine.neumann_boundary):
        b.vertices.append(-1)
        b.edges.append((0, 0))
    require(geom.snapshot(chain[-2]) == snaps[-2], "fine and coarse grid share their lists")


def reject_strategy(tier):
    return st.tuples(
        gen.rectangles(max_n=3, max_cells=6), st.sampled_from([0, -1, -2, -7, -100])
    ).map(lambda t: {**t[0], "k": t[1]})


def check_reject(case, ctx):
    domain, s, _, _ = geom.make_domain(case)
    grid = domain.grid(s)
    before = geom.snapshot(grid)
    ctx.nontrivial()
    try:
        domain.refine(grid, case["k"])
    except ValueError:
        require(geom.snapshot(grid) == before, "a rejected refinement changed the grid")
        return
    require(False, "refinement factor %r was accepted", case["k"])


SUBS = [
    Sub("subdivision", strategy, check, quick=2700, thorough=400000),
    Sub("large", large_strategy, check, quick=120, thorough=8000),
    Sub("huge", huge_strategy, check, quick=48, thorough=2000),
    Sub("reject", reject_strategy, check_reject, quick=240, thorough=16000, shards=2),
]
