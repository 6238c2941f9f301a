"""C11: fixed and free boundary parts partition the outline."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C11"
RULE = (
    "rectangles with 1..40 cells per side and every way to name fixed sides (None, a name, lists in"
    " any order with repetitions); non-trivial: at least one fixed side"
)
ASSUMPTIONS = ["side names are the four documented ones"]


def strategy(tier):
    return st.one_of(
        gen.rectangles(max_n=5, max_cells=20), gen.rectangles(max_n=40, max_cells=240)
    )


def check(case, ctx):
    domain, s, nx, ny = geom.make_domain(case)
    fix_before = repr(domain.fix)
    fixed = gen.fixed_sides(case["fix"])
    grid = domain.grid(s)
    require(repr(domain.fix) == fix_before, "creating a grid changed the domain's fixed sides")
    ctx.label(f"{len(fixed)} fixed sides")
    if isinstance(case["fix"], list) and len(case["fix"]) != len(set(case["fix"])):
        ctx.label("repetition")
    ctx.nontrivial(bool(fixed))
    index = geom.lattice_index(geom.points_of(grid), s, nx, ny)
    geom.check_parts(grid, index, nx, ny, fixed)
    # the parts are made of the very edges of the grid
    listed = set(map(tuple, grid.edges))
    for name, part in (("fixed", grid.dirichlet_boundary), ("free", grid.neumann_boundary)):
        for e in part.edges:
            require(
                tuple(e) in listed, "%s edge %r is not an edge of the grid as listed", name, e
            )
    d = {tuple(e) for e in grid.dirichlet_boundary.edges}
    n = {tuple(e) for e in grid.neumann_boundary.edges}
    require(
        not d & n and d | n == {tuple(e) for e in grid.boundary.edges},
        "fixed and free edges do not partition the boundary edges",
    )
    # nothing else depends on the fixed sides
    free, _, _, _ = geom.make_domain(case, fix=None)
    other = free.grid(s)
    require(
        geom.snapshot(grid)[:3] == geom.snapshot(other)[:3]
        and geom.snapshot(grid)[4] == geom.snapshot(other)[4]
        and sorted(grid.boundary.vertices) == sorted(other.boundary.vertices),
        "the mesh itself depends on the fixed sides",
    )


def huge_strategy(tier):
    return gen.huge_rectangles(1500 if tier == "quick" else 8000)


# ---------------------------------------------------------------- other orders of sets
SCRIPT = """
import json, sys
from tvemoves_rufbad.domain import RectangleDomain
out = []
for w, h, s, fix in json.load(sys.stdin):
    g = RectangleDomain(w, h, fix=fix).grid(s)
    out.append([
        [[float(p[0]), float(p[1])] for p in g.points], g.vertices, g.edges, g.triangles,
        [[list(b.vertices), list(b.edges)] for b in (g.boundary, g.dirichlet_boundary, g.neumann_boundary)],
    ])
json.dump(out, sys.stdout)
"""


def hash_strategy(tier):
    return st.fixed_dictionaries({
        "seed": st.integers(1, 10**6),
        "rects": st.lists(
            st.tuples(
                st.integers(1, 4), st.integers(1, 4),
                st.permutations(gen.SIDES).flatmap(
                    lambda p: st.integers(0, 4).map(lambda n: list(p)[:n])
                ),
            ).map(list), min_size=4, max_size=24,
        ),
    })


def check_hash(case, ctx):
    """The order in which a set of names is visited differs from process to process."""
    import json
    import os
    import subprocess
    import sys
    import tvemoves_rufbad
    from types import SimpleNamespace as N

    src = os.path.dirname(os.path.dirname(os.path.abspath(tvemoves_rufbad.__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]), PYTHONPATH=src)
    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", SCRIPT], env=env, text=True, capture_output=True, timeout=240,
        input=json.dumps([[nx, ny, 1, fix] for nx, ny, fix in case["rects"]]), check=False,
    )
    require(p.returncode == 0, "creating grids failed in a fresh process: %s", p.stderr[-500:])
    for (nx, ny, fix), (pts, vs, es, ts, parts) in zip(case["rects"], json.loads(p.stdout)):
        b = [N(vertices=v, edges=[tuple(e) for e in e_]) for v, e_ in parts]
        grid = N(
            points=pts, vertices=vs, edges=[tuple(e) for e in es], triangles=[tuple(t) for t in ts],
            boundary=b[0], dirichlet_boundary=b[1], neumann_boundary=b[2],
        )
        geom.check_lattice_grid(grid, 1, nx, ny, set(fix), f"grid with {fix} fixed")
        ctx.nontrivial(len(fix) > 1)


SUBS = [
    Sub("parts", strategy, check, quick=12000, thorough=1200000),
    Sub("huge", huge_strategy, check, quick=200, thorough=10000),
    Sub("processes", hash_strategy, check_hash, quick=24, thorough=2000),
]
