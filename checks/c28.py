"""C28: grids answer queries about exactly their own parts and grow consistently."""

import math
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom

PROPERTY = "C28"
RULE = (
    "grids of all kinds (lattice, refined, stretched, moved, reversed and rotated triangles); all their"
    " triangles and edges and drawn ones that are not theirs; grids assembled edge by edge in drawn orders,"
    " directions and repetitions; non-trivial: more than one triangle (queries), a repeated or reversed edge"
    " (assembly)"
)
ASSUMPTIONS = ["edges join two different vertices of the grid"]


def base(tier, extra):
    rect = st.one_of(gen.rectangles(max_n=4, max_cells=9), gen.rectangles(max_n=14, max_cells=40))
    d = {"variant": st.sampled_from(geom.VARIANTS), "salt": gen.salts(), "k": st.sampled_from([1, 1, 2, 3])}
    d.update(extra)
    return st.tuples(rect, st.fixed_dictionaries(d)).map(lambda t: {**t[0], **t[1]})


# ---------------------------------------------------------------- queries
def query_strategy(tier):
    pick = st.integers(0, 10**6)
    return base(tier, {"bad": st.lists(
        st.tuples(st.sampled_from(["corner", "random", "range", "same", "negative"]), pick, pick, pick).map(list),
        min_size=2, max_size=12,
    )})


def huge_query_strategy(tier):
    """The queries on meshes of several hundred cells, also finely refined ones."""
    return st.tuples(query_strategy(tier), gen.huge_rectangles(500), st.sampled_from([1, 1, 2, 9])).map(
        lambda t: {**t[0], "n": [1, 2] if t[2] > 2 else t[1]["n"], "k": t[2]}
    )


def rejected_or(f, arg, want, what):
    """The query is rejected, or answered with the points named."""
    try:
        got = f(arg)
    except Exception:  # pylint: disable=broad-except
        return
    require(
        want is not None and [geom.xy(p) for p in got] == want, "%s %r is answered by %r", what, arg, got
    )


def check_queries(case, ctx):
    grid, s, nx, ny = geom.variant_grid(case, max_fine=600)
    pts = geom.points_of(grid)
    n = len(pts)
    before = geom.snapshot(grid)
    tris = [tuple(t) for t in grid.triangles]
    edges = [tuple(e) for e in grid.edges]
    for what, f, parts in (
        ("triangle", grid.triangle_vertices, tris), ("edge", grid.edge_vertices, edges)
    ):
        for t in parts:
            got = [geom.xy(p) for p in f(t)]
            require(
                got == [pts[i] for i in t], "the vertices of %s %r are %r, expected %r", what, t, got,
                [pts[i] for i in t],
            )
        known = {frozenset(t) for t in parts}
        m = len(parts[0])
        for kind, a, b, c in case["bad"]:
            t = list(parts[a % len(parts)])
            if kind == "corner":
                t[b % m] = c % n
            elif kind == "random":
                t = [a % n, b % n, c % n][:m]
            elif kind == "range":
                t[b % m] = n + c % 3
            elif kind == "negative":
                t[b % m] -= n
            else:
                t[b % m] = t[(b + 1) % m]
            t = tuple(t)
            if t in parts:
                continue
            ctx.label(kind)
            # a part of the grid named in another order
            again = frozenset(t) in known and len(set(t)) == m
            rejected_or(f, t, [pts[i] for i in t] if again else None, what)
        for t in parts[:4]:
            rejected_or(f, t[::-1], [pts[i] for i in t[::-1]], what)
    require(geom.snapshot(grid) == before, "the queries changed the grid")
    ctx.label(case["variant"])
    ctx.nontrivial(len(tris) > 1)


# ---------------------------------------------------------------- assembly
def assembly_strategy(tier):
    return base(tier, {
        "order": gen.salts(),
        "start": st.sampled_from([0, 0, 0, 1, 30, 70, 100]),
        "repeat": st.sampled_from([0, 30, 100]),
        "stretch": st.sampled_from([1, 1, 3, 40]),
        "q": st.lists(
            st.tuples(
                st.integers(0, 10**6), st.integers(0, 360),
                st.sampled_from([0, 0, 100, 900, 1100, 2000, 20000, 10**7]),
            ).map(list),
            min_size=1, max_size=8,
        ),
    })


def check_assembly(case, ctx):
    from tvemoves_rufbad.domain import Grid, Boundary
    from tvemoves_rufbad.tensors import Vector

    grid, s, nx, ny = geom.variant_grid(case, max_fine=30)
    pts = [(x * case["stretch"], y) for x, y in geom.points_of(grid)]
    tris = [tuple(t) for t in grid.triangles]
    edges = [tuple(e) for e in grid.edges]
    r = np.random.default_rng(case["order"])
    if case["order"]:
        edges = [edges[i] for i in r.permutation(len(edges))]

    def make(es):
        parts = [
            Boundary(list(b.vertices), [tuple(e) for e in b.edges])
            for b in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary)
        ]
        return Grid(list(grid.vertices), list(es), list(tris), *parts, [Vector(list(p)) for p in pts])

    k = case["start"] * len(edges) // 100
    listed = list(edges[:k])
    g = make(listed)
    todo = []
    for e in edges[k:]:
        todo.append(e)
        while int(r.integers(100)) < case["repeat"] // 2:
            old = (listed + todo)[int(r.integers(len(listed) + len(todo)))]
            todo.append(old if r.integers(2) else old[::-1])
    for n, e in enumerate(todo):
        if e not in listed and e[::-1] not in listed:
            listed.append(e)
        else:
            ctx.nontrivial()
            ctx.label("repetition")
        g.append_edge(e)
        if n % 7 == 0 or n == len(todo) - 1:
            require(
                [tuple(x) for x in g.edges] == listed, "after appending %r the edges are %r, expected %r",
                e, g.edges[-4:], listed[-4:],
            )
        if n % 5 == 2:
            i, j = e if e in listed else e[::-1]
            got = [geom.xy(p) for p in g.edge_vertices((i, j))]
            require(
                got == [pts[i], pts[j]], "after appending it, the vertices of edge %r are %r, expected %r",
                (i, j), got, [pts[i], pts[j]],
            )
        # lookups in the middle of the assembly
        if n % 11 == 3:
            compare_lookups(g, make(listed), pts, listed, case["q"][:2], f"after {n + 1} edges: ")
    require(geom.snapshot(g)[1] == tuple(listed), "the edges are not those appended")
    direct = make(listed)
    require(geom.snapshot(g) == geom.snapshot(direct), "assembling changed something else than the edges")
    require(g == direct and direct == g, "the assembled grid differs from the one constructed at once")
    compare_lookups(g, direct, pts, listed, case["q"], "")
    ctx.label("empty start" if k == 0 else "partial start")


def compare_lookups(g, direct, pts, edges, queries, what):
    from tvemoves_rufbad.tensors import Vector

    mean = sum(geom.dist(pts[a], pts[b]) for a, b in edges) / len(edges)
    for v, angle, d in queries:
        v %= len(pts)
        d *= 1e-10 * mean
        p = (pts[v][0] + d * math.cos(math.radians(angle)), pts[v][1] + d * math.sin(math.radians(angle)))
        a, b = g.point_to_vertex(Vector(list(p))), direct.point_to_vertex(Vector(list(p)))
        require(
            a == b, "%sthe point %r at distance %r from vertex %d is vertex %r, in the grid constructed at"
            " once %r", what, p, d, v, a, b,
        )
        if d == 0:
            require(a is not None and pts[a] == p, "%svertex %d is not found at its position", what, v)


SUBS = [
    Sub("queries", query_strategy, check_queries, quick=2000, thorough=200000),
    Sub("queries_huge", huge_query_strategy, check_queries, quick=32, thorough=3000),
    Sub("assembly", assembly_strategy, check_assembly, quick=2000, thorough=200000),
]
