"""C22: grids are equal exactly if they are the same triangulation."""

from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom
import numpy as np

PROPERTY = "C22"
RULE = (
    "rectangular and refined grids, a drawn renumbering / reordering / edge reversal / triangle"
    " rotation, and at most one drawn modification; non-trivial: renumbered or modified"
)
ASSUMPTIONS = ["grids list no edge or triangle twice", "moved vertices move by at least 1e-3 spacings"]

KINDS = [
    "none", "none", "move", "move_onto", "tiny_move", "drop_edge", "swap_edge", "drop_triangle", "flip_triangle",
    "swap_triangle", "flip_diagonal",
    "boundary_drop_edge", "boundary_drop_vertex", "dirichlet_drop_edge", "dirichlet_drop_vertex",
    "neumann_drop_edge", "neumann_drop_vertex", "boundary_swap_edge", "dirichlet_swap_vertex",
    "neumann_swap_vertex", "dirichlet_add_edge", "neumann_add_edge", "neumann_add_vertex",
    "dirichlet_add_vertex", "drop_vertex", "other_fix", "other_spacing", "other_size",
]


def strategy(tier):
    return make(gen.rectangles(max_n=5, max_cells=12))


def large_strategy(tier):
    return make(gen.rectangles(max_n=40, max_cells=160)).map(lambda c: {**c, "limit": 400})


def huge_strategy(tier):
    return make(gen.huge_rectangles(500)).map(lambda c: {**c, "limit": 600})


def make(rectangles):
    return st.tuples(
        rectangles,
        st.sampled_from([1, 1, 2, 3]),
        gen.salts(),
        st.sampled_from(KINDS),
        st.integers(0, 10**6),
        st.integers(0, 10**6),
    ).map(
        lambda t: {**t[0], "k": t[1], "salt": t[2], "kind": t[3], "pick": t[4], "pick2": t[5]}
    )


class Plain:
    """A grid as plain lists."""

    def __init__(self, g):
        self.v = list(g.vertices)
        self.e = [tuple(e) for e in g.edges]
        self.t = [tuple(t) for t in g.triangles]
        self.b = [
            [list(x.vertices), [tuple(e) for e in x.edges]]
            for x in (g.boundary, g.dirichlet_boundary, g.neumann_boundary)
        ]
        self.p = geom.points_of(g)

    def renumber(self, salt):
        if salt == 0:
            return
        r = np.random.default_rng(salt)
        n = len(self.p)
        perm = [int(x) for x in r.permutation(n)]
        new = [None] * n
        for i in range(n):
            new[perm[i]] = self.p[i]
        self.p = new

        def edges(es):
            out = [(perm[a], perm[b]) for a, b in es]
            out = [(b, a) if r.integers(2) else (a, b) for a, b in out]
            r.shuffle(out)
            return [tuple(int(x) for x in e) for e in out]

        def shuffled(xs):
            xs = list(xs)
            order = r.permutation(len(xs))
            return [xs[i] for i in order]

        self.v = shuffled(self.v)
        self.e = edges(self.e)
        ts = []
        for t in self.t:
            k = int(r.integers(3))
            t = t[k:] + t[:k]
            ts.append(tuple(perm[i] for i in t))
        self.t = shuffled(ts)
        self.b = [[shuffled([perm[i] for i in vs]), edges(es)] for vs, es in self.b]

    def grid(self):
        from tvemoves_rufbad.domain import Grid, Boundary
        from tvemoves_rufbad.tensors import Vector

        return Grid(
            list(self.v), list(self.e), list(self.t), *[Boundary(list(v), list(e)) for v, e in self.b],
            [Vector(list(p)) for p in self.p],
        )


def modify(g, kind, pick, pick2, s):
    """Apply one modification; returns False if it does not apply to this grid."""
    n = len(g.p)
    if kind == "move" or kind == "tiny_move":
        i = pick % n
        d = (1e-3 if kind == "tiny_move" else 0.3) * s
        dx, dy = [(d, 0), (0, d), (-d, 0), (0, -d)][pick2 % 4]
        g.p[i] = (g.p[i][0] + dx, g.p[i][1] + dy)
        return True
    if kind == "move_onto":
        i, j = pick % n, pick2 % n
        if i == j:
            return False
        g.p[i] = g.p[j]
        return True
    if kind == "drop_edge":
        g.e.pop(pick % len(g.e))
        return True
    if kind == "swap_edge":
        have = {frozenset(e) for e in g.e}
        i, j = pick % n, pick2 % n
        if i == j or frozenset((i, j)) in have:
            return False
        g.e[pick2 % len(g.e)] = (i, j)
        return True
    if kind == "drop_triangle":
        g.t.pop(pick % len(g.t))
        return True
    if kind == "flip_triangle":
        i = pick % len(g.t)
        g.t[i] = g.t[i][::-1]
        return True
    if kind == "swap_triangle":
        t = g.t[pick % len(g.t)]
        k = pick2 % n
        new = (t[0], t[1], k)
        have = {frozenset(x) for x in g.t}
        if k in t or frozenset(new) in have:
            return False
        g.t[pick % len(g.t)] = new
        return True
    if kind == "flip_diagonal":
        # the other diagonal of one cell
        by_edge = {}
        for idx, t in enumerate(g.t):
            for k in range(3):
                by_edge.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append(idx)
        inner = [e for e in g.e if len(by_edge.get(frozenset(e), [])) == 2]
        if not inner:
            return False
        # diagonals join vertices that differ in both coordinates
        inner = [
            e for e in inner
            if abs(g.p[e[0]][0] - g.p[e[1]][0]) > 1e-6 * s and abs(g.p[e[0]][1] - g.p[e[1]][1]) > 1e-6 * s
        ]
        e = inner[pick % len(inner)]
        i1, i2 = by_edge[frozenset(e)]
        a = [x for x in g.t[i1] if x not in e][0]
        b = [x for x in g.t[i2] if x not in e][0]
        t1, t2 = (a, b, e[0]), (b, a, e[1])
        if geom.signed_area(*[g.p[i] for i in t1]) < 0:
            t1, t2 = t1[::-1], t2[::-1]
        g.t[i1], g.t[i2] = t1, t2
        g.e[g.e.index(e)] = (a, b)
        return True
    if kind == "drop_vertex":
        g.v.pop(pick % len(g.v))
        return True
    part, _, what = kind.partition("_")
    idx = {"boundary": 0, "dirichlet": 1, "neumann": 2}[part]
    vs, es = g.b[idx]
    if what == "drop_edge":
        if not es:
            return False
        es.pop(pick % len(es))
        return True
    if what == "drop_vertex":
        if not vs:
            return False
        vs.pop(pick % len(vs))
        return True
    if what == "swap_edge":
        have = {frozenset(e) for e in es}
        cand = [e for e in g.e if frozenset(e) not in have]
        if not es or not cand:
            return False
        es[pick % len(es)] = cand[pick2 % len(cand)]
        return True
    if what == "swap_vertex":
        cand = [v for v in range(n) if v not in vs]
        if not vs or not cand:
            return False
        vs[pick % len(vs)] = cand[pick2 % len(cand)]
        return True
    if what == "add_edge":
        have = {frozenset(e) for e in es}
        cand = [e for e in g.e if frozenset(e) not in have]
        if not cand:
            return False
        es.append(cand[pick % len(cand)])
        return True
    if what == "add_vertex":
        cand = [v for v in range(n) if v not in vs]
        if not cand:
            return False
        vs.append(cand[pick % len(cand)])
        return True
    raise KeyError(kind)


def check(case, ctx):
    domain, s, nx, ny = geom.make_domain(case)
    k = case["k"]
    grid = domain.grid(s)
    if k > 1 and nx * ny * k * k <= case.get("limit", 60):
        grid = domain.refine(grid, k)
        s /= k
    else:
        k = 1
    plain = Plain(grid)
    kind = case["kind"]
    equal = False
    if kind == "none":
        equal = True
    elif kind == "other_fix":
        fixed = gen.fixed_sides(case["fix"])
        spec = [x for n, x in enumerate(gen.SIDES) if case["pick"] >> n & 1]
        other, _, _, _ = geom.make_domain(case, fix=spec)
        g2 = other.grid(s * k)
        plain = Plain(g2 if k == 1 else other.refine(g2, k))
        equal = set(spec) == fixed
    elif kind == "other_spacing":
        f = [1.01, 1.5, 0.5, 0.99][case["pick"] % 4]
        plain.p = [(x * f, y * f) for x, y in plain.p]
    elif kind == "other_size":
        c2 = dict(case)
        c2["n"] = [case["n"][0] + 1, case["n"][1]] if case["pick"] % 2 else [case["n"][0], case["n"][1] + 1]
        d2, s2, _, _ = geom.make_domain(c2)
        plain = Plain(d2.grid(s2))
    elif not modify(plain, kind, case["pick"], case["pick2"], s):
        kind = "none"
        equal = True
    plain.renumber(case["salt"])
    other = plain.grid()
    ctx.label(kind)
    ctx.label("equal" if equal else "unequal")
    ctx.nontrivial(case["salt"] != 0 or not equal)
    a, b = geom.snapshot(grid), geom.snapshot(other)
    for x, y, name in ((grid, other, "first == second"), (other, grid, "second == first")):
        got = x == y
        require(
            got is equal or got == equal, "%s is %r after modification %r, expected %r",
            name, got, kind, equal,
        )
        require((x != y) == (not equal), "!= contradicts ==")
    require(grid == grid, "a grid does not equal itself")
    if kind != "move_onto":  # two vertices at one position are no triangulation
        require(other == other, "a grid does not equal itself")
    require(not grid == None and not grid == 3 and grid != "grid", "a grid equals a non-grid")
    require(
        geom.snapshot(grid) == a and geom.snapshot(other) == b, "the comparison changed a grid"
    )


SUBS = [
    Sub("equality", strategy, check, quick=12000, thorough=1200000),
    Sub("equality_large", large_strategy, check, quick=160, thorough=40000),
    Sub("equality_huge", huge_strategy, check, quick=16, thorough=1500),
]
