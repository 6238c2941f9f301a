"""Reading grids of the package into plain data, and geometric predicates on them."""

from __future__ import annotations
import math
from .pbt import require, HarnessError
from . import gen


def make_domain(case, fix="case"):
    from tvemoves_rufbad.domain import RectangleDomain

    w, h, s, nx, ny = gen.rect_numbers(case)
    f = case.get("fix") if fix == "case" else fix
    return RectangleDomain(w, h, fix=f), s, nx, ny


def xy(p):
    return (float(p[0]), float(p[1]))


def points_of(grid):
    return [xy(p) for p in grid.points]


def snapshot(grid):
    """Everything observable of a grid, as nested tuples."""
    b = [
        (tuple(x.vertices), tuple(map(tuple, x.edges)))
        for x in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary)
    ]
    return (
        tuple(grid.vertices),
        tuple(map(tuple, grid.edges)),
        tuple(map(tuple, grid.triangles)),
        tuple(b),
        tuple(points_of(grid)),
    )


def rotate_min(t):
    """Cyclic rotation with the smallest entry first."""
    t = tuple(t)
    k = t.index(min(t))
    return t[k:] + t[:k]


def lattice_index(points, spacing, nx, ny, what="grid"):
    """Map every vertex to integer lattice coordinates; require a bijection to the lattice."""
    tol = 1e-6
    index = {}
    seen = {}
    for v, (x, y) in enumerate(points):
        i, j = round(x / spacing), round(y / spacing)
        require(
            abs(x / spacing - i) < tol and abs(y / spacing - j) < tol,
            "%s: vertex %d at (%r, %r) is not a lattice point of spacing %r", what, v, x, y, spacing,
        )
        require(
            0 <= i <= nx and 0 <= j <= ny,
            "%s: vertex %d at (%r, %r) lies outside the %dx%d lattice", what, v, x, y, nx, ny,
        )
        require((i, j) not in seen, "%s: two vertices at lattice point %r", what, (i, j))
        seen[(i, j)] = v
        index[v] = (i, j)
    require(
        len(seen) == (nx + 1) * (ny + 1),
        "%s: %d vertices, expected %d", what, len(seen), (nx + 1) * (ny + 1),
    )
    return index


def expected_lattice(nx, ny):
    """Sets of edges (as frozensets), triangles (oriented, rotated) in lattice coordinates."""
    edges = set()
    triangles = set()
    for i in range(nx + 1):
        for j in range(ny + 1):
            if i < nx:
                edges.add(frozenset([(i, j), (i + 1, j)]))
            if j < ny:
                edges.add(frozenset([(i, j), (i, j + 1)]))
            if i < nx and j < ny:
                edges.add(frozenset([(i, j), (i + 1, j + 1)]))
                triangles.add(rotate_min([(i, j), (i + 1, j), (i + 1, j + 1)]))
                triangles.add(rotate_min([(i, j), (i + 1, j + 1), (i, j + 1)]))
    return edges, triangles


def side_edges(nx, ny):
    """Edges of each side in lattice coordinates."""
    return {
        "lower": {frozenset([(i, 0), (i + 1, 0)]) for i in range(nx)},
        "upper": {frozenset([(i, ny), (i + 1, ny)]) for i in range(nx)},
        "left": {frozenset([(0, j), (0, j + 1)]) for j in range(ny)},
        "right": {frozenset([(nx, j), (nx, j + 1)]) for j in range(ny)},
    }


def mapped_edges(edges, index, what):
    """Edge list as set in lattice coordinates; require no repetition (in either direction)."""
    out = [frozenset([index[e[0]], index[e[1]]]) for e in edges]
    require(all(len(e) == 2 for e in out), "%s: an edge joins a vertex with itself", what)
    s = set(out)
    require(len(s) == len(out), "%s: an edge is listed twice", what)
    return s


def check_lattice_grid(grid, spacing, nx, ny, fixed, what="grid", parts=True):
    """The complete statement: grid is, up to numbering, the nx x ny lattice triangulation."""
    pts = points_of(grid)
    require(
        sorted(grid.vertices) == list(range(len(pts))),
        "%s: vertices are not the numbers 0..%d, each once", what, len(pts) - 1,
    )
    index = lattice_index(pts, spacing, nx, ny, what)
    edges, triangles = expected_lattice(nx, ny)
    got_edges = mapped_edges(grid.edges, index, what)
    require(
        got_edges == edges, "%s: edges differ from the triangle sides: missing %r, extra %r",
        what, sorted(map(sorted, edges - got_edges))[:3], sorted(map(sorted, got_edges - edges))[:3],
    )
    got = [rotate_min([index[i] for i in t]) for t in grid.triangles]
    require(len(set(got)) == len(got), "%s: a triangle is listed twice", what)
    require(
        set(got) == triangles, "%s: triangles differ: missing %r, extra %r",
        what, sorted(triangles - set(got))[:3], sorted(set(got) - triangles)[:3],
    )
    check_parts(grid, index, nx, ny, fixed, what, parts)
    return index


def check_parts(grid, index, nx, ny, fixed, what="grid", parts=True):
    sides = side_edges(nx, ny)
    everything = set().union(*sides.values())
    dirichlet = set().union(*[sides[s] for s in fixed]) if fixed else set()
    wanted = [("boundary", grid.boundary, everything)]
    if parts:
        wanted += [
            ("fixed part", grid.dirichlet_boundary, dirichlet),
            ("free part", grid.neumann_boundary, everything - dirichlet),
        ]
    for name, part, want in wanted:
        got = mapped_edges(part.edges, index, f"{what}: {name}")
        require(
            got == want, "%s: %s has wrong edges: missing %r, extra %r",
            what, name, sorted(map(sorted, want - got))[:3], sorted(map(sorted, got - want))[:3],
        )
        vs = [index[v] for v in part.vertices]
        require(len(set(vs)) == len(vs), "%s: %s lists a vertex twice", what, name)
        ends = set().union(*want) if want else set()
        require(
            set(vs) == ends, "%s: %s has wrong vertices: missing %r, extra %r",
            what, name, sorted(ends - set(vs))[:3], sorted(set(vs) - ends)[:3],
        )


def signed_area(a, b, c):
    return 0.5 * ((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]))


def combine(pts, tri, l):
    return (
        sum(li * pts[i][0] for li, i in zip(l, tri)),
        sum(li * pts[i][1] for li, i in zip(l, tri)),
    )


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


# ---------------------------------------------------------------- triangulations beyond the lattice
VARIANTS = ["plain", "plain", "perturbed", "reversed", "perturbed reversed", "rotated"]


def variant_grid(case, max_fine=60, amplitude=0.18):
    """(grid, spacing, nx, ny, base) for case keys k, variant, salt: a lattice grid, possibly refined,
    with perturbed points and/or reversed or rotated triangles and edges."""
    from tvemoves_rufbad.domain import Grid
    from tvemoves_rufbad.tensors import Vector

    domain, s, nx, ny = make_domain(case)
    grid = domain.grid(s)
    k = case.get("k", 1)
    if k > 1 and nx * ny * k * k <= max_fine:
        grid = domain.refine(grid, k)
        s, nx, ny = s / k, nx * k, ny * k
    variant, salt = case["variant"], case["salt"]
    if variant == "plain":
        return grid, s, nx, ny
    tri = [tuple(t) for t in grid.triangles]
    edges = [tuple(e) for e in grid.edges]
    points = list(grid.points)
    if "perturbed" in variant:
        d = gen.noise(salt + 1, (len(points), 2), amplitude * s)
        points = [
            Vector([p[0] + float(d[i][0]), p[1] + float(d[i][1])]) for i, p in enumerate(points)
        ]
    if "reversed" in variant:
        tri = [t[::-1] if (salt + n) % 3 else t for n, t in enumerate(tri)]
        edges = [e[::-1] if (salt + n) % 2 else e for n, e in enumerate(edges)]
    if "rotated" in variant:
        tri = [t[(salt + n) % 3 :] + t[: (salt + n) % 3] for n, t in enumerate(tri)]
    g = Grid(
        list(grid.vertices), edges, tri, grid.boundary, grid.dirichlet_boundary,
        grid.neumann_boundary, points,
    )
    return g, s, nx, ny


def barycentric(salt, n):
    """n barycentric coordinates: inner points, corners and edge points."""
    r = gen.noise(salt, (n, 3))
    out = []
    for i, row in enumerate(r):
        a = [abs(float(x)) for x in row]
        if i % 5 == 1:
            a[i % 3] = 0.0
        if i % 5 == 3:
            a = [0.0, 0.0, 0.0]
            a[i % 3] = 1.0
        s = sum(a)
        out.append([x / s for x in a] if s > 0 else [1 / 3, 1 / 3, 1 / 3])
    return out


def jets(salt, n, h):
    """n x 6 nodal C1 parameters of comparable magnitude at length scale h."""
    return gen.noise(salt, (n, 6)) / [1.0, h, h, h * h, h * h, h * h]
