"""C20: tensor arithmetic is exact, pure and shape checked."""

from fractions import Fraction
from itertools import permutations
import copy
import math
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require, HarnessError

PROPERTY = "C20"
RULE = (
    "vectors (size 0..7), matrices (1..5 x 1..5) and 3-d tensors (1..3 per axis) of integers,"
    " fractions, floats or pyomo parameters; every operation; operands with matching or drawn"
    " shapes; non-trivial: more than one entry"
)
ASSUMPTIONS = ["matrices and 3-d tensors have at least one row and column"]

KINDS = ["int", "frac", "frac", "float", "pyomo"]


def entries(n):
    return st.lists(
        st.one_of(
            st.tuples(st.integers(-9, 9), st.just(1)),
            st.tuples(st.integers(-60, 60), st.integers(1, 7)),
        ).map(list),
        min_size=n,
        max_size=n,
    )


def tensor(dims):
    n = 1
    for d in dims:
        n *= d
    return entries(n).map(lambda e: {"dims": list(dims), "e": e})


def vec(lo=0, hi=7):
    return st.integers(lo, hi).flatmap(lambda n: tensor([n]))


def mat(hi=4):
    return st.tuples(st.integers(1, hi), st.integers(1, hi)).flatmap(tensor)


def ten():
    return st.tuples(*[st.integers(1, 3)] * 3).flatmap(tensor)


VEC1 = ["neg", "mul", "rmul", "div", "normsqr", "norm", "map", "iter", "len", "transpose", "numpy",
        "index", "slice", "reshape"]
VEC2 = ["add", "sub", "dot", "stack", "extend", "eq"]
MAT1 = ["neg", "mul", "rmul", "div", "normsqr", "norm", "map", "transpose", "trace", "det",
        "flatten", "numpy", "index"]
MAT2 = ["add", "sub", "scalar_product", "eq", "stack", "matmul"]
TEN1 = ["neg", "normsqr", "norm", "map", "numpy", "index"]
TEN2 = ["add", "sub", "eq"]


def strategy(tier):
    s = st.tuples(st.integers(-20, 20), st.integers(1, 5)).map(list)
    idx = st.lists(st.integers(-4, 8), min_size=3, max_size=3)

    def pair(one):
        """Second operand of the same shape, of a drawn shape, or equal."""
        return one.flatmap(
            lambda a: st.one_of(
                tensor(a["dims"]).map(lambda b: (a, b)),
                tensor(a["dims"]).map(lambda b: (a, b)),
                one.map(lambda b: (a, b)),
                st.just((a, a)),
                st.just((a, None)),  # equal up to one entry
            )
        )

    def build(rank, op, ab, kind, sc, ix):
        return {"rank": rank, "op": op, "a": ab[0], "b": ab[1], "kind": kind, "s": sc, "i": ix}

    k = st.sampled_from(KINDS)
    alts = [
        st.builds(build, st.just(1), st.sampled_from(VEC1), vec().map(lambda a: (a, a)), k, s, idx),
        st.builds(build, st.just(1), st.sampled_from(VEC2), pair(vec(0, 5)), k, s, idx),
        st.builds(build, st.just(2), st.sampled_from(MAT1), mat().map(lambda a: (a, a)), k, s, idx),
        st.builds(
            build, st.just(2), st.just("det"),
            st.integers(1, 5).flatmap(lambda n: tensor([n, n])).map(lambda a: (a, a)), k, s, idx,
        ),
        st.builds(build, st.just(2), st.sampled_from(MAT2), pair(mat(3)), k, s, idx),
        st.builds(
            build, st.just(2), st.just("matmul"),
            st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)).flatmap(
                lambda d: st.tuples(tensor(d[:2]), tensor(d[1:]))
            ), k, s, idx,
        ),
        st.builds(
            build, st.just(2), st.just("dot"),
            st.tuples(mat(4), vec(1, 4)), k, s, idx,
        ),
        st.builds(
            build, st.just(2), st.just("dot"),
            mat(4).flatmap(lambda a: tensor([a["dims"][1]]).map(lambda b: (a, b))), k, s, idx,
        ),
        st.builds(build, st.just(3), st.sampled_from(TEN1), ten().map(lambda a: (a, a)), k, s, idx),
        st.builds(build, st.just(3), st.sampled_from(TEN2), pair(ten()), k, s, idx),
        st.builds(
            build, st.just(2), st.just("inverse"),
            st.one_of(tensor([2, 2]), tensor([2, 2]), mat(3)).map(lambda a: (a, a)), k, s, idx,
        ),
    ]
    return st.one_of(*alts)


def nest(flat, dims):
    if len(dims) == 1:
        return list(flat)
    step = len(flat) // dims[0] if dims[0] else 0
    return [nest(flat[i * step : (i + 1) * step], dims[1:]) for i in range(dims[0])]


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [x]


class Entry:
    """Builds the package's entries for the exact rational values."""

    def __init__(self, kind):
        self.kind = kind
        if kind == "pyomo":
            import pyomo.environ as pyo

            self.m = pyo.ConcreteModel()
            self.n = 0

    def __call__(self, pq):
        v = Fraction(pq[0], pq[1])
        if self.kind == "int":
            return pq[0], Fraction(pq[0])
        if self.kind == "frac":
            return v, v
        if self.kind == "float":
            f = pq[0] / pq[1]
            return f, Fraction(f)
        import pyomo.environ as pyo

        p = pyo.Param(initialize=pq[0] / pq[1], mutable=True)
        self.n += 1
        setattr(self.m, f"p{self.n}", p)
        return p, Fraction(pq[0] / pq[1])


def number(x):
    """Plain exact value of a result entry."""
    if isinstance(x, bool):
        raise HarnessError("bool entry")
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(x)
    import pyomo.environ as pyo

    return Fraction(float(pyo.value(x)))


def data_of(x):
    """Package result as nested lists of exact numbers, with its rank."""
    from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D

    def conv(d):
        return [conv(y) for y in d] if isinstance(d, (list, tuple)) else number(d)

    if isinstance(x, (Vector, Matrix, Tensor3D)):
        want = conv(x.data)
        shape = tuple(x.shape)
        d, dims = want, []
        while isinstance(d, list):
            dims.append(len(d))
            d = d[0] if d else None
        require(shape == tuple(dims), "shape %r reported for data of shape %r", shape, tuple(dims))
        return {Vector: 1, Matrix: 2, Tensor3D: 3}[type(x)], want
    return 0, number(x)


def same(got, want, size, exact):
    """size bounds the magnitude of what was added up."""
    if exact:
        return got == want
    return abs(got - want) <= Fraction(1, 10**11) * (size + abs(want))


def det_ref(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    out = Fraction(0)
    for j in range(n):
        minor = [row[:j] + row[j + 1 :] for row in a[1:]]
        out += (-1) ** j * a[0][j] * det_ref(minor)
    return out


REJECT = object()


def expected(rank, op, A, B, da, db, s, ix):
    """(rank, nested exact result) or REJECT; s is the scalar."""
    f = lambda g, x: [f(g, y) for y in x] if isinstance(x, list) else g(x)
    z = lambda g, x, y: [z(g, p, q) for p, q in zip(x, y)] if isinstance(x, list) else g(x, y)
    if op == "neg":
        return rank, f(lambda x: -x, A)
    if op in ("mul", "rmul"):
        return rank, f(lambda x: x * s, A)
    if op == "div":
        return rank, f(lambda x: x / s, A)
    if op == "normsqr":
        return 0, sum((x * x for x in flat(A)), Fraction(0))
    if op == "norm":
        return 0, Fraction(math.sqrt(sum((x * x for x in flat(A)), Fraction(0))))
    if op == "map":
        return rank, f(lambda x: 3 * x - 1, A)
    if op in ("add", "sub"):
        if da != db:
            return REJECT
        return rank, z((lambda x, y: x + y) if op == "add" else (lambda x, y: x - y), A, B)
    if op in ("dot", "scalar_product") and (rank == 1 or op == "scalar_product"):
        if da != db:
            return REJECT
        return 0, sum((x * y for x, y in zip(flat(A), flat(B))), Fraction(0))
    if op == "dot":
        if da[1] != db[0]:
            return REJECT
        return 1, [sum((x * y for x, y in zip(row, B)), Fraction(0)) for row in A]
    if op == "stack":
        if da != db:
            return REJECT
        return rank + 1, [A, B]
    if op == "extend":
        return 1, A + B
    if op == "transpose":
        return (2, [A]) if rank == 1 else (2, [[A[i][j] for i in range(da[0])] for j in range(da[1])])
    if op == "trace":
        return 0, sum((A[i][i] for i in range(min(da))), Fraction(0))
    if op == "det":
        return REJECT if da[0] != da[1] else (0, det_ref(A))
    if op == "flatten":
        return 1, flat(A)
    if op == "matmul":
        if da[1] != db[0]:
            return REJECT
        return 2, [
            [sum((A[i][k] * B[k][j] for k in range(da[1])), Fraction(0)) for j in range(db[1])]
            for i in range(da[0])
        ]
    if op == "index":
        for i, d in zip(ix, da):
            if not 0 <= i < d:
                return REJECT
        x = A
        for i, d in zip(ix, da):
            x = x[i]
        return 0, x
    if op == "reshape":
        r, c = ix[0], ix[1]
        if r < 1 or c < 1 or r * c != da[0]:
            return REJECT
        return 2, [[A[i * c + j] for j in range(c)] for i in range(r)]
    if op == "slice":
        return 1, A[slice(ix[0], ix[1])]
    raise HarnessError(op)


def perform(rank, op, a, b, s, ix):
    if op == "neg":
        return -a
    if op == "mul":
        return a * s
    if op == "rmul":
        return s * a
    if op == "div":
        return a / s
    if op in ("normsqr", "norm", "transpose", "trace", "det", "flatten"):
        return getattr(a, op)()
    if op == "map":
        return a.map(lambda x: 3 * x - 1)
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op in ("dot", "scalar_product", "stack", "extend"):
        return getattr(a, op)(b)
    if op == "matmul":
        return a @ b
    if op == "index":
        return a[ix[0]] if rank == 1 else (a[ix[0], ix[1]] if rank == 2 else a[ix[0], ix[1], ix[2]])
    if op == "reshape":
        return a.reshape(ix[0], ix[1])
    if op == "slice":
        return a[ix[0] : ix[1]]
    raise HarnessError(op)


def check(case, ctx):
    from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, inverse_2x2

    classes = {1: Vector, 2: Matrix, 3: Tensor3D}
    rank, op, kind = case["rank"], case["op"], case["kind"]
    mk = Entry(kind)
    ea = [mk(x) for x in case["a"]["e"]]
    da = case["a"]["dims"]
    if case["b"] is None:
        eb, db = list(ea), da
        if eb:
            k = case["i"][0] % len(eb)
            p, q = case["a"]["e"][k]
            eb[k] = mk([p + 1, q])
    else:
        eb = [mk(x) for x in case["b"]["e"]]
        db = case["b"]["dims"]
    A, B = nest([x[1] for x in ea], da), nest([x[1] for x in eb], db)
    da_raw, db_raw = nest([x[0] for x in ea], da), nest([x[0] for x in eb], db)
    a = classes[rank](da_raw)
    b = classes[len(db)](db_raw)
    if case["b"] == case["a"] and case["s"][0] % 2:
        # both operands are one object
        b, B, eb, db = a, A, ea, da
        ctx.label("same object")
    before = (str(a.data), a.shape, str(b.data), b.shape)
    ctx.label(f"rank {rank} {op}")
    ctx.label(kind)
    ctx.nontrivial(len(ea) > 1)
    exact = kind in ("int", "frac")
    sp = case["s"]
    if op == "div" and sp[0] == 0:
        sp = [1, sp[1]]
    if kind == "int":
        s, sx = sp[0], Fraction(sp[0])
    elif kind == "frac":
        s = sx = Fraction(sp[0], sp[1])
    else:
        s = sp[0] / sp[1]
        sx = Fraction(s)
    size = sum((abs(x) for x in flat(A)), Fraction(1)) * sum((abs(x) for x in flat(B)), Fraction(1))
    size *= 1 + abs(sx) + 1 / (abs(sx) if sx else 1)
    for _ in range(max(0, len(da) and da[0] - 1) if op == "det" else 0):
        size *= max([abs(x) for x in flat(A)] + [1])
    if kind == "int" and op == "div":
        exact = False

    if op == "eq":
        if kind == "pyomo":
            return
        want = da == db and A == B
        ctx.label("equal" if want else "unequal")
        require((a == b) is want and (b == a) is want, "%r == %r is %r", a, b, a == b)
        require((a != b) is (not want), "!= contradicts ==")
        require(not a == 1 and a != "x" and not a == None, "equal to something of another type")
    elif op == "iter":
        require(
            [number(x) for x in a] == A, "iteration gives other entries than the vector %r", A
        )
    elif op == "len":
        require(len(a) == da[0] and a.size == da[0], "length %r of a vector of size %r", len(a), da)
    elif op == "numpy":
        if kind == "pyomo":
            return
        arr = a.numpy()
        require(tuple(arr.shape) == tuple(da), "numpy shape %r of %r", arr.shape, da)
        require([Fraction(x) for x in arr.ravel().tolist()] == flat(A), "numpy() changed entries")
        if arr.size:
            arr.fill(77)
            # also a copy if the entries came as an array
            c = classes[rank](np.array(da_raw, float))
            want = c.numpy().tolist()
            c.numpy().fill(77)
            require(c.numpy().tolist() == want, "changing the array given by numpy() changes the tensor")
    elif op == "inverse":
        if da != [2, 2]:
            try:
                inverse_2x2(a)
            except ValueError:
                return
            require(False, "inverse of a matrix of shape %r", da)
        d = det_ref(A)
        if d == 0 or (kind != "frac" and abs(d) < Fraction(1, 100)):
            return
        r, inv = data_of(inverse_2x2(a))
        require(r == 2, "the inverse is not a matrix")
        want = [[A[1][1] / d, -A[0][1] / d], [-A[1][0] / d, A[0][0] / d]]
        sz = sum(abs(x) for x in flat(A)) / abs(d) * (1 + sum(abs(x) for x in flat(A)) ** 2 / abs(d))
        for x, y in zip(flat(inv), flat(want)):
            require(same(x, y, sz, kind == "frac"), "inverse of %r is %r, expected %r", A, inv, want)
    else:
        if op == "reshape" and not flat(A):
            ctx.label("reshape of nothing, which has no defined shape")
            return
        want = expected(rank, op, A, B, da, db, sx, case["i"])
        if want is REJECT:
            ctx.label("rejected")
            try:
                got = perform(rank, op, a, b, s, case["i"])
            except (ValueError, IndexError):
                got = REJECT
            require(
                got is REJECT, "%s of shapes %r, %r with indices %r was not rejected", op, da, db,
                case["i"][:rank],
            )
        else:
            got = data_of(perform(rank, op, a, b, s, case["i"]))
            require(got[0] == want[0], "%s gives rank %d, expected %d", op, got[0], want[0])
            g, w = flat(got[1]), flat(want[1])
            require(len(g) == len(w), "%s gives %d entries, expected %d", op, len(g), len(w))
            tol_exact = exact and op != "norm"
            for x, y in zip(g, w):
                require(
                    same(x, y, size, tol_exact), "%s of %s, %s (scalar %s, indices %r) is %s, expected %s",
                    op, case["a"], case["b"], sx, case["i"], [str(v) for v in g], [str(v) for v in w],
                )
            if rank == 2 and op == "stack":
                require(tuple(perform(rank, op, a, b, s, None).shape) == (2, *da), "stack shape")
    after = (str(a.data), a.shape, str(b.data), b.shape)
    require(before == after, "%s changed its operands: %r -> %r", op, before, after)


# ---------------------------------------------------------------- construction and coordinates
def ctor_strategy(tier):
    return st.fixed_dictionaries({
        "lens": st.lists(st.integers(1, 4), min_size=1, max_size=4),
        "depth": st.lists(st.lists(st.integers(1, 3), min_size=1, max_size=3), min_size=1, max_size=3),
        "l": st.tuples(st.integers(-20, 30), st.integers(-20, 30)).map(list),
        "scalar": st.integers(-5, 5),
        "bounds": st.tuples(st.integers(-10, 20), st.integers(-10, 20)).map(list),
    })


def check_ctor(case, ctx):
    from tvemoves_rufbad.tensors import Matrix, Tensor3D, Vector, BarycentricCoordinates

    def rejected(f):
        try:
            f()
        except (ValueError, IndexError):
            return True
        return False

    lens = case["lens"]
    ragged = len(set(lens)) > 1
    require(
        rejected(lambda: Matrix([[1] * n for n in lens])) == ragged,
        "rows of lengths %r: rejection is %r", lens, not ragged,
    )
    depth = case["depth"]
    ragged3 = len({len(x) for x in depth}) > 1 or len({n for x in depth for n in x}) > 1
    require(
        rejected(lambda: Tensor3D([[[1] * n for n in x] for x in depth])) == ragged3,
        "nested row lengths %r: rejection is %r", depth, not ragged3,
    )
    ctx.label("ragged" if ragged or ragged3 else "regular")
    ctx.nontrivial(ragged or ragged3)
    # scalars cannot be divided by tensors
    for t in (Vector([1, 2]), Matrix([[1, 2]])):
        try:
            r = case["scalar"] / t
        except TypeError:
            continue
        require(False, "a scalar divided by a tensor gives %r", r)
    l1, l2 = case["l"][0] / 10, case["l"][1] / 10
    b = BarycentricCoordinates(l1, l2)
    require(
        list(b) == [b.l1, b.l2, b.l3] == [b[0], b[1], b[2]] and len(b) == 3 and b.size == 3,
        "accessors of barycentric coordinates disagree",
    )
    require(b.l1 == l1 and b.l2 == l2 and abs(b.l3 - (1 - l1 - l2)) < 1e-12, "coordinates %r", list(b))
    for i in (-1, 3, 7):
        require(rejected(lambda: b[i]), "coordinate %d exists", i)
    want = [min(1.0, max(0.0, x)) for x in b]
    b.assert_bounds()
    require(list(b) == want, "bounding %r gives %r", case["l"], list(b))
    lo, hi = sorted(x / 10 for x in case["bounds"])
    b = BarycentricCoordinates(l1, l2)
    want = [min(hi, max(lo, x)) for x in b]
    b.assert_bounds(lo, hi)
    require(list(b) == want, "bounding %r by %r and %r gives %r", case["l"], lo, hi, list(b))


SUBS = [
    Sub("operations", strategy, check, quick=24000, thorough=2000000),
    Sub("construction", ctor_strategy, check_ctor, quick=1500, thorough=20000, shards=4),
]
