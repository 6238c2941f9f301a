"""C29: printed tensors and steps show exactly their data."""

import re
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, sim

PROPERTY = "C29"
RULE = (
    "vectors, matrices and 3-d tensors of all shapes with integers, fractions and floats; recorded steps of"
    " simulations with up to a few hundred unknowns; non-trivial: at least two entries (tensors), a step"
    " beyond the first (simulations)"
)
ASSUMPTIONS = ["arrays short enough for numpy to print them in full (at most 1000 entries)"]
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?:/\d+)?")


def tensor_strategy(tier):
    return st.fixed_dictionaries({
        "dims": st.one_of(
            st.lists(st.one_of(st.integers(1, 6), st.integers(1, 60)), min_size=1, max_size=1),
            st.lists(st.one_of(st.integers(1, 4), st.integers(1, 13)), min_size=2, max_size=2),
            st.lists(st.integers(1, 4), min_size=3, max_size=3),
        ),
        "kind": st.sampled_from(["int", "fraction", "float"]),
        "scale": st.sampled_from([0, 0, -12, 9]),
        "salt": gen.salts(),
    })


def nest(x, dims):
    if len(dims) == 1:
        return list(x)
    m = len(x) // dims[0]
    return [nest(x[i * m : (i + 1) * m], dims[1:]) for i in range(dims[0])]


def entries(case):
    n = int(np.prod(case["dims"]))
    r = np.random.default_rng(case["salt"])
    out = []
    for _ in range(n):
        a, b = int(r.integers(-99, 100)), int(r.integers(1, 9))
        if case["kind"] == "int":
            out.append(a)
        elif case["kind"] == "fraction":
            out.append(Fraction(a, b))
        else:
            out.append(a / b * 10.0 ** case["scale"])
    return out


def check_tensor(case, ctx):
    from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, BarycentricCoordinates

    flat = entries(case)
    rank = len(case["dims"])
    cls = [Vector, Matrix, Tensor3D][rank - 1]
    data = nest(flat, case["dims"])
    T = cls(data)
    text, shown = repr(T), str(T)
    ctx.label(f"rank {rank}")
    ctx.label(case["kind"])
    ctx.nontrivial(len(flat) > 1)
    # repr names the tensor
    names = {"Vector": Vector, "Matrix": Matrix, "Tensor3D": Tensor3D, "Fraction": Fraction}
    again = eval(text, {"__builtins__": {}}, names)  # pylint: disable=eval-used
    require(type(again) is cls and again.data == data, "the representation %r is another tensor", text)
    # str lists the entries in reading order
    got = NUMBER.findall(shown)
    require(got == [str(x) for x in flat], "the text %r does not show the entries %r", shown, [str(x) for x in flat])
    require(f"{T}" == shown and cls(data) == T, "printing changed the tensor")
    if case["kind"] == "float" and len(flat) >= 2:
        b = BarycentricCoordinates(flat[0], flat[1])
        want = [flat[0], flat[1], 1 - flat[0] - flat[1]]
        for t in (repr(b), str(b)):
            got = [float(x) for x in NUMBER.findall(t)]
            require(got == [float(x) for x in b] and got[:2] == want[:2], "%r does not show %r", t, want)


def sim_strategy(reg):
    def make(tier):
        d = sim.cases(2 if reg else 3, 2 if reg else 4, reg=reg, forcing=True)
        d["runs"] = st.lists(st.integers(1, 3), min_size=1, max_size=1 if reg else 2)
        if reg:
            d["k"] = st.just(1)
        return st.fixed_dictionaries(d)

    return make


def large_strategy(tier):
    d = sim.cases(3, 4, forcing=True)
    d["runs"] = st.lists(st.integers(1, 1), min_size=1, max_size=1)
    return gen.large(d, False)


def numbers(text):
    return np.array([float(x) for x in NUMBER.findall(text)])


def check_sim(case, ctx):
    w = sim.World(case).learn()
    r = sim.Run(w).create()
    for n in case["runs"]:
        r.run(n)
    ctx.nontrivial(len(r.history) > 2)
    for i, (y, theta) in enumerate(r.history):
        step = r.sim.steps[i]
        text = repr(step)
        m = re.fullmatch(r"\w+\(y=(.*), theta=(.*)\)", text, flags=re.S)
        require(m is not None, "the representation of step %d is %r", i, text[:200])
        s = str(step)
        k = s.find("theta:")
        require(s.startswith("y:") and k > 0, "the text of step %d is %r", i, s[:200])
        for name, text, want in (
            ("representation", m[1], y), ("representation", m[2], theta),
            ("text", s[:k].replace("y:", ""), y), ("text", s[k:].replace("theta:", ""), theta),
        ):
            got = numbers(text)
            require(
                len(got) == want.size, "the %s of step %d shows %d numbers instead of %d", name, i,
                len(got), want.size,
            )
            d = np.abs(got - want.ravel())
            require(
                (d <= 1e-6 * np.abs(want).max() + 1.01e-8).all(),  # eight decimals
                "the %s of step %d does not show its data", name, i,
            )


SUBS = [
    Sub("tensors", tensor_strategy, check_tensor, quick=4000, thorough=200000, shards=4),
    Sub("steps", sim_strategy(False), check_sim, quick=64, thorough=10000),
    Sub("steps_large", large_strategy, check_sim, quick=24, thorough=2000),
    Sub("steps_regularized", sim_strategy(True), check_sim, quick=16, thorough=1500),
]
