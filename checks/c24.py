"""C24: an interrupted run leaves the history intact and can be resumed."""

import contextlib
import os
import sys
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, Violation, require
from lib import gen, sim
from checks.c06 import check_problem

PROPERTY = "C24"
RULE = (
    "histories of run calls interrupted at any solve, before, during or after the solver altered the"
    " unknowns, inside the user's forcing functions, or at any executed line of the package, by an error or a"
    " keyboard interrupt, repeatedly;"
    " after every interruption the recorded steps are compared with the completed ones, and all later"
    " problems (objective, start, bounds) and steps with those of an uninterrupted history; non-trivial: an"
    " interruption followed by a completed step"
)
ASSUMPTIONS = ["interruptions happen inside the solver or the user's functions, or between lines of the package"]


def strategy(reg):
    def make(tier):
        big = tier == "thorough"
        d = sim.cases(2, 2, reg=True) if reg else sim.cases(3, 4, forcing=True)
        d["calls"] = st.lists(
            st.one_of(
                st.tuples(
                    st.integers(1, 2 if reg else 4),
                    st.one_of(
                        st.integers(0, 7).map(lambda n: ["solve", n]),
                        st.integers(0, 40).map(lambda n: ["traction", n]),
                        st.integers(0, 3).map(lambda n: ["external", n]),
                    ) if not reg else st.integers(0, 3).map(lambda n: ["solve", n]),
                    st.sampled_from(["before", "after", "after", "partial"]),
                    st.sampled_from(["error", "interrupt"]),
                ).map(list),
                st.tuples(st.integers(1, 2), st.none(), st.just("before"), st.just("error")).map(list),
            ),
            min_size=1, max_size=(3 if reg else (10 if big else 6)),
        )
        return st.fixed_dictionaries(d)

    return make


def large(reg):
    return lambda tier: strategy(reg)(tier).flatmap(
        lambda case: gen.large_meshes(reg).map(
            lambda m: dict(case, n=m[:2], calls=case["calls"][:2], **({"k": m[2]} if reg else {}))
        )
    )


class Trap:
    """A user's function that fails once at a chosen call."""

    def __init__(self, f):
        self.f, self.left, self.error = f, None, None

    def __call__(self, *args):
        if self.left is not None:
            if self.left == 0:
                self.left = None
                raise self.error
            self.left -= 1
        return self.f(*args)


def check(case, ctx):
    w = sim.World(case)
    traction, external = Trap(w.traction), Trap(w.external)
    w.learn()
    r = sim.Run(w)
    interrupted = [False]

    def observer(run, kind, k, p):
        prev = run.history[-1][0 if kind == "mech" else 1]
        what = f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k}"
        check_problem(p, prev, w.radius, True, kind, what)

    def after(run, kind, k, p, answer):
        sim.check_objective(
            w, kind, k, run.history, run.pending, p, answer,
            f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k}"
            + (" after an interruption" if interrupted[0] else ""),
        )
        if interrupted[0] and kind == "therm":
            ctx.nontrivial()

    r.observer, r.after = observer, after
    if w.mesh.reg is None:
        r.create(traction=traction, external=external)
    else:
        r.create()
    for turn, (n, where, mode, how) in enumerate(case["calls"]):
        before = len(r.history)
        kept = list(r.sim.steps)
        r.fail = {}
        if where is not None:
            kind, at = where
            failure = sim.FAILURES[(case["salt"] + turn) % len(sim.FAILURES)]
            error = KeyboardInterrupt() if how == "interrupt" else failure(f"{kind} {at}")
            if kind == "solve":
                r.fail = {r.solves + at: mode}
                r.error = error
            else:
                trap = traction if kind == "traction" else external
                trap.left, trap.error = at, error
            ctx.label(f"{kind} {mode if kind == 'solve' else ''} {how}")
        failed = False
        try:
            r.run(n)
        except (sim.SolverFailure, KeyboardInterrupt):
            failed = True
            interrupted[0] = True
            r.next_kind, r.pending = "mech", None
        traction.left = external.left = None
        done = len(r.history) - before
        ctx.label("failed" if failed else "completed")
        require(failed or done == n, "run(%d) completed %d steps without an error", n, done)
        require(
            len(r.sim.steps) == len(r.history), "%d steps are recorded after %d completed ones",
            len(r.sim.steps), len(r.history),
        )
        require(
            all(a is b for a, b in zip(kept, r.sim.steps)), "an interruption replaced a recorded step"
        )
        r.check_recorded(what="after an interruption: " if failed else "")
    r.fail = {}
    r.run(1)
    r.check_recorded(what="at the end: ")
    hottest = max(float(t.max()) for _, t in r.history)
    require(
        abs(r.sim.max_temp() - hottest) <= 1e-9 * (1 + hottest),
        "the maximal temperature is %r after interruptions, expected %r", float(r.sim.max_temp()), hottest,
    )


# ---------------------------------------------------------------- a keyboard interrupt at any line
class Lines:
    """Counts the lines of the package that are executed, and raises at a chosen one."""

    TOOL = 4

    def __init__(self):
        import tvemoves_rufbad

        self.home = os.path.dirname(os.path.abspath(tvemoves_rufbad.__file__)) + os.sep
        self.count = 0
        self.at = None
        self.paused = False
        self.where = None

    def line(self, code, number):
        if not os.path.abspath(code.co_filename).startswith(self.home):
            return sys.monitoring.DISABLE
        if self.paused:
            return None
        if self.count == self.at:
            self.at = None
            self.where = f"{os.path.basename(code.co_filename)}:{number} ({code.co_qualname})"
            raise KeyboardInterrupt
        self.count += 1
        return None

    @contextlib.contextmanager
    def watch(self, at=None):
        m = sys.monitoring
        self.count, self.at, self.where = 0, at, None
        m.use_tool_id(self.TOOL, "interrupts")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        try:
            yield self
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)


def anywhere_strategy(reg):
    def make(tier):
        d = sim.cases(2, 2, reg=True) if reg else sim.cases(3, 4, forcing=True)
        position = st.one_of(
            st.integers(0, 999).map(lambda f: ["at", f]),
            st.integers(1, 90).map(lambda j: ["end", j]),
            st.integers(1, 12).map(lambda j: ["end", j]),
        )
        d["calls"] = st.lists(
            st.tuples(st.integers(1, 3), st.integers(0, 2), position).map(list),
            min_size=1, max_size=(2 if reg else 6),
        )
        return st.fixed_dictionaries(d)

    return make


def check_anywhere(case, ctx):
    w = sim.World(case).learn()
    r = sim.Run(w)
    lines = Lines()
    interrupted = [False]

    def observer(run, kind, k, p):
        what = f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k}"
        check_problem(p, run.history[-1][0 if kind == "mech" else 1], w.radius, True, kind, what)

    def after(run, kind, k, p, answer):
        sim.check_objective(
            w, kind, k, run.history, run.pending, p, answer,
            f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k}"
            + (f" after an interruption at {interrupted[0]}" if interrupted[0] else ""),
        )
        if interrupted[0] and kind == "therm":
            ctx.nontrivial()

    def handler(posed):
        lines.paused = True
        try:
            return sim.Run.handler(r, posed)
        finally:
            lines.paused = False

    r.observer, r.after, r.handler = observer, after, handler
    r.create()
    # how many lines a time step takes
    with r.active(), lines.watch():
        r.sim.run(1)
    length = lines.count
    require(len(r.sim.steps) == len(r.history), "%d steps are recorded, expected %d", len(r.sim.steps), len(r.history))
    for n, late, (kind, x) in case["calls"]:
        late = min(late, n - 1)
        at = late * length + (x * length // 1000 if kind == "at" else max(0, length - x))
        before = len(r.history)
        kept = list(r.sim.steps)
        failed = False
        try:
            with r.active(), lines.watch(at):
                r.sim.run(n)
        except KeyboardInterrupt:
            failed = True
            interrupted[0] = lines.where
            r.next_kind, r.pending = "mech", None
            if len(r.sim.steps) == len(r.history) - 1:
                # the last time step was computed but not yet recorded
                r.history.pop()
        if failed:
            ctx.label(lines.where.split("(")[1][:-1])
        done = len(r.history) - before
        require(failed or done == n, "run(%d) completed %d steps without an error", n, done)
        require(
            len(r.sim.steps) == len(r.history),
            "%d steps are recorded after %d completed ones and an interruption at %s",
            len(r.sim.steps), len(r.history), lines.where,
        )
        require(
            all(a is b for a, b in zip(kept, r.sim.steps)), "an interruption replaced a recorded step"
        )
        r.check_recorded(what=f"after an interruption at {lines.where}: " if failed else "")
    r.run(1)
    r.check_recorded(what="at the end: ")


SUBS = [
    Sub("anywhere", anywhere_strategy(False), check_anywhere, quick=120, thorough=20000),
    Sub("anywhere_regularized", anywhere_strategy(True), check_anywhere, quick=24, thorough=1500),
    Sub("interruptions", strategy(False), check, quick=160, thorough=35000),
    Sub("regularized", strategy(True), check, quick=32, thorough=3000),
    Sub("large", large(False), check, quick=24, thorough=3000),
    Sub("large_regularized", large(True), check, quick=8, thorough=600),
]
