"""C23: plots and files show the recorded steps."""

import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from lib.pbt import Sub, require
from lib import gen, geom, ref, sim, steps

PROPERTY = "C23"
RULE = (
    "histories of 2 to 10 recorded steps of both simulation kinds, any plotted index in and out of range,"
    " saved files and animations (drawn frame by frame into a recording writer), plots between run calls;"
    " all drawn triangles compared with the deformed mesh and the temperatures of the history, colour range"
    " and limits with the extremes of the history, later problems with the reference energy; grids of all kinds plotted on given and new axes;"
    " non-trivial: an index in range of a history with at least three steps"
)
ASSUMPTIONS = ["matplotlib's Agg backend renders what its artists describe"]


# ---------------------------------------------------------------- what has to be drawn
def expected_faces(world, state, count):
    """(vertices (F,3,2), colours (F,)) of the drawn triangles of a state."""
    m = world.mesh
    y, theta = state
    if m.reg is None:
        tri = np.array(m.triangles)
        require(count == len(tri), "%d triangles are drawn, the mesh has %d", count, len(tri))
        return y[tri], theta[tri].mean(axis=1)
    f = round((count / len(m.fine_triangles)) ** 0.5)
    require(
        f >= 1 and count == f * f * len(m.fine_triangles),
        "%d triangles are drawn, not a uniform subdivision of the %d of the refined mesh", count,
        len(m.fine_triangles),
    )
    homes = [
        (t, ref.Bell([m.points[i] for i in t]), np.array([m.points[i] for i in t])) for t in m.triangles
    ]
    faces, colours = [], []
    for ft in m.fine_triangles:
        P = np.array([m.fine_points[i] for i in ft])
        c = P.mean(axis=0)
        home = [x for x in homes if ref._inside([tuple(p) for p in x[2]], c)][0]
        params = [np.concatenate([y[i][k] for i in home[0]]) for k in range(2)]
        node = {}
        for a in range(f + 1):
            for b in range(f + 1 - a):
                l = np.array([f - a - b, a, b]) / f
                x = l @ P
                R = home[1].rows(*x)[0]
                node[a, b] = (
                    np.array([R @ params[0], R @ params[1]]), float(l @ theta[list(ft)])
                )
        for a in range(f):
            for b in range(f - a):
                cells = [[(a, b), (a + 1, b), (a, b + 1)]]
                if a + b < f - 1:
                    cells.append([(a + 1, b), (a + 1, b + 1), (a, b + 1)])
                for cell in cells:
                    faces.append([node[k][0] for k in cell])
                    colours.append(np.mean([node[k][1] for k in cell]))
    return np.array(faces), np.array(colours)


class Shot:
    """What an axis shows, read from its artists."""

    def __init__(self, fig):
        from matplotlib.collections import PolyCollection, TriMesh

        axes = [a for a in fig.axes if a.get_label() != "<colorbar>" and (a.collections or a.lines)]
        require(len(axes) == 1, "the figure has %d axes with a drawing, expected one", len(axes))
        ax = axes[0]
        self.xlim, self.ylim = tuple(map(float, ax.get_xlim())), tuple(map(float, ax.get_ylim()))
        cs = [c for c in ax.collections if c.get_array() is not None and c.get_visible()]
        require(len(cs) == 1, "%d coloured triangulations are drawn, expected one", len(cs))
        c = cs[0]
        self.clim = tuple(map(float, c.get_clim()))
        if isinstance(c, TriMesh):
            t = c._triangulation
            P = np.column_stack([t.x, t.y])
            self.faces = P[t.triangles]
            self.colours = np.asarray(c.get_array())[t.triangles].mean(axis=1)
        else:
            require(isinstance(c, PolyCollection), "the temperature is not drawn as triangles")
            paths = c.get_paths()
            faces = []
            for p in paths:
                v = np.asarray(p.vertices)[:3]
                faces.append(v)
            self.faces = np.array(faces)
            self.colours = np.asarray(c.get_array(), float).ravel()
            require(
                len(self.colours) == len(self.faces), "%d colours for %d triangles",
                len(self.colours), len(self.faces),
            )


def check_shot(shot, run, i, what):
    w = run.world
    m = w.mesh
    faces, colours = expected_faces(w, run.history[i], len(shot.faces))
    size = np.ptp(faces.reshape(-1, 2), axis=0).max() + m.h
    tol = 1e-7 * size
    got, want = shot.faces.mean(axis=1), faces.mean(axis=1)
    # pair every drawn triangle with the nearest expected one
    d = np.linalg.norm(got[:, None, :] - want[None, :, :], axis=2)
    near = d.argmin(axis=1)
    require(
        d[np.arange(len(got)), near].max() <= tol,
        "%s: a drawn triangle is at no deformed triangle of the step (distance %r)", what,
        float(d[np.arange(len(got)), near].max()),
    )
    require(len(set(near.tolist())) == len(near), "%s: a triangle is drawn twice", what)
    for n, k in enumerate(near):
        e = np.linalg.norm(shot.faces[n][:, None, :] - faces[k][None, :, :], axis=2)
        require(
            e.min(axis=1).max() <= tol and e.min(axis=0).max() <= tol,
            "%s: drawn triangle %r, expected %r", what, shot.faces[n].tolist(), faces[k].tolist(),
        )
        require(
            abs(shot.colours[n] - colours[k]) <= 1e-7 * (1 + abs(colours[k])),
            "%s: triangle with mean temperature %r is drawn as %r", what, float(colours[k]),
            float(shot.colours[n]),
        )
    hottest = max(float(t.max()) for _, t in run.history)
    require(
        abs(shot.clim[0]) <= 1e-12 and abs(shot.clim[1] - hottest) <= 1e-9 * (1 + hottest),
        "%s: the colour range is %r, expected (0, %r)", what, shot.clim, hottest,
    )
    P = np.concatenate([(y if m.reg is None else y[:, :, 0]) for y, _ in run.history])
    for name, lim, c in (("x", shot.xlim, 0), ("y", shot.ylim, 1)):
        lo, hi = float(P[:, c].min()), float(P[:, c].max())
        require(
            abs(lim[0] - lo) <= tol and abs(lim[1] - hi) <= tol,
            "%s: the %s limits are %r, the recorded positions span %r", what, name, lim, (lo, hi),
        )


# ---------------------------------------------------------------- simulations
def actions(max_size, frames=True):
    a = [
        st.tuples(st.just("run"), st.integers(1, 3)).map(list),
        st.tuples(st.just("plot"), st.integers(-12, 12)).map(list),
        st.tuples(st.just("plot"), st.integers(-3, 3)).map(list),
        st.tuples(st.just("save"), st.integers(-12, 12)).map(list),
        st.tuples(st.just("save"), st.integers(-2, 2)).map(list),
    ]
    if frames:
        a.append(st.tuples(st.just("animate"), st.integers(0, 1)).map(list))
    return st.lists(st.one_of(a), min_size=1, max_size=max_size)


def strategy(reg):
    def make(tier):
        big = tier == "thorough"
        if reg:
            d = sim.cases(1, 1, reg=True, forcing=True)
            d["k"] = st.sampled_from([1, 2])
        else:
            d = sim.cases(4 if big else 3, 9 if big else 4, forcing=True)
            d["n"] = st.one_of(d["n"], st.sampled_from([[2, 2], [3, 2], [2, 3]]))
        d["do"] = actions(4 if reg else 7)
        d["open"] = st.booleans()  # figures stay open
        # folded deformations too: positions of inner vertices may be the extreme ones
        d["wild"] = st.booleans()
        return st.fixed_dictionaries(d)

    return make


def long_strategy(tier):
    """Many recorded steps."""
    d = sim.cases(1, 1, forcing=True)
    d["wild"] = st.booleans()
    index = st.integers(-75, 75)
    d["do"] = st.tuples(
        st.integers(11, 70),
        st.lists(st.tuples(st.just("plot"), index).map(list), min_size=3, max_size=5),
        st.integers(1, 25),
        st.lists(
            st.one_of(
                st.tuples(st.just("plot"), index).map(list), st.tuples(st.just("save"), index).map(list)
            ), min_size=1, max_size=2,
        ),
        st.booleans(),
    ).map(
        lambda t: [["run", t[0]]] + t[1] + [["run", t[2]]] + t[3] + ([["animate", 0]] if t[4] else [])
    )
    return st.fixed_dictionaries(d)


def large_strategy(tier):
    d = sim.cases(forcing=True)
    d["do"] = actions(3, frames=False).map(lambda a: [["run", 1]] + a)
    d["wild"] = st.booleans()
    return gen.large(d)


FRAMES = []


def install_writer():
    """Animations are drawn into this recorder (there is no ffmpeg in the sandbox)."""
    from matplotlib import animation

    class Recorder(animation.AbstractMovieWriter):
        def __init__(self, fps=5, metadata=None, codec=None, bitrate=None, extra_args=None, **kw):
            super().__init__(fps=fps, metadata=metadata, codec=codec, bitrate=bitrate)

        @classmethod
        def isAvailable(cls):
            return True

        def setup(self, fig, outfile, dpi=None):
            self.fig = fig
            self.outfile = outfile
            self.dpi = dpi
            FRAMES.clear()

        def grab_frame(self, **kwds):
            FRAMES.append(Shot(self.fig))

        def finish(self):
            with open(self.outfile, "wb") as f:
                f.write(b"frames")

    animation.writers.register("ffmpeg")(Recorder)


def check(case, ctx):
    import matplotlib
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    install_writer()
    matplotlib.rcParams["figure.max_open_warning"] = 0
    w = sim.World(case).learn()
    r = sim.Run(w)

    def after(run, kind, k, p, answer):
        sim.check_objective(
            w, kind, k, run.history, run.pending, p, answer,
            f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step {k} after plotting",
        )

    if not case["wild"]:  # folded states have no energy
        r.after = after
    r.create()
    plt.close("all")
    tmp = tempfile.mkdtemp(prefix="verif-plots-")
    here = os.getcwd()
    saved = []
    original = Figure.savefig

    def savefig(self, fname, *args, **kwds):
        kwds["dpi"] = 12  # only the resolution is lowered
        saved.append(Shot(self))
        return original(self, fname, *args, **kwds)

    Figure.savefig = savefig
    try:
        os.chdir(tmp)
        for n, (act, i) in enumerate(case["do"]):
            ctx.label(act)
            count = len(r.history)
            what = f"{act}({i}) of {count} steps"
            if act == "run":
                r.run(i)
                continue
            inside = -count <= i < count
            before = set(plt.get_fignums())
            files = set(os.listdir(tmp))
            if act == "plot":
                r.sim.plot_step(i)
                new = [plt.figure(k) for k in plt.get_fignums() if k not in before]
                if inside and before and not new:
                    new = [plt.gcf()]  # drawn on a figure that was open
                if not inside:
                    require(
                        all(not f.axes or not (f.axes[0].collections) for f in new),
                        "%s: something was drawn for an index out of range", what,
                    )
                else:
                    require(len(new) == 1, "%s: %d figures were drawn", what, len(new))
                    check_shot(Shot(new[0]), r, i, what)
                require(set(os.listdir(tmp)) == files, "%s wrote a file", what)
            elif act == "save":
                saved.clear()
                name = ["step", "a b", "dir.x"][n % 3]
                if n % 3 == 0:
                    r.sim.save_step(i)
                else:
                    r.sim.save_step(i, os.path.join(tmp, name))
                now = set(os.listdir(tmp))
                if not inside:
                    require(now == files, "%s: files %r were written", what, sorted(now - files))
                else:
                    want = f"{name}_{i % count}.png"
                    require(
                        now == files | {want}, "%s: files %r were written, expected %r", what,
                        sorted(now - files), want,
                    )
                    with open(os.path.join(tmp, want), "rb") as f:
                        require(f.read(8) == b"\x89PNG\r\n\x1a\n", "%s: the file is no image", what)
                    for shot in saved:
                        check_shot(shot, r, i, what)
            else:
                FRAMES.clear()
                if i:
                    r.sim.save_animation(os.path.join(tmp, "film"))
                else:
                    r.sim.save_animation()
                require(
                    os.path.exists(os.path.join(tmp, ("film" if i else "animation") + ".mp4")),
                    "%s: no animation was written", what,
                )
                require(
                    len(FRAMES) == count, "the animation has %d frames for %d steps", len(FRAMES), count
                )
                for k, shot in enumerate(FRAMES):
                    check_shot(shot, r, k, f"frame {k} of {count}")
            if not case.get("open"):
                plt.close("all")
            ctx.label("inside" if inside else "outside")
            ctx.nontrivial(inside and count >= 3)
        hottest = max(float(t.max()) for _, t in r.history)
        require(
            abs(r.sim.max_temp() - hottest) <= 1e-9 * (1 + hottest), "max_temp() is %r, expected %r",
            float(r.sim.max_temp()), hottest,
        )
        r.check_recorded(what="after plotting: ")
    finally:
        Figure.savefig = original
        plt.close("all")
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- grids
def grid_strategy(tier):
    d = steps.meshes(5, 12, scale=gen.unit_scales())
    # grids of rectangles start at the origin; limits of moved points are nobody's promise
    d["variant"] = st.sampled_from(["plain", "reversed", "rotated"])
    d["axis"] = st.sampled_from(["none", "fresh", "limits", "twice"])
    d["lim"] = st.tuples(st.integers(-30, 0), st.integers(1, 100)).map(list)
    return st.fixed_dictionaries(d)


def drawn_vertices_and_segments(ax):
    """What is drawn on an axis, whichever artists were used."""
    from matplotlib.collections import LineCollection

    off, paths = [np.zeros((0, 2))], []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            paths.extend(np.asarray(x, float) for x in c.get_segments())
        else:
            off.append(np.asarray(c.get_offsets(), float))
    for line in ax.lines:
        xy = np.asarray(line.get_xydata(), float)
        if line.get_linestyle() in ("None", "none", "", " "):
            off.append(xy)
            continue
        gaps = np.flatnonzero(np.isnan(xy).any(axis=1))
        paths.extend(np.delete(x, np.flatnonzero(np.isnan(x).any(axis=1)), 0) for x in np.split(xy, gaps))
    segments = [x[i : i + 2] for x in paths for i in range(len(x) - 1)]
    return np.concatenate(off), segments


def check_grid(case, ctx):
    import matplotlib
    from matplotlib import pyplot as plt

    matplotlib.rcParams["figure.max_open_warning"] = 0
    g = steps.Mesh(case).grid
    before = geom.snapshot(g)
    P = np.array(geom.points_of(g))
    plt.close("all")
    ax0 = None
    old = None
    if case["axis"] != "none":
        _, ax0 = plt.subplots()
        if case["axis"] == "limits":
            lo, hi = case["lim"][0] / 10, case["lim"][1] / 10
            ax0.set_xlim(lo, hi)
            ax0.set_ylim(lo, hi)
            old = (lo, hi)
    open_ = set(plt.get_fignums())
    ax = g.plot(ax0)
    times = 1
    if case["axis"] == "twice":
        require(g.plot(ax) is ax, "plot did not return the given axis")
        times = 2
    new = set(plt.get_fignums()) - open_
    if ax0 is None:
        require(len(new) == 1 and ax is not None, "plotting without an axis made %d figures", len(new))
    else:
        require(ax is ax0 and not new, "plot did not use the given axis")
    off, drawn = drawn_vertices_and_segments(ax)
    order = lambda a: a[np.lexsort(np.round(a, 9).T)]
    want = np.concatenate([P] * times)
    require(len(off) == len(want), "%d vertices are drawn, expected %d", len(off), len(want))
    require(np.allclose(order(off), order(want), atol=1e-9), "vertices are drawn at other positions")
    def ends(a):
        return sorted(tuple(sorted((round(float(x), 6), round(float(y), 6)) for x, y in e)) for e in a)

    should = [P[list(e)] for e in g.edges] * times
    require(ends(drawn) == ends(should), "the drawn edges are not the edges of the grid")
    for lim, c in ((ax.get_xlim(), 0), (ax.get_ylim(), 1)):
        require(
            lim[0] <= P[:, c].min() and lim[1] >= P[:, c].max(), "limits %r hide a vertex", lim
        )
        if old:
            require(lim[0] <= old[0] and lim[1] >= old[1], "limits %r hide what was visible", lim)
    require(geom.snapshot(g) == before, "plotting changed the grid")
    plt.close("all")
    ctx.label(case["axis"])
    ctx.nontrivial(len(g.triangles) > 2)


SUBS = [
    Sub("steps", strategy(False), check, quick=400, thorough=30000),
    Sub("long", long_strategy, check, quick=32, thorough=3000),
    Sub("large", large_strategy, check, quick=24, thorough=3000),
    Sub("regularized", strategy(True), check, quick=128, thorough=4000),
    Sub("grids", grid_strategy, check_grid, quick=160, thorough=40000),
]
