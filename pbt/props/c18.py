"""C18: 2D and velocity plots draw the simulated trajectory."""

import os

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import close, need, norm3, vclose
from ..model import corner_limit, near_threshold
from ..simio import Scratch, segs, simulate, traj_key, blocks
from ..traj import Obs

N = {"quick": 1500, "thorough": 30000}
RULE = (
    "random programs; velocity plot with random axis selection, time steps (vertices or n even steps) and markers, 2D "
    "plot with random colouring, resolution and point markers; data read back from the matplotlib figure and compared "
    "with the trajectory. Non-trivial: trajectory of at least 3 moves with at least 6 vertices."
)
CFG = gen.Cfg(modes=1, macros=2, max_ops=8, dwell=1, eonly=1, zmove=1)


@st.composite
def case(draw):
    c = draw(gen.cases(CFG))
    c["axis"] = draw(st.lists(st.sampled_from("xyze"), min_size=0, max_size=4, unique=True))
    if draw(st.booleans()):
        c["axis"] = list("xyze")
    c["steps"] = draw(st.sampled_from(["constrained", "constrained", 1, 2, 3, 10, 37, 100, 150]))
    c["flags"] = [draw(st.booleans()) for _ in range(3)]
    c["save"] = draw(st.integers(0, 19)) == 0
    c["col"] = draw(st.sampled_from(["Velocity", "Velocity", "None", "Acceleration"]))
    c["res"] = draw(st.sampled_from([1, 1, 0.5, 5, 1000]))
    c["points"] = draw(st.booleans())
    c["scaled"] = draw(st.booleans())
    c["omit"] = draw(st.lists(st.sampled_from(["axis", "steps", "fb", "fs", "fj", "col", "res", "points", "scaled"]), max_size=4, unique=True))
    c["open"] = draw(st.booleans())  # the user has a figure of his own
    if "axis" in c["omit"]:
        c["axis"] = list("xyze")
    if "steps" in c["omit"]:
        c["steps"] = "constrained"
    for k, d in enumerate((True, False, False)):
        if ("fb", "fs", "fj")[k] in c["omit"]:
            c["flags"][k] = d
    for k, d in (("col", "Velocity"), ("res", 1), ("points", False), ("scaled", True)):
        if k in c["omit"]:
            c[k] = d
    return c


def cases(tier):
    return case()


class Shown(Exception):
    pass


def check(case):
    s = case["setup"]
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], s)
        tr = segs(sim)
        if not tr:
            return {"no motion": 1}
        bl = blocks(sim)
        key = traj_key(sim)
        end = tr[-1].t1
        try:
            mine = None
            if case.get("open"):
                mine, ax = plt.subplots()
                ax.plot([0, 1, 7], [3, 1, 2])
                ax.set_xlabel("mine")

            def untouched(what):
                if mine is not None:
                    need(plt.fignum_exists(mine.number), f"{what} closed a figure of the user")
                    need(len(mine.axes) == 1, f"{what} changed a figure of the user")
                    need(len(ax.get_lines()) == 1 and not ax.collections, f"{what} drew into a figure of the user")
                    need(ax.get_xlabel() == "mine", f"{what} changed a figure of the user")

            vel_plot(case, sim, tr, bl, end, scr)
            untouched("the velocity plot")
            plot_2d(case, sim, tr, bl, scr, mine)
            untouched("the 2D plot")
            if mine is not None and case["save"]:
                plt.figure(mine.number)
                sim.plot_2d_position(filepath=False, show=False, colvar=case["col"] if case["col"] == "Velocity" else None)
                untouched("the hidden 2D plot")
        finally:
            plt.close("all")
        need(traj_key(sim) == key, "plotting changed the trajectory")
    return {
        "even steps": case["steps"] != "constrained",
        "other figure open": case.get("open", False),
        "colour " + case["col"]: 1,
        "nontrivial": len(bl) >= 3 and len(tr) >= 5,
    }


def vel_plot(case, sim, tr, bl, end, scr):
    axis = tuple(case["axis"])
    fb, fs, fj = case["flags"]
    kw = {}
    if case["save"]:
        kw = {"filepath": scr("v.png"), "dpi": 20}
    given = {"axis": axis, "fb": fb, "fs": fs, "fj": fj, "steps": case["steps"]}
    names = {"fb": "show_planner_blocks", "fs": "show_segments", "fj": "show_jv", "steps": "time_steps"}
    kw.update({names.get(k, k): v for k, v in given.items() if k not in case.get("omit", [])})
    fig = sim.plot_vel(show=False, **kw)
    if case["save"]:
        need(os.path.getsize(scr("v.png")) > 0, "no picture written")
    need(len(fig.axes) == 2, f"{len(fig.axes)} axes")
    a1, a2 = fig.axes
    named, vert = {}, []
    for ln in a1.get_lines():
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if ln.get_label() in ("x", "y", "z", "e", "abs"):
            named[ln.get_label()] = (x, y)
        else:
            need(len(x) == 2 and x[0] == x[1], f"unexpected curve {ln.get_label()!r}")
            vert.append(float(x[0]))
    need(set(named) == set(axis) | {"abs"}, f"velocity curves {sorted(named)} for the axes {axis}")
    posl = [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in a2.get_lines()]
    need(len(posl) == len(axis), f"{len(posl)} position curves for the axes {axis}")
    # time steps
    t = named["abs"][0]
    for x, _ in list(named.values()) + posl:
        need(vclose(list(x), list(t), 0, 0), "the curves have different time steps")
    if case["steps"] == "constrained":
        want = [tr[0].t0] + [g.t1 for g in tr]
        need(vclose(list(t), want, 1e-9, 1e-9), lambda: f"time steps {list(t)[:9]}, vertices {want[:9]}")
    else:
        n = case["steps"]
        need(len(t) == n, f"{len(t)} time steps, {n} requested")
        step = [end / n] + ([end / (n - 1)] if n > 1 else [])
        need(
            any(all(close(x, k * d, 1e-9, 1e-9) for k, x in enumerate(t)) for d in step),
            lambda: f"time steps {list(t)[:9]} are not even over {end} s",
        )
    # values
    for k, x in enumerate(t):
        ok = False
        cand = [g for g in tr if g.t0 - 1e-9 * (1 + end) <= x <= g.t1 + 1e-9 * (1 + end)]
        for g in cand:
            tt = min(max(float(x), g.t0), g.t1)
            v, p = g.vel(tt), g.pos(tt)
            acc = max(abs(b - a) for a, b in zip(g.v0, g.v1))
            slope = acc / max(g.t1 - g.t0, 1e-300)
            vt = 1e-7 * (1 + max(map(abs, v))) + min(acc, slope * 1e-14 * (1 + end))
            pt = 1e-6 * (1 + max(map(abs, p)))
            ok = close(named["abs"][1][k], norm3(v), vt, 0)
            for n, a in enumerate(axis):
                i = "xyze".index(a)
                ok = ok and close(named[a][1][k], v[i], vt, 0) and close(posl[n][1][k], p[i], pt, 0)
            if ok:
                break
        need(
            ok,
            lambda: f"at t={x}: plotted abs {named['abs'][1][k]}, velocity "
            f"{[(a, float(named[a][1][k])) for a in axis]}, position {[(a, float(q[1][k])) for a, q in zip(axis, posl)]}; "
            f"simulated {[(g.vel(min(max(float(x), g.t0), g.t1)), g.pos(min(max(float(x), g.t0), g.t1))) for g in cand]}",
        )
    # markers
    want = []
    if fb:
        want += [b[-1].t1 for b in bl]
    if fs:
        want += [g.t1 for g in tr]
    need(
        vclose(sorted(vert), sorted(want), 1e-9, 1e-9),
        lambda: f"markers at {sorted(vert)}, expected {sorted(want)} (blocks {fb}, segments {fs})",
    )
    # corner speed markers
    pts = [
        (float(q[0]), float(q[1]))
        for c in a1.collections
        if isinstance(c, matplotlib.collections.PathCollection)
        for q in np.asarray(c.get_offsets())
    ]
    if not fj:
        need(not pts, lambda: f"markers {pts} that were not asked for")
        return
    want = sorted(b[-1].t1 for b in bl for _ in range(1 + len(axis)))
    need(
        vclose(sorted(p[0] for p in pts), want, 1e-9, 1e-9),
        lambda: f"corner speed markers at {sorted(p[0] for p in pts)}, expected {want}",
    )
    o = Obs(sim)
    fw = case["setup"]["firmware"]
    for k, (a, blk) in enumerate(zip(o.items, o.blocks)):
        b = o.items[k + 1] if k + 1 < len(o.items) else None
        here = [p[1] for p in pts if close(p[0], blk[-1].t1, 1e-9, 1e-9)]
        v = norm3(blk[-1].v1)
        need(max(here) >= v - 1e-6, lambda: f"corner speed marked {here} although the corner is passed with {v}")
        if len(here) == 1 + len(axis) and (a.kind == "dwell" or b is None and fw != "marlin_jerk"):
            need(all(abs(h) <= 1e-9 for h in here), lambda: f"corner speeds {here} at {blk[-1].t1} s where everything rests")
        if a.kind == "xyz" and b is not None and b.kind == "xyz" and not near_threshold(fw, a, b):
            lim = corner_limit(fw, [a.feed * x for x in a.dir], [b.feed * x for x in b.dir], a.feed, a.acc, a.jerk, a.L, b.L)
            for what, y in [("abs", lim)] + [(x, lim * a.dir["xyze".index(x)]) for x in axis]:
                need(
                    any(close(y, h, 1e-6 + 1e-6 * abs(y), 0) for h in here),
                    lambda: f"corner speed of {what} at {blk[-1].t1} s is {y}, marked: {here}",
                )


def plot_2d(case, sim, tr, bl, scr, mine=None):
    got = []
    orig = plt.show
    plt.show = lambda *a, **k: got.append(plt.gcf())
    try:
        given = {
            "col": ("colvar", case["col"] if case["col"] == "Velocity" else None),
            "points": ("show_points", case["points"]),
            "res": ("colvar_spatial_resolution", case["res"]),
            "scaled": ("scaled", case["scaled"]),
        }
        kw = dict(v for k, v in given.items() if k not in case.get("omit", []))
        sim.plot_2d_position(filepath=scr("p.png") if case["save"] else False, dpi=20, show=True, **kw)
    finally:
        plt.show = orig
    if case["save"]:
        need(os.path.getsize(scr("p.png")) > 0, "no picture written")
    need(len(got) == 1, "the plot was not shown")
    need(mine is None or got[0] is not mine, "the 2D plot is drawn into a figure of the user")
    ax = got[0].axes[0]
    col = [c for c in ax.collections if isinstance(c, matplotlib.collections.LineCollection)]
    if col:
        need(len(col) == 1, "more than one path drawn")
        pieces = [np.asarray(q, float) for q in col[0].get_segments()]
        chain = [tuple(pieces[0][0])] if pieces else []
        for q in pieces:
            need(vclose(list(q[0]), list(chain[-1]), 1e-9, 1e-12), "the drawn path has gaps")
            chain.extend(tuple(x) for x in q[1:])
    else:
        ln = [x for x in ax.get_lines() if len(x.get_xdata()) >= 2]
        need(len(ln) == 1, f"{len(ln)} paths drawn")
        chain = list(zip(np.asarray(ln[0].get_xdata(), float), np.asarray(ln[0].get_ydata(), float)))
    verts = [tuple(tr[0].p0[:2])] + [tuple(g.p1[:2]) for g in tr]
    tol = 1e-6 * (1 + max(max(map(abs, v)) for v in verts))

    def dist(a, b):
        return float(np.hypot(a[0] - b[0], a[1] - b[1]))

    need(bool(col) == (case["col"] == "Velocity"), "the path is coloured by the speed exactly if asked for")
    colour = np.asarray(col[0].get_array(), float) if col else None
    need(colour is None or len(colour) >= len(chain) - 1, "fewer colours than pieces")
    speeds = [norm3(tr[0].v0)] + [norm3(g.v1) for g in tr]
    at = []  # vertex (with fraction to it from the one before) of each drawn point

    i, prev = 0, verts[0]
    if len(set(verts)) > 1 or chain:
        need(chain and dist(chain[0], verts[0]) <= tol, lambda: f"the drawn path starts at {chain[:1]}, not at {verts[0]}")
        for n, v in enumerate(verts[1:], 1):
            while True:
                need(i < len(chain), lambda: f"the drawn path does not reach {v}")
                if dist(chain[i], v) <= tol:
                    at.append((i, n, 1.0))
                    break
                # a point between two vertices lies on their connection
                d = dist(prev, v)
                ux, uy = (v[0] - prev[0]) / d if d > 0 else 0.0, (v[1] - prev[1]) / d if d > 0 else 0.0
                px, py = chain[i][0] - prev[0], chain[i][1] - prev[1]
                need(
                    abs(dist(prev, chain[i]) + dist(chain[i], v) - d) <= 4 * tol and abs(px * uy - py * ux) <= 4 * tol,
                    lambda: f"the drawn path leaves the trajectory at {chain[i]} (between {prev} and {v})",
                )
                at.append((i, n, dist(prev, chain[i]) / d if d > 0 else 0.0))
                i += 1
            prev = v
        need(
            all(dist(c, verts[-1]) <= tol for c in chain[i:]),
            lambda: f"the drawn path continues behind the end {verts[-1]}: {chain[i:][:5]}",
        )
    if colour is not None:
        # the colour of a piece is the speed at one of its ends or between them (points at rest in xy: any of theirs)
        val = {}
        for k, n, f in at:
            val.setdefault(k, []).append(speeds[n - 1] + f * (speeds[n] - speeds[n - 1]))
        val.setdefault(0, []).append(speeds[0])
        fast = max(speeds)
        moving = all(dist(a, b) > 10 * tol for a, b in zip(verts, verts[1:]))
        for k in range(len(chain) - 1):
            ends = val.get(k, []) + val.get(k + 1, [])
            if moving and ends:
                lo, hi = min(ends), max(ends)
                m = 1e-6 * (1 + fast) + (hi - lo) * 1e-6
                need(
                    lo - m <= colour[k] <= hi + m,
                    lambda: f"the piece {chain[k]} -> {chain[k + 1]} is coloured {colour[k]}, the speed is {lo} to {hi}",
                )
            else:
                need(-1e-6 <= colour[k] <= fast * (1 + 1e-6) + 1e-6, lambda: f"colour {colour[k]}, speeds up to {fast}")
    if case["points"]:
        pts = [
            tuple(map(float, q))
            for c in ax.collections
            if isinstance(c, matplotlib.collections.PathCollection)
            for q in np.asarray(c.get_offsets())
        ]
        want = [tuple(b[-1].p1[:2]) for b in bl]
        need(
            len(pts) == len(want) and all(dist(a, b) <= tol for a, b in zip(sorted(pts), sorted(want))),
            lambda: f"points drawn at {pts}, the moves end at {want}",
        )
