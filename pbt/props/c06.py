"""C06: one gap-free timeline, position is the integral of velocity, travel speed continuous."""

from .. import gen
from ..core import close, need, norm3
from ..simio import Scratch, simulate
from ..traj import POS_TOL, T_TOL, Obs, labels, scale_of

N = {"quick": 17000, "thorough": 500000}
RULE = (
    "random programs biased to short moves at high feed (junction speeds unreachable, so blocks are re-planned "
    "backwards) x firmware x setup; every piece and every boundary of the trajectory is checked. Non-trivial: at least "
    "one junction passed at speed and at least 3 moves."
)
CFG = gen.Cfg(long=4, inline=1, comments=1, modes=1, dwell=1, macros=3, micro=2, settings=2)


def cases(tier):
    return gen.cases(CFG, cue=True)


def check(case):
    s, ops = case["setup"], case["ops"]
    with Scratch() as scr:
        o = Obs(simulate(scr, ops, s))
        segs = o.segs
        if segs:
            need(segs[0].t0 == 0, f"trajectory starts at t={segs[0].t0}")
            need(all(abs(x) < 1e-9 for x in segs[0].v0), f"trajectory starts with velocity {segs[0].v0}")
        prev = None
        for i, g in enumerate(segs):
            need(g.t1 >= g.t0, lambda: f"piece {i} runs backwards in time ({g.t0} to {g.t1})")
            dt = g.t1 - g.t0
            tol = POS_TOL * scale_of(g.p0, g.p1)
            for k in range(4):
                need(
                    close(g.p1[k], g.p0[k] + (g.v0[k] + g.v1[k]) / 2 * dt, tol, 0),
                    lambda: f"piece {i} (t={g.t0}..{g.t1}): axis {'XYZE'[k]} ends at {g.p1[k]}, velocities give "
                    f"{g.p0[k] + (g.v0[k] + g.v1[k]) / 2 * dt}",
                )
            if prev is not None:
                need(
                    close(prev.t1, g.t0, T_TOL, 1e-12),
                    lambda: f"gap or overlap between pieces {i - 1} and {i}: {prev.t1} -> {g.t0}",
                )
                for k in range(4):
                    need(
                        close(prev.p1[k], g.p0[k], tol, 0),
                        lambda: f"position jumps between pieces {i - 1} and {i}: {prev.p1} -> {g.p0}",
                    )
                a, b = norm3(prev.v1), norm3(g.v0)
                need(close(a, b, 1e-6, 1e-6), lambda: f"travel speed jumps at t={g.t0}: {a} -> {b}")
            prev = g
    out = labels(o)
    out["nontrivial"] = out["moving_junctions"] >= 1 and out["moves"] >= 3
    return out
