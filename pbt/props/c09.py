"""C09: every move is as fast as the limits allow (differential against a reference look-ahead planner)."""

from .. import gen
from ..core import close, need
from ..model import near_threshold, plan
from ..simio import Scratch, simulate
from ..traj import Obs, labels, speed

N = {"quick": 17000, "thorough": 500000}
RULE = (
    "random programs x firmware x setup; duration, begin, end and peak speed of every move and the total duration "
    "compared with an independent forward/backward look-ahead planner. Cases in which a corner lies within 1e-9 of a "
    "discontinuity of the firmware model are excluded and counted (excluded_threshold). Non-trivial: at least one "
    "junction passed at speed and one move whose junction speed is limited by a neighbour instead of its own corner."
)
ASSUMPTIONS = ["Positions and settings are those of the simulation's own state list, which C01 and C03-C05 check."]
CFG = gen.Cfg(long=4, inline=1, comments=1, modes=1, settings=2, macros=4, micro=2, dwell=1, max_ops=12)


def cases(tier):
    return gen.cases(CFG, cue=True)


def check_plan(o, s, tol=1e-6):
    items, fw = o.items, s["firmware"]
    for a, b in zip(items, items[1:]):
        if near_threshold(fw, a, b):
            return None
    if items and fw == "marlin_jerk" and items[-1].jerk < 1e-6:
        pass
    e_start = {}
    for k, (it, b) in enumerate(zip(items, o.blocks)):
        if it.kind == "e" and fw == "marlin_jerk":
            v = speed("e", b[0].v0)
            jerk = items[k - 1].jerk if k else 0.0
            need(
                v <= min(2 * jerk, it.feed) * (1 + 1e-9) + 1e-9,
                lambda: f"line {o.line(it)}: extruder starts with {v} mm/s, jerk allows {2 * jerk}",
            )
            e_start[k] = v
    plan(items, fw, e_start)
    for it, b in zip(items, o.blocks):
        ln = o.line(it)
        T = b[-1].t1 - b[0].t0
        if it.kind == "dwell":
            need(close(T, it.pause, 1e-9, 1e-9), f"line {ln}: dwell lasts {T} instead of {it.pause}")
            continue
        va, vb = speed(it.kind, b[0].v0), speed(it.kind, b[-1].v1)
        vp = max(max(speed(it.kind, g.v0), speed(it.kind, g.v1)) for g in b)
        # a speed v reached from 0 over a rounding error of the length is only known to sqrt(2*a*1e-12)
        vt = tol * (1 + it.feed) + (2 * it.acc * 1e-13) ** 0.5
        need(close(va, it.v0, vt, 0), lambda: f"line {ln}: starts at {va} mm/s, planner {it.v0}")
        need(close(vb, it.v1, vt, 0), lambda: f"line {ln}: ends at {vb} mm/s, planner {it.v1} (corner limit {it.cap})")
        need(close(vp, it.peak, vt, 0), lambda: f"line {ln}: peak speed {vp} mm/s, planner {it.peak}")
        need(close(T, it.T, 1e-7, 1e-5), lambda: f"line {ln}: takes {T} s, planner {it.T} s")
    total = sum(it.T for it in items)
    need(close(o.t_end, total, 1e-6, 1e-6), f"total duration {o.t_end}, planner {total}")
    return items


def check(case):
    s, ops = case["setup"], case["ops"]
    with Scratch() as scr:
        o = Obs(simulate(scr, ops, s))
        items = check_plan(o, s)
        if items is None:
            return {"excluded_threshold": 1}
    out = labels(o)
    limited = any(i.kind == "xyz" and i.v1 > 1e-6 and i.v1 < i.cap - 1e-6 for i in items)
    out["neighbour_limited"] = int(limited)
    out["nontrivial"] = out["moving_junctions"] >= 1 and limited
    return out
