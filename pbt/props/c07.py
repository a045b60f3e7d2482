"""C07: feed rate and acceleration limits."""

from .. import gen
from ..core import need
from ..model import interpret
from ..simio import Scratch, simulate
from ..traj import Obs, labels, speed

N = {"quick": 17000, "thorough": 500000}
RULE = (
    "random programs with frequent feed and acceleration changes x firmware x setup; limits of every move taken from "
    "an exact interpreter and compared with the speeds at, and the acceleration between, all trajectory vertices. "
    "Non-trivial: at least 2 different feed rates or accelerations in force during moves and one junction passed at "
    "speed."
)
CFG = gen.Cfg(inline=1, comments=1, modes=1, settings=3, macros=3, units=1, dwell=1)


def cases(tier):
    return gen.cases(CFG, cue=True)


def check(case):
    s, ops = case["setup"], case["ops"]
    want = interpret(ops, s)
    with Scratch() as scr:
        o = Obs(simulate(scr, ops, s))
        lims = set()
        for it, b in zip(o.items, o.blocks):
            feed, acc = float(want[it.idx]["feed"]), float(want[it.idx]["acc"])
            ln = o.line(it)
            if it.kind != "dwell":
                lims.add((feed, acc))
            for g in b:
                a, c = speed(it.kind, g.v0), speed(it.kind, g.v1)
                if it.kind == "dwell":
                    need(a == 0 and c == 0, f"line {ln}: dwell moves")
                    continue
                need(
                    max(a, c) <= feed * (1 + 1e-9) + 1e-9,
                    lambda: f"line {ln}: speed {max(a, c)} exceeds the feed rate {feed} mm/s",
                )
                dt = g.t1 - g.t0
                dv = speed(it.kind, [x - y for x, y in zip(g.v1, g.v0)])
                need(
                    dv <= acc * dt * (1 + 1e-6) + 1e-7 * (1 + max(a, c)),
                    lambda: f"line {ln}: acceleration {dv / dt if dt else 'inf'} exceeds {acc} mm/s^2 "
                    f"({a} -> {c} mm/s in {dt} s)",
                )
    out = labels(o)
    out["nontrivial"] = len(lims) >= 2 and out["moving_junctions"] >= 1
    return out
