"""C10: dwells."""

from .. import gen
from ..core import close, need, norm3
from ..model import interpret
from ..simio import Scratch, simulate
from ..traj import POS_TOL, Obs, labels, scale_of

N = {"quick": 15000, "thorough": 300000}
RULE = (
    "random programs with a dwell weight of one in four lines (also first, last, repeated, zero length, P, S, both or "
    "no argument) x firmware; every dwell's interval, position and the speeds around it checked. Non-trivial: a dwell "
    "directly between two travelling moves."
)
CFG = gen.Cfg(inline=1, comments=1, modes=1, dwell=5, macros=2, units=1, g92=1)


def cases(tier):
    return gen.cases(CFG, cue=True)


def check(case):
    s, ops = case["setup"], case["ops"]
    want = interpret(ops, s)
    with Scratch() as scr:
        o = Obs(simulate(scr, ops, s))
        dw = [k for k, w in enumerate(want) if w["pause"] is not None]
        have = {it.idx: n for n, it in enumerate(o.items)}
        total = 0.0
        between = 0
        for k in dw:
            T = float(want[k]["pause"])
            need(k in have, f"line {k}: the dwell does not appear in the trajectory")
            n = have[k]
            b = o.blocks[n]
            pos = [float(x) for x in want[k]["pos"]]
            tol = POS_TOL * scale_of(pos)
            need(
                close(b[-1].t1 - b[0].t0, T, 1e-9, 1e-12 * (1 + b[-1].t1)),
                f"line {k}: dwell lasts {b[-1].t1 - b[0].t0} s instead of {T} s",
            )
            for g in b:
                need(all(x == 0 for x in g.v0 + g.v1), f"line {k}: velocity {g.v0}/{g.v1} during the dwell")
                for p in (g.p0, g.p1):
                    need(
                        all(close(x, y, tol, 0) for x, y in zip(p, pos)),
                        f"line {k}: dwells at {p} instead of {pos}",
                    )
            if n > 0:
                v = o.blocks[n - 1][-1].v1
                need(all(abs(x) < 1e-9 for x in v), f"line {k}: velocity {v} immediately before the dwell")
            if n + 1 < len(o.blocks):
                v = o.blocks[n + 1][0].v0
                need(all(abs(x) < 1e-9 for x in v), f"line {k}: velocity {v} immediately after the dwell")
            if 0 < n < len(o.items) - 1 and o.items[n - 1].kind == o.items[n + 1].kind == "xyz":
                between += 1
            total += T
            # the machine really rests when queried
            for f in (0.25, 0.5, 1.0):
                t = b[0].t0 + f * (b[-1].t1 - b[0].t0)
                if T > 1e-6 and f < 1:
                    vel, p = sim_values(o.sim, t)
                    need(norm3(vel) == 0 and vel[3] == 0, f"line {k}: queried velocity {vel} during the dwell")
                    need(all(close(x, y, tol, 0) for x, y in zip(p, pos)), f"line {k}: queried position {p} != {pos}")
    out = labels(o)
    out["nontrivial"] = between > 0
    return out


def sim_values(sim, t):
    v, p = sim.get_values(t)
    return [float(x) for x in v], [float(x) for x in p]
