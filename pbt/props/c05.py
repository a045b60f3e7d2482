"""C05: the trajectory visits every commanded position on straight lines."""

from .. import gen
from ..core import close, need
from ..model import interpret
from ..simio import Scratch, simulate
from ..traj import POS_TOL, Obs, labels, scale_of, speed

N = {"quick": 15000, "thorough": 400000}
RULE = (
    "random programs (absolute/relative, G92, inches, dwells, extruder-only and zero-length moves, arcs, split lines, "
    "micro moves) x firmware x setup; block ends compared with an exact interpreter, every trajectory vertex with the "
    "straight 4D line of its move. Non-trivial: at least 3 moves in different directions or kinds."
)
CFG = gen.Cfg(long=4, inline=1, comments=1, modes=2, units=1, g92=1, macros=2)


def cases(tier):
    return gen.cases(CFG, cue=True)


def check(case):
    s, ops = case["setup"], case["ops"]
    want = [[float(x) for x in w["pos"]] for w in interpret(ops, s)]
    with Scratch() as scr:
        sim = simulate(scr, ops, s)
        o = Obs(sim)
        for i, (g, w) in enumerate(zip(o.states, want)):
            need(all(close(a, b, 1e-9, 1e-12) for a, b in zip(g["pos"], w)), f"line {i}: position {g['pos']} expected {w}")
        if not o.blocks:
            need(all(w == want[0] for w in want), "no trajectory although the program moves")
            return {"empty": 1}
        # every distinct commanded position (up to rounding noise) is the end of a piece
        steps = [k for k in range(1, len(want)) if max(abs(a - b) for a, b in zip(want[k - 1], want[k])) > 1e-7]
        have = {it.idx for it in o.items}
        for k in steps:
            need(k in have or o.states[k]["pause"] is not None, f"line {k}: the move to {want[k]} is not executed")
        cur = want[0]
        for it, b in zip(o.items, o.blocks):
            tgt = want[it.idx]
            tol = POS_TOL * scale_of(it.p0, it.p1)
            ln = o.line(it)
            need(
                all(close(x, y, tol, 0) for x, y in zip(b[0].p0, cur)),
                lambda: f"line {ln}: starts at {b[0].p0} instead of {cur}",
            )
            need(
                all(close(x, y, tol, 0) for x, y in zip(b[-1].p1, tgt)),
                lambda: f"line {ln}: ends at {b[-1].p1} instead of {tgt}",
            )
            last = 0.0
            for sg in b:
                for p, v in ((sg.p0, sg.v0), (sg.p1, sg.v1)):
                    if it.kind == "dwell":
                        continue
                    # parameter along the move and deviation from the straight 4D line
                    u = sum((x - a) * d for x, a, d in zip(p[: 3 if it.kind == "xyz" else 4], it.p0, it.dir))
                    need(-tol <= u <= it.L + tol, lambda: f"line {ln}: leaves its range ({u} of {it.L})")
                    need(u >= last - tol, lambda: f"line {ln}: moves backwards ({u} after {last})")
                    last = max(last, u)
                    for k in range(4):
                        need(
                            close(p[k], it.p0[k] + u * it.dir[k], 2 * tol * (1 + abs(it.dir[k])), 0),
                            lambda: f"line {ln}: vertex {p} is off the line from {it.p0} to {it.p1} (axis {k})",
                        )
                    # velocity points along the move
                    sp = speed(it.kind, v)
                    for k in range(4):
                        need(
                            close(v[k], sp * it.dir[k], 1e-7, 1e-6),
                            lambda: f"line {ln}: velocity {v} is not along the direction {it.dir}",
                        )
            cur = tgt
        need(
            all(close(x, y, POS_TOL * scale_of(want[-1]), 0) for x, y in zip(o.blocks[-1][-1].p1, want[-1])),
            f"trajectory ends at {o.blocks[-1][-1].p1}, not at {want[-1]}",
        )
    out = labels(o)
    dirs = {(i.kind, tuple(round(x, 3) for x in i.dir)) for i in o.items}
    out["nontrivial"] = len(dirs) >= 3
    return out
