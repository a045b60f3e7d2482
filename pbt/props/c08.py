"""C08: corner speed of the selected firmware model."""

import math
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .. import gen
from ..core import close, need, norm3
from ..model import dec, half_sin, junction_cap, near_threshold
from ..simio import Scratch, simulate
from ..traj import Obs, labels

N = {"quick": 20000, "thorough": 600000}
RULE = (
    "half of the cases: sequences of 2-4 long 3D moves meeting in generated angles (uniform, straight, reversal, right "
    "angles, and around 18/162 degrees), with individual feed rates, accelerations, jerk values and extrusion; the other "
    "half: random programs. Corner speed <= model limit everywhere and equal to it wherever both moves are long enough "
    "to reach it. Corners within 1e-9 of a discontinuity are excluded and counted. Non-trivial: at least one corner "
    "with a change of direction whose limit is neither zero nor the feed rate and is reached."
)
CFG = gen.Cfg(inline=1, comments=1, modes=1, settings=2, macros=3)


@st.composite
def corner_cases(draw):
    s = draw(gen.setups())
    ops = [{"o": "G91"}, {"o": "M83"}]
    n = draw(st.integers(2, 4))
    az, el = draw(st.integers(0, 359)), draw(st.sampled_from([0, 0, 0, 20, -50, 90]))
    planar = draw(st.booleans())
    base = draw(st.sampled_from([1, 10, 10, 40, 200]))
    for k in range(n):
        if k:
            r = draw(st.integers(0, 7))
            if r == 0:
                turn = 0
            elif r == 1:
                turn = 180
            elif r == 2:
                turn = 90
            elif r == 3:
                turn = draw(st.integers(150, 174)) + draw(st.integers(0, 9)) / 10
            elif r == 4:
                turn = draw(st.integers(6, 30)) + draw(st.integers(0, 9)) / 10
            else:
                turn = draw(st.integers(-179, 180))
            az += turn
            if not planar:
                el = draw(st.integers(-90, 90))
        if planar:
            el_k = el if el == 0 else 0
        else:
            el_k = el
        length = base * draw(st.integers(8, 24)) / 8
        a, e = math.radians(az), math.radians(el_k)
        v = [length * math.cos(a) * math.cos(e), length * math.sin(a) * math.cos(e), length * math.sin(e)]
        w = {}
        for ax, x in zip("XYZ", v):
            q = Fr(round(x * 1024), 1024)
            if q != 0:
                w[ax] = dec(q)
        ext = draw(st.integers(0, 5))
        if ext == 1:
            w["E"] = dec(Fr(draw(st.integers(1, 300)), 64))
        elif ext == 2:
            w["E"] = dec(-Fr(draw(st.integers(1, 300)), 64))
        elif ext == 3:
            w["E"] = dec(Fr(round(length * 4), 64))
        if draw(st.integers(0, 1)):
            w["F"] = draw(st.sampled_from(gen.FEEDS))
        if draw(st.integers(0, 3)) == 0:
            ops.append({"o": "M204", "w": {"P": draw(st.sampled_from(gen.ACCS))}})
        if draw(st.integers(0, 3)) == 0:
            ops.append({"o": "M205", "w": {"X": draw(st.sampled_from(gen.JERKS))}})
        if k and draw(st.integers(0, 12)) == 0:
            ops.append({"o": "G1", "w": {"E": dec(Fr(draw(st.integers(-64, 64)), 8))}})
        if not w or set(w) == {"F"}:
            continue
        op = {"o": "G1", "w": w}
        if draw(st.integers(0, 7)) == 0:
            op["set"] = {"M204": draw(st.sampled_from(gen.ACCS))}
        if draw(st.integers(0, 9)) == 0:
            op.setdefault("set", {})["M205"] = draw(st.sampled_from(gen.JERKS))
        ops.append(op)
    return {"setup": s, "ops": ops}


def cases(tier):
    return st.one_of(corner_cases(), gen.cases(CFG, cue=True))


def check(case):
    s, ops = case["setup"], case["ops"]
    fw = s["firmware"]
    out = {"nontrivial": False, "excluded_threshold": 0, "reached": 0, "corners": 0}
    with Scratch() as scr:
        o = Obs(simulate(scr, ops, s))
        n = len(o.items)
        for k, (a, blk) in enumerate(zip(o.items, o.blocks)):
            if a.kind != "xyz":
                v = norm3(blk[-1].v1)
                need(v == 0, f"line {o.line(a)}: travel speed {v} at the end of a {a.kind} piece")
                continue
            b = o.items[k + 1] if k + 1 < n else None
            if near_threshold(fw, a, b):
                out["excluded_threshold"] += 1
                continue
            v = norm3(blk[-1].v1)
            cap = junction_cap(fw, a, b)
            tol = 1e-7 + 1e-7 * cap + (2 * a.acc * 1e-13) ** 0.5
            where = (
                f"line {o.line(a)} -> {o.line(b) if b else 'end'} ({fw}, feeds {a.feed}/{b.feed if b else None}, "
                f"directions {a.dir}/{b.dir if b else None}, acc {a.acc}, jerk {a.jerk}): "
            )
            need(v <= cap + tol, lambda: f"{where}corner speed {v} exceeds the limit {cap}")
            if b is not None and b.kind == "xyz":
                out["corners"] += 1
                if a.jerk == 0 and sum(x * y for x, y in zip(a.dir[:3], b.dir[:3])) < 0.999:
                    need(v <= tol, lambda: f"{where}corner speed {v} with zero jerk")
                if fw == "marlin_jd" and a.jerk > 0:
                    ang = 2 * math.degrees(math.asin(min(1.0, half_sin(a.dir, b.dir))))
                    if ang < 17.99:
                        need(v <= tol, lambda: f"{where}corner speed {v} at an angle of {ang} degrees")
                    if ang > 162.01:
                        need(close(cap, min(a.feed, b.feed), 1e-9, 1e-9), "reference model inconsistent")
                reach = cap * cap / 2 * (1 + 1e-9)
                if a.L * a.acc >= reach and b.L * b.acc >= reach:
                    need(v >= cap - tol, lambda: f"{where}corner speed {v} although the limit {cap} is reachable")
                    out["reached"] += 1
                    bend = sum(x * y for x, y in zip(a.dir[:3], b.dir[:3])) < 0.999
                    if bend and 1e-6 < cap < min(a.feed, b.feed) - 1e-6:
                        out["nontrivial"] = True
    out["fw_" + str(fw)] = 1
    return out
