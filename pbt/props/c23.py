"""C23: every supported program is simulated to completion, with finite values, ending at the last position."""

import math

from hypothesis import strategies as st

from .. import gen
from ..core import need, norm3
from ..model import AXES, Machine, dec
from ..simio import Scratch, render, segs, simulate_text

N = {"quick": 5000, "thorough": 300000}
RULE = (
    "programs over a wide domain: coordinates with 0 to 6 decimals and up to 1e4 mm, feed rates 1e-2..1e6 mm/min, "
    "accelerations 1e-2..1e7, jerk 0..1e4, absolute/relative/inches/G92 mixtures, runs of up to 1300 (thorough: 6000) "
    "tiny moves on lines, arcs and in noise with sudden stops and changes of settings, programs without motion, dwells "
    "anywhere. Decided: no error, finite monotonic trajectory, end at the position of the exact interpreter. "
    "Non-trivial: at least 3 moves."
)
ASSUMPTIONS = ["duration x top feed rate is below 1e9 mm: beyond, a double precision time does not resolve 1e-6 mm"]
FEEDS = ["600", "1800", "3600", "9000", "12000", "60", "1", "0.01", "0.5", "100000", "1000000", "1234.567", "7.3", "30000", "5999.999"]
ACCS = ["1000", "500", "100", "10", "1", "0.01", "0.3", "20000", "1000000", "10000000", "333.33", "1234.5678"]
JERKS = ["8", "10", "0", "0.01", "0.4", "30", "1000", "10000", "3.3333", "1e0"][:9]


@st.composite
def case(draw, long_max):
    i = lambda a, b: draw(st.integers(a, b))  # noqa: E731
    pick = lambda s: draw(st.sampled_from(s))  # noqa: E731
    s = draw(gen.setups(cue=True, units=True))
    if i(0, 2) == 0:
        s["p_acc"] = float(pick(ACCS))
        s["jerk"] = float(pick(JERKS))
        s["p_vel"] = float(pick(FEEDS)) / 60
    kind = pick(["mixed", "mixed", "decimal", "decimal", "runs", "runs", "still", "revisit"])
    if kind == "mixed":
        cfg = gen.Cfg(inline=1, max_ops=16, units=1, g92=1, comments=1, m203=1, dwell=2, settings=2, noop=2, micro=2, pre=1, macros=3)
        return {"setup": s, "ops": gen.build(draw, s, cfg), "kind": kind}
    ops = []
    g = lambda k, **w: ops.append({"o": k, "w": {a: v for a, v in w.items() if v is not None}})  # noqa: E731
    settings = lambda: [  # noqa: E731
        lambda: g("M204", P=pick(ACCS)),
        lambda: g("M205", X=pick(JERKS)),
        lambda: g("G1", F=pick(FEEDS)),
        lambda: g("G4", P=pick(["0", "1", "1000", "0.5"])),
        lambda: g(pick(["G90", "G91", "M82", "M83"])),
        lambda: g("M203", X=pick(["1", "300"]), E=pick(["1", "30"])),
    ][i(0, 5)]()
    if kind == "still":
        for _ in range(i(0, 6)):
            r = i(0, 4)
            if r == 0:
                ops.append({"o": "comment", "c": pick(["LAYER_CHANGE", "", "x"])})
            elif r == 1:
                ops.append({"o": "blank"})
            elif r == 2:
                g("G1", **{a: "0" for a in draw(st.lists(st.sampled_from(AXES), max_size=4, unique=True))})
                g("G91")
            else:
                settings()
        if i(0, 2) == 0:
            g("G1", X=str(i(-50, 50)))
        return {"setup": s, "ops": ops, "kind": kind}
    nd = pick([0, 1, 2, 3, 3, 4, 5, 6])
    size = pick([1e4, 300, 50, 5, 0.5, 0.05])

    def num(lim=None):
        k = max(1, int((lim or size) * 10**nd))
        return dec(gen.Fr(i(-k, k), 10**nd))

    if kind == "decimal":
        if i(0, 2) == 0:
            g("G91")
        if i(0, 2) == 0:
            g("G20")
        for _ in range(i(1, 20)):
            r = i(0, 9)
            if r <= 6:
                w = {a: num() for a in draw(st.lists(st.sampled_from("XYZXYXY"), min_size=1, max_size=3, unique=True))}
                if i(0, 2) == 0:
                    w["E"] = num(5)
                if i(0, 2) == 0:
                    w["F"] = pick(FEEDS)
                g(pick(["G0", "G1"]), **w)
            elif r == 7:
                g("G92", **{a: num() for a in draw(st.lists(st.sampled_from(AXES), min_size=1, max_size=4, unique=True))})
            elif r == 8:
                g("G1", E=num(5))
            else:
                settings()
        return {"setup": s, "ops": ops, "kind": kind}
    if kind == "revisit":
        # returns to the same coordinates in other frames: displacements that are pure rounding noise
        pts = [{a: num() for a in "XYE"} for _ in range(i(1, 3))]
        for _ in range(i(3, 14)):
            r = i(0, 6)
            if r <= 3:
                p = pick(pts)
                g("G1", **p, F=pick(FEEDS) if i(0, 3) == 0 else None)
            elif r == 4:
                g("G92", **{a: v for a, v in pick(pts).items() if i(0, 1)} or {"X": "0"})
            elif r == 5:
                g("G91")
                d = {a: num(0.5) for a in "XY"}
                g("G1", **d)
                g("G1", **{a: dec(-gen.Fr(v)) for a, v in d.items()})
                g("G90")
            else:
                settings()
        return {"setup": s, "ops": ops, "kind": kind}
    # long runs are kept in compact form
    runs = []
    for _ in range(i(1, 3)):
        runs.append(
            {
                "shape": pick(["line", "line", "arc", "noise", "zigzag"]),
                "n": pick([i(1, 40), i(1, 40), i(1, 200), i(1, long_max), long_max]),
                "step": pick(["0.001", "0.01", "0.1", "0.0078125", "0.05", "1", "0.00025"]),
                "dir": [i(-7, 7), i(-7, 7), pick([0, 0, 0, 1])],
                "nd": pick([3, 2, 4, 5]),
                "e": pick([None, "0.001", "0.0333"]),
                "F": pick(FEEDS),
                "P": pick(ACCS) if i(0, 1) else None,
                "J": pick(JERKS) if i(0, 1) else None,
                "rad": pick([0.5, 2, 10, 50, 200]),
                "seed": i(0, 1000),
                "rel": bool(i(0, 1)),
                "stop": pick([None, "reverse", "dwell", "settings", "e"]),
            }
        )
    return {"setup": s, "runs": runs, "kind": kind}


def cases(tier):
    return case(1300 if tier == "quick" else 6000)


def expand(runs):
    import random

    ops = []
    x = y = z = 0.0
    still = 0  # consecutive lines that do not move: their cost is quadratic, so they are capped
    for r in runs:
        nd, n, step = r["nd"], r["n"], float(r["step"])
        rng = random.Random(r["seed"])
        if r["P"]:
            ops.append({"o": "M204", "w": {"P": r["P"]}})
        if r["J"]:
            ops.append({"o": "M205", "w": {"X": r["J"]}})
        ops.append({"o": "G90"})
        ops.append({"o": "M83"})
        dx, dy, dz = (d * step for d in r["dir"])
        if not (dx or dy or dz):
            dx = step
        x0, y0 = x, y
        if r["rel"] and r["shape"] in ("line", "zigzag"):
            ops.append({"o": "G91"})
        f = r["F"]
        for k in range(1, n + 1):
            w = {}
            before = x, y, z
            if r["rel"] and r["shape"] in ("line", "zigzag"):
                sg = 1 if r["shape"] == "line" or k % 2 else -1
                d = {"X": dx * sg, "Y": dy, "Z": dz}
                w = {a: f"{v:.{nd}f}" for a, v in d.items() if f"{abs(v):.{nd}f}".strip("0.")}
                x, y, z = x + float(w.get("X", 0)), y + float(w.get("Y", 0)), z + float(w.get("Z", 0))
            else:
                if r["shape"] == "line":
                    px, py = x0 + dx * k, y0 + dy * k
                elif r["shape"] == "zigzag":
                    px, py = x0 + dx * (k % 2), y0 + dy * k
                elif r["shape"] == "arc":
                    a = k * step / r["rad"]
                    px, py = x0 + r["rad"] * math.sin(a), y0 + r["rad"] * (1 - math.cos(a))
                else:
                    px, py = x0 + dx * k + rng.uniform(-1, 1) * step, y0 + dy * k + rng.uniform(-1, 1) * step
                w = {"X": f"{px:.{nd}f}", "Y": f"{py:.{nd}f}"}
                x, y = float(w["X"]), float(w["Y"])
            if r["e"]:
                w["E"] = r["e"]
            if f:
                w["F"] = f
                f = None
            still = 0 if (x, y, z) != before or r["e"] else still + 1
            if w and still < 1000:
                ops.append({"o": "G1", "w": w})
        if r["stop"] == "reverse":
            ops.append({"o": "G91"})
            ops.append({"o": "G1", "w": {"X": f"{-dx - 1:.3f}", "Y": f"{-dy:.3f}"}})
            x, y = x + round(-dx - 1, 3), y + round(-dy, 3)
        elif r["stop"] == "dwell":
            ops.append({"o": "G4", "w": {"P": "100"}})
        elif r["stop"] == "settings":
            ops.append({"o": "M204", "w": {"P": "5"}})
            ops.append({"o": "M205", "w": {"X": "0.5"}})
        elif r["stop"] == "e":
            ops.append({"o": "G1", "w": {"E": "-1"}})
    return ops


def check(case):
    ops = case["ops"] if "ops" in case else expand(case["runs"])
    s = case["setup"]
    m = Machine(s)
    end = m.snapshot()
    moves = 0
    duration = top = 0.0
    for op in ops:
        prev = end["pos"]
        end = m.apply(op)
        if end["pos"] != prev:
            moves += 1
            d = [float(b - a) for a, b in zip(prev, end["pos"])]
            L, f, a = norm3(d) or abs(d[3]), float(end["feed"]), float(end["acc"])
            duration += L / f + 2 * min(f / a, math.sqrt(2 * L / a))
            top = max(top, f)
        duration += float(end["pause"] or 0)
    if duration * top > 1e9:
        return {"excluded_duration": 1}  # a double does not resolve positions (1e-6 mm) at such times
    want = [float(x) for x in end["pos"]]
    with Scratch() as scr:
        sim = simulate_text(scr, render(ops), s)
        need(len(sim.states) == len(ops) + 1, f"{len(sim.states)} states for {len(ops)} lines")
        tr = segs(sim)
        if moves == 0:
            need(
                all(g.p0 == g.p1 and not any(g.v0 + g.v1) for g in tr),
                "there is motion although nothing was programmed to move",
            )
        if tr:
            t, scale = 0.0, 1.0
            for g in tr:
                need(all(map(math.isfinite, [g.t0, g.t1] + g.p0 + g.p1 + g.v0 + g.v1)), lambda: f"values that are not finite: {g.key()}")
                need(g.t1 >= g.t0 and abs(g.t0 - t) <= 1e-9 * (1 + t), lambda: f"timeline jumps from {t} to {g.t0}..{g.t1}")
                t = g.t1
                scale = max(scale, max(map(abs, g.p1)))
            need(
                all(abs(a - b) <= 1e-6 * scale for a, b in zip(tr[-1].p1, want)),
                lambda: f"the trajectory ends at {tr[-1].p1} instead of {want}",
            )
            if moves and not any(o["o"] == "G4" for o in ops[-1:]):
                need(t > 0, "motion takes no time")
            v, p = sim.get_values(t)
            f = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}[s["units"]]
            need(
                all(abs(a - f * b) <= 1e-6 * scale * f for a, b in zip(p, want)),
                lambda: f"position {p} at the end instead of {want} mm (output in {s['units']})",
            )
        else:
            need(
                all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip([float(x) for x in (s["init"] or [0] * 4)], want)),
                lambda: f"no trajectory, but the program ends at {want}",
            )
    return {case["kind"]: 1, "moves": moves, "long": moves > 300, "nontrivial": moves >= 3}
