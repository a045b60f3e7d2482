"""C11: time queries return the trajectory, independent of the query history."""

import math

from hypothesis import strategies as st

from .. import gen
from ..core import need, vclose
from ..simio import Scratch, segs, simulate

from pyGCodeDecode.gcode_interpreter import find_current_segment
from pyGCodeDecode.utils import position, segment, velocity

N = {"quick": 13000, "thorough": 300000}
RULE = (
    "random program, then a random history of position/velocity queries (any order; vertex times and their floating "
    "point neighbours, both ends, random fractions, times outside) with refreshes (same states, other settings, fewer states) in between; every answer compared "
    "with a brute-force evaluation of the trajectory. Also histories of searches in lists of pieces with pauses between "
    "them (keep_position). Non-trivial: at least 4 answered queries of which one goes back "
    "in time and one is at a vertex, on a trajectory of at least 3 pieces."
)
CFG = gen.Cfg(long=4, modes=1, macros=2, max_ops=8, dwell=2)


@st.composite
def gaps(draw):
    """Pieces with pauses between them for which no piece exists, and a history of searches that keep the position."""
    num = st.integers(-64, 64).map(lambda x: x / 8)
    n = draw(st.integers(1, 6))
    pieces = []
    for _ in range(n):
        pieces.append(
            {
                "gap": draw(st.sampled_from([0, 0, 0.125, 0.5, 2.25])),
                "d": draw(st.sampled_from([0.125, 0.25, 1, 1.5, 3])),
                "v0": [draw(num) for _ in range(4)],
                "v1": [draw(num) for _ in range(4)],
            }
        )
    pieces[0]["gap"] = 0
    q = []
    for _ in range(draw(st.integers(1, 12))):
        where = draw(st.sampled_from(["f", "f", "begin", "end", "last"]))
        q.append([where, draw(st.integers(0, 100)), draw(st.sampled_from(["kept", "kept", "kept", "none", "any", "big"]))])
    return {"pieces": pieces, "searches": q}


def search_gaps(case):
    path, t, pos, tr = [], 0.0, [0.0, 0.0, 0.0, 0.0], []
    for p in case["pieces"]:
        t += p["gap"]
        end = [a + (x + y) * p["d"] / 2 for a, x, y in zip(pos, p["v0"], p["v1"])]
        path.append(segment(t, t + p["d"], position(pos), velocity(p["v0"]), position(end), velocity(p["v1"])))
        tr.append((t, t + p["d"], pos, p["v0"], p["v1"], end))
        t, pos = t + p["d"], end
    kept, in_gap, behind = 0, 0, 0
    for k, (where, n, idx) in enumerate(case["searches"]):
        i = n % len(tr)
        x = {"begin": tr[i][0], "end": tr[i][1], "last": t, "f": t * n / 100}[where]
        last = {"kept": kept, "none": None, "any": (n * 7) % len(path), "big": len(path) + 3}[idx]
        what = f"search {k} at t={x!r} with last index {last}"
        try:
            got = find_current_segment(path=path, t=x, last_index=last, keep_position=True)
            segm, kept = got
            v, p = segm.get_velocity(t=x).get_vec(withExtrusion=True), segm.get_position(t=x).get_vec(withExtrusion=True)
        except Exception as e:
            need(False, f"{what} of {[(g[0], g[1]) for g in tr]} failed: {type(e).__name__}: {e}")
        want = []
        for g in tr:
            if g[0] <= x <= g[1]:
                f = (x - g[0]) / (g[1] - g[0])
                vel = [a + (b - a) * f for a, b in zip(g[3], g[4])]
                want.append((vel, [a + (b + c) / 2 * (x - g[0]) for a, b, c in zip(g[2], g[3], vel)]))
        for a, b in zip(tr, tr[1:]):
            if a[1] < b[0] and a[1] <= x <= b[0]:
                want.append(([0.0] * 4, a[5]))
                in_gap += a[1] < x < b[0]
                behind += a[1] < x < b[0] and idx != "none"
        need(
            any(vclose(v, a, 1e-9, 1e-12) and vclose(p, b, 1e-9, 1e-12) for a, b in want),
            lambda: f"{what} of {[(g[0], g[1]) for g in tr]}: velocity {list(map(float, v))}, position {list(map(float, p))}, expected {want}",
        )
    return {"searches with gaps": 1, "in a gap": in_gap > 0, "nontrivial": behind > 0 and len(tr) >= 2}


@st.composite
def history(draw):
    if draw(st.integers(0, 5)) == 0:
        return draw(gaps())
    c = draw(gen.cases(CFG))
    n = draw(st.integers(2, 14))
    q = []
    for _ in range(n):
        r = draw(st.integers(0, 11))
        if r <= 3:
            q.append(["v", draw(st.integers(0, 200)), 0])  # vertex
        elif r <= 5:
            q.append(["v", draw(st.integers(0, 200)), draw(st.sampled_from([-1, 1]))])  # one ulp beside a vertex
        elif r <= 8:
            q.append(["f", draw(st.integers(1, 999)) / 1000])
        elif r == 9:
            q.append([draw(st.sampled_from(["end", "start", "end"]))])
        elif r == 10:
            q.append(["out", draw(st.sampled_from([-1e-9, -1.0, -1e-3, 1e-9, 1e-3, 1.0, 1e6]))])
        else:
            q.append(["refresh", draw(st.sampled_from(["", "", "feed", "acc", "prefix"])), draw(st.integers(1, 60))])
    c["q"] = q
    return c


def cases(tier):
    return history()


def check(case):
    if "pieces" in case:
        return search_gaps(case)
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], case["setup"])
        tr = segs(sim)
        if not tr:
            for t in (0.0, 1.0, -1.0):
                rejects(sim, t)
            return {"no motion": 1}
        verts = [tr[0].t0] + [g.t1 for g in tr]
        end = verts[-1]
        last = None
        answered = back = vertex = rejected = 0
        for k, q in enumerate(case["q"]):
            if q[0] == "refresh":
                refresh(sim, *q[1:])
                tr = segs(sim)
                if not tr:
                    rejects(sim, 1.0)
                    return {"no motion after refresh": 1}
                verts = [tr[0].t0] + [g.t1 for g in tr]
                end = verts[-1]
                continue
            if q[0] == "out":
                t = end * (1 + 1e-12) + q[1] if q[1] > 0 else q[1]
                rejects(sim, t)
                rejected += 1
                continue
            if q[0] == "v":
                t = verts[q[1] % len(verts)]
                if q[2]:
                    t = math.nextafter(t, math.inf if q[2] > 0 else -math.inf)
                vertex += 1
            elif q[0] == "f":
                t = end * q[1]
            else:
                t = end if q[0] == "end" else 0.0
            t = min(max(t, 0.0), end)
            try:
                vel, pos = sim.get_values(t=t)
            except Exception as e:
                need(False, f"query {k} at t={t!r} of {end!r} failed: {type(e).__name__}: {e}")
            sc = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}[case["setup"]["units"]]
            ok = False
            cand = [g for g in tr if g.t0 - 1e-12 * (1 + end) <= t <= g.t1 + 1e-12 * (1 + end)]
            need(cand, f"no piece at {t}")
            for g in cand:
                tt = min(max(t, g.t0), g.t1)
                wv, wp = g.vel(tt), g.pos(tt)
                # within one ulp of a vertex the fraction of a short piece is uncertain
                fuzz = 4e-16 * (1 + end)
                slope = max(abs(b - a) for a, b in zip(g.v0, g.v1)) / max(g.t1 - g.t0, 1e-300)
                vt = 1e-9 + 1e-9 * max(map(abs, wv)) + min(slope * fuzz, max(abs(b - a) for a, b in zip(g.v0, g.v1)))
                pt = 1e-9 + fuzz * max(map(abs, g.v0 + g.v1))
                if vclose(vel, [sc * x for x in wv], vt, 1e-12) and vclose(pos, [sc * x for x in wp], pt, 1e-10):
                    ok = True
                    break
            need(
                ok,
                lambda: f"query {k} at t={t!r}: velocity {list(map(float, vel))}, position {list(map(float, pos))}; trajectory: "
                + "; ".join(f"{g.vel(min(max(t, g.t0), g.t1))}, {g.pos(min(max(t, g.t0), g.t1))}" for g in cand),
            )
            answered += 1
            back += last is not None and t < last
            last = t
    return {
        "answered": answered,
        "back_in_time": back,
        "vertex": vertex,
        "rejected": rejected,
        "refreshed": sum(q[0] == "refresh" for q in case["q"]),
        "nontrivial": answered >= 4 and back > 0 and vertex > 0 and len(tr) >= 3,
    }


def refresh(sim, how="", n=1):
    """Refresh with the same states, states with other settings or a shorter list of states."""
    if how == "feed":
        for x in sim.states:
            x.state_p_settings.speed *= 0.5 if n % 2 else 1.75
    elif how == "acc":
        for x in sim.states:
            x.state_p_settings.p_acc *= 0.5 if n % 2 else 3.0
    if how == "prefix":
        new = sim.states[: 1 + n % len(sim.states)]
        new[-1].next_state = None
        sim.refresh(new_state_list=new)
    else:
        sim.refresh()


def rejects(sim, t):
    try:
        r = sim.get_values(t=t)
    except Exception:
        return
    need(False, f"time {t!r} is outside of the simulation but returns {r}")
