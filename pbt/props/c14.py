"""C14: the ABAQUS event series reproduces the trajectory."""

import contextlib
from bisect import bisect_left

from hypothesis import strategies as st

from .. import gen
from ..core import close, need, vclose
from ..paths import pos_at
from ..simio import Scratch, simulate, traj_key
from ..traj import Obs

from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

N = {"quick": 13000, "thorough": 250000}
RULE = (
    "random programs (printing, travel, retraction, extruder-only moves, dwells) x unit system (simulation and per "
    "call) x target path; events compared with the trajectory vertices, flags with the programmed extrusion of the "
    "move executed until the next event, linear interpolation with the path, and the file with the returned series. "
    "Non-trivial: both flags occur before the last event and at least 5 events."
)
CFG = gen.Cfg(modes=2, g92=1, units=1, macros=2, max_ops=9, extrude=2, eonly=1, dwell=1)
F = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, units=True))
    c["call"] = draw(st.sampled_from([None, None, "SI", "SImm", "inch"]))
    c["file"] = draw(st.sampled_from(["ev.inp", "a/b/ev.inp", "ev", None]))
    c["twice"] = draw(st.integers(0, 3)) == 0
    return c


def cases(tier):
    return case()


def check(case):
    s = case["setup"]
    unit = case["call"] or s["units"]
    f = F[unit]
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], s)
        o = Obs(sim)
        if not o.blocks:
            return {"no motion": 1}
        key = traj_key(sim)
        path = scr(case["file"] or "pyGcodeDecode_abaqus_events.inp")
        kw = {} if case["call"] is None else {"output_unit_system": case["call"]}
        if case["file"]:
            ev = generate_abaqus_event_series(sim, filepath=path, **kw)
        else:  # the documented default, in the working directory
            with contextlib.chdir(scr.path):
                ev = generate_abaqus_event_series(sim, **kw)
        if case["twice"]:
            need(generate_abaqus_event_series(sim, filepath=path, **kw) == ev, "a second call gives another series")
        need(traj_key(sim) == key, "generating the events changed the trajectory")
        need(isinstance(ev, tuple), f"the series is a {type(ev).__name__}")
        flat = [(it, g) for it, b in zip(o.items, o.blocks) for g in b]
        need(len(ev) == len(flat) + 1, f"{len(ev)} events for {len(flat)} trajectory pieces")
        ev = [tuple(float(x) for x in e) for e in ev]
        need(all(len(e) == 5 for e in ev), "events of wrong length")
        need(ev[0][0] == 0.0, f"first event at {ev[0][0]}")
        need(close(ev[-1][0], o.t_end, 1e-12, 1e-12), f"last event at {ev[-1][0]}, print ends at {o.t_end}")
        need(ev[-1][4] == 0, "extrusion after the last event")
        need(vclose(ev[0][1:4], [f * x for x in flat[0][1].p0[:3]], 1e-12, 1e-9), f"first event {ev[0]}")
        segs = [g for _, g in flat]
        ends = [g.t1 for g in segs]
        for n, (it, g) in enumerate(flat):
            a, b = ev[n], ev[n + 1]
            need(b[0] >= a[0], f"event times decrease: {a[0]} -> {b[0]}")
            need(close(b[0], g.t1, 1e-12, 1e-12), f"event {n + 1} at {b[0]}, vertex at {g.t1}")
            need(
                vclose(b[1:4], [f * x for x in g.p1[:3]], 1e-9 * f, 1e-9),
                lambda: f"event {n + 1} position {b[1:4]} ({unit}), vertex {g.p1[:3]} mm",
            )
            de = it.p1[3] - it.p0[3]
            u = g.p1[3] - g.p0[3]
            if it.kind == "dwell" or de <= 0:
                need(a[4] == 0, f"event {n}: flag {a[4]} although line {o.line(it)} does not extrude")
            elif u > 1e-10:
                need(a[4] == 1, f"event {n}: flag {a[4]} although line {o.line(it)} extrudes {u} until the next event")
            # half way between two events the straight line is on the path (as a curve)
            if it.kind != "dwell":
                mid = [(x + y) / 2 / f for x, y in zip(a[1:4], b[1:4])]
                w = [m - p for m, p in zip(mid, it.p0)]
                d3 = it.dir[:3] if it.kind == "xyz" else [0.0] * 3
                t = sum(x * y for x, y in zip(w, d3))
                r = sum((x - t * y) ** 2 for x, y in zip(w, d3)) ** 0.5
                lim = 1e-5 * (1 + max(map(abs, it.p0 + it.p1)))
                need(r <= lim and -lim <= t <= it.L + lim, f"event {n}: interpolation leaves the path of line {o.line(it)} by {r}")
            if g.v0 == g.v1:  # constant speed: interpolated in time as well
                tm = (a[0] + b[0]) / 2
                p = pos_at(segs, ends, tm)
                need(
                    vclose([(x + y) / 2 for x, y in zip(a[1:4], b[1:4])], [f * x for x in p[:3]], 1e-6 * f, 1e-7),
                    lambda: f"interpolation at {tm} is not the simulated position {p[:3]} mm",
                )
        rows = [ln.split(",") for ln in open(path).read().splitlines() if ln.strip()]
        need(len(rows) == len(ev), f"{len(rows)} lines in the file for {len(ev)} events")
        for n, (r, e) in enumerate(zip(rows, ev)):
            need(len(r) == 5, f"file line {n}: {r}")
            v = [float(x) for x in r]
            need(close(v[0], e[0], 1e-12, 1e-12), f"file line {n}: time {r[0]}, series {e[0]}")
            need(
                all(
                    abs(x - y) <= 0.5e-8 + 1e-12 * (1 + abs(y)) and abs(x - round(x, 8)) <= 1e-14 * (1 + abs(x))
                    for x, y in zip(v[1:4], e[1:4])
                ),
                f"file line {n}: {r}, series {e}",
            )
            need(v[4] == e[4], f"file line {n}: flag {r[4]}, series {e[4]}")
    flags = {e[4] for e in ev[:-1]}
    return {"unit " + unit: 1, "both flags": len(flags) == 2, "nontrivial": len(flags) == 2 and len(ev) >= 5}
