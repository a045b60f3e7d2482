"""C13: summary figures agree with the trajectory."""

import yaml
from hypothesis import strategies as st

from .. import gen
from ..core import close, need, norm3, vclose
from ..simio import Scratch, simulate
from ..traj import Obs

N = {"quick": 13000, "thorough": 250000}
RULE = (
    "random programs with printing, travelling, retracting, purely extruding moves and dwells; extent and maximum "
    "velocity recomputed from states and trajectory vertices, the summary file parsed back. Non-trivial: printing and "
    "non-printing moves both occur and the non-printing ones would change the extent or the maximum velocity."
)
CFG = gen.Cfg(modes=2, units=1, g92=1, macros=1, max_ops=10, extrude=1, eonly=2, zmove=2, dwell=1)


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, units=True))
    c["name"] = draw(st.sampled_from(["prog", "a b", "bench_1.2", "ü"]))
    c["sub"] = draw(st.sampled_from(["s.yaml", "new/dir/s.yaml", "s"]))
    c["dirty"] = draw(st.booleans())  # queries before
    return c


def cases(tier):
    return case()


def check(case):
    s = case["setup"]
    f = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}[s["units"]]
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], s, case["name"])
        o = Obs(sim)
        if case["dirty"] and o.blocks:
            sim.get_values(t=o.t_end / 2)
            sim.refresh()
        pr = [(i, b) for i, b in zip(o.items, o.blocks) if i.pause is None and i.p1[3] > i.p0[3]]
        no = [(i, b) for i, b in zip(o.items, o.blocks) if i.pause is None and not i.p1[3] > i.p0[3]]
        if not pr:
            try:
                r = sim.extrusion_extent()
            except Exception:
                return {"nothing extruded": 1}
            need(False, f"extent {r} although nothing is extruded")
        box, vmax = figures(pr)
        got = [[float(x) for x in r] for r in sim.extrusion_extent()]
        for a, b in zip(got, box):
            need(vclose(a, [f * x for x in b], 1e-6 * f, 1e-9), f"extent {got}, printing moves cover {box} mm (unit {s['units']})")
        gv = float(sim.extrusion_max_vel())
        need(close(gv, f * vmax, 1e-9 * f, 1e-9), f"maximum printing velocity {gv}, trajectory {vmax} mm/s (unit {s['units']})")
        for u, g in (("SI", 1e-3), ("SImm", 1.0), ("inch", 1 / 25.4)):
            got = [[float(x) for x in r] for r in sim.extrusion_extent(output_unit_system=u)]
            for a, b in zip(got, box):
                need(vclose(a, [g * x for x in b], 1e-6 * g, 1e-9), f"extent {got} in {u}, printing moves cover {box} mm")
            gv = float(sim.extrusion_max_vel(output_unit_system=u))
            need(close(gv, g * vmax, 1e-9 * g, 1e-9), f"maximum printing velocity {gv} in {u}, trajectory {vmax} mm/s")
        path = scr(case["sub"])
        sim.save_summary(path)
        d = yaml.safe_load(open(path))
        want = {f"{ax}_{m}": f * box[k][n] for n, ax in enumerate("xyz") for k, m in enumerate(("min", "max"))}
        want["max_extrusion_travel_velocity"] = f * vmax
        for k, w in want.items():
            need(k in d and close(d[k], w, 1e-6 * f, 1e-9), f"summary {k} is {d.get(k)!r}, expected {w}")
        need(close(d["t_end"], o.t_end, 1e-12, 1e-12), f"summary end time {d['t_end']!r}, trajectory ends at {o.t_end}")
        need(d["filename"] == scr(case["name"] + ".gcode"), f"summary file name {d['filename']!r}")
    diff = False
    if no:
        b2, v2 = figures(pr + no)
        diff = b2 != box or v2 > vmax * 1.000001
    return {
        "unit " + s["units"]: 1,
        "e_only": sum(i.kind == "e" for i, _ in pr) > 0,
        "travel differs": diff,
        "nontrivial": diff,
    }


def figures(moves):
    pts = [p[:3] for i, _ in moves for p in (i.p0, i.p1)]
    box = [[min(p[k] for p in pts) for k in range(3)], [max(p[k] for p in pts) for k in range(3)]]
    return box, max(norm3(v) for _, b in moves for g in b for v in (g.v0, g.v1))
