"""C12: output units scale lengths and speeds only."""

from hypothesis import strategies as st

from .. import gen
from ..core import close, need, norm3, vclose
from ..simio import Scratch, segs, simulate, traj_key, write_gcode, make_setup, render
from ..traj import Obs

from pyGCodeDecode import gcode_interpreter as gi
from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

N = {"quick": 8000, "thorough": 120000}
RULE = (
    "random program simulated in two unit systems; values at random times, extent, maximum extrusion velocity and event "
    "series for the simulation's unit, every per-call unit and after changes of mind, compared with the trajectory in mm "
    "times the factor; unknown unit names rejected at creation. Non-trivial: the program extrudes while travelling and "
    "both unit systems differ."
)
CFG = gen.Cfg(modes=1, macros=2, max_ops=7, extrude=4, units=1)
F = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}
BAD = ["", "mm", "si", "Inch", "SIcm", "inches", "IN", "m", "simm", "SI ", " SImm", "cm"]


@st.composite
def case(draw):
    c = draw(gen.cases(CFG))
    c["units"] = [draw(st.sampled_from(sorted(F))) for _ in range(2)]
    c["calls"] = draw(
        st.lists(
            st.tuples(
                st.integers(0, 1),
                st.sampled_from(["v", "v", "extent", "maxvel", "events", "summary"]),
                st.sampled_from([None, None, "SI", "SImm", "inch"]),
                st.integers(0, 1000),
            ),
            min_size=2,
            max_size=10,
        )
    )
    c["bad"] = draw(st.sampled_from(BAD + [None, 1, 25.4]))
    return c


def cases(tier):
    return case()


def check(case):
    s = case["setup"]
    with Scratch() as scr:
        path = write_gcode(scr, render(case["ops"]))
        try:
            gi.simulation(gcode_path=path, initial_machine_setup=make_setup(scr, s), output_unit_system=case["bad"])
        except Exception:
            pass
        else:
            need(False, f"unit system {case['bad']!r} is accepted")
        sims = [simulate(scr, case["ops"], dict(s, units=u), f"p{n}") for n, u in enumerate(case["units"])]
        tr = segs(sims[0])
        key = traj_key(sims[0])
        need(traj_key(sims[1]) == key, "the simulated motion depends on the output unit system")
        if not tr:
            return {"no motion": 1}
        end = tr[-1].t1
        o = Obs(sims[0])
        ext = [(i, b) for i, b in zip(o.items, o.blocks) if i.pause is None and i.p1[3] > i.p0[3]]
        if ext:
            pts = [p[:3] for i, _ in ext for p in (i.p0, i.p1)]
            box = [[min(p[k] for p in pts) for k in range(3)], [max(p[k] for p in pts) for k in range(3)]]
            vmax = max(norm3(v) for _, b in ext for g in b for v in (g.v0, g.v1))
        for n, what, unit, frac in case["calls"]:
            sim, f = sims[n], F[unit or case["units"][n]]
            kw = {} if unit is None else {"output_unit_system": unit}
            where = f"{what} in {unit or 'the simulation unit ' + case['units'][n]}: "
            if what == "v":
                t = min(end, end * frac / 1000)  # (not an ulp behind the end)
                vel, pos = sim.get_values(t=t, **kw)
                good = False
                for g in tr:
                    if g.t0 - 1e-9 <= t <= g.t1 + 1e-9:
                        tt = min(max(t, g.t0), g.t1)
                        good |= vclose(vel, [f * x for x in g.vel(tt)], 1e-6 * f, 1e-7) and vclose(
                            pos, [f * x for x in g.pos(tt)], 1e-6 * f, 1e-7
                        )
                need(good, lambda: where + f"at {t} velocity {list(map(float, vel))} position {list(map(float, pos))}")
            elif what == "extent" and ext:
                got = [[float(x) for x in r] for r in sim.extrusion_extent(**kw)]
                for a, b in zip(got, box):
                    need(vclose(a, [f * x for x in b], 2e-6 * f, 1e-7), where + f"{got}, in mm {box}")
            elif what == "maxvel" and ext:
                got = float(sim.extrusion_max_vel(**kw))
                # (E-only moves have travel speed zero)
                need(close(got, f * vmax, 1e-7 * f, 1e-7), where + f"{got}, in mm/s {vmax}")
            elif what == "events":
                ev = generate_abaqus_event_series(sim, filepath=scr("ev.inp"), **kw)
                need(len(ev) == len(tr) + 1, where + f"{len(ev)} events for {len(tr)} pieces")
                for e, (t, p) in zip(ev, [(0.0, tr[0].p0)] + [(g.t1, g.p1) for g in tr]):
                    need(close(float(e[0]), t, 1e-12, 1e-12), where + f"event time {e[0]} instead of {t}")
                    need(vclose([float(x) for x in e[1:4]], [f * x for x in p[:3]], 1e-9 * f, 1e-9), where + f"event {e}, vertex {p} mm")
                    need(e[4] in (0, 1), where + f"flag {e[4]}")
            elif what == "summary" and ext and vmax > 0:
                import yaml

                sim.save_summary(scr("sum.yaml"))
                d = yaml.safe_load(open(scr("sum.yaml")))
                f = F[case["units"][n]]
                for k, ax in enumerate("xyz"):
                    for m, name in enumerate(("min", "max")):
                        need(
                            close(d[f"{ax}_{name}"], f * box[m][k], 2e-6 * f, 1e-7),
                            lambda: f"summary {ax}_{name} {d[f'{ax}_{name}']} in {case['units'][n]}, in mm {box}",
                        )
                need(
                    close(d["max_extrusion_travel_velocity"], f * vmax, 1e-7 * f, 1e-7),
                    lambda: f"summary velocity {d['max_extrusion_travel_velocity']} in {case['units'][n]}, in mm/s {vmax}",
                )
                need(close(d["t_end"], end, 1e-9, 1e-9), "summary: end time scaled")
            need(sims[n].output_unit_system == case["units"][n], "a call changed the simulation's unit system")
        for x in sims:
            need(traj_key(x) == key, "a query changed the trajectory")
    return {
        "overridden": sum(c[2] is not None for c in case["calls"]),
        "units " + "/".join(sorted(set(case["units"]))): 1,
        "nontrivial": bool(ext) and vmax > 0 and case["units"][0] != case["units"][1],
    }

