"""C22: simulations are reproducible, refreshable and isolated (model-based histories)."""

import copy
import locale
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import need, vclose
from ..simio import Scratch, make_setup, preset_dict, render, segs, state_dict, states, t_end, traj_key, write_gcode

from pyGCodeDecode import gcode_interpreter as gi
from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
from pyGCodeDecode.state_generator import generate_states
from pyGCodeDecode.tools import save_layer_metrics, write_submodel_times

N = {"quick": 5000, "thorough": 200000}
RULE = (
    "random histories over up to 4 simulations of up to 3 programs and up to 2 shared setups: simulate, refresh, "
    "refresh with new states or with the states of another simulation, change the shared setup, query, report, export, "
    "plot; after every step the states and trajectory of every simulation are compared exactly with those of an "
    "isolated simulation of the same file and settings, and the state of the process (locale, working directory, "
    "environment, numpy error handling) with the one before. Non-trivial: at least 2 simulations and 4 steps, one of them a "
    "refresh or a change of the setup."
)
CFG = gen.Cfg(inline=1, max_ops=7, macros=2, dwell=1, g92=1, units=1, comments=1, settings=2, m203=1)
LOCALES = ["C", "C", "POSIX", None]
REPORTS = ["extent", "maxvel", "summary", "layers", "submodel", "events", "width", "repr", "values", "values", "lengths"]
PLOTS = ["vel", "pos", "pos-points", "vel-blocks"]


@st.composite
def history(draw):
    setups = [draw(gen.setups(cue=True)) for _ in range(draw(st.integers(1, 2)))]
    progs = [gen.build(draw, setups[0], CFG) for _ in range(draw(st.integers(1, 3)))]
    steps = [["new", 0, 0]]
    i = lambda a, b: draw(st.integers(a, b))  # noqa: E731
    for _ in range(i(3, 10)):
        r = i(0, 15)
        if r <= 3:
            steps.append(["new", i(0, 2), i(0, 1)])
        elif r <= 5:
            steps.append(["refresh", i(0, 3)])
        elif r == 6:
            steps.append(["states", i(0, 3), i(0, 2), i(0, 1)])
        elif r == 7:
            steps.append(["borrow", i(0, 3), i(0, 3)])
        elif r <= 9:
            k = draw(st.sampled_from(["p_vel", "p_acc", "jerk", "firmware", "vX"]))
            v = draw(st.sampled_from(gen.FIRMWARES if k == "firmware" else [1, 5, 12.5, 80, 300]))
            steps.append(["prop", i(0, 1), k, v])
        elif r == 10:
            steps.append(["init", i(0, 1), [i(-80, 80) / 8 for _ in range(4)], draw(st.booleans())])
        elif r <= 14:
            steps.append(["report", i(0, 3), draw(st.sampled_from(REPORTS)), i(0, 100) / 100])
        elif i(0, 3) == 0:
            steps.append(["report", i(0, 3), draw(st.sampled_from(PLOTS)), 0.5])
    return {"setups": setups, "progs": progs, "steps": steps}


def cases(tier):
    return history()


def snap(sim):
    return (states(sim), traj_key(sim))


def process():
    """State of the process that simulating and reporting has to leave alone."""
    return {
        "locale": locale.setlocale(locale.LC_ALL),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "numpy error handling": np.geterr(),
        "recursion limit": sys.getrecursionlimit(),
    }


def chain(sim):
    prev = None
    for s in sim.states:
        need(s.prev_state is prev, "the order of the states is broken")
        need(prev is None or prev.next_state is s, "the order of the states is broken")
        prev = s
    pb = None
    for b in sim.blocklist:
        need(b.prev_block is pb, "the order of the planner blocks is broken")
        pb = b


def report(scr, sim, what, f, n, extrudes):
    end = t_end(sim)
    if what in ("extent", "maxvel", "summary") and not extrudes:
        return
    if what == "extent":
        sim.extrusion_extent()
    elif what == "maxvel":
        sim.extrusion_max_vel()
    elif what == "summary":
        sim.save_summary(scr(f"sum{n}.yaml"))
    elif what == "layers":
        save_layer_metrics(sim, filepath=scr(f"lay{n}.csv"), locale=LOCALES[n % 4])
    elif what == "repr":
        str(sim.states), str(sim.blocklist), [str(s) for s in gi.unpack_blocklist(sim.blocklist)]
    elif not sim.blocklist:
        return
    elif what == "submodel":
        write_submodel_times(sim, [1.0, 1.0, 0.0], 5.0, 7.0, 9.0, filename=scr(f"sub{n}.yaml"))
    elif what == "events":
        generate_abaqus_event_series(sim, filepath=scr(f"ev{n}.inp"))
    elif what == "width":
        sim.get_width(f * end, 0.2, 1.75)
    elif what == "lengths":
        for b in sim.blocklist:
            if b.get_block_travel() > 0:
                b.inverse_time_at_pos(b.get_block_travel() * f)
    elif what == "values":
        for t in (f * end, end, 0.0, f * f * end):
            v, p = sim.get_values(t)
            cand = [g for g in segs(sim) if g.t0 - 1e-9 <= t <= g.t1 + 1e-9]
            tt = [min(max(t, g.t0), g.t1) for g in cand]
            need(
                any(vclose(p, g.pos(x), 1e-6, 1e-9) and vclose(v, g.vel(x), 1e-5, 1e-6) for g, x in zip(cand, tt)),
                lambda: f"values at {t}: velocity {v}, position {p}; trajectory {[(g.vel(x), g.pos(x)) for g, x in zip(cand, tt)]}",
            )
    elif what.startswith("vel"):
        sim.plot_vel(show=False, show_planner_blocks=what != "vel", show_segments=what != "vel", show_jv=True, time_steps=20)
    else:
        sim.plot_2d_position(filepath=scr("p.png"), colvar="Velocity", show_points=what != "pos", dpi=30)


def check(case):
    sims, n_ref, n_prop, n_done = [], 0, 0, 0
    cfgs = copy.deepcopy(case["setups"])  # what each shared setup should contain
    memo = {}
    with Scratch() as scr:
        paths = [write_gcode(scr, render(p), f"p{n}.gcode") for n, p in enumerate(case["progs"])]
        shared = [make_setup(scr, s, f"s{n}.yaml") for n, s in enumerate(cfgs)]

        def isolated(p, cfg, fw):
            """States and trajectory of program p with states from cfg, planned for firmware fw, simulated alone."""
            c = dict(cfg, firmware=fw)
            k = (p, repr(sorted(c.items(), key=lambda x: x[0])))
            if k not in memo:
                # always the same file names, rewritten with other contents
                alone = write_gcode(scr, render(case["progs"][p]), "alone.gcode")
                s = gi.simulation(gcode_path=alone, initial_machine_setup=make_setup(scr, c, "alone.yaml"))
                memo[k] = snap(s)
            return memo[k]

        env = process()
        for n, step in enumerate(case["steps"]):
            op = step[0]
            what = f"step {n} {step}"
            if op == "new":
                if len(sims) >= 4:
                    continue
                p, j = step[1] % len(paths), step[2] % len(shared)
                sim = gi.simulation(gcode_path=paths[p], initial_machine_setup=shared[j])
                sims.append({"sim": sim, "p": p, "cfg": copy.deepcopy(cfgs[j]), "fw": cfgs[j]["firmware"]})
            elif op == "refresh":
                m = sims[step[1] % len(sims)]
                m["sim"].refresh()
                n_ref += 1
            elif op == "states":
                m = sims[step[1] % len(sims)]
                p, j = step[2] % len(paths), step[3] % len(shared)
                new = generate_states(paths[p], dict(shared[j].get_dict()))
                m["sim"].refresh(new_state_list=new)
                need(m["sim"].states is new or states(m["sim"]) == [state_dict(s) for s in new], f"{what}: states not taken over")
                m.update(p=p, cfg=copy.deepcopy(cfgs[j]))
                n_ref += 1
            elif op == "borrow":
                m, o = sims[step[1] % len(sims)], sims[step[2] % len(sims)]
                m["sim"].refresh(o["sim"].states)
                m.update(p=o["p"], cfg=copy.deepcopy(o["cfg"]))
                n_ref += 1
            elif op == "prop":
                j = step[1] % len(shared)
                shared[j].set_property({step[2]: step[3]})
                cfgs[j][step[2]] = step[3]
                n_prop += 1
            elif op == "init":
                j = step[1] % len(shared)
                pos = [float(x) for x in step[2]]
                shared[j].set_initial_position(dict(zip("XYZE", pos)) if step[3] else tuple(pos))
                cfgs[j]["init"] = pos
                n_prop += 1
            else:
                m = sims[step[1] % len(sims)]
                ext = any(b["pos"][3] > a["pos"][3] and a["pos"][:3] != b["pos"][:3] for a, b in zip(states(m["sim"]), states(m["sim"])[1:]))
                cue_ok = step[2] != "layers" or m["sim"].states[-1].layer is not None or len(m["sim"].states) == 1
                if cue_ok:
                    report(scr, m["sim"], step[2], step[3], n, ext)
            n_done += 1
            now = process()
            need(now == env, lambda: f"{what}: changed {[(k, env[k], now[k]) for k in env if env[k] != now[k]]} of the process")
            for k, m in enumerate(sims):
                want = isolated(m["p"], m["cfg"], m["fw"])
                got = snap(m["sim"])
                if got[0] != want[0]:
                    d = [(i, x, y) for i, (x, y) in enumerate(zip(got[0], want[0])) if x != y][:1]
                    need(False, f"{what}: states of simulation {k} ({len(got[0])} for {len(want[0])}) differ: {d}")
                if got[1] != want[1]:
                    d = [(i, x, y) for i, (x, y) in enumerate(zip(got[1], want[1])) if x != y][:1]
                    need(False, f"{what}: trajectory of simulation {k} ({len(got[1])} for {len(want[1])} blocks) differs: {d}")
                chain(m["sim"])
            # the setups are what was configured
            for j, s in enumerate(shared):
                d = s.get_dict()
                for key, v in preset_dict(cfgs[j]).items():
                    need(d[key] == v, f"{what}: setup {j} has {key} = {d[key]!r} instead of {v!r}")
                ini = cfgs[j]["init"] or [0, 0, 0, 0]
                need([d[a] for a in "XYZE"] == ini, f"{what}: setup {j} starts at {[d[a] for a in 'XYZE']} instead of {ini}")
    return {
        "simulations": len(sims),
        "steps": n_done,
        "refreshes": n_ref,
        "setup_changes": n_prop,
        "nontrivial": len(sims) >= 2 and n_done >= 4 and n_ref + n_prop > 0,
    }
