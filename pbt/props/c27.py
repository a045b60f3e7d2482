"""C27: console summary, warnings, progress display and text forms tell the truth."""

import contextlib
import io
import math
import re

from hypothesis import strategies as st

from .. import gen
from ..core import close, fail, need
from ..model import AXES
from ..simio import Scratch, blocks, make_setup, render, write_gcode
from ..traj import Obs

from pyGCodeDecode import gcode_interpreter as gi

N = {"quick": 10000, "thorough": 200000}
RULE = (
    "random program x firmware x unit system simulated with captured output: the summary names the file, counts states and "
    "planned moves, and gives the end time to 1/100 s, no limit or planning warning appears, the progress display only "
    "shows true percentages; refreshes, corrections again and every plot leave these relations; random progress values; "
    "text forms of states, positions, velocities and moves. Non-trivial: at least 3 executed moves of 2 shapes."
)
CFG = gen.Cfg(modes=1, units=1, g92=1, m203=1, comments=1, dwell=2, inline=1)
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, cue=True, units=True))
    c["name"] = draw(st.sampled_from(["part.gcode", "a b.gcode", "x.y.gcode", "PART", "12 planner.gcode"]))
    c["progress"] = draw(
        st.lists(
            st.one_of(
                st.floats(-0.5, 1.5).map(lambda x: round(x, 4)),
                st.integers(-1, 3),
                st.sampled_from([0.0, 1.0, 0.5, 0.9999, 0.99951, 0.0004, 0.05, 0.95, -1e-9, 1 + 1e-9, "0.5", None]),
            ),
            min_size=1,
            max_size=4,
        )
    )
    c["progress"] = draw(st.lists(st.sampled_from(c["progress"] + [1.0]), min_size=1, max_size=8))
    c["label"] = draw(st.sampled_from(["Percent", "Planner Block Generation", "x y"]))
    c["again"] = draw(st.sampled_from([0, 0, 1, 2]))
    return c


def cases(tier):
    return case()


BAR = re.compile(r"\[([#-]*)\] (" + NUM + r") % of ([^\r\n]*)")


def bars(text):
    return [(m[1], float(m[2]), m[3]) for m in BAR.finditer(text)]


def captured(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = f()
    return res, out.getvalue()


def check_bar(bar, pct):
    need(len(bar) == 10 and bar == "#" * bar.count("#") + "-" * bar.count("-"), f"progress bar {bar!r}")
    need(abs(bar.count("#") - pct / 10) <= 0.5 + 1e-6 + 0.005, f"progress bar {bar!r} for {pct} %")


def vec4(text, start):
    m = re.search(re.escape(start) + r"\[(" + NUM + "), (" + NUM + "), (" + NUM + "), (" + NUM + r")\]", text)
    need(m is not None, f"no four components in {text!r}")
    return [float(m[k]) for k in range(1, 5)]


def check(case):
    s = case["setup"]
    labels = {}
    with Scratch() as scr:
        path = write_gcode(scr, render(case["ops"]), case["name"])
        setup = make_setup(scr, s)

        def run():
            try:
                return gi.simulation(gcode_path=path, initial_machine_setup=setup, output_unit_system=s["units"])
            except Exception as e:
                fail(f"simulation failed with {type(e).__name__}: {e}")

        sim, text = captured(run)
        bl = blocks(sim)
        end = bl[-1][-1].t1 if bl else 0.0
        # the summary
        need(str(path) in text, "the summary does not name the file")
        rest = text.replace(str(path), "<file>")
        m = re.search(r"extracted (\d+) states from <file> and generated (\d+) planner blocks", rest)
        need(m is not None, f"no summary in {rest[-400:]!r}")
        need(int(m[1]) == len(case["ops"]) + 1, f"{m[1]} states reported, the file has {len(case['ops'])} lines")
        need(int(m[2]) == len(bl), f"{m[2]} planner blocks reported, there are {len(bl)}")
        m = re.search(r"Estimated time [^\n]* (" + NUM + r") seconds", rest)
        need(m is not None, "no estimated time")
        need(abs(float(m[1]) - end) <= 0.005 * (1 + 1e-9) + 1e-9 * end, f"estimated time {m[1]} s, the trajectory ends at {end} s")
        m = re.search(r"Simulation took (" + NUM + ") s", rest)
        need(m is not None and 0 <= float(m[1]) < 600, "no duration of the simulation")
        m = re.search(r"(\d+) lines parsed", rest)
        need(m is not None and int(m[1]) == len(case["ops"]), "number of parsed lines")
        fw = re.search(r"with (.*) using the (.*) firmware", rest)
        need(fw is not None and fw[1] == "machine" and fw[2] == str(s["firmware"]), f"printer or firmware in {rest[:600]!r}")
        need("does not adhere" not in rest and "could not be modeled" not in rest, lambda: "warning: " + rest[-600:])
        need("Warning" not in rest and "found" not in rest.replace("machine", ""), lambda: "warning of unsupported commands: " + rest[:600])
        # its progress display
        bs = bars(rest)
        for bar, pct, _ in bs:
            check_bar(bar, pct)
        gen_b = [p for _, p, n in bs if n.startswith("Planner Block Generation")]
        need(gen_b and gen_b[-1] == 100.0 and gen_b == sorted(gen_b), lambda: f"progress of the generation {gen_b}")
        need("error" not in rest.lower().replace("<file>", ""), "error in the output of a simulation")
        # re-planning does not change it
        for k in range(case["again"]):
            key = [[g.key() for g in b] for b in bl]
            _, t2 = captured(sim.trajectory_self_correct if k == 0 else sim.refresh)
            new = [[g.key() for g in b] for b in blocks(sim)]
            need(len(new) == len(key) and all(len(a) == len(b) for a, b in zip(new, key)), "correcting again changed the pieces")
            for a, b in zip((g for x in new for g in x), (g for x in key for g in x)):
                need(
                    all(close(x, y, 1e-9, 1e-9) for x, y in zip(a[:2] + a[2] + a[3] + a[4] + a[5], b[:2] + b[2] + b[3] + b[4] + b[5])),
                    lambda: f"correcting again changed {b} to {a}",
                )
            need("does not adhere" not in t2 and "could not" not in t2, "warning when correcting again")
            _, t3 = captured(lambda: sim.print_summary(start_time=0.0))
            need(f"{end:.2f}" in t3 or abs(float(re.search(r"(" + NUM + r") seconds", t3)[1]) - end) < 0.0051, "summary after a refresh")
        # progress values
        captured(lambda: gi.update_progress(1.0))  # always shown
        shown, again = 100.0, False
        for p in case["progress"]:
            _, t1 = captured(lambda: gi.update_progress(p, case["label"]))
            _, t2 = captured(lambda: gi.update_progress(p, case["label"]))
            if isinstance(p, (int, float)):
                true = 100 * min(max(p, 0.0), 1.0)
                if 0 <= p < 1 and abs(true - shown) < 0.05 - 1e-9:
                    need(t1 == "" == t2, f"progress {p!r} is shown again after {shown} %: {t1!r}")
                    again = True
                    continue
                if abs(abs(true - shown) - 0.05) <= 1e-9 and t1 == "":  # rounding may go either way
                    continue
            if p is None or isinstance(p, str):
                need("error" in t1.lower(), f"progress {p!r} gives {t1!r}")
                shown = 0.0
                continue
            b = bars(t1)
            need(len(b) == 1, f"progress {p!r} gives {t1!r}")
            bar, pct, name = b[0]
            shown = pct
            need(abs(pct - true) <= 0.05 + 1e-9, f"progress {p!r} shown as {pct} %")
            check_bar(bar, pct)
            need(name.startswith(case["label"]), f"label {case['label']!r} shown as {name!r}")
            need(("Done" in t1) == (p >= 1) and ("Halt" in t1) == (p < 0) and "error" not in t1, f"progress {p!r} gives {t1!r}")
            if 0 <= p < 1:
                need(t2 == "", f"progress {p!r} is shown twice")
        # text forms
        for x in sim.states:
            t = str(x)
            need(repr(x) == t, "state: str and repr differ")
            pos = [float(c) for c in x.state_position.get_vec(withExtrusion=True)]
            need(vec4(t, "position: ") == pos, lambda: f"state at {pos} as text: {t}")
            need(f"line: {x.line_number}" in t, lambda: f"line {x.line_number} as text: {t}")
            need(("layer: " in t.split("position")[0]) == (x.layer is not None), lambda: f"layer {x.layer} as text: {t}")
            if x.layer is not None:
                need(f"layer: {x.layer}" in t, lambda: f"layer {x.layer} as text: {t}")
            need(f"comment: {x.comment}" in t and f"pause: {x.pause}" in t, lambda: f"comment {x.comment!r}, pause {x.pause} as text: {t}")
            q = x.state_p_settings
            v = [float(a) for a in (q.jerk, q.p_acc, q.speed)]
            got = [float(re.search(k + ": (" + NUM + ")", t)[1]) for k in ("jerk", "p_acc", "p_vel")]
            need(v == got, lambda: f"settings {v} as text: {t}")
            lim = re.search(r"max_ax_vel: \[([^\]]*)\]", t)
            need(lim is not None and [float(a) for a in lim[1].split(",")] == [float(a) for a in (q.vX, q.vY, q.vZ, q.vE)], lambda: f"axis limits as text: {t}")
            need(f"units: {q.units}" in t, lambda: f"units {q.units} as text: {t}")
        names = {3: "Trapezoid", 2: "Triangular", 1: "Singular"}
        for b, o in zip(sim.blocklist, bl):
            need(names[len(o)] in str(b) and repr(b) == str(b), lambda: f"block with {len(o)} pieces as text: {b}")
            labels[names[len(o)]] = labels.get(names[len(o)], 0) + 1
            for g, h in zip(b.get_segments(), o):
                t = str(g)
                first, last = t.split(" to ")
                need(vec4(first, "position: ") == h.p0 and vec4(last, "position: ") == h.p1, lambda: f"piece {h.key()} as text: {t}")
                need(vec4(str(g.vel_begin), "velocity: ") == h.v0, lambda: f"velocity {h.v0} as text: {g.vel_begin}")
    labels["nontrivial"] = len(bl) >= 3 and len(labels) >= 2
    labels["progress not shown again"] = again
    labels["progress values"] = len(case["progress"])
    labels["planned again"] = case["again"]
    return labels
