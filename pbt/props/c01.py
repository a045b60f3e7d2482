"""C01: modal interpretation of supported commands."""

from hypothesis import strategies as st

from .. import gen
from ..core import close, fail, need
from ..model import interpret
from ..simio import Scratch, render, simulate, state_dict, write_gcode

from pyGCodeDecode.state_generator import generate_states

N = {"quick": 15000, "thorough": 300000}
RULE = (
    "random programs of all supported commands (mode, unit and G92 switches anywhere, every argument subset, comments, "
    "several commands on a line), random setup/initial position/layer cue; compared state by state with an exact "
    "rational modal interpreter; also states generated directly from a machine description with initial modes and left-out "
    "settings. Non-trivial: at least 3 lines of which one moves and one changes a mode, unit, origin "
    "or setting."
)
CFG = gen.Cfg(inline=1, modes=3, units=1, g92=2, m203=1, comments=3, noop=2, dwell=2, settings=3, macros=1, move=6, pre=1, max_ops=16)


# what a machine description given directly to generate_states may leave out, and what it means then
LEFT_OUT = {"p_vel": 35, "p_acc": 200, "jerk": 10, "vX": 180, "vY": 180, "vZ": 30, "vE": 33, "init": [0, 0, 0, 0]}
MODES = {"absolute_position": ("abs", True, False), "absolute_extrusion": ("eabs", True, False), "units": ("inch", "SImm", "inch")}


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, cue=True))
    if draw(st.integers(0, 4)) == 0:  # the lines and a machine description given directly
        c["direct"] = {
            "out": draw(st.lists(st.sampled_from(sorted(LEFT_OUT)), max_size=3, unique=True)),
            "modes": {k: draw(st.sampled_from(MODES[k][1:])) for k in sorted(MODES) if draw(st.integers(0, 2))},
        }
    return c


def cases(tier):
    return case()


def direct_states(scr, ops, s, d):
    """States generated from a machine description, which may contain modes and leave out settings."""
    machine = {k: s[k] for k in ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE") if k not in d["out"]}
    if "init" not in d["out"]:
        machine.update(zip("XYZE", map(float, s["init"] or [0, 0, 0, 0])))
    if s["cue"] is not None:
        machine["layer_cue"] = s["cue"]
    machine.update(d["modes"])
    before = dict(machine)
    try:
        res = generate_states(write_gcode(scr, render(ops)), machine)
    except Exception as e:
        fail(f"states of {machine} failed with {type(e).__name__}: {e}")
    need(machine == before, f"the machine description {before} was changed to {machine}")
    return res


def check(case):
    s, ops = case["setup"], case["ops"]
    d = case.get("direct")
    modes = {}
    if d is not None:
        s = dict(s, **{k: LEFT_OUT[k] for k in d["out"]})
        modes = {MODES[k][0]: v == "inch" if k == "units" else v for k, v in d["modes"].items()}
    want = interpret(ops, s, modes)
    with Scratch() as scr:
        lst = simulate(scr, ops, s).states if d is None else direct_states(scr, ops, s, d)
        got = [state_dict(x) for x in lst]
        need(len(got) == len(want), f"{len(got)} states for {len(ops)} lines (expected {len(want)})")
        for i, (g, w) in enumerate(zip(got, want)):
            where = f"state {i} ({'initial' if i == 0 else ops[i - 1]}): "
            for a, x, y in zip("XYZE", g["pos"], w["pos"]):
                need(close(x, float(y), 1e-9, 1e-12), f"{where}position {a}={x!r}, expected {float(y)!r}")
            for k, label in (("feed", "feed rate"), ("acc", "acceleration"), ("jerk", "jerk")):
                need(close(g[k], float(w[k]), 1e-12, 1e-12), f"{where}{label} {g[k]!r}, expected {float(w[k])!r}")
            for a, x, y in zip("XYZE", g["v"], w["v"]):
                need(close(x, float(y), 1e-12, 1e-12), f"{where}speed limit {a} {x!r}, expected {float(y)!r}")
            need(g["units"] == w["units"] or i == 0 and modes, f"{where}units {g['units']!r}, expected {w['units']!r}")
            if w["pause"] is None:
                need(g["pause"] is None, f"{where}dwell {g['pause']!r}, expected none")
            else:
                need(
                    g["pause"] is not None and close(g["pause"], float(w["pause"]), 1e-15, 1e-12),
                    f"{where}dwell {g['pause']!r}, expected {float(w['pause'])!r}",
                )
            if i > 0:
                need(g["comment"] == w["comment"], f"{where}comment {g['comment']!r}, expected {w['comment']!r}")
                need(g["layer"] == w["layer"], f"{where}layer {g['layer']!r}, expected {w['layer']!r}")
                need(g["line"] == i, f"{where}line number {g['line']!r}, expected {i}")
        for i, x in enumerate(lst):
            need(x.prev_state is (lst[i - 1] if i else None), f"state {i}: wrong predecessor link")
            need(x.next_state is (lst[i + 1] if i + 1 < len(lst) else None), f"state {i}: wrong successor link")
    kinds = {o["o"] for o in ops}
    moves = any(a["pos"] != b["pos"] for a, b in zip(want, want[1:]))
    modal = kinds & {"G90", "G91", "M82", "M83", "G20", "G21", "G92", "M203", "M204", "M205"} or any("pre" in o for o in ops)
    out = {k: True for k in kinds}
    out["relative+inch"] = any(w["units"] == "inch" for w in want)
    out["given directly"] = d is not None
    out["layers>0"] = bool(want[-1]["layer"])
    out["nontrivial"] = len(ops) >= 3 and moves and bool(modal)
    return out
