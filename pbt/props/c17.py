"""C17: machine setup keeps and validates what was configured (model-based histories)."""

import copy
import json

import yaml
from hypothesis import strategies as st

from .. import boot
from ..core import close, need
from ..simio import Scratch, state_dict, write_gcode

from pyGCodeDecode import gcode_interpreter as gi

N = {"quick": 9000, "thorough": 150000}
RULE = (
    "random histories over 1-2 setups from a random preset file (select, set property, set initial position as tuple "
    "or dict in any unit, malformed arguments, inspection, simulation with matching, contradictory or absent printer "
    "names, unknown and missing keys) against a dictionary model. Non-trivial: at least 5 steps that change the model "
    "and one inspection after them."
)
REQ = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware"]
OPT = ["layer_cue", "nozzle_diam", "filament_diam"]
FW = ["marlin_jd", "klipper", "marlin_jerk", "MKA", None]
UNIT = {"SI": 1e3, "SImm": 1.0, "inch": 25.4}
NAMES = ["alpha", "beta", "prusa_mini", "x-1"]
DEFAULT_FILE = "pyGCodeDecode/data/default_printer_presets.yaml"


def value(draw, key):
    if key == "firmware":
        return draw(st.sampled_from(FW))
    if key == "layer_cue":
        return draw(st.sampled_from(["LAYER_CHANGE", "layer"]))
    return draw(st.sampled_from([1, 5, 10.5, 35, 100, 180.25, 1000, 7]))


@st.composite
def history(draw):
    pr = {}
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
        pr[n] = {k: value(draw, k) for k in REQ}
        for k in OPT:
            if draw(st.booleans()):
                pr[n][k] = value(draw, k)
        if draw(st.integers(0, 7)) == 0:
            del pr[n][draw(st.sampled_from(REQ))]
    names = sorted(pr)
    c = {"presets": pr, "setups": [], "ops": []}
    for _ in range(draw(st.integers(1, 2))):
        c["setups"].append(
            {
                "printer": draw(st.sampled_from([None] + names + names + ["nobody"])),
                "cue": draw(st.sampled_from([None, None, "LAYER_CHANGE", "c;ue", ""])),
            }
        )
    num = lambda: draw(st.sampled_from([0, 1, -2, 0.5, 12.75, 100, -0.001, 3]))  # noqa: E731
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.integers(0, len(c["setups"]) - 1))
        r = draw(st.integers(0, 13))
        if r <= 1:
            op = ["select", draw(st.sampled_from(names + names + ["nobody", ""]))]
        elif r <= 4:
            ks = draw(st.lists(st.sampled_from(REQ + OPT[1:] + OPT[:1]), min_size=1, max_size=3, unique=True))
            op = ["prop", {x: value(draw, x) for x in ks}]
            if draw(st.integers(0, 11)) == 0:
                op[1][draw(st.sampled_from(["pvel", "layercue", "foo", "absolute_position"]))] = 1
        elif r <= 7:
            kind = draw(st.sampled_from(["tuple", "dict", "tuple", "dict", "dict-order"]))
            op = ["init", kind, [num() for _ in range(4)], draw(st.sampled_from([None, None, "SI", "SImm", "inch"]))]
        elif r == 8:
            op = ["bad_init", draw(st.sampled_from(["tuple3", "tuple5", "list", "dict3", "dict_lower", "str", "none", "unit", "int"]))]
        elif r <= 10:
            op = ["get"]
        else:
            op = ["sim", draw(st.sampled_from([None, None, None, "same", "same", "other", "nobody", "prefix", "suffix", "longer", "upper"]))]
        c["ops"].append([k] + op)
    c["ops"].append([0, "sim", None])
    c["default"] = draw(st.sampled_from(["anisoprint_a4", "prusa_mini", "prusa_mini_klipper", "debugging", "nobody", None]))
    return c


def cases(tier):
    return history()


class Model:
    def __init__(self, presets, spec):
        self.p = copy.deepcopy(presets)
        self.cue = spec["cue"]
        self.sel = None
        self.init = [0, 0, 0, 0]

    def dict(self):
        d = dict(self.p[self.sel])
        d.update(zip("XYZE", self.init))
        if self.cue is not None:
            d["layer_cue"] = self.cue
        d["printer_name"] = self.sel
        return d


def rejects(what, f):
    try:
        r = f()
    except Exception:
        return
    need(False, f"{what} is accepted ({r!r})")


def same(where, got, want):
    need(set(got) == set(want), lambda: f"{where}: keys {sorted(map(str, got))}, expected {sorted(map(str, want))}")
    for k, w in want.items():
        g = got[k]
        ok = close(float(g), float(w), 1e-12, 1e-12) if isinstance(w, (int, float)) and isinstance(g, (int, float)) else g == w
        need(ok, lambda: f"{where}: {k} is {g!r}, expected {w!r}")


def check_states(where, sim, d):
    s0 = state_dict(sim.states[0])
    need(all(close(a, float(b), 1e-12, 1e-12) for a, b in zip(s0["pos"], [d[a] for a in "XYZE"])), lambda: f"{where}: start {s0['pos']}")
    for k, key in (("feed", "p_vel"), ("acc", "p_acc"), ("jerk", "jerk")):
        need(close(s0[k], d[key]), lambda: f"{where}: {key} {s0[k]} instead of {d[key]}")
    need(s0["v"] == [d["v" + a] for a in "XYZE"], lambda: f"{where}: axis limits {s0['v']}")
    need(sim.firmware == d["firmware"], lambda: f"{where}: firmware {sim.firmware!r} instead of {d['firmware']!r}")
    need(
        (sim.states[-1].layer == 1) if d.get("layer_cue") == "LAYER_CHANGE" else not sim.states[-1].layer,
        lambda: f"{where}: layer {sim.states[-1].layer} with cue {d.get('layer_cue')!r}",
    )


def check(case):
    changes = seen = rejected = sims = 0
    with Scratch() as scr:
        path = scr("presets.yaml")
        with open(path, "w") as f:
            yaml.safe_dump(case["presets"], f)
        gcode = write_gcode(scr, ";LAYER_CHANGE\nG1 X10 Y5 F600\nG1 X20\n")
        real, models = [], []
        for spec in case["setups"]:
            m = Model(case["presets"], spec)

            def make(printer):
                return gi.setup(presets_file=path, printer=printer, layer_cue=spec["cue"])

            if spec["printer"] is not None and (
                spec["printer"] not in m.p or "firmware" not in m.p[spec["printer"]]
            ):
                if spec["printer"] not in m.p:
                    rejects(f"unknown printer {spec['printer']!r}", lambda: make(spec["printer"]))
                st_ = make(None)
            else:
                st_ = make(spec["printer"])
                m.sel = spec["printer"]
            real.append(st_)
            models.append(m)
        for n, (k, op, *a) in enumerate(case["ops"]):
            r, m = real[k], models[k]
            where = f"step {n} {op} {json.dumps(a)}"
            if op == "select":
                if a[0] in m.p:
                    r.select_printer(a[0])
                    changes += m.sel != a[0]
                    m.sel = a[0]
                else:
                    rejects(f"{where}: unknown printer", lambda: r.select_printer(a[0]))
                    rejected += 1
            elif op == "prop":
                d = dict(a[0])
                if m.cue is not None:
                    d.pop("layer_cue", None)
                if m.sel is None:
                    rejects(f"{where}: property without a printer", lambda: r.set_property(d))
                    rejected += 1
                else:
                    r.set_property(d)
                    m.p[m.sel].update(d)
                    d.clear()  # the caller's dictionary is his own
                    changes += 1
            elif op == "init":
                kind, v, u = a
                kw = {} if u is None else {"input_unit_system": u}
                if kind == "tuple":
                    arg = tuple(v)
                else:
                    keys = "XYZE" if kind == "dict" else "EZYX"
                    arg = {x: v["XYZE".index(x)] for x in keys}
                r.set_initial_position(arg, **kw)
                if isinstance(arg, dict):
                    need(list(arg.values()) == [v["XYZE".index(x)] for x in arg], f"{where}: the argument was modified")
                    arg["X"] = 777.0
                m.init = [x * UNIT[u or "SImm"] for x in v]
                changes += 1
            elif op == "bad_init":
                arg, kw = {
                    "tuple3": ((1, 2, 3), {}),
                    "tuple5": ((1, 2, 3, 4, 5), {}),
                    "list": ([1, 2, 3, 4], {}),
                    "dict3": ({"X": 1, "Y": 2, "Z": 3}, {}),
                    "dict_lower": ({"x": 1, "y": 2, "z": 3, "e": 4}, {}),
                    "str": ("XYZE", {}),
                    "none": (None, {}),
                    "int": (5, {}),
                    "unit": ((1, 2, 3, 4), {"input_unit_system": "cm"}),
                }[a[0]]
                rejects(f"{where}: malformed position", lambda: r.set_initial_position(arg, **kw))
                rejected += 1
            elif m.sel is None:
                rejects(f"{where}: nothing selected", r.get_dict)
                rejected += 1
            elif op == "get":
                same(where, r.get_dict(), m.dict())
                seen += 1
            else:
                want = m.dict()
                name = {
                    None: None,
                    "same": m.sel,
                    "other": next((x for x in sorted(m.p) if x != m.sel), "another_one"),
                    "nobody": "nobody",
                    "prefix": m.sel[:-1],
                    "suffix": m.sel[1:],
                    "longer": m.sel + "_2",
                    "upper": m.sel.upper(),
                }[a[0]]
                valid = all(x in want for x in REQ) and all(x in REQ + OPT + list("XYZE") + ["printer_name"] for x in want)

                def run():
                    kw = {} if name is None else {"machine_name": name}
                    return gi.simulation(gcode_path=gcode, initial_machine_setup=r, **kw)

                if name is not None and name != m.sel:
                    rejects(f"{where}: contradictory printer {name!r} and {m.sel!r}", run)
                    rejected += 1
                elif not valid:
                    rejects(f"{where}: setup with keys {sorted(want)}", run)
                    rejected += 1
                else:
                    sim = run()
                    same(where, sim.initial_machine_setup, want)
                    check_states(where, sim, want)
                    seen += 1
                    sims += 1
        # whatever happened, every printer of every setup has its own last values
        for r, m in zip(real, models):
            for name in m.p:
                r.select_printer(name)
                m.sel = name
                same(f"finally {name}", r.get_dict(), m.dict())
        # default presets
        name = case["default"]
        defaults = yaml.safe_load(open(f"{boot.REPO}/{DEFAULT_FILE}"))
        if name in defaults:
            sim = gi.simulation(gcode_path=gcode, machine_name=name)
            want = dict(defaults[name], X=0, Y=0, Z=0, E=0, printer_name=name)
            same(f"default {name}", sim.initial_machine_setup, want)
            check_states(f"default {name}", sim, want)
        elif name is None:
            rejects("neither printer nor setup", lambda: gi.simulation(gcode_path=gcode))
        else:
            rejects("unknown default printer", lambda: gi.simulation(gcode_path=gcode, machine_name=name))
    return {
        "changes": changes,
        "inspections": seen,
        "rejections": rejected,
        "simulations": sims,
        "two setups": len(real) == 2,
        "nontrivial": changes >= 5 and seen > 0,
    }
