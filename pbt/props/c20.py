"""C20: the command line produces what the API produces."""

import builtins
import contextlib
import locale
import os
import sys

import numpy as np
import pyvista as pv
import yaml
from hypothesis import strategies as st

from .. import boot, gen
from ..core import need
from ..simio import Display, Scratch, preset_dict, render, traj_key, write_gcode

from pyGCodeDecode import cli
from pyGCodeDecode import gcode_interpreter as gi
from pyGCodeDecode.tools import save_layer_metrics

N = {"quick": 5000, "thorough": 40000}
RULE = (
    "random printing programs x options (G-code given by absolute or relative path or found in the working directory, "
    "own or shipped presets, printer, layer cue, output directory new, nested, existing or by prompt) run through the "
    "command line entry point; all files written are compared with the API's, everything else must be untouched; "
    "missing or ambiguous inputs must end the program with nothing written. Non-trivial: files are written and at "
    "least two options are not the defaults."
)
ASSUMPTIONS = [
    "Where a display is simulated, the plotting window is replaced by a recording stand-in.",
]
CFG = gen.Cfg(modes=1, comments=3, macros=1, max_ops=7, dwell=1, eonly=1)
DEFAULTS = "pyGCodeDecode/data/default_printer_presets.yaml"


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, cue=True, init=False))
    c["ops"] = c["ops"] + [{"o": "G91"}, {"o": "M83"}, {"o": "G1", "w": {"X": "5", "E": "1"}}]
    c["stem"] = draw(st.sampled_from(["part", "my part", "a.b", "PART-1", "ü"]))
    c["gcode"] = draw(st.sampled_from(["abs", "abs", "rel", "rel", "found", "found", "sub", "sub", "abs", "rel", "found", "missing", "none", "many", "dir"]))
    c["presets"] = draw(st.sampled_from(["own", "own", "own", None, None, None, "missing"]))
    c["printer"] = draw(st.sampled_from([None, 0, 1, "nobody"] if c["presets"] == "own" else [None, None, 0, 1, 2, 3]))
    c["out"] = draw(st.sampled_from(["new", "nested", "existing", "rel", "new", "existing", "y", "n", "YES", "no"]))
    if draw(st.integers(0, 3)) == 0:
        c["setup"]["cue"] = None
    c["decoy"] = draw(st.sampled_from([None, None, "sub/decoy.gcode", "decoy.gcode.bak", "decoy.gcode.d/x.txt"]))
    c["display"] = draw(st.sampled_from([None, None, True, False]))  # None: the real plotter without a display
    c["long"] = draw(st.booleans())
    c["order"] = draw(st.permutations(range(5)))
    return c


def cases(tier):
    return case()


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        out[d] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[p] = h.read()
    return out


def run(argv, cwd, answers):
    """Run the command line; return None or the exception that ended it."""
    old = sys.argv, builtins.input, locale.setlocale(locale.LC_ALL), os.getcwd()
    asked = []

    def answer(*a):
        asked.append(a)
        return answers.pop(0) if answers else (_ for _ in ()).throw(EOFError())

    sys.argv = ["pygcd"] + argv
    builtins.input = answer
    os.chdir(cwd)
    try:
        cli._main()
        return None, asked
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) or type(e).__name__ == "Hang":
            raise
        return e, asked
    finally:
        sys.argv, builtins.input = old[:2]
        locale.setlocale(locale.LC_ALL, old[2])
        os.chdir(old[3])
        pv.close_all()


def check(case):
    s = case["setup"]
    with Scratch() as scr:
        cwd = scr("cwd")
        os.makedirs(os.path.join(cwd, "sub"))
        os.makedirs(scr("elsewhere"))
        text = render(case["ops"])
        g = case["gcode"]
        stem = case["stem"]
        name = stem + ".gcode"
        argv = [None] * 5
        opt = (lambda s_, l_: l_) if case["long"] else (lambda s_, l_: s_)
        gpath = None
        if g in ("rel", "found", "many"):
            write_gcode(lambda n: os.path.join(cwd, n), text, name)
        if g == "many":
            write_gcode(lambda n: os.path.join(cwd, n), text, "other.gcode")
        if case.get("decoy"):  # not a G-code file of the working directory
            os.makedirs(os.path.dirname(os.path.join(cwd, case["decoy"])), exist_ok=True)
            write_gcode(lambda n: os.path.join(cwd, n), "G1 X1 E1 F600\n", case["decoy"])
        if g == "abs":
            gpath = write_gcode(lambda n: scr("elsewhere/" + n), text, name)
        elif g == "rel":
            gpath = name
        elif g == "sub":
            write_gcode(lambda n: os.path.join(cwd, "sub", n), text, name)
            gpath = os.path.join("sub", name)
        elif g == "missing":
            gpath = "missing.gcode"
        elif g == "dir":
            gpath = "sub"
        if gpath is not None:
            argv[0] = [opt("-g", "--gcode"), gpath]
        presets = os.path.join(boot.REPO, DEFAULTS)
        if case["presets"] == "own":
            presets = scr("elsewhere/pre.yaml")
            other = dict(s, p_acc=s["p_acc"] * 2, firmware="klipper")
            with open(presets, "w") as f:
                yaml.safe_dump({"anisoprint_a4": preset_dict(s), "second": preset_dict(other)}, f)
            names = ["anisoprint_a4", "second"]
            argv[1] = [opt("-p", "--presets"), presets]
        else:
            names = ["anisoprint_a4", "prusa_mini", "prusa_mini_klipper", "debugging"]
            if case["presets"] == "missing":
                argv[1] = [opt("-p", "--presets"), scr("elsewhere/nothing.yaml")]
        printer = "anisoprint_a4"
        if case["printer"] is not None:
            printer = case["printer"] if isinstance(case["printer"], str) else names[case["printer"]]
            argv[2] = [opt("-pn", "--printer_name"), printer]
        if s["cue"] is not None:
            argv[3] = [opt("-lc", "--layer_cue"), s["cue"]]
        answers = []
        o = case["out"]
        out = {
            "new": scr("elsewhere/o"),
            "nested": scr("elsewhere/p/q/o"),
            "existing": scr("elsewhere/have"),
            "rel": "o2",
        }.get(o)
        if o == "existing":
            os.makedirs(out)
            with open(os.path.join(out, "keep.txt"), "w") as f:
                f.write("keep")
            with open(os.path.join(out, stem + "_summary.yaml"), "w") as f:
                f.write("old: 1\n" * 100)
        if out is not None:
            argv[4] = [opt("-o", "--out_dir"), out]
        else:
            answers = ["maybe", "", o]
        args = ["plot"] + [x for i in case["order"] if argv[i] for x in argv[i]]
        before = tree(scr.path)
        display = case.get("display")
        with contextlib.nullcontext() if display is None else Display(display) as scene:
            err, asked = run(args, cwd, answers)
        after = tree(scr.path)
        changed = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
        where = f"pygcd {' '.join(args)} (answers {o if out is None else '-'})"
        if g in ("missing", "none", "many", "dir") or case["presets"] == "missing":
            need(isinstance(err, SystemExit), f"{where}: an input is missing or ambiguous, but the program ended with {err!r}")
            need(not changed, f"{where}: inputs missing, but {changed} written")
            return {"missing inputs": 1}
        if printer == "nobody":
            need(err is not None, f"{where}: unknown printer accepted")
            need(not changed, f"{where}: unknown printer, but {changed} written")
            return {"unknown printer": 1}
        need(err is None, lambda: f"{where}: ended with {type(err).__name__}: {err}")
        if display is not None:
            need(
                len(scene.named("show")) == display and not (display and scene.calls[-1][1] not in ("show", "close")),
                f"{where}: {len(scene.named('show'))} interactive plots {'with' if display else 'without'} a display",
            )
        # the API
        full = os.path.join(cwd, gpath if gpath is not None else name)
        setup = gi.setup(presets_file=presets, printer=printer, layer_cue=s["cue"])
        sim = gi.simulation(gcode_path=full, initial_machine_setup=setup)
        key = traj_key(sim)
        need(bool(key), "internal: nothing simulated")
        if o in ("n", "no"):
            need(not changed, f"{where}: no output wanted, but {changed} written")
            return {"no output": 1}
        odir = os.path.join(cwd, out) if out is not None else os.path.join(cwd, "output_" + stem)
        files = {stem + "_summary.yaml", stem + ".vtk"} | ({stem + "_layer_metrics.csv"} if s["cue"] is not None else set())
        new = {p for p in changed if after.get(p, 0) is not None}
        want = {os.path.join(odir, f) for f in files}
        png = {os.path.join(odir, stem + ".png")}
        need(new - png == want and (not display or png <= new), f"{where}: wrote {sorted(new)}, expected {sorted(want)}")
        need(
            all(p == odir or odir.startswith(p + os.sep) for p in changed if after.get(p, 0) is None),
            f"{where}: directories {changed}",
        )
        ref = scr("ref")
        os.makedirs(ref)
        sim.save_summary(os.path.join(ref, "s.yaml"))
        a = yaml.safe_load(open(os.path.join(odir, stem + "_summary.yaml")))
        b = yaml.safe_load(open(os.path.join(ref, "s.yaml")))
        fa, fb = a.pop("filename"), b.pop("filename")
        need(os.path.normpath(os.path.join(cwd, fa)) == os.path.normpath(fb), f"{where}: summary of {fa}")
        need(a == b, f"{where}: summary {a}, API {b}")
        if s["cue"] is not None:
            save_layer_metrics(sim, filepath=os.path.join(ref, "m.csv"), locale="C", delimiter=",")
            a = open(os.path.join(odir, stem + "_layer_metrics.csv")).read()
            b = open(os.path.join(ref, "m.csv")).read()
            need(a == b, lambda: f"{where}: layer metrics\n{a}API:\n{b}")
        sim.plot_3d(extrusion_only=True, vtk_path=os.path.join(ref, "v.vtk"), screenshot_path=os.path.join(ref, "v.png"))
        pv.close_all()
        a = pv.read(os.path.join(odir, stem + ".vtk"))
        b = pv.read(os.path.join(ref, "v.vtk"))
        need(
            a.n_cells == b.n_cells
            and np.array_equal(a.points, b.points)
            and np.array_equal(a.cells, b.cells)
            and np.array_equal(a.point_data["velocity"], b.point_data["velocity"]),
            f"{where}: VTK differs from the API's",
        )
    opts = sum([case["presets"] is not None, case["printer"] is not None, s["cue"] is not None, out is not None, g != "found"])
    return {
        "written": 1,
        "gcode " + g: 1,
        "presets " + str(case["presets"]): 1,
        "display " + str(case.get("display")): 1,
        "prompted": bool(asked),
        "cue": s["cue"] is not None,
        "nontrivial": opts >= 2,
    }
