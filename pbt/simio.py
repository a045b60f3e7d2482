"""Drive the code under test: render programs, build setups, run simulations, extract plain trajectories."""

import os
import shutil
import tempfile

import yaml

from . import boot
from .core import Violation, fail
from .model import DEFAULTS

from pyGCodeDecode import gcode_interpreter as gi

SETUP_KEYS = ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE")


def scratch_dir():
    return tempfile.mkdtemp(dir=boot.SCRATCH)


class Scratch:
    """A directory that exists for one case."""

    def __enter__(self):
        self.path = scratch_dir()
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.path, name)


def full_setup(s):
    """Fill a case's setup with defaults."""
    d = {k: DEFAULTS[k] for k in SETUP_KEYS}
    d.update({"firmware": "marlin_jd", "init": None, "cue": None, "units": "SImm"})
    d.update(s or {})
    return d


def preset_dict(s):
    d = {k: s[k] for k in SETUP_KEYS}
    d["firmware"] = s["firmware"]
    d["nozzle_diam"] = DEFAULTS["nozzle_diam"]
    d["filament_diam"] = DEFAULTS["filament_diam"]
    return d


def render_op(op, sep=" "):
    """Plain text of one semantic operation."""
    k = op["o"]
    t = " ".join(op.get("pre", []))
    if k not in ("comment", "blank"):
        t += (" " if t else "") + k
    for a, v in op.get("w", {}).items():
        t += f"{sep}{a}{v}"
    for c, v in op.get("set", {}).items():
        t += f"{sep}{c} {'P' if c == 'M204' else 'X'}{v}"
    if op.get("c") is not None:
        t += (" " if t else "") + ";" + op["c"]
    return t


def render(ops):
    return "".join(render_op(o) + "\n" for o in ops)


def make_setup(scr, s, name="presets.yaml", printer="machine"):
    path = scr(name)
    with open(path, "w") as f:
        yaml.safe_dump({printer: preset_dict(s)}, f)
    st = gi.setup(presets_file=path, printer=printer, layer_cue=s.get("cue"))
    if s.get("init") is not None:
        st.set_initial_position(tuple(float(x) for x in s["init"]))
    return st


def write_gcode(scr, text, name="prog.gcode", newline=None):
    path = scr(name)
    with open(path, "w", newline=newline if newline is not None else "", encoding="utf-8", errors="surrogateescape") as f:
        f.write(text)
    return path


def simulate_text(scr, text, s, name="prog", setup=None):
    """Simulation of a G-code text with a case setup. Any exception is a violation (the domain is supported)."""
    path = write_gcode(scr, text, name + ".gcode")
    try:
        st = setup if setup is not None else make_setup(scr, s, name + ".yaml")
        return gi.simulation(gcode_path=path, initial_machine_setup=st, output_unit_system=s.get("units", "SImm"))
    except Violation:
        raise
    except Exception as e:
        import traceback

        fail(f"simulation failed with {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4))


def simulate(scr, ops, s, name="prog", setup=None):
    return simulate_text(scr, render(ops), s, name, setup)


def _v(vec):
    return [float(x) for x in vec.get_vec(withExtrusion=True)]


class Seg:
    __slots__ = ("t0", "t1", "p0", "p1", "v0", "v1")

    def __init__(self, s):
        self.t0, self.t1 = float(s.t_begin), float(s.t_end)
        self.p0, self.p1 = _v(s.pos_begin), _v(s.pos_end)
        self.v0, self.v1 = _v(s.vel_begin), _v(s.vel_end)

    def key(self):
        return (self.t0, self.t1, tuple(self.p0), tuple(self.p1), tuple(self.v0), tuple(self.v1))

    def vel(self, t):
        if self.t1 == self.t0:
            return list(self.v0)
        f = (t - self.t0) / (self.t1 - self.t0)
        return [a + (b - a) * f for a, b in zip(self.v0, self.v1)]

    def pos(self, t):
        v = self.vel(t)
        return [p + (a + b) * (t - self.t0) / 2 for p, a, b in zip(self.p0, self.v0, v)]


def blocks(sim):
    """Trajectory as list (per executed move or dwell) of lists of Seg."""
    return [[Seg(s) for s in b.get_segments()] for b in sim.blocklist]


def segs(sim):
    return [s for b in blocks(sim) for s in b]


def traj_key(sim):
    return [[s.key() for s in b] for b in blocks(sim)]


def t_end(sim):
    b = blocks(sim)
    return b[-1][-1].t1 if b else 0.0


def state_dict(st):
    p = st.state_p_settings
    return {
        "pos": _v(st.state_position),
        "feed": p.speed,
        "acc": p.p_acc,
        "jerk": p.jerk,
        "v": [p.vX, p.vY, p.vZ, p.vE],
        "units": p.units,
        "pause": st.pause,
        "comment": st.comment,
        "layer": st.layer,
        "line": st.line_number,
    }


def states(sim):
    return [state_dict(s) for s in sim.states]


class _Recorder:
    """Accepts any use of a plotter and notes it."""

    def __init__(self, rec, number, name=""):
        self._rec, self._number, self._name = rec, number, name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Recorder(self._rec, self._number, (self._name + "." if self._name else "") + name)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None

    def __call__(self, *a, **k):
        self._rec.calls.append((self._number, self._name, a, k))
        if self._name in ("screenshot", "show"):
            path = k.get("filename", k.get("screenshot", a[0] if a and self._name == "screenshot" else None))
            if isinstance(path, (str, os.PathLike)):
                with open(path, "w") as f:
                    f.write("screenshot")
        return _Recorder(self._rec, self._number, self._name + "()")


class Display:
    """Stand-in for the plotting window: records what is plotted, screenshots are small files."""

    def __init__(self, available=True):
        self.available = available
        self.calls = []  # (plotter number, method, positional, keyword)
        self.n = 0

    def plotter(self, a, k):
        self.n += 1
        self.calls.append((self.n, "new", a, k))
        return _Recorder(self, self.n)

    def __enter__(self):
        self.old = os.environ.get("DISPLAY")
        boot.STAGE = self
        if self.available:
            os.environ["DISPLAY"] = ":99"
        else:
            os.environ.pop("DISPLAY", None)
        return self

    def __exit__(self, *_):
        boot.STAGE = None
        os.environ.pop("DISPLAY", None)
        if self.old is not None:
            os.environ["DISPLAY"] = self.old

    def named(self, name):
        return [c for c in self.calls if c[1] == name]
