"""Hypothesis strategies for setups and programs.  A program is a JSON list of operations."""

import math
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .model import AXES, Machine, dec
from .simio import full_setup

FIRMWARES = ["marlin_jd", "marlin_jerk", "klipper", "MKA", None]

FEEDS = ["600", "1200", "1800", "2400", "3000", "3600", "4800", "6000", "7200", "9000", "12000", "60", "300", "18000", "1000.5", "30000", "20", "3", "90000"]
ACCS = ["1000", "500", "200", "100", "2000", "5000", "10000", "50", "10", "20000", "333.25", "60000", "1.5"]
JERKS = ["8", "10", "5", "20", "1", "0.5", "50", "15", "2.5", "100", "0.1", "0"]
DWELL_P = ["100", "0", "1", "50", "250.5", "1000", "12345"]
DWELL_S = ["1", "0", "0.5", "2.25", "10", "0.001", "300"]

COMMENTS = ["LAYER_CHANGE", "layer", "G1 X5", " TYPE:Perimeter ", "", "a ; b", "M82", "LAYER_CHANGE ", "LAYER", "G28 ; G92 E0", "WIPE_START"]

# any text on one line
free_text = st.text(
    st.one_of(
        st.sampled_from(" ;GMXYZEFSP0123456789.+-=:_,()[]\t\x0c'\"\\%"),
        st.characters(exclude_categories=("Cs",), exclude_characters="\n\r"),
    ),
    max_size=20,
)
free_text = st.one_of(free_text, free_text, free_text, free_text.map(lambda x: (x + " layer ") * 6))

# the same with bytes that are no UTF-8 (written with surrogateescape)
raw_text = st.one_of(
    free_text, free_text, st.text(st.sampled_from(" ;GX1\xb0\u20ac\udcb0\udce9\udcff\udc80\udc8d\udcc2\udce2\udc82"), min_size=1, max_size=8)
)


@st.composite
def setups(draw, firmwares=None, cue=False, units=False, init=True, jerks=None, accs=None):
    s = {
        "firmware": draw(st.sampled_from(firmwares or FIRMWARES)),
        "p_vel": draw(st.sampled_from([35, 20, 60, 100, 5, 200, 1.5])),
        "p_acc": draw(st.sampled_from(accs or [1000, 500, 200, 2000, 100, 5000, 20, 1250.5])),
        "jerk": draw(st.sampled_from(jerks or [10, 8, 5, 1, 20, 0.5, 50, 2.25, 0])),
    }
    if init and draw(st.integers(0, 3)) == 0:
        s["init"] = [draw(st.integers(-400, 400)) / 8 for _ in range(4)]
    if cue:
        c = draw(st.sampled_from(["LAYER_CHANGE", "LAYER_CHANGE", None, "layer", "G1 X5", "a;b"]))
        if c is not None:
            s["cue"] = c
    if units:
        s["units"] = draw(st.sampled_from(["SImm", "SI", "inch"]))
    return full_setup(s)


class Cfg:
    """What a generated program may contain (weights, 0 = never)."""

    def __init__(self, **kw):
        self.max_ops = 14
        self.modes = 1
        self.units = 0
        self.g92 = 0
        self.dwell = 1
        self.settings = 1
        self.m203 = 0
        self.comments = 0
        self.eonly = 1
        self.zmove = 1
        self.noop = 1
        self.micro = 1
        self.macros = 2
        self.move = 8
        self.zero_f = False
        self.grid = (8, 64, 1)  # denominators of the displacement grids
        self.decimals = 1  # weight of 3-digit decimal programs instead of dyadic ones
        self.size = (1, 400)  # displacement numerators
        self.cues = ()
        self.pre = 0
        self.min_ops = 1
        self.extrude = 2
        self.inline = 0  # settings on the lines of moves
        self.long = 1  # long runs of tiny moves (in about "long" of 80 programs)
        self.__dict__.update(kw)


class Builder:
    """Builds a program operation by operation, following the modal state exactly."""

    def __init__(self, draw, setup, cfg):
        self.draw, self.cfg = draw, cfg
        self.m = Machine(setup)
        self.ops = []
        self.cue = setup.get("cue")
        self.last = None
        self.pending = None
        if cfg.decimals and draw(st.integers(0, 3 + cfg.decimals)) >= 4:
            self.den = 1000
        else:
            self.den = draw(st.sampled_from(cfg.grid))

    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def add(self, op):
        c = self.cfg
        if c.comments and self.i(0, 9) < c.comments:
            if self.cue is not None and self.i(0, 2) == 0:
                op["c"] = self.pick([self.cue, " " + self.cue + "  ", self.cue + "x"])
            else:
                op["c"] = self.pick(COMMENTS) if self.i(0, 3) else self.draw(free_text)
        if c.inline and op["o"] in ("G0", "G1") and self.i(0, 9) < c.inline:
            op["set"] = {}
            if self.i(0, 2):
                op["set"]["M204"] = self.pick(ACCS)
            if not op["set"] or self.i(0, 3) == 0:
                op["set"]["M205"] = self.pick(JERKS)
        if self.pending:
            op["pre"] = self.pending
            self.pending = None
        self.m.apply(op)
        self.ops.append(op)

    def disp(self, lo=None, hi=None):
        """A nonzero displacement."""
        lo = self.cfg.size[0] if lo is None else lo
        hi = self.cfg.size[1] if hi is None else hi
        if hi == self.cfg.size[1] and not self.m.inch and self.i(0, 59) == 31:
            k = self.i(200, 3000)  # farther than usual machines
            return Fr(-k if self.i(0, 1) else k)
        kind = self.i(0, 3)
        hi2 = max(lo, hi if kind < 2 else (hi // 16 if kind == 2 else 4))
        k = self.i(lo, hi2)
        return Fr(-k if self.draw(st.booleans()) else k, self.den)

    def word(self, axis, d):
        """Decimal word that displaces the axis by d current units (absolute mode: the target coordinate)."""
        if self.m.is_abs(axis):
            x = self.m.logical(axis) + d
            den = x.denominator
            while den % 2 == 0:
                den //= 2
            while den % 5 == 0:
                den //= 5
            if den != 1:  # no finite decimal expansion in this unit: choose a free coordinate instead
                x = Fr(round(x * 8), 8)
            return dec(x)
        return dec(d)

    def move(self, disp, feed=None, g=None, order=None):
        """disp: {axis: Fraction}"""
        w = {}
        for a in order or AXES:
            if a in disp:
                w[a] = self.word(a, disp[a])
        if feed is not None:
            w["F"] = feed
        self.add({"o": g or ("G0" if self.i(0, 4) == 0 else "G1"), "w": w})

    def feed_maybe(self):
        return self.pick(FEEDS) if self.i(0, 2) == 0 else None

    def xy(self):
        k = self.i(0, 5)
        if k == 0:
            return {"X": self.disp()}
        if k == 1:
            return {"Y": self.disp()}
        return {"X": self.disp(), "Y": self.disp()}

    def extr(self, disp):
        """Add extrusion (or a wipe) to a displacement."""
        c = self.cfg
        r = self.i(0, 3 + c.extrude)
        if r >= 2:
            disp["E"] = Fr(self.i(1, 40), 8) if self.i(0, 1) else Fr(self.i(1, 64), 64)
            if r == 2 and self.i(0, 3) == 0:
                disp["E"] = -disp["E"]
        return disp

    def step(self):
        c = self.cfg
        kinds = (
            ["move"] * c.move
            + ["macro"] * c.macros
            + ["eonly"] * c.eonly
            + ["z"] * c.zmove
            + ["noop"] * c.noop
            + ["micro"] * c.micro
            + ["dwell"] * c.dwell
            + ["settings"] * c.settings
            + ["m203"] * c.m203
            + ["modes"] * c.modes
            + ["units"] * c.units
            + ["g92"] * c.g92
            + ["comment"] * (1 if c.comments else 0)
        )
        k = self.pick(kinds)
        if c.pre and k in ("move", "z", "eonly", "micro", "dwell", "g92", "m203") and self.i(0, 9) < c.pre:
            # several commands on one line: modes (and units) before the actual command
            self.pending = [self.pick(["G90", "G91"]), self.pick(["M82", "M83"])][: self.i(1, 2)]
            if c.units and self.i(0, 2) == 0:
                self.pending.append(self.pick(["G20", "G21"]))
            for p in self.pending:
                self.m.apply({"o": p})
        if k == "move":
            self.last = self.extr(self.xy())
            self.move(self.last, self.feed_maybe())
        elif k == "z":
            d = {"Z": self.disp()}
            if self.i(0, 2) == 0:
                d.update(self.xy())
                d = self.extr(d)
            self.move(d, self.feed_maybe())
        elif k == "eonly":
            self.move({"E": self.disp(1, 64)}, self.feed_maybe())
        elif k == "micro" and self.i(0, 2) == 0:
            # very different components: nearly along one axis, hardly any or a lot of extrusion
            a, o = self.pick([("X", "Y"), ("Y", "X"), ("Y", "Z"), ("Z", "X"), ("X", "Z")])
            tiny = [Fr(self.pick([1, -1, 3, 7]), 10 ** self.i(3, 5)) for _ in range(2)]
            r = self.i(0, 3)
            if r == 0:
                d = {a: self.disp(), o: tiny[0]}
            elif r == 1:
                d = {a: self.disp(), "E": tiny[0]}
            elif r == 2:
                d = {a: self.disp(), o: tiny[0], "E": tiny[1]}
            else:
                d = {a: Fr(self.pick([1, -1]), 64), "E": self.disp()}
            self.move(d, self.feed_maybe())
        elif k == "micro":
            self.move({self.pick(["X", "Y"]): Fr(self.pick([1, -1]), self.pick([64, 256, 8]))}, self.feed_maybe())
        elif k == "noop":
            r = self.i(0, 3)
            if r == 0:
                self.add({"o": self.pick(["G1", "G0"]), "w": {"F": self.pick(FEEDS)}})
            elif r == 1:
                self.add({"o": "G1", "w": {}})
            elif r == 2:
                # move to where the machine already is
                if all(self.m.is_abs(a) is False for a in ("X", "Y")):
                    self.add({"o": "G1", "w": {"X": "0", "Y": "0"}})
                else:
                    x = self.m.logical("X")
                    if not self.m.inch and self.m.is_abs("X"):
                        self.add({"o": "G1", "w": {"X": dec(x)}})
                    else:
                        self.add({"o": "blank"})
            else:
                self.add({"o": "blank"})
        elif k == "dwell":
            r = self.i(0, 6)
            w = {"P": self.pick(DWELL_P)} if r < 3 else {"S": self.pick(DWELL_S)}
            if r == 6:
                w = {} if self.i(0, 1) else {"P": self.pick(DWELL_P), "S": self.pick(DWELL_S)}
            self.add({"o": "G4", "w": w})
        elif k == "settings":
            if self.i(0, 1):
                w = {"P": self.pick(ACCS)}
                if self.i(0, 3) == 0:
                    w[self.pick(["R", "S", "T"])] = self.pick(ACCS)
                elif self.i(0, 5) == 0:
                    w = {self.pick(["R", "S", "T"]): self.pick(ACCS)}
                self.add({"o": "M204", "w": w})
            else:
                w = {"X": self.pick(JERKS)}
                r = self.i(0, 4)
                if r == 0:
                    w[self.pick(["Y", "Z", "E", "S", "J"])] = self.pick(JERKS)
                elif r == 1 and self.i(0, 1):
                    w = {self.pick(["Y", "Z", "E", "S", "J"]): self.pick(JERKS)}
                self.add({"o": "M205", "w": w})
        elif k == "m203":
            ax = self.draw(st.lists(st.sampled_from(AXES), min_size=1, max_size=4, unique=True))
            self.add({"o": "M203", "w": {a: self.pick(["0.5", str(self.i(1, 400))]) for a in ax}})
        elif k == "modes":
            self.add({"o": self.pick(["G91", "G90", "M83", "M82"])})
        elif k == "units":
            self.add({"o": self.pick(["G20", "G21"])})
        elif k == "g92":
            ax = self.draw(st.lists(st.sampled_from(AXES), min_size=1, max_size=4, unique=True))
            self.add({"o": "G92", "w": {a: self.pick(["0", "0", dec(Fr(self.i(-200, 200), 8))]) for a in ax}})
        elif k == "comment":
            self.add({"o": "comment", "c": self.cue if (self.cue and self.i(0, 1)) else self.pick(COMMENTS) if self.i(0, 3) else self.draw(free_text)})
        elif k == "macro":
            self.macro()

    def macro(self):
        r = self.i(0, 5)
        if r < 3 and self.cue is not None and self.i(0, 7) == 0:
            self.layers()
        elif r == 5:
            self.exact()
        elif r == 0:  # polygonal arc
            n = self.i(3, 14)
            rad = self.i(1, 160) / 8.0
            sweep = self.pick([math.pi / 2, math.pi, 2 * math.pi, 1.0, -math.pi])
            a0 = self.pick([0.0, 0.5, 2.0])
            e = self.i(0, 1)
            feed = self.feed_maybe()
            pts = [(rad * math.cos(a0 + sweep * k / n), rad * math.sin(a0 + sweep * k / n)) for k in range(n + 1)]
            q = [(Fr(round(x * 64), 64), Fr(round(y * 64), 64)) for x, y in pts]
            for (x0, y0), (x1, y1) in zip(q, q[1:]):
                d = {}
                if x1 != x0:
                    d["X"] = x1 - x0
                if y1 != y0:
                    d["Y"] = y1 - y0
                if not d:
                    continue
                if e:
                    d["E"] = Fr(1, 16)
                self.move(d, feed)
                feed = None
        elif r == 1:  # straight line in equal pieces
            n = self.i(2, 12)
            dx, dy = self.pick([(1, 0), (0, 1), (3, 4), (-1, 2), (5, -1)])
            s = Fr(self.i(1, 32), self.pick([8, 64, 2]))
            feed = self.feed_maybe()
            for _ in range(n):
                d = {}
                if dx:
                    d["X"] = dx * s
                if dy:
                    d["Y"] = dy * s
                self.move(d, feed)
                feed = None
        elif r == 2:  # zig-zag infill
            n = self.i(2, 6)
            s = Fr(self.i(1, 100), 8)
            w = Fr(self.i(1, 8), 8)
            feed = self.feed_maybe()
            for k in range(n):
                self.move({"X": s if k % 2 == 0 else -s, "E": Fr(1, 8)}, feed)
                self.move({"Y": w}, None)
                feed = None
        elif r == 3 and self.last:  # back along the last move
            self.move({a: -d for a, d in self.last.items()}, self.feed_maybe())
        else:  # nearly straight continuation / slight bend
            d = self.last or {"X": Fr(self.i(8, 200), 8)}
            d = {a: v for a, v in d.items() if a in ("X", "Y", "E")}
            if "X" in d and "Y" in d:
                d["Y"] = d["Y"] + Fr(self.i(-8, 8), 64)
                if d["Y"] == 0:
                    del d["Y"]
            else:
                d["Y" if "X" in d else "X"] = Fr(self.pick([-1, 1]) * self.i(1, 40), 64)
            self.move(d, self.feed_maybe())

    def layers(self):
        """Many short layers."""
        side, z = Fr(self.i(8, 80), 8), Fr(self.i(1, 4), 8)
        feed = self.feed_maybe()
        for k in range(self.i(8, 18)):
            self.add({"o": "comment", "c": self.cue})
            if k % 3:
                self.move({"Z": z}, feed)
            self.move({"X": side if k % 2 else -side, "E": Fr(1, 8)}, feed)
            feed = None

    def exact(self):
        """Moves that are exactly as long as the ramps between round speeds."""
        if self.m.inch:
            return
        acc = self.pick([None, 1000, 500, 2000, 200])
        if acc is not None:
            self.add({"o": "M204", "w": {"P": str(acc)}})
        acc = self.m.acc
        ax, ay = self.pick([(1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (-1, 0), (Fr(-4, 5), Fr(3, 5))])
        cruise = [Fr(k) for k in (20, 40, 50, 100, 10)]
        v = self.pick(cruise)
        for _ in range(self.i(1, 4)):
            w = self.pick(cruise)
            length = self.pick([v * v, 2 * v * v, abs(v * v - w * w) or v * v, 2 * max(v, w) ** 2 - min(v, w) ** 2, 100 * acc]) / (2 * acc)
            if self.i(0, 5) == 0:
                length += Fr(self.pick([1, -1]), 10**6)
            if (length * 10**7).denominator != 1 or length <= 0:
                continue
            d = {"X": ax * length, "Y": ay * length}
            d = {a: x for a, x in d.items() if x}
            if any((x * 10**9).denominator != 1 for x in d.values()):
                continue
            if self.i(0, 3) == 0:
                d["E"] = Fr(1, 8)
            self.move(d, str(int(60 * v)) if self.i(0, 3) else None, "G1")
            r = self.i(0, 7)
            if r == 0:
                ax, ay = -ax, -ay
            elif r == 1:
                ax, ay = -ay, ax
            v = self.pick([v, w])

    def long(self):
        """A run of tiny moves whose speeds depend on each other over its whole length."""
        n = self.pick([70, 110, 230, 320])
        shape = self.pick(["line", "line", "arc", "zigzag"])
        dx, dy = self.pick([(1, 0), (3, 4), (-1, 2), (5, -1)])
        s = Fr(1, self.pick([8, 64, 64]))
        e = self.i(0, 1)
        self.cfg = Cfg(**dict(self.cfg.__dict__, comments=0, inline=0))  # few draws
        if self.i(0, 2):
            self.add({"o": "M204", "w": {"P": self.pick(["10", "50", "100", "500"])}})
        if self.i(0, 1):
            self.add({"o": "M205", "w": {"X": self.pick(["20", "5", "50", "1"])}})
        feed = self.pick(["6000", "12000", "3000", "600"])
        x = y = Fr(0)
        for k in range(1, n + 1):
            if shape == "arc":
                a = 2 * math.pi * k / 256
                tx, ty = Fr(round(512 * s * math.sin(a)), 64), Fr(round(512 * s * (1 - math.cos(a))), 64)
            else:
                tx, ty = dx * s * k, dy * s * k
                if shape == "zigzag" and k % 2:
                    tx, ty = tx - dy * s / 4, ty + dx * s / 4
            d = {a: v for a, v in (("X", tx - x), ("Y", ty - y)) if v != 0}
            x, y = tx, ty
            if not d:
                continue
            if e:
                d["E"] = Fr(1, 64)
            self.move(d, feed, "G1")
            feed = None


def build(draw, setup, cfg):
    b = Builder(draw, setup, cfg)
    if cfg.long and 37 <= b.i(0, 79) < 37 + cfg.long:
        b.long()
        for _ in range(b.i(0, 3)):
            b.step()
        return b.ops
    if cfg.modes and b.i(0, 2) == 0:
        b.add({"o": "G91"})
    if cfg.modes and b.i(0, 2) == 0:
        b.add({"o": "M83"})
    n = b.i(cfg.min_ops, cfg.max_ops)
    for _ in range(n):
        b.step()
    return b.ops


@st.composite
def cases(draw, cfg=None, **setup_kw):
    s = draw(setups(**setup_kw))
    return {"setup": s, "ops": build(draw, s, cfg or Cfg())}
