"""Physical paths and their G-code encodings; comparison of trajectories."""

from bisect import bisect_left
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .core import need
from .model import AXES, Machine, dec, near_threshold

Q = Fr(254, 640)  # 25.4 mm / 64: finite decimal in millimetres and inches


@st.composite
def paths(draw, max_len=10, dwell=True, settings=True, eonly=True):
    """List of elements in mm: {"d": {axis: k}} (k multiples of 25.4/64 mm), {"F": n}, {"P": n}, {"J": n}, {"T": ms}."""
    n = draw(st.integers(1, max_len))
    out = []
    hi = draw(st.sampled_from([400, 40, 4, 2000]))
    for _ in range(n):
        r = draw(st.integers(0, 15))
        sgn = draw(st.sampled_from([1, -1]))
        k = lambda m=None: draw(st.integers(1, m or hi)) * draw(st.sampled_from([1, -1]))  # noqa: E731
        if r <= 5:
            d = {"X": k(), "Y": k()}
        elif r == 6:
            d = {"X": k()}
        elif r == 7:
            d = {"Y": k()}
        elif r == 8:
            d = {"Z": k(), "X": k()} if sgn > 0 else {"Z": k()}
        elif r == 9 and eonly:
            d = {"E": k(64)}
        elif r == 10 and dwell:
            out.append({"T": draw(st.sampled_from([0, 1, 100, 2500]))})
            continue
        elif r == 11 and settings:
            out.append({"P": draw(st.sampled_from([10, 40, 100, 4]))})
            continue
        elif r == 12 and settings:
            out.append({"J": draw(st.sampled_from([1, 2, 4, 40]))})
            continue
        elif r == 13 and out and "d" in out[-1]:
            m = draw(st.integers(1, 6))
            out.extend({"d": dict(out[-1]["d"])} for _ in range(m))
            continue
        else:
            d = {"X": k(), "Y": k()}
        if "E" not in d and draw(st.integers(0, 2)) == 0:
            d["E"] = draw(st.integers(1, 40)) * (1 if draw(st.integers(0, 4)) else -1)
        el = {"d": d}
        if draw(st.integers(0, 2)) == 0:
            el["F"] = draw(st.sampled_from([50, 100, 150, 240, 20, 400, 1000]))
        out.append(el)
    return out


class Encoder:
    """Writes a path as operations, with mode switches, unit switches, G92 and repetitions drawn at random."""

    def __init__(self, draw, setup, *, modes=True, units=True, g92=False, repeat=True, g0=True):
        self.draw = draw
        self.m = Machine(setup)
        self.ops = []
        self.opt = dict(modes=modes, units=units, g92=g92, repeat=repeat, g0=g0)
        self.cur = {}  # settings stated so far, in mm
        self.lit = {}  # axis -> (literal, unit, offset) when set by an absolute word

    def chance(self, k):
        return self.draw(st.integers(0, k - 1)) == 0

    def emit(self, op):
        self.m.apply(op)
        self.ops.append(op)

    def num(self, mm):
        return dec(Fr(mm) / self.m.scale)

    def toggles(self):
        o = self.opt
        if o["modes"] and self.chance(4):
            self.emit({"o": self.draw(st.sampled_from(["G90", "G91"]))})
        if o["modes"] and self.chance(4):
            self.emit({"o": self.draw(st.sampled_from(["M82", "M83"]))})
        if o["units"] and self.chance(4):
            self.emit({"o": self.draw(st.sampled_from(["G20", "G21"]))})
        if o["g92"] and self.chance(3):
            ax = self.draw(st.lists(st.sampled_from(AXES), min_size=1, max_size=4, unique=True))
            w = {}
            for a in ax:
                k = self.draw(st.sampled_from([0, 0, None]))
                if k is None:
                    k = self.draw(st.integers(-400, 400))
                w[a] = self.num(k * Q)
                self.lit.pop(a, None)
            self.emit({"o": "G92", "w": w})
        if o["repeat"] and self.cur and self.chance(6):
            key = self.draw(st.sampled_from(sorted(self.cur)))
            self.setting(key)

    def setting(self, key):
        v = self.cur[key]
        if key == "P":
            self.emit({"o": "M204", "w": {"P": self.num(v * Fr(254, 10))}})
        elif key == "J":
            self.emit({"o": "M205", "w": {"X": self.num(v * Fr(254, 10))}})
        elif key == "F":
            self.emit({"o": "G1", "w": {"F": self.num(v * Fr(254, 10))}})

    def move(self, el):
        m = self.m
        w = {}
        if "F" in el:
            self.cur["F"] = el["F"]
        for a in AXES:
            k = el["d"].get(a, 0)
            if k == 0:
                # an unchanged axis may be repeated if that is exactly the same number
                if self.opt["repeat"] and self.chance(6):
                    if not m.is_abs(a):
                        w[a] = "0"
                    elif a in self.lit and self.lit[a][1] == m.inch:
                        w[a] = self.lit[a][0]
                continue
            d = k * Q
            if m.is_abs(a):
                w[a] = dec(m.logical(a) + d / m.scale)
                self.lit[a] = (w[a], m.inch)
            else:
                w[a] = dec(d / m.scale)
                self.lit.pop(a, None)
        if "F" in el:
            if self.opt["repeat"] and self.chance(4):
                self.setting("F")
                if self.chance(2):
                    w["F"] = self.num(el["F"] * Fr(254, 10))
            else:
                w["F"] = self.num(el["F"] * Fr(254, 10))
        elif "F" in self.cur and self.opt["repeat"] and self.chance(4):
            w["F"] = self.num(self.cur["F"] * Fr(254, 10))
        g = "G0" if self.opt["g0"] and self.chance(3) else "G1"
        self.emit({"o": g, "w": w})

    def encode(self, path):
        for el in path:
            self.toggles()
            if "d" in el:
                self.move(el)
            elif "T" in el:
                self.emit({"o": "G4", "w": {"P": str(el["T"])} if self.chance(2) else {"S": dec(Fr(el["T"], 1000))}})
            elif "P" in el:
                self.cur["P"] = el["P"]
                self.setting("P")
            elif "J" in el:
                self.cur["J"] = el["J"]
                self.setting("J")
        self.toggles()
        return self.ops


def executed(states):
    """Exact sequence of executed pieces from interpreter states."""
    out = []
    for a, b in zip(states, states[1:]):
        if b["pause"] is not None:
            out.append(("dwell", b["pause"], tuple(b["pos"])))
        elif a["pos"] != b["pos"]:
            out.append(("move", tuple(a["pos"]), tuple(b["pos"]), b["feed"], b["acc"], b["jerk"]))
    return out


def any_threshold(items, firmware):
    return any(near_threshold(firmware, a, b) for a, b in zip(items, items[1:]))


def pos_at(segs, ends, t):
    i = min(bisect_left(ends, t), len(segs) - 1)
    g = segs[i]
    return g.pos(min(max(t, g.t0), g.t1))


def compare(oa, ob, what, tol=1e-6, ttol=1e-7, fpos=lambda p: p, ftime=lambda t: t):
    """Both trajectories describe the same motion: b = transformed a."""
    need(
        len(oa.blocks) == len(ob.blocks),
        lambda: f"{what}: {len(oa.blocks)} against {len(ob.blocks)} executed pieces",
    )
    sb = ob.segs
    ends = [g.t1 for g in sb]
    for n, (ba, bb) in enumerate(zip(oa.blocks, ob.blocks)):
        for ta, tb, name in ((ba[0].t0, bb[0].t0, "begin"), (ba[-1].t1, bb[-1].t1, "end")):
            need(
                abs(ftime(ta) - tb) <= ttol * (1 + abs(tb)),
                lambda: f"{what}: piece {n} {name}s at {tb} s instead of {ftime(ta)} s",
            )
        for g in ba:
            for t, p in ((g.t0, g.p0), (g.t1, g.p1), ((g.t0 + g.t1) / 2, g.pos((g.t0 + g.t1) / 2))):
                q = pos_at(sb, ends, ftime(t))
                r = fpos(p)
                vmax = max(max(abs(x) for x in gg.v0 + gg.v1) for gg in bb)
                lim = tol * (1 + max(abs(x) for x in r)) + 2 * vmax * ttol * (1 + t)
                need(
                    all(abs(x - y) <= lim for x, y in zip(q, r)),
                    lambda: f"{what}: at t={ftime(t)} the position is {q} instead of {r}",
                )
