"""Independent reference models: exact modal G-code interpreter and look-ahead planner."""

import math
from fractions import Fraction as Fr

AXES = ("X", "Y", "Z", "E")

DEFAULTS = {
    "p_vel": 35,
    "p_acc": 1000,
    "jerk": 10,
    "vX": 180,
    "vY": 180,
    "vZ": 30,
    "vE": 33,
    "nozzle_diam": 0.4,
    "filament_diam": 1.75,
}


def dec(x):
    """Exact decimal text of a Fraction with a finite decimal expansion."""
    x = Fr(x)
    sign = "-" if x < 0 else ""
    x = abs(x)
    k = 0
    den = x.denominator
    while (10**k) % den:
        k += 1
        if k > 60:
            raise ValueError(f"{x} has no finite decimal expansion")
    n = x.numerator * (10**k // den)
    s = str(n).rjust(k + 1, "0")
    return sign + (s[:-k] + "." + s[-k:] if k else s)


class Machine:
    """Exact interpretation of the supported commands."""

    def __init__(self, setup, inch_mode=True):
        init = setup.get("init") or [0, 0, 0, 0]
        self.pos = dict(zip(AXES, [Fr(x) for x in init]))
        self.off = dict.fromkeys(AXES, Fr(0))
        self.abs = True
        self.eabs = True
        self.inch = False
        self.feed = Fr(str(setup["p_vel"]))
        self.acc = Fr(str(setup["p_acc"]))
        self.jerk = Fr(str(setup["jerk"]))
        self.v = {a: Fr(str(setup["v" + a])) for a in AXES}
        self.layer = 0 if setup.get("cue") is not None else None
        self.cue = setup.get("cue")

    @property
    def scale(self):
        return Fr(254, 10) if self.inch else Fr(1)

    def is_abs(self, axis):
        return self.eabs if axis == "E" else self.abs

    def logical(self, axis):
        """Logical coordinate in the current unit."""
        return (self.pos[axis] - self.off[axis]) / self.scale

    def snapshot(self, op=None):
        o = op or {}
        w = o.get("w", {})
        pause = None
        if o.get("o") == "G4":
            if "S" in w:
                pause = Fr(w["S"])
            elif "P" in w:
                pause = Fr(w["P"]) / 1000
        comment = o.get("c")
        return {
            "pos": [self.pos[a] for a in AXES],
            "feed": self.feed,
            "acc": self.acc,
            "jerk": self.jerk,
            "v": [self.v[a] for a in AXES],
            "units": "inch" if self.inch else "SImm",
            "pause": pause,
            "comment": None if comment is None else comment.strip(),
            "layer": self.layer,
            "o": o.get("o"),
        }

    def apply(self, op):
        k, w = op["o"], op.get("w", {})
        for mode in op.get("pre", []) + [k]:
            if mode == "G90":
                self.abs = True
            elif mode == "G91":
                self.abs = False
            elif mode == "M82":
                self.eabs = True
            elif mode == "M83":
                self.eabs = False
            elif mode == "G20":
                self.inch = True
            elif mode == "G21":
                self.inch = False
        sc = self.scale
        if k in ("G0", "G1"):
            for a in AXES:
                if a in w:
                    if self.is_abs(a):
                        self.pos[a] = self.off[a] + sc * Fr(w[a])
                    else:
                        self.pos[a] += sc * Fr(w[a])
            if "F" in w:
                self.feed = sc * Fr(w["F"]) / 60
        elif k == "G92":
            for a in AXES:
                if a in w:
                    self.off[a] = self.pos[a] - sc * Fr(w[a])
        elif k == "M203":
            for a in AXES:
                if a in w:
                    self.v[a] = sc * Fr(w[a])
        elif k == "M204":
            if "P" in w:
                self.acc = sc * Fr(w["P"])
        elif k == "M205":
            if "X" in w:
                self.jerk = sc * Fr(w["X"])
        for k, x in op.get("set", {}).items():  # further commands on the line of the move
            if k == "M204":
                self.acc = sc * Fr(x)
            else:
                self.jerk = sc * Fr(x)
        if self.cue is not None and op.get("c") is not None and op["c"].strip() == self.cue:
            self.layer += 1
        return self.snapshot(op)


def interpret(ops, setup, modes=None):
    """States (initial + one per op) prescribed by the modal rules."""
    m = Machine(setup)
    for k, v in (modes or {}).items():
        setattr(m, k, v)
    out = [m.snapshot()]
    for op in ops:
        out.append(m.apply(op))
    return out


# ---------------------------------------------------------------- planner


class Item:
    """One executed piece: a move (kind 'xyz' or 'e') or a dwell."""

    __slots__ = ("kind", "L", "dir", "feed", "acc", "jerk", "p0", "p1", "pause", "idx", "v0", "v1", "T", "cap", "peak")

    def __repr__(self):
        return f"<{self.kind} L={self.L} feed={self.feed}>"


def items_from_states(states):
    """states: dicts with float pos (4), feed, acc, jerk, pause.  One item per state that moves or dwells."""
    out = []
    for i in range(1, len(states)):
        a, b = states[i - 1], states[i]
        d = [float(q) - float(p) for p, q in zip(a["pos"], b["pos"])]
        it = Item()
        it.idx = i
        it.p0 = [float(x) for x in a["pos"]]
        it.p1 = [float(x) for x in b["pos"]]
        it.feed, it.acc, it.jerk = float(b["feed"]), float(b["acc"]), float(b["jerk"])
        it.pause = None
        it.v0 = it.v1 = it.T = it.cap = it.peak = None
        if b["pause"] is not None:
            it.kind = "dwell"
            it.pause = float(b["pause"])
            it.L = 0.0
            it.dir = [0.0] * 4
            out.append(it)
            continue
        l3 = math.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
        if l3 > 0:
            it.kind, it.L = "xyz", l3
        elif d[3] != 0:
            it.kind, it.L = "e", abs(d[3])
        else:
            continue
        it.dir = [x / it.L for x in d]
        out.append(it)
    return out


def corner_limit(firmware, v0, v1, feed, acc, jerk, d0, d1):
    """Largest speed at the corner between target velocity vectors v0 (this move) and v1 (next move), XYZE.

    feed/acc/jerk are the settings of the move that ends in the corner; d0, d1 the travel lengths of both moves.
    """
    n0 = math.sqrt(sum(x * x for x in v0[:3]))
    n1 = math.sqrt(sum(x * x for x in v1[:3]))
    if firmware == "marlin_jerk":
        dv = math.sqrt(sum((a - b) ** 2 for a, b in zip(v0[:3], v1[:3])))
        if dv <= 2 * jerk or dv == 0:
            return n0
        return n0 * 2 * jerk / dv
    if n0 == 0 or n1 == 0:
        return 0.0
    if firmware == "marlin_jd":
        if jerk == 0:
            return 0.0
        s = half_sin(v0, v1)
        if s >= math.sin(math.radians(81)):
            return feed
        if s <= math.sin(math.radians(9)):
            return 0.0
        delta = 0.4 * jerk * jerk / acc
        return min(math.sqrt(acc * delta * s / (1 - s)), feed)
    if firmware == "klipper":
        cos = -sum(a * b for a, b in zip(v0[:3], v1[:3])) / (n0 * n1)
        if cos > 0.999999:
            return 0.0
        cos = max(cos, -0.999999)
        s = math.sqrt(0.5 * (1 - cos))
        delta = jerk * jerk * (math.sqrt(2) - 1) / acc
        radius = delta * s / (1 - s)
        tan = s / math.sqrt(0.5 * (1 + cos))
        return math.sqrt(min(acc * radius, 0.5 * min(d0, d1) * tan * acc, feed * feed))
    if firmware == "MKA":
        vmax = min(n0, n1)
        worst = 0.0
        for a, b in zip(v0, v1):
            a = a * vmax / n0  # approach the corner with the common speed
            if (a > 0 and b > 0) or (a < 0 and b < 0):
                j = abs(b - a)  # coasting in the same direction
            else:
                j = max(abs(a), abs(b))  # reversal or start/stop of the axis
            worst = max(worst, j)
        if worst > jerk:
            return vmax * jerk / worst
        return vmax
    return 0.0


def half_sin(v0, v1):
    """sin(theta/2) with theta the angle between -v0 and v1 (180 degrees = straight on)."""
    n0 = math.sqrt(sum(x * x for x in v0[:3]))
    n1 = math.sqrt(sum(x * x for x in v1[:3]))
    cos = -sum(a * b for a, b in zip(v0[:3], v1[:3])) / (n0 * n1)
    return math.sqrt(max(0.0, (1 - cos) / 2))


def final_limit(firmware, it):
    """Speed at which the model lets the last move end (no following move)."""
    if firmware == "marlin_jerk" and it.kind == "xyz":
        return min(it.feed, 2 * it.jerk)
    return 0.0


def junction_cap(firmware, a, b):
    """Upper bound of the speed at the end of item a followed by item b (None: end of program)."""
    if a.kind != "xyz":
        return 0.0
    if b is None:
        return final_limit(firmware, a)
    if b.kind != "xyz":
        return 0.0
    v0 = [a.feed * x for x in a.dir]
    v1 = [b.feed * x for x in b.dir]
    c = corner_limit(firmware, v0, v1, a.feed, a.acc, a.jerk, a.L, b.L)
    return min(c, a.feed, b.feed)


def near_threshold(firmware, a, b):
    """The corner model jumps (or is very steep) here: a one-ulp difference may change the limit."""
    if a.kind != "xyz" or b is None or b.kind != "xyz":
        return False
    s = half_sin(a.dir, b.dir)
    eps = 1e-9 + 4e-9 / max(min(a.L, b.L), 1e-9)  # of directions, as positions have nine digits
    if firmware in ("marlin_jerk", "MKA"):
        # without jerk, a change of velocity that is only rounding noise decides between full speed and stop
        fa = min(a.feed, b.feed) if firmware == "MKA" else a.feed  # MKA approaches with the common speed
        dv = max(abs(fa * x - b.feed * y) for x, y in zip(a.dir, b.dir))
        return a.jerk < 1e-6 and dv < 1e-6 + eps * max(a.feed, b.feed)
    if firmware == "marlin_jd":
        return min(abs(s - math.sin(math.radians(81))), abs(s - math.sin(math.radians(9)))) < eps
    if firmware == "klipper":
        cos = 1 - 2 * s * s
        return abs(cos - 0.999999) < eps
    return False


def plan(items, firmware, e_start=None):
    """Time-optimal trapezoidal plan. Sets v0, v1, cap, peak, T on the items.

    e_start: {position in items: begin speed} for extruder-only moves (classic jerk lets them start moving).
    """
    n = len(items)
    e_start = e_start or {}
    caps = []
    for i, it in enumerate(items):
        it.cap = junction_cap(firmware, it, items[i + 1] if i + 1 < n else None)
        caps.append(it.cap)
    v = [0.0] * (n + 1)  # v[i]: speed at the begin of item i (= end of item i-1)
    for i in range(n):
        v[i + 1] = caps[i]
    # backward
    for i in range(n - 1, -1, -1):
        it = items[i]
        if it.kind == "dwell":
            v[i] = 0.0
            continue
        v[i] = min(v[i], it.feed, math.sqrt(v[i + 1] ** 2 + 2 * it.acc * it.L))
    v[0] = 0.0
    for i in range(n):
        it = items[i]
        if it.kind == "dwell":
            it.v0 = it.v1 = it.peak = 0.0
            it.T = it.pause
            v[i + 1] = 0.0
            continue
        b = e_start.get(i, 0.0) if it.kind == "e" else v[i]
        v[i + 1] = min(v[i + 1], math.sqrt(b * b + 2 * it.acc * it.L))
        e = v[i + 1] if it.kind == "xyz" else 0.0
        it.v0, it.v1 = b, e
        it.peak = min(it.feed, math.sqrt(it.acc * it.L + (b * b + e * e) / 2))
        it.peak = max(it.peak, b, e)
        up = (it.peak**2 - b * b) / (2 * it.acc)
        dn = (it.peak**2 - e * e) / (2 * it.acc)
        cruise = max(0.0, it.L - up - dn)
        it.T = (it.peak - b) / it.acc + (it.peak - e) / it.acc + (cruise / it.peak if it.peak > 0 else 0.0)
    return items
