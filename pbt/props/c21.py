"""C21: symmetries and monotonicity of the machine model (metamorphic)."""

import itertools
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .. import gen
from ..core import need
from ..model import AXES, corner_limit, dec, junction_cap
from ..paths import Q, any_threshold, compare, paths, pos_at
from ..simio import Scratch, simulate
from ..traj import Obs, labels

N = {"quick": 10000, "thorough": 400000}
RULE = (
    "pairs of simulations of one random path: translated, mirrored and permuted; scaled with all speeds, accelerations "
    "and jerks; with higher accelerations or jerks; with straight moves split into collinear pieces. Corners where a "
    "corner model jumps are excluded and counted, split moves are compared only where the corner model passes straight "
    "junctions at full speed. Non-trivial: at least 3 moves and one junction passed at speed."
)
INCH = Fr(254, 10)


@st.composite
def case(draw):
    i = lambda a, b: draw(st.integers(a, b))  # noqa: E731
    pick = lambda s: draw(st.sampled_from(s))  # noqa: E731
    kind = pick(["rigid", "rigid", "scale", "scale", "acc", "jerk", "split", "split"])
    s = draw(gen.setups(init=False))
    c = {"setup": s, "kind": kind, "path": draw(paths(max_len=9)), "abs": bool(i(0, 1))}
    if kind == "rigid":
        c["perm"] = pick(["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"])
        c["sign"] = [pick([1, 1, -1]) for _ in range(3)]
        c["shift"] = [pick([0, i(-400, 400)]) for _ in range(4)]
    elif kind in ("scale", "acc", "jerk"):
        c["f"] = pick(["2", "10", "5", "25.4", "1.5", "100", "1.125"] + (["0.1", "0.5", "0.04"] if kind == "scale" else []))
    else:
        c["cuts"] = [sorted({i(1, 15) for _ in range(i(0, 4))}) for _ in range(8)]
    return c


def cases(tier):
    return case()


def encode(path, *, absolute, length=Fr(1), feed=Fr(1), acc=Fr(1), jerk=Fr(1), axes=None, cuts=None, start=(0, 0, 0, 0)):
    """G-code of the path; axes: axis -> (axis, sign). Returns operations and groups (index of path element per op)."""
    axes = axes or {a: (a, 1) for a in AXES}
    pos = dict(zip(AXES, [Fr(x) for x in start]))
    ops, n_split = [], 0
    if not absolute:
        ops += [{"o": "G91"}, {"o": "M83"}]
    groups = []
    for n, el in enumerate(path):
        if "d" in el:
            d = {a: k * Q * length for a, k in el["d"].items()}
            parts = [Fr(1)]
            if cuts and any(a in d for a in "XYZ"):
                cut = [Fr(x, 16) for x in cuts[n % len(cuts)]]
                parts = [b - a for a, b in zip([Fr(0)] + cut, cut + [Fr(1)])]
                n_split += len(parts) > 1
            for k, part in enumerate(parts):
                w = {}
                for a, v in d.items():
                    b, sg = axes[a]
                    v = v * sg * part
                    pos[b] += v
                    w[b] = dec(pos[b] if absolute else v)
                if "F" in el and k == 0:
                    w["F"] = dec(el["F"] * INCH * feed)
                ops.append({"o": "G1", "w": w})
            groups.append(len(parts))
        elif "T" in el:
            ops.append({"o": "G4", "w": {"P": str(el["T"])}})
            groups.append(1)
        elif "P" in el:
            ops.append({"o": "M204", "w": {"P": dec(el["P"] * INCH * acc)}})
        elif "J" in el:
            ops.append({"o": "M205", "w": {"X": dec(el["J"] * INCH * jerk)}})
    return ops, groups, n_split


def times(s, f, keys):
    return dict(s, **{k: float(Fr(str(s[k])) * Fr(f)) for k in keys})


def check(c):
    s, kind, path = c["setup"], c["kind"], c["path"]
    fw = s["firmware"]
    with Scratch() as scr:
        ops, _, _ = encode(path, absolute=c["abs"])
        a = Obs(simulate(scr, ops, s, "a"))
        out = labels(a)
        out[kind] = 1
        out["nontrivial"] = out["moving_junctions"] >= 1 and out["moves"] >= 3
        if any_threshold(a.items, fw):
            return {"excluded_threshold": 1}
        if kind == "rigid":
            axes = {x: (y, sg) for x, y, sg in zip("XYZ", c["perm"], c["sign"])}
            axes["E"] = ("E", 1)
            shift = [x / 8 for x in c["shift"]]
            ops, _, _ = encode(path, absolute=c["abs"], axes=axes, start=shift)
            b = Obs(simulate(scr, ops, dict(s, init=shift), "b"))

            def fpos(p):
                q = list(shift)
                for x, v in zip(AXES, p):
                    y, sg = axes[x]
                    q[AXES.index(y)] += sg * v
                return q

            compare(a, b, f"path with axes {c['perm']} x {c['sign']} shifted by {shift}", fpos=fpos)
        elif kind == "scale":
            f = Fr(c["f"])
            ops, _, _ = encode(path, absolute=c["abs"], length=f, feed=f, acc=f, jerk=f)
            b = Obs(simulate(scr, ops, times(s, f, ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE"]), "b"))
            g = float(f)
            compare(a, b, f"path and speeds scaled by {f}", tol=2e-6 * max(1.0, g), fpos=lambda p: [g * x for x in p])
        elif kind in ("acc", "jerk"):
            f = Fr(c["f"])
            ops, _, _ = encode(path, absolute=c["abs"], **{kind: f})
            b = Obs(simulate(scr, ops, times(s, f, ["p_acc" if kind == "acc" else "jerk"]), "b"))
            need(
                b.t_end <= a.t_end + 1e-9 * (1 + a.t_end),
                lambda: f"{kind} x {f} takes {b.t_end} s instead of {a.t_end} s",
            )
            out["faster"] = b.t_end < a.t_end - 1e-9
        else:
            ops, groups, n_split = encode(path, absolute=c["abs"], cuts=c["cuts"])
            b = Obs(simulate(scr, ops, s, "b"))
            need(len(b.blocks) == sum(groups), lambda: f"{len(b.blocks)} pieces for {sum(groups)} moves and dwells")
            ends = list(itertools.accumulate(groups))
            # only where straight junctions are passed at full speed, and the original corners are not affected
            for n, (e, k) in enumerate(zip(ends, groups)):
                it = b.items[e - k : e]
                for x, y in zip(it, it[1:]):
                    v = [x.feed * q for q in x.dir]
                    if corner_limit(fw, v, v, x.feed, x.acc, x.jerk, x.L, y.L) < x.feed * (1 - 1e-9):
                        return {"excluded_not_straight_through": 1}
                p = junction_cap(fw, a.items[n], a.items[n + 1] if n + 1 < len(groups) else None)
                q = junction_cap(fw, it[-1], b.items[e] if e < len(b.items) else None)
                if abs(p - q) > 1e-9 * (1 + p):
                    return {"excluded_corner_depends_on_length": 1}
            if any_threshold(b.items, fw):
                return {"excluded_threshold": 1}
            sb = b.segs
            tb = [g.t1 for g in sb]
            for n, (e, k, blk) in enumerate(zip(ends, groups, a.blocks)):
                t0, t1 = b.blocks[e - k][0].t0, b.blocks[e - 1][-1].t1
                for u, v in ((blk[0].t0, t0), (blk[-1].t1, t1)):
                    need(abs(u - v) <= 1e-7 * (1 + u), lambda: f"piece {n} split into {k}: {v} s instead of {u} s")
                for g in blk:
                    t = (g.t0 + g.t1) / 2
                    p, q = g.pos(t), pos_at(sb, tb, t)
                    lim = 2e-6 * (1 + max(map(abs, p))) + 1e-7 * (1 + t) * max(map(abs, g.v0 + g.v1))
                    need(
                        all(abs(x - y) <= lim for x, y in zip(p, q)),
                        lambda: f"piece {n} split into {k}: position {q} at {t} s instead of {p}",
                    )
            out["split_moves"] = n_split
            out["nontrivial"] = n_split >= 1 and out["moves"] >= 2
    return out
