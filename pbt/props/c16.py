"""C16: submodel entry and exit times match the trajectory."""

import contextlib
import json
from fractions import Fraction as Fr

import yaml
from hypothesis import strategies as st

from .. import gen
from ..core import close, need
from ..simio import Scratch, simulate, traj_key
from ..traj import Obs, speed

from pyGCodeDecode.tools import write_submodel_times

N = {"quick": 14000, "thorough": 300000}
RULE = (
    "random program and boxes whose faces lie between, exactly at and around the programmed positions; crossings found "
    "by exact rational slab clipping of the programmed path against the closed box (points on the faces are inside), "
    "times by inverting the simulated motion. Boxes grazed within 1e-9 by a move that neither begins nor ends inside "
    "are excluded and counted, as are boxes with a programmed point on a face but for rounding. Non-trivial: at least 2 crossings of which one is on a ramp."
)
NEAR = Fr(1, 10**9)
CFG = gen.Cfg(modes=1, g92=1, macros=3, max_ops=9, dwell=1, eonly=1, zmove=1, size=(1, 400))
KW = [{}, {"name": "part 1"}, {"a": 1, "b": [1, 2.5], "c": {"d": None}}, {"time": 5, "n": "x"}]


@st.composite
def case(draw):
    c = draw(gen.cases(CFG))
    boxes = []
    for _ in range(draw(st.integers(1, 4))):
        b = []
        for ax in range(3):
            r = draw(st.integers(0, 5))
            # [kind, position selector, fraction or size]
            if r <= 2:  # general position around a point on the path
                b.append(["path", draw(st.integers(0, 60)), draw(st.integers(-40, 40)), draw(st.integers(1, 90))])
            elif r <= 4 and ax < 2 or r == 4:  # faces exactly at programmed coordinates
                b.append(["grid", draw(st.integers(0, 60)), draw(st.integers(0, 60)), 0])
            else:  # large
                b.append(["wide", 0, 0, 0])
        boxes.append(b)
    c["boxes"] = boxes
    c["kw"] = draw(st.sampled_from(KW))
    c["file"] = draw(st.booleans())
    c["nameless"] = draw(st.integers(0, 7)) == 0
    return c


def cases(tier):
    return case()


def time_at(o, it, b, d):
    """Time at which the distance d (float) along the move is reached, by scanning its pieces."""
    for g in b:
        u0 = sum((x - a) * e for x, a, e in zip(g.p0[:3], it.p0, it.dir))
        u1 = sum((x - a) * e for x, a, e in zip(g.p1[:3], it.p0, it.dir))
        if d <= u1 or g is b[-1]:
            x = min(max(d - u0, 0.0), u1 - u0)
            lo, hi = g.t0, g.t1
            v0, v1 = speed("xyz", g.v0), speed("xyz", g.v1)
            T = hi - lo
            if T <= 0:
                return lo, v0
            # bisection on position over time
            a, z = 0.0, T
            for _ in range(80):
                m = (a + z) / 2
                if v0 * m + (v1 - v0) / T * m * m / 2 < x:
                    a = m
                else:
                    z = m
            return lo + z, v0 + (v1 - v0) * z / T


def check(case):
    s = case["setup"]
    n_cross = rounded = ramp = excluded = never = exact = edge = 0
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], s)
        o = Obs(sim)
        if not o.blocks:
            return {"no motion": 1}
        key = traj_key(sim)
        pts = [st_["pos"] for st_ in o.states]
        for box in case["boxes"]:
            org, side = [], []
            for ax, (kind, a, b, size) in enumerate(box):
                xs = [p[ax] for p in pts]
                if kind == "path":
                    x0, x1 = xs[a % len(xs)], xs[(a + 1) % len(xs)]
                    c = x0 + (x1 - x0) * 0.37 + b * 0.0137
                    org.append(c)
                    side.append(0.0131 + size * size * 0.00719)
                elif kind == "grid":
                    x0, x1 = sorted((xs[a % len(xs)], xs[b % len(xs)]))
                    x1 = x1 if x1 > x0 else x0 + 1.0
                    org.append((x0 + x1) / 2)
                    side.append(x1 - x0)
                else:
                    org.append(0.5)
                    side.append(20011.0)
            lims = [(Fr(c) - Fr(w) / 2, Fr(c) + Fr(w) / 2) for c, w in zip(org, side)]
            if any(0 < abs(f - Fr(p[ax])) < NEAR for ax in range(3) for f in lims[ax] for p in pts):
                rounded += 1  # a programmed point is on a face but for the rounding of the face
                continue
            want_in, want_out, skip = [], [], False
            for it, b in zip(o.items, o.blocks):
                if it.kind != "xyz":
                    continue
                A = [Fr(x) for x in it.p0[:3]]
                B = [Fr(x) for x in it.p1[:3]]
                ina = all(lo <= x <= hi for x, (lo, hi) in zip(A, lims))
                inb = all(lo <= x <= hi for x, (lo, hi) in zip(B, lims))
                if ina and inb:
                    continue
                t0, t1 = Fr(-10), Fr(10)
                out = False
                ins = []
                for x, y, (lo, hi) in zip(A, B, lims):
                    if x == y:
                        out |= not lo <= x <= hi
                        continue
                    p, q = sorted(((lo - x) / (y - x), (hi - x) / (y - x)))
                    ins.append(p)
                    t0, t1 = max(t0, p), min(t1, q)
                if not ina and not inb and not out and abs(float(t1 - t0)) * it.L < 1e-9 and t1 > 0 and t0 < 1:
                    skip = True
                    break
                if out or t0 > t1 or (t1 < 0) or (t0 > 1):
                    continue
                edge += sum(1 for p in ins if p == t0 and 0 <= p <= 1) > 1
                if not ina:
                    t, v = time_at(o, it, b, float(t0) * it.L)
                    want_in.append((t, v, it))
                    exact += t0 in (0, 1)
                if not inb:
                    t, v = time_at(o, it, b, float(t1) * it.L)
                    want_out.append((t, v, it))
                    exact += t1 in (0, 1)
            if skip:
                excluded += 1
                continue
            path = scr("sub.yaml") if case["file"] else None
            kw = dict(case["kw"])
            if case.get("nameless"):  # the documented default, in the working directory
                path = scr("submodel_times.yaml")
                with contextlib.chdir(scr.path):
                    r = write_submodel_times(sim, org, side[0], side[1], side[2], **kw)
            else:
                r = write_submodel_times(sim, org, side[0], side[1], side[2], filename=path, **kw)
            for k, v in kw.items():
                need(r.get(k) == v, f"extra information {k} is {r.get(k)!r} instead of {v!r}")
            for name, want in (("time_in", want_in), ("time_out", want_out)):
                got = [float(x) for x in r[name]]
                need(
                    len(got) == len(want),
                    lambda: f"box {org} +- {side}: {name} {got}, the path crosses at {[w[0] for w in want]}",
                )
                for x, (t, v, it) in zip(got, want):
                    # position tolerance 1e-8 mm turned into time (at low speed by the ramp)
                    ds = 2e-8 * (1 + max(map(abs, it.p0 + it.p1)))
                    lim = 1e-8 * (1 + t) + ds / max(v, (it.acc * ds) ** 0.5)
                    need(abs(x - t) <= lim, lambda: f"box {org} +- {side}: {name} {x}, the trajectory crosses at {t}")
            need(r["n_filaments"] == len(want_in), f"filament count {r['n_filaments']}, {len(want_in)} entries")
            need(close(r["time_process"], o.t_end, 1e-12, 1e-12), f"process time {r['time_process']}, end {o.t_end}")
            if path:
                d = yaml.safe_load(open(path))
                need(
                    json.dumps(d, sort_keys=True) == json.dumps(r, sort_keys=True),
                    lambda: f"file {d} differs from result {r}",
                )
            n = len(want_in) + len(want_out)
            n_cross += n
            never += n == 0
            for t, v, it in want_in + want_out:
                ramp += any(g.t0 + 1e-9 < t < g.t1 - 1e-9 and g.v0 != g.v1 for b in o.blocks for g in b)
        need(traj_key(sim) == key, "the submodel evaluation changed the trajectory")
    return {
        "crossings": n_cross,
        "excluded_rounded_face": rounded,
        "on ramps": ramp,
        "never crossed": never,
        "excluded_grazing": excluded,
        "at a programmed position": exact,
        "through an edge": edge,
        "nontrivial": n_cross >= 2 and ramp >= 1,
    }
