"""C25: trajectory segments are self-consistent, reject inconsistency; time at a distance inverts position over time."""

import math

from hypothesis import strategies as st

from .. import gen
from ..core import close, need
from ..simio import Scratch, simulate, traj_key
from ..traj import Obs, labels
from .c16 import time_at

from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position, segment, velocity

N = {"quick": 30000, "thorough": 1500000}
RULE = (
    "2 of 3 cases: a random segment (velocities, times, positions) with an injected end-position error or a reversed "
    "time interval, accepted or rejected, then queried at random times against closed-form kinematics, before and after "
    "shifting in time; its speed results against integrals. 1 of 3: distances along every move of a random program, inverted by bisection on the move's own "
    "position over time. Non-trivial: an accelerating segment with queries inside, or 3 distances inside moves that are "
    "reached on ramps."
)
ASSUMPTIONS = ["end positions within 0.6e-6 mm of the displacement count as equal, beyond 2e-6 mm as different (X, Y, Z)"]

fl = st.one_of(
    st.integers(-400, 400).map(lambda k: k / 4),
    st.floats(-300, 300, allow_nan=False, allow_subnormal=False),
    st.just(0.0),
)
vec = st.lists(fl, min_size=4, max_size=4)
FR = [0.0, 1.0, 0.5, 0.25, 0.999, 0.001]
CFG = gen.Cfg(max_ops=8, macros=2, eonly=0, micro=2)


@st.composite
def seg_case(draw):
    return {
        "kind": "seg",
        "t0": draw(st.one_of(st.just(0.0), st.floats(0, 1e4), st.integers(0, 50))),
        "dt": draw(st.one_of(st.just(0.0), st.floats(1e-6, 20), st.sampled_from([1.0, 0.5, 2, 0.125]))),
        "p0": draw(vec),
        "v0": draw(vec),
        "v1": draw(vec),
        "par": draw(st.booleans()),
        "err": draw(st.sampled_from([0, 0, 0, 1e-7, 6e-7, 2e-6, 5e-6, 1e-5, 1e-4, 1e-3, 0.1, 10.0])),
        "dir": draw(st.lists(st.integers(-3, 3), min_size=3, max_size=3)),
        "back": draw(st.sampled_from([0, 0, 0, 0, 1e-6, 0.5])),
        "shift": draw(st.one_of(st.integers(-20, 100), st.floats(-100, 1e4))),
        "fr": draw(st.lists(st.one_of(st.sampled_from(FR), st.floats(0, 1)), min_size=1, max_size=5)),
        "out": draw(st.sampled_from([1e-6, 1e-3, 1.0, 1000.0])),
        "speed": draw(st.floats(0.1, 400)),
        "target": draw(st.one_of(st.floats(0.5, 400), st.sampled_from([0, 1, 60.0, 100]))),
        "target_first": draw(st.sampled_from([0, 0, 25.0])),
    }


@st.composite
def prog_case(draw):
    c = draw(gen.cases(CFG))
    c["kind"] = "prog"
    c["fr"] = draw(st.lists(st.one_of(st.sampled_from(FR), st.floats(0, 1)), min_size=2, max_size=6))
    return c


def cases(tier):
    return st.one_of(seg_case(), seg_case(), prog_case())


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


def key(s):
    return [s.t_begin, s.t_end] + [x for v in (s.pos_begin, s.pos_end, s.vel_begin, s.vel_end) for x in v.get_vec(withExtrusion=True)]


def check_seg(c):
    t0, dt = float(c["t0"]), float(c["dt"])
    p0, v0, v1 = c["p0"], c["v0"], c["v1"]
    if c["par"]:
        f = v1[0] / 100
        v1 = [x * f for x in v0]
    if c["back"]:
        dt = -c["back"]
    t1 = t0 + dt
    dt = t1 - t0
    d = [(a + b) / 2 * dt for a, b in zip(v0, v1)]
    n = math.sqrt(sum(x * x for x in c["dir"]))
    u = [x / n for x in c["dir"]] if n else [1.0, 0.0, 0.0]
    p1 = [a + b for a, b in zip(p0, d)]
    for k in range(3):
        p1[k] += u[k] * c["err"]
    mk = lambda: segment(  # noqa: E731
        t_begin=t0,
        t_end=t1,
        pos_begin=position(*p0),
        vel_begin=velocity(*v0),
        pos_end=position(*p1),
        vel_end=velocity(*v1),
    )
    bad = c["err"] >= 2e-6 or dt < 0
    if bad:
        need(
            raises(mk),
            lambda: f"a segment with an end position wrong by {c['err']} mm and duration {dt} s is accepted",
        )
        return {"rejected": 1, "nontrivial": any(v0[:3]) and any(v1[:3])}
    s = mk()
    k0 = key(s)
    need(k0 == [t0, t1] + p0 + p1 + v0 + v1, "the segment does not store what it was given")

    def query(off):
        for f in c["fr"]:
            t = min(max(s.t_begin + f * (s.t_end - s.t_begin), s.t_begin), s.t_end)
            x = t - s.t_begin
            T = s.t_end - s.t_begin
            r = x / T if T > 0 else 0.0
            # the interval keeps its length up to the rounding of the shifted times
            slack = 4e-16 * (abs(s.t_end) + abs(t0) + abs(t1)) * (1 / T if T > 0 else 0)
            v = s.get_velocity(t).get_vec(withExtrusion=True)
            p = s.get_position(t).get_vec(withExtrusion=True)
            for i in range(4):
                sv = max(abs(v0[i]), abs(v1[i]))
                want = v0[i] + (v1[i] - v0[i]) * r
                need(abs(v[i] - want) <= (1e-9 + slack) * (1e-3 + sv), lambda: f"velocity {v} at {t}, axis {i} should be {want}")
                want = p0[i] + v0[i] * x + (v1[i] - v0[i]) * r * x / 2
                need(
                    abs(p[i] - want) <= 1e-9 * (1 + abs(p0[i])) + (1e-9 + slack) * sv * (T + 1e-9),
                    lambda: f"position {p} at {t}, axis {i} should be {want}",
                )
        for t in (s.t_begin - c["out"], s.t_end + c["out"]):
            need(raises(s.get_velocity, t), lambda: f"velocity at {t} outside {s.t_begin}..{s.t_end} is answered")
            need(raises(s.get_position, t), lambda: f"position at {t} outside {s.t_begin}..{s.t_end} is answered")
        need(close(s.get_segm_duration(), dt, 1e-11 * (1 + abs(s.t_end)), 1e-12), lambda: f"duration {s.get_segm_duration()} instead of {dt}")
        ln = math.sqrt(sum((b - a) ** 2 for a, b in zip(p0[:3], p1[:3])))
        need(close(s.get_segm_len(), ln, 1e-12, 1e-12), lambda: f"length {s.get_segm_len()} instead of {ln}")
        need(bool(s.is_extruding()) == (p1[3] > p0[3]), "is_extruding")

    query(0)
    need(key(s) == k0, "queries changed the segment")
    sh = float(c["shift"])
    s.move_segment_time(sh)
    k1 = key(s)
    need(k1[2:] == k0[2:], "shifting in time changed positions or velocities")
    need(
        close(k1[0], t0 + sh, 1e-12 * (1 + abs(t0) + abs(sh)), 0) and close(k1[1], t1 + sh, 1e-12 * (1 + abs(t1) + abs(sh)), 0),
        lambda: f"shifted by {sh}: {k0[:2]} -> {k1[:2]}",
    )
    query(sh)

    # speed limit of the settings
    ps = state.p_settings(p_acc=1, jerk=1, vX=1, vY=1, vZ=1, vE=1, speed=c["speed"])
    top = max(math.sqrt(sum(x * x for x in v[:3])) for v in (v0, v1))
    if top > c["speed"] * 1.001:
        need(raises(s.self_check, p_settings=ps), lambda: f"speed {top} above {c['speed']} passes the self check")
    elif top <= c["speed"]:
        need(not raises(s.self_check, p_settings=ps), lambda: f"speed {top} within {c['speed']} fails the self check")

    results(c, s, p0, p1, v0, v1, dt)
    need(key(s)[2:] == k0[2:], "computing results changed the segment")

    i = segment.create_initial(initial_position=position(*p0))
    need(key(i) == [0, 0] + p0 + p0 + [0] * 8, "initial segment is not at rest at the initial position")
    i = segment.create_initial()
    need(key(i) == [0] * 18, "initial segment without a position is not at rest at zero")
    return {
        "accepted": 1,
        "accelerating": v0 != v1,
        "nontrivial": v0 != v1 and dt > 0 and any(0 < f < 1 for f in c["fr"]),
    }


def results(c, s, p0, p1, v0, v1, dt):
    """Speeds, relative deviations from a target speed, deviation accumulated along the way (straight pieces)."""
    norm = lambda v: math.sqrt(sum(x * x for x in v[:3]))  # noqa: E731
    a, b, vt = norm(v0), norm(v1), c.get("target", 60)
    for k in ("vel", "rel_vel_err", "segm_error", "other"):
        if k not in s.result:
            need(raises(s.get_result, k), lambda: f"result {k} is answered although there is none")
    if c.get("target_first"):
        s.calc_results(v_target=c["target_first"])
    s.calc_results(v_target=vt)
    tol = 1e-9 * (1 + a + b)
    got = [float(x) for x in s.get_result("vel")]
    need(close(got[0], a, 0, tol) and close(got[1], b, 0, tol), lambda: f"speeds {got} instead of {[a, b]}")
    got = [float(x) for x in s.get_result("rel_vel_err")]
    want = [(vt - a) / vt, (vt - b) / vt] if vt > 0 else [0, 0]
    tol = 1e-9 * (1 + (a + b) / (vt or 1))
    need(close(got[0], want[0], 0, tol) and close(got[1], want[1], 0, tol), lambda: f"relative deviations {got} instead of {want}")
    got = [float(x) for x in s.get_result("segm_error")]
    need(len(got) == 2 and got[0] == got[1], lambda: f"accumulated deviation {got}: two equal values expected")
    if vt <= 0:
        need(got[0] == 0, lambda: f"accumulated deviation {got[0]} without a target speed")
    elif c["par"] and c["v1"][0] >= 0 and dt > 1e-5 and abs(a - b) > 1e-3 * (a + b) and min(x for x in (a, b) if x) > 1e-3:
        # integral of (1 - v / vt) over the way of a piece with constant acceleration: length - integral of v^2 dt / vt
        ln = (a + b) / 2 * dt
        want = ln - dt * (a * a + a * b + b * b) / 3 / vt
        tol = 1e-6 * (1 + ln) * (1 + (a + b) / vt) * max(1, (a + b) / abs(a - b))
        need(abs(got[0] - want) <= tol, lambda: f"accumulated deviation {got[0]} instead of {want}")


def check_prog(c):
    n_in = ramps = 0
    with Scratch() as scr:
        sim = simulate(scr, c["ops"], c["setup"])
        o = Obs(sim)
        k0 = traj_key(sim)
        for pb, it, b in zip(sim.blocklist, o.items, o.blocks):
            if it.kind != "xyz":
                continue
            L = it.L
            need(close(pb.get_block_travel(), L, 1e-9, 1e-12), lambda: f"line {o.line(it)}: travel {pb.get_block_travel()} instead of {L}")
            cum = 0.0
            ds = [f * L for f in c["fr"]] + [0.0, L]
            for g in b:
                ln = math.sqrt(sum((y - x) ** 2 for x, y in zip(g.p0[:3], g.p1[:3])))
                ds += [cum + ln, cum + ln * c["fr"][0]]
                cum += ln
            last = -1.0
            for d in sorted(min(x, L) for x in ds):
                t = float(pb.inverse_time_at_pos(d))
                want, v = time_at(o, it, b, d)
                acc = max(it.acc, 1e-9)
                # an uncertainty e of the distance means e/v at speed and sqrt(2e/a) at rest
                e = 1e-9 * (1 + max(abs(x) for x in it.p0 + it.p1))
                tol = 1e-9 * (1 + abs(want)) + min(e / max(v, 1e-12), 2 * math.sqrt(2 * e / acc)) + 2 * e / max(v, math.sqrt(2 * e * acc))
                need(
                    math.isfinite(t) and abs(t - want) <= tol,
                    lambda: f"line {o.line(it)}: distance {d} of {L} is reached at {want} s (speed {v}), reported {t} s",
                )
                need(b[0].t0 - 1e-9 <= t <= b[-1].t1 + 1e-9 * (1 + t), lambda: f"line {o.line(it)}: time {t} outside the move")
                need(t >= last - tol, lambda: f"line {o.line(it)}: time {t} at {d} before {last}")
                last = t
                if 0 < d < L:
                    n_in += 1
                    ramps += any(g.t0 < t < g.t1 and g.v0 != g.v1 for g in b)
            need(
                raises(pb.inverse_time_at_pos, L * 1.01 + 0.01),
                lambda: f"line {o.line(it)}: a distance beyond the move is answered",
            )
        need(traj_key(sim) == k0, "queries changed the trajectory")
    out = labels(o)
    out.update({"distances": n_in, "on_ramps": ramps, "nontrivial": ramps >= 3})
    return out


def check(c):
    return check_seg(c) if c["kind"] == "seg" else check_prog(c)
