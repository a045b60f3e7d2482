"""C26: the extrusion width conserves volume."""

import math

from hypothesis import strategies as st

from .. import gen
from ..core import need, norm3
from ..simio import Scratch, simulate, traj_key
from ..traj import Obs, labels, speed

N = {"quick": 14000, "thorough": 400000}
RULE = (
    "random extruding programs x unit systems x layer heights x filament diameters, queried in random order at piece "
    "boundaries and in between; the expected width is (dE/dL of the programmed move) x filament area / height while "
    "the nozzle travels, 0 at rest, during dwells and extruder-only moves. Non-trivial: at least 3 queries on extruding "
    "travel, one of them on a ramp."
)
CFG = gen.Cfg(max_ops=8, dwell=2, eonly=2, macros=2, extrude=6)


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, units=True))
    c["q"] = draw(
        st.lists(
            st.tuples(
                st.integers(0, 60),
                st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0.01, 0.99)),
                st.sampled_from([0.2, 0.1, 0.35, 1, 0.0002, 0.0078]),
                st.sampled_from([1.75, 2.85, 1, 0.00175, 0.069]),
            ),
            min_size=3,
            max_size=14,
        )
    )
    return c


def cases(tier):
    return case()


def check(c):
    ext = ramp = zero = 0
    with Scratch() as scr:
        sim = simulate(scr, c["ops"], c["setup"])
        o = Obs(sim)
        if not o.blocks:
            return {"no motion": 1}
        flat = [(it, g) for it, b in zip(o.items, o.blocks) for g in b]
        key = traj_key(sim)
        for n, f, h, dia in c["q"]:
            it, g = flat[n % len(flat)]
            t = min(g.t0 + f * (g.t1 - g.t0), g.t1) if f < 1 else g.t1
            area = math.pi * dia * dia / 4
            w = float(sim.get_width(t, h, dia))
            need(math.isfinite(w), lambda: f"width {w} at {t}")
            # width and volume agree with the reported velocity
            vel = [float(x) for x in sim.get_values(t)[0]]
            sp = norm3(vel)
            if sp == 0:
                need(w == 0, lambda: f"t={t}: width {w} without travel")
            else:
                need(
                    abs(w * h * sp - vel[3] * area) <= 1e-9 * (abs(vel[3]) + sp) * area,
                    lambda: f"t={t}: width {w} x height {h} x speed {sp} = {w * h * sp}, extruded volume rate {vel[3] * area}",
                )
            # ... and with the programmed move
            cand = []
            for jt, s in flat:
                if s.t0 - 1e-9 <= t <= s.t1 + 1e-9:
                    r = jt.dir[3] * area / h if jt.kind == "xyz" else 0.0
                    v = speed("xyz", s.vel(min(max(t, s.t0), s.t1)))
                    cand.append(r)
                    if v < 1e-6 * (1 + jt.feed):
                        cand.append(0.0)
            need(
                any(abs(w - r) <= 1e-6 * (1 + abs(r)) for r in cand) or sp < 1e-6,
                lambda: f"t={t} (line {o.line(it)}): width {w}, programmed {cand} (height {h}, filament {dia})",
            )
            if 0 < f < 1 and g.t1 > g.t0:
                if it.kind == "xyz":
                    ext += it.dir[3] > 0
                    ramp += it.dir[3] > 0 and g.v0 != g.v1
                else:
                    zero += 1
        need(traj_key(sim) == key, "width queries changed the trajectory")
    out = labels(o)
    out.update({"on_extruding_travel": ext, "on_ramps": ramp, "at_rest": zero, "nontrivial": ext >= 3 and ramp >= 1})
    return out
