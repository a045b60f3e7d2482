"""C03: G92 re-labels coordinates without moving the machine."""

from hypothesis import strategies as st

from .. import gen, paths
from ..core import close, need
from ..model import interpret
from ..simio import Scratch, simulate
from ..traj import Obs, labels

N = {"quick": 12000, "thorough": 300000}
RULE = (
    "one random physical path written twice, without G92 and with G92 at random places (any axes and values, repeated, "
    "in absolute and relative modes, millimetres and inches, later coordinates re-based); both must give the same "
    "trajectory, no G92 line may change the machine position or take time. Non-trivial: a G92 that really shifts an "
    "origin, followed by an absolute word on that axis."
)


@st.composite
def cases(draw, tier="quick"):
    s = draw(gen.setups(init=False))
    if draw(st.integers(0, 2)) == 0:
        s["init"] = [str(paths.dec(draw(st.integers(-200, 200)) * paths.Q)) for _ in range(4)]
    path = draw(paths.paths())
    modes, units = draw(st.booleans()), draw(st.booleans())
    a = paths.Encoder(draw, s, modes=modes, units=False, g92=False, repeat=False).encode(path)
    b = paths.Encoder(draw, s, modes=modes, units=units, g92=True, repeat=draw(st.booleans())).encode(path)
    return {"setup": s, "plain": a, "relabelled": b}


def check(case):
    s, a, b = case["setup"], case["plain"], case["relabelled"]
    ia, ib = interpret(a, s), interpret(b, s)
    if paths.executed(ia) != paths.executed(ib):
        return {"inconsistent_case": 1}
    with Scratch() as scr:
        oa = Obs(simulate(scr, a, s, "plain"))
        ob = Obs(simulate(scr, b, s, "relabelled"))
        for i, op in enumerate(b):
            if op["o"] == "G92":
                p, q = ob.states[i]["pos"], ob.states[i + 1]["pos"]
                need(p == q, f"line {i + 1} (G92 {op['w']}) moves the machine from {p} to {q}")
                need(all(it.idx != i + 1 for it in ob.items), f"line {i + 1} (G92) is executed as a motion")
        for i, (g, w) in enumerate(zip(ob.states, ib)):
            need(
                all(close(x, float(y), 1e-9, 1e-12) for x, y in zip(g["pos"], w["pos"])),
                f"line {i} ({b[i - 1] if i else 'initial'}): machine at {g['pos']}, expected {[float(x) for x in w['pos']]}",
            )
        if paths.any_threshold(oa.items, s["firmware"]):
            return {"excluded_threshold": 1}
        paths.compare(oa, ob, "with G92")
    out = labels(ob)
    shifted, used = set(), False
    from ..model import Machine

    m = Machine(s)
    for op in b:
        if op["o"] in ("G0", "G1"):
            used |= any(ax in shifted and m.is_abs(ax) for ax in op["w"] if ax != "F")
        m.apply(op)
        shifted = {ax for ax in m.off if m.off[ax] != 0}
    out["g92"] = sum(op["o"] == "G92" for op in b)
    out["nontrivial"] = used
    return out
