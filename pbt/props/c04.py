"""C04: equivalent encodings of a path give the same motion."""

from hypothesis import strategies as st

from .. import gen, paths
from ..core import close, need
from ..model import interpret
from ..simio import Scratch, simulate
from ..traj import Obs, labels

N = {"quick": 12000, "thorough": 300000}
RULE = (
    "one random physical path written in two independently drawn encodings (absolute/relative, absolute/relative "
    "extrusion, G0/G1, settings repeated or stated once, unchanged coordinates repeated, millimetres/inches, switched "
    "anywhere); both must give the same trajectory and settings, and that of the exact interpreter. Non-trivial: at "
    "least two moves and the encodings differ in positioning mode, extrusion mode or unit during a move."
)


@st.composite
def cases(draw, tier="quick"):
    s = draw(gen.setups(init=False))
    if draw(st.integers(0, 2)) == 0:
        s["init"] = [str(paths.dec(draw(st.integers(-200, 200)) * paths.Q)) for _ in range(4)]
    path = draw(paths.paths())
    a = paths.Encoder(draw, s, modes=draw(st.booleans()), units=False, repeat=draw(st.booleans())).encode(path)
    b = paths.Encoder(draw, s, modes=True, units=draw(st.integers(0, 3)) > 0).encode(path)
    return {"setup": s, "a": a, "b": b}


def modes(ops, s):
    from ..model import Machine

    m = Machine(s)
    out = []
    for op in ops:
        before = tuple(m.pos.values())
        m.apply(op)
        if tuple(m.pos.values()) != before:
            out.append((m.abs, m.eabs, m.inch))
    return out


def check(case):
    s, a, b = case["setup"], case["a"], case["b"]
    ia, ib = interpret(a, s), interpret(b, s)
    if paths.executed(ia) != paths.executed(ib):
        return {"inconsistent_case": 1}
    with Scratch() as scr:
        oa = Obs(simulate(scr, a, s, "a"))
        ob = Obs(simulate(scr, b, s, "b"))
        for o, ref, name in ((oa, ia, "a"), (ob, ib, "b")):
            for i, (g, w) in enumerate(zip(o.states, ref)):
                need(
                    all(close(x, float(y), 1e-9, 1e-12) for x, y in zip(g["pos"], w["pos"])),
                    f"encoding {name}, line {i}: machine at {g['pos']}, expected {[float(x) for x in w['pos']]}",
                )
        need(len(oa.items) == len(ob.items), f"{len(oa.items)} against {len(ob.items)} executed pieces")
        for x, y in zip(oa.items, ob.items):
            for k in ("feed", "acc", "jerk"):
                need(
                    close(getattr(x, k), getattr(y, k), 1e-9, 1e-9),
                    f"lines {oa.line(x)}/{ob.line(y)}: {k} {getattr(x, k)} against {getattr(y, k)}",
                )
        if paths.any_threshold(oa.items, s["firmware"]):
            return {"excluded_threshold": 1}
        paths.compare(oa, ob, "second encoding")
    ma, mb = modes(a, s), modes(b, s)
    out = labels(ob)
    out["inch_moves"] = sum(x[2] for x in mb)
    out["nontrivial"] = len(ma) >= 2 and ma != mb
    return out
