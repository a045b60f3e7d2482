"""Observations on a simulated trajectory shared by several checks."""

import math

from .core import need, norm3
from .model import items_from_states
from .simio import blocks, states

POS_TOL = 2e-6
T_TOL = 1e-9


class Obs:
    """Blocks of the trajectory matched with the executed items of the simulation's own states."""

    def __init__(self, sim):
        self.sim = sim
        self.states = states(sim)
        self.items = items_from_states(self.states)
        self.blocks = blocks(sim)
        need(
            len(self.blocks) == len(self.items),
            lambda: f"{len(self.blocks)} executed pieces for {len(self.items)} moves and dwells "
            f"(lines {[self.states[i.idx]['line'] for i in self.items]})",
        )
        for it, b in zip(self.items, self.blocks):
            need(len(b) > 0, lambda: f"line {self.states[it.idx]['line']}: a move without any trajectory")

    def line(self, it):
        return self.states[it.idx]["line"]

    @property
    def segs(self):
        return [s for b in self.blocks for s in b]

    @property
    def t_end(self):
        return self.blocks[-1][-1].t1 if self.blocks else 0.0


def speed(kind, v):
    """Scalar speed along a move."""
    return abs(v[3]) if kind == "e" else norm3(v)


def scale_of(*vecs):
    return 1.0 + max(max(abs(x) for x in v) for v in vecs)


def labels(obs):
    """Classification of a trajectory for the evidence."""
    it = obs.items
    kinds = {k: sum(i.kind == k for i in it) for k in ("xyz", "e", "dwell")}
    fast = sum(
        1
        for b, i in zip(obs.blocks, it)
        if i.kind == "xyz" and norm3(b[-1].v1) > 1e-9
    )
    ramp_only = sum(1 for b, i in zip(obs.blocks, it) if i.kind == "xyz" and len(b) == 1 and b[0].v0 != b[0].v1)
    return {
        "moves": kinds["xyz"],
        "e_only": kinds["e"],
        "dwells": kinds["dwell"],
        "moving_junctions": fast,
        "single_ramp_moves": ramp_only,
    }


def straight(a, b):
    return sum(x * y for x, y in zip(a.dir[:3], b.dir[:3]))


def hyp(v):
    return math.sqrt(sum(x * x for x in v))
