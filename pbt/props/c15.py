"""C15: layer metrics partition the print."""

import contextlib
import locale
import os

from hypothesis import strategies as st

from .. import gen
from ..core import close, need, norm3
from ..model import interpret
from ..simio import Scratch, simulate
from ..traj import Obs

from pyGCodeDecode.tools import save_layer_metrics

N = {"quick": 13000, "thorough": 250000}
RULE = (
    "random programs with layer-cue comments at any line (first, last, repeated, on moves, on non-moves), dwells and "
    "extruder-only moves; every row compared with the times and lengths of the moves that belong to the layer, sums "
    "with the totals, the table with the lists. Non-trivial: at least 3 layers with motion."
)
CFG = gen.Cfg(modes=1, g92=1, units=1, macros=1, max_ops=12, comments=3, move=6, dwell=1, eonly=1)


@st.composite
def case(draw):
    c = draw(gen.cases(CFG, cue=True, units=True))
    if c["setup"]["cue"] is not None:  # more layer changes
        ops = []
        for op in c["ops"]:
            r = draw(st.integers(0, 7))
            if r == 0:
                ops.append({"o": "comment", "c": c["setup"]["cue"]})
            elif r == 1 and op["o"] not in ("comment", "blank"):
                op = dict(op, c=" " + c["setup"]["cue"])
            ops.append(op)
        c["ops"] = ops
    c["delim"] = draw(st.sampled_from([None, ",", ";", "\t", "|"]))
    c["file"] = draw(st.sampled_from([None, "m.csv", "x/y/m.csv", "layer_metrics.csv"]))
    c["loc"] = draw(st.sampled_from(["C", "C", "POSIX", "C.UTF-8", None]))
    c["nameless"] = c["file"] == "layer_metrics.csv"
    return c


def cases(tier):
    return case()


def check(case):
    s = case["setup"]
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], s)
        path = scr(case["file"] or "none.csv")
        loc = locale.setlocale(locale.LC_ALL)
        kw = {} if case["delim"] is None else {"delimiter": case["delim"]}
        if case.get("nameless"):  # the documented default, in the working directory
            with contextlib.chdir(scr.path):
                got = save_layer_metrics(sim, locale=case.get("loc", "C"), **kw)
        else:
            got = save_layer_metrics(sim, filepath=path if case["file"] else None, locale=case.get("loc", "C"), **kw)
        now = locale.setlocale(locale.LC_ALL)
        if now != loc:
            locale.setlocale(locale.LC_ALL, loc)
        need(now == loc, f"the locale of the process is {now} instead of {loc}")
        if s["cue"] is None:
            need(got is None and not os.path.exists(path), f"metrics {got} without a layer cue")
            return {"no cue": 1}
        if not case["file"]:
            need(not os.path.exists(path), "a file was written although none was requested")
        need(isinstance(got, tuple) and len(got) == 4, f"metrics are {got!r}")
        layers, durs, dists, avgs = [list(x) for x in got]
        need(len(layers) == len(durs) == len(dists) == len(avgs), "lists of different lengths")
        o = Obs(sim)
        need(all(a < b for a, b in zip(layers, layers[1:])), f"layers {layers} not increasing")
        # expected rows, from the layers the file itself prescribes
        file_layers = [w["layer"] for w in interpret(case["ops"], s)]
        rows = {}
        for it, b in zip(o.items, o.blocks):
            ly = file_layers[it.idx]
            r = rows.setdefault(ly, [b[0].t0, 0.0])
            r[1] += 0.0 if it.kind == "dwell" else norm3([x - y for x, y in zip(it.p0, it.p1)])
        order = sorted(rows)
        starts = [rows[ly][0] for ly in order] + [o.t_end]
        want = {ly: (starts[n + 1] - starts[n], rows[ly][1]) for n, ly in enumerate(order)}
        if o.blocks:
            missing = [ly for ly in order if ly not in layers]
            need(not missing, f"layers {missing} have moves but no row (rows {layers})")
        for ly, t, d, a in zip(layers, durs, dists, avgs):
            wt, wd = want.get(ly, (0.0, 0.0))
            need(close(float(t), wt, 1e-9, 1e-9), f"layer {ly}: {t} s, its moves take {wt} s")
            need(close(float(d), wd, 1e-9, 1e-9), f"layer {ly}: {d} mm, its moves cover {wd} mm")
            if t > 0:
                need(close(float(a), d / t, 1e-12, 1e-9), f"layer {ly}: average {a}, {d} mm in {t} s")
            else:
                need(str(a).lower() == "nan" or d == 0 and float(a) == 0, f"layer {ly}: average {a} of {d} mm in {t} s")
        if o.blocks:
            need(close(sum(map(float, durs)), o.t_end, 1e-9, 1e-9), f"durations {durs} do not sum to {o.t_end}")
            total = sum(r[1] for r in rows.values())
            need(close(sum(map(float, dists)), total, 1e-9, 1e-9), f"distances {dists} do not sum to {total}")
        if case["file"]:
            lines = open(path, encoding="utf-8").read().splitlines()
            dl = case["delim"] or ";"
            need(len(lines) == len(layers) + 1, f"table with {len(lines)} lines for {len(layers)} layers")
            head = [c.strip() for c in lines[0].split(dl)]
            need(len(head) == 4 and head[0] == "layer", f"header {lines[0]!r}")
            need(all(k in c for k, c in zip(("layer", "time", "distance", "speed"), head)), f"header {lines[0]!r}")
            for ln, row in zip(lines[1:], zip(layers, durs, dists, avgs)):
                cells = [c.strip() for c in ln.split(dl)]
                need(len(cells) == 4, f"table row {ln!r}")
                for c, v in zip(cells, row):
                    if str(v).lower() == "nan":
                        need(c.lower() == "nan", f"table row {ln!r}, lists {row}")
                    else:
                        need(close(float(c), float(v), 1e-12, 1e-9), f"table row {ln!r}, lists {row}")
    return {
        "layers": len(order),
        "empty layers": len(order) > 0 and len(order) < order[-1] + 1,
        "nontrivial": len(order) >= 3,
    }
