"""C19: the 3D mesh covers exactly the plotted path."""

import contextlib

import numpy as np
import pyvista as pv
from hypothesis import strategies as st

from .. import gen
from ..core import need, norm3
from ..simio import Display, Scratch, simulate, traj_key
from ..traj import Obs

N = {"quick": 6000, "thorough": 60000}
RULE = (
    "random programs that extrude while travelling (with travels, retractions, dwells, extruder-only moves between), "
    "extrusion only or all moves; every cell of the mesh (and of the VTK file read back) must lie on the tube around "
    "one expected trajectory piece with the simulated speeds at its ends, every expected piece must be covered as often "
    "as it is travelled, a mesh passed in comes back unchanged; with a stand-in window, that mesh is shown or a screenshot saved exactly when asked for and possible. Cases with pieces shorter than about 2e-3 mm (direction "
    "of the tube lost in rounding) are excluded and counted. Non-trivial: at least 4 expected pieces in at least 2 separate runs, or "
    "travel moves drawn on request."
)
CFG = gen.Cfg(modes=1, macros=2, max_ops=8, dwell=1, eonly=1, zmove=1, extrude=2, micro=0)
RADIUS = 0.2


@st.composite
def case(draw):
    c = draw(gen.cases(CFG))
    c["all"] = draw(st.integers(0, 3)) == 0
    c["default_arg"] = draw(st.booleans())
    c["shot"] = draw(st.integers(0, 5)) == 0
    c["display"] = draw(st.sampled_from([None, True, False, True]))  # None: the real plotter without a display
    c["vtk"] = draw(st.sampled_from([None, "m.vtk", "m.vtu"]))
    return c


def cases(tier):
    return case()


def expected(o, everything):
    out, runs, prev = [], 0, False
    for it, b in zip(o.items, o.blocks):
        on = it.kind != "dwell" and (everything or it.p1[3] > it.p0[3])
        if on and it.kind == "xyz":
            out.extend((g.p0[:3], g.p1[:3], norm3(g.v0), norm3(g.v1)) for g in b)
            runs += not prev
        prev = on
    return out, runs


def tolerance(want):
    return 1e-6 * (1 + max(abs(x) for w in want for p in w[:2] for x in p))


def verify(mesh, want, verts, what):
    need(mesh.n_points > 0 and mesh.n_cells > 0, f"{what}: empty mesh")
    need("velocity" in mesh.point_data, f"{what}: no velocities at the vertices ({mesh.array_names})")
    P = np.asarray(mesh.points, float)
    V = np.asarray(mesh.point_data["velocity"], float)
    A = np.array([w[0] for w in want])
    B = np.array([w[1] for w in want])
    va = np.array([w[2] for w in want])
    vb = np.array([w[3] for w in want])
    D = B - A
    L = np.linalg.norm(D, axis=1)
    D /= L[:, None]
    tol = tolerance(want)

    def ring(C, v):
        X = P[:, None, :] - C[None, :, :]
        along = np.abs(np.einsum("ijk,jk->ij", X, D))
        r = np.linalg.norm(X, axis=2)
        # direction of a short piece is only known to rounding/length
        lim = tol + RADIUS * np.minimum(1.0, 2 * tol / L)[None, :]
        return (along <= lim) & (np.abs(r - RADIUS) <= tol + lim) & (np.abs(V[:, None] - v[None, :]) <= 1e-4 * (1 + v[None, :]))

    ra, rb = ring(A, va), ring(B, vb)
    # pieces travelled repeatedly in the same way (or in the reverse way) share their cells
    group = {}
    for n, w in enumerate(want):
        k = sorted(
            [tuple(round(x / (4 * tol)) for x in w[0]) + (round(w[2], 2),), tuple(round(x / (4 * tol)) for x in w[1]) + (round(w[3], 2),)]
        )
        group.setdefault(tuple(k), []).append(n)
    rep = np.zeros(len(want), int)
    for ns in group.values():
        rep[ns] = ns[0]
    side = np.zeros(len(want), int)
    n_side = 0
    E = np.array([w[0] for w in verts])
    ve = np.array([w[1] for w in verts])
    near = (np.abs(np.linalg.norm(P[:, None, :] - E[None, :, :], axis=2) - RADIUS) <= 10 * tol) & (
        np.abs(V[:, None] - ve[None, :]) <= 1e-4 * (1 + ve[None, :])
    )
    for n in range(mesh.n_cells):
        ids = mesh.get_cell(n).point_ids
        a, b = ra[ids], rb[ids]
        ok = np.flatnonzero((a | b).all(axis=0))
        # (an invisible disc of a piece of rounding length may have any direction)
        need(
            len(ok) > 0 or near[ids].all(axis=0).any(),
            lambda: f"{what}: cell {n} with points {P[ids][:4].round(4).tolist()}, velocities {V[ids][:4].round(4).tolist()} is not on "
            "the tube around any expected piece",
        )
        s = [k for k in ok if a[:, k].any() and b[:, k].any() and not (a[:, k].all() or b[:, k].all())]
        if s:
            for k in {rep[k] for k in s}:
                side[k] += 1
            n_side += 1
    need(
        all(side[rep[n]] > 0 for n in range(len(want))),
        lambda: f"{what}: the piece {want[[n for n in range(len(want)) if not side[rep[n]]][0]]} is not covered",
    )
    # a piece travelled k times has k times the cells
    size = {ns[0]: len(ns) for ns in group.values()}
    per = {n: side[n] / k for n, k in size.items()}
    need(min(per.values()) >= 5.99, lambda: f"{what}: a piece is covered less often than it is travelled: {per}")
    need(n_side == 6 * len(want), lambda: f"{what}: {n_side} side faces for {len(want)} pieces of 6 sides each")


def check(case):
    s = case["setup"]
    with Scratch() as scr:
        sim = simulate(scr, case["ops"], s)
        o = Obs(sim)
        want, runs = expected(o, case["all"])
        if not want:
            return {"nothing to plot": 1}
        if any(norm3([x - y for x, y in zip(w[0], w[1])]) < (4 * tolerance(want)) ** 0.5 for w in want):
            return {"excluded_short": 1}
        key = traj_key(sim)
        kw = {} if (case["default_arg"] and not case["all"]) else {"extrusion_only": not case["all"]}
        if case["vtk"]:
            kw["vtk_path"] = scr(case["vtk"])
        if case["shot"]:
            kw["screenshot_path"] = scr("s.png")
        display = case.get("display")
        with contextlib.nullcontext() if display is None else Display(display) as scene:
            mesh = sim.plot_3d(**kw)
        if display is not None:
            what = f"{'with' if display else 'without'} a display, {'with' if case['shot'] else 'without'} a screenshot: "
            need(len(scene.named("show")) == (display and not case["shot"]), what + f"{len(scene.named('show'))} windows shown")
            shots = [c[3].get("filename", *c[2]) for c in scene.named("screenshot")]
            need([str(x) for x in shots] == [scr("s.png")] * (display and case["shot"]), what + f"screenshots {shots}")
            if display:
                drawn = [c[3].get("mesh", *c[2]) for c in scene.named("add_mesh")]
                need(len(drawn) == 1 and drawn[0] is mesh or drawn == [mesh], what + f"{len(drawn)} meshes drawn")
                need(scene.named("add_mesh")[0][3].get("scalars", "velocity") == "velocity", what + "not coloured by velocity")
                need(bool(scene.named("new")[0][3].get("off_screen", False)) == case["shot"], what + "wrong kind of plotter")
        verts = [(p, norm3(v)) for g in o.segs for p, v in ((g.p0[:3], g.v0), (g.p1[:3], g.v1))]
        verify(mesh, want, verts, "mesh")
        if case["vtk"]:
            verify(pv.read(scr(case["vtk"])), want, verts, "VTK file")
        before = (np.array(mesh.points), np.array(mesh.point_data["velocity"]))
        again = sim.plot_3d(mesh=mesh, vtk_path=scr("again.vtk"), extrusion_only=case["all"])
        for m, name in ((again, "returned mesh"), (pv.read(scr("again.vtk")), "VTK file of the mesh passed in")):
            need(
                m.n_cells == mesh.n_cells
                and np.array_equal(before[0], m.points)
                and np.array_equal(before[1], m.point_data["velocity"]),
                f"{name} differs from the mesh passed in",
            )
        need(traj_key(sim) == key, "plotting changed the trajectory")
        pv.close_all()
    return {"all moves": case["all"], "runs": runs, "vtk": bool(case["vtk"]), "display " + str(case.get("display")): 1, "nontrivial": len(want) >= 4 and (runs >= 2 or case["all"])}
