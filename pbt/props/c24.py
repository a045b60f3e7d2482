"""C24: vector-space laws of the 4D vector types, against plain component tuples."""

import math

import numpy as np
from hypothesis import strategies as st

from ..core import fail, need

from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position, vector_4D, velocity

N = {"quick": 50000, "thorough": 4000000}
RULE = (
    "random sequences of vector operations on a pool of vectors (vector / list / tuple / array operands, int, float "
    "and numpy scalars), each mirrored on plain tuples; after every operation all vectors of the pool and all operands "
    "are compared with the mirror. Plus equality, norms, directions, predicates and speed limiting. Non-trivial: at "
    "least 3 operations, or a speed limit that is exceeded."
)
TYPES = {"vector": vector_4D, "velocity": velocity, "position": position}

ints = st.integers(-1000, 1000)
eighths = st.integers(-8000, 8000).map(lambda k: k / 8)
decis = st.integers(-400000, 400000).map(lambda k: k / 1000)
floats = st.floats(-1e4, 1e4, allow_nan=False, allow_subnormal=False)
tiny = st.sampled_from([0, 0.0, 1, -1, 1e-9, -1e-7, 1e-12, 123456.75, -1e6])
comps = st.one_of(ints, eighths, decis, floats, tiny)
vecs = st.one_of(
    st.lists(comps, min_size=4, max_size=4),
    st.lists(comps, min_size=4, max_size=4),
    st.tuples(st.integers(0, 15), st.lists(comps, min_size=4, max_size=4)).map(
        lambda t: [x if t[0] >> k & 1 else 0 for k, x in enumerate(t[1])]  # some components are exactly zero
    ),
)
scalars = st.one_of(
    st.tuples(st.just("int"), st.integers(-50, 50)),
    st.tuples(st.just("float"), st.one_of(eighths, floats)),
    st.tuples(st.just("np"), floats),
)
ops = st.one_of(
    st.tuples(st.sampled_from(["add", "sub"]), st.integers(0, 9), st.sampled_from(["vec", "list", "tuple", "array"]), st.integers(0, 9)),
    st.tuples(st.sampled_from(["add", "sub"]), st.integers(0, 9), st.sampled_from(["list", "tuple", "array", "ints"]), vecs),
    st.tuples(st.sampled_from(["mul", "div"]), st.integers(0, 9), scalars),
    st.tuples(st.sampled_from(["iadd", "isub"]), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("touch"), st.integers(0, 9)),
)
limits = st.lists(st.one_of(st.integers(1, 400), decis.map(lambda x: abs(x) + 0.5)), min_size=4, max_size=4)


def cases(tier):
    return st.fixed_dictionaries(
        {
            "type": st.sampled_from(sorted(TYPES)),
            "vecs": st.lists(vecs, min_size=1, max_size=4),
            "ctor": st.sampled_from(["args", "list", "tuple", "array"]),
            "ops": st.lists(ops, max_size=8),
            "eq": st.tuples(st.integers(0, 3), st.sampled_from([0.2, 0.4, 4, 10, 1e4, 1e8]), st.sampled_from([1, -1])),
            "limits": limits,
        }
    )


def make(cls, how, c):
    if how == "args":
        return cls(*c)
    if how == "list":
        return cls(list(c))
    if how == "tuple":
        return cls(tuple(c))
    return cls(np.array(c, dtype=float))


def same(vec, ref, what, exact=False):
    got = vec.get_vec(withExtrusion=True)
    need(
        len(got) == 4 and all(g == r or (not exact and abs(g - r) <= 1e-12 * max(abs(g), abs(r))) for g, r in zip(got, ref)),
        lambda: f"{what}: {list(got)} instead of {list(ref)}",
    )


def tol(b):
    return 1e-8 + 1e-5 * abs(b)


def check(case):
    cls = TYPES[case["type"]]
    pool = []
    for c in case["vecs"]:
        src = list(c)
        v = make(cls, case["ctor"], src)
        need(src == list(c), "the constructor changed its argument")
        pool.append([v, tuple(c)])
        same(v, c, "constructor", exact=True)
    for bad in ([1, 2, 3], [1, 2, 3, 4, 5]):
        try:
            cls(*bad)
        except Exception:
            pass
        else:
            need(False, f"a vector of {len(bad)} components is accepted")
    rejections(pool[0][0], pool[0][1])
    n_ops = 0
    for op in case["ops"]:
        k = op[0]
        v, ref = pool[op[1] % len(pool)]
        n_ops += 1
        operand = snapshot = None
        if k == "touch":
            # results handed out are copies
            a = v.get_vec(withExtrusion=True)
            a[0] = 77.5
            b = v.get_vec()
            b[1] = -3.25
            continue
        if k in ("add", "sub"):
            if isinstance(op[3], int):
                w, r2 = pool[op[3] % len(pool)]
            else:
                w, r2 = None, tuple(op[3])
            how = op[2]
            if how == "ints":
                r2 = tuple(int(x) for x in r2)
            if how == "vec":
                operand = w
            elif how == "list":
                operand = list(r2)
            elif how == "tuple":
                operand = tuple(r2)
            elif how == "ints":
                operand = np.array(r2)
            else:
                operand = np.array(r2, dtype=float)
            snapshot = tuple(r2)
            res = v + operand if k == "add" else v - operand
            want = tuple(a + b if k == "add" else a - b for a, b in zip(ref, r2))
        elif k in ("mul", "div"):
            kind, s = op[2]
            if k == "div" and abs(s) < 1e-6:
                continue
            sc = np.float64(s) if kind == "np" else s
            res = v * sc if k == "mul" else v / sc
            want = tuple(a * s if k == "mul" else a / s for a in ref)
        else:
            w, r2 = pool[op[2] % len(pool)]
            alias = v
            if k == "iadd":
                v += w
                want = tuple(a + b for a, b in zip(ref, r2))
            else:
                v -= w
                want = tuple(a - b for a, b in zip(ref, r2))
            res = v
            same(alias, ref, f"{k}: operand after the operation", exact=True)
        need(type(res) is cls, lambda: f"{k} of {case['type']} gives {type(res).__name__}")
        same(res, want, k)
        if isinstance(operand, (list, tuple, np.ndarray)):
            need(tuple(operand) == snapshot, f"{k} changed its operand")
        for i, (p, r) in enumerate(pool):
            same(p, r, f"vector {i} after {k}", exact=True)
        # keep the mirror in step with what was really computed (differences are below 1e-12)
        if len(pool) < 8:
            pool.append([res, tuple(res.get_vec(withExtrusion=True))])

    for i, (a, ra) in enumerate(pool[:4]):
        # norms
        n3 = math.sqrt(sum(x * x for x in ra[:3]))
        n4 = math.sqrt(sum(x * x for x in ra))
        for flag, n in ((False, n3), (True, n4)):
            g = a.get_norm(withExtrusion=flag)
            need(abs(g - n) <= 1e-12 * n + 1e-150, lambda: f"norm {g} instead of {n} of {ra}")
        need(list(a.get_vec()) == list(ra[:3]), "get_vec without extrusion")
        if cls is vector_4D or n4 < 1e140:
            laws(a, pool[(i + 1) % len(pool)][0], pool[(i + 2) % len(pool)][0])
        equality(cls, a, ra, case["eq"])
    over = False
    if cls is velocity:
        for a, ra in pool[:4]:
            directions(a, ra)
            over |= limit(a, ra, case["limits"])
    if cls is position:
        for (a, ra), (b, rb) in zip(pool, pool[1:] + pool[:1]):
            predicates(a, ra, b, rb)
    return {
        "nontrivial": n_ops >= 3 or over,
        "operations": n_ops,
        "limited": over,
        case["type"]: 1,
    }


def rejections(v, ref):
    """Operands that are neither 4D nor numbers are rejected instead of being used in part."""
    seqs = [[1.0] * 3, [1.0] * 5, (1.0,) * 3, (1.0,) * 5, np.ones(3), np.ones(5), [], None, 2.0, 1, "1234"]
    for what, f, bad in [
        ("+", lambda o: v + o, seqs),
        ("-", lambda o: v - o, seqs),
        ("*", lambda o: v * o, ["2", None, [1.0, 2.0, 3.0, 4.0], (2.0,), {}]),
        ("/", lambda o: v / o, ["2", None, [1.0, 2.0, 3.0, 4.0], (2.0,), {}]),
        ("constructor of", lambda o: type(v)(o), [[1.0] * 3, (1.0,) * 5, np.ones(3)]),
    ]:
        for o in bad:
            try:
                r = f(o)
            except Exception:
                continue
            need(False, lambda: f"{what} {o!r} is accepted and gives {r}")
    same(v, ref, "vector after rejected operations", exact=True)


def near(u, v, scale, what):
    a, b = u.get_vec(withExtrusion=True), v.get_vec(withExtrusion=True)
    need(all(abs(x - y) <= 1e-11 * (scale + 1e-30) for x, y in zip(a, b)), lambda: f"{what}: {a} against {b}")


def laws(a, b, c):
    m = max(abs(x) for v in (a, b, c) for x in v.get_vec(withExtrusion=True))
    near(a + b, b + a, m, "a+b = b+a")
    near((a + b) + c, a + (b + c), m, "(a+b)+c = a+(b+c)")
    near((a + b) - b, a, m, "(a+b)-b = a")
    near(a - b, (b - a) * -1, m, "a-b = -(b-a)")
    near(a - a, a * 0, m, "a-a = 0*a")
    near((a + b) * 2.5, a * 2.5 + b * 2.5, 10 * m, "s(a+b) = sa+sb")
    near(a * 3 + a * 0.5, a * 3.5, 10 * m, "(s+t)a = sa+ta")
    near(a / 4, a * 0.25, m, "a/s = a*(1/s)")
    near(a * 1, a, m, "1*a = a")
    need(a * 1 == a, "1*a is not equal to a")


def equality(cls, a, ra, eq):
    k, f, sgn = eq
    others = [ra, list(ra), np.array(ra, dtype=float), cls(*ra)]
    for o in others:
        need(bool(a == o), lambda: f"{ra} is not equal to itself as {type(o).__name__}")
        need(not a != o, lambda: f"{ra} differs from itself as {type(o).__name__}")
    d = list(ra)
    d[k] = d[k] + sgn * f * tol(d[k])
    want = f < 1
    for o in (tuple(d), list(d), np.array(d, dtype=float), cls(*d)):
        got = bool(a == o)
        need(
            got == want,
            lambda: f"{ra} == {type(o).__name__} {d}: {got} (component {k} differs by {f} x the closeness tolerance)",
        )
        need((a != o) == (not want), lambda: f"{ra} != {d} contradicts ==")
    need(not a == None, "equal to None")  # noqa: E711
    need(not a == list(ra[:3]), "equal to a list of three components")


def directions(a, ra):
    n3 = math.sqrt(sum(x * x for x in ra[:3]))
    n4 = math.sqrt(sum(x * x for x in ra))
    tiny = 0 < n3 < 1e-150
    if tiny or 0 < n4 < 1e-150:
        return
    for flag in (False, True):
        g = a.get_norm_dir(withExtrusion=flag)
        if n3 > 0:
            want = [x / n3 for x in (ra if flag else ra[:3])]
        elif flag and n4 > 0:
            want = [x / n4 for x in ra]
        else:
            want = None
        if want is None:
            need(g is None, lambda: f"direction {g} of {ra}")
        else:
            need(
                g is not None and len(g) == len(want) and all(abs(x - y) <= 1e-12 * (1 + abs(y)) for x, y in zip(g, want)),
                lambda: f"direction {g} instead of {want} of {ra}",
            )
    need(bool(a.not_zero()) == (n4 > 0), lambda: f"not_zero of {ra}")
    need(bool(a.is_extruding()) == (ra[3] > 0), lambda: f"is_extruding of {ra}")


def limit(a, ra, lim):
    ps = state.p_settings(p_acc=1, jerk=1, vX=lim[0], vY=lim[1], vZ=lim[2], vE=lim[3], speed=1)
    r = a.avoid_overspeed(ps)
    same(a, ra, "velocity after limiting", exact=True)
    need(type(r) is velocity, "limited velocity has another type")
    s = min([1.0] + [l / abs(x) for l, x in zip(lim, ra) if abs(x) > l])
    got = r.get_vec(withExtrusion=True)
    need(
        all(abs(g - s * x) <= 1e-12 * abs(s * x) for g, x in zip(got, ra)),
        lambda: f"{ra} limited to {lim} gives {got}, expected {[s * x for x in ra]}",
    )
    return s < 1


def predicates(a, ra, b, rb):
    d = [y - x for x, y in zip(ra, rb)]
    d3 = math.sqrt(sum(x * x for x in d[:3]))
    d4 = math.sqrt(sum(x * x for x in d))
    for o in (b, tuple(rb), list(rb), np.array(rb, dtype=float)):
        what = f"{ra} -> {type(o).__name__} {rb}"
        try:
            need(bool(a.is_travel(o)) == any(x != 0 for x in d[:3]), lambda: f"is_travel {what}")
            need(bool(a.is_extruding(o)) == (d[3] > 0), lambda: f"is_extruding {what}")
            need(bool(a.is_extruding(o, ignore_retract=True)) == (d[3] > 0), lambda: f"is_extruding {what}")
            need(bool(a.is_extruding(o, ignore_retract=False)) == (d[3] != 0), lambda: f"is_extruding/retract {what}")
            for flag, n in ((False, d3), (True, d4)):
                g = a.get_t_distance(o, withExtrusion=flag)
                need(abs(g - n) <= 1e-12 * n + 1e-150, lambda: f"distance {what}: {g} instead of {n}")
        except (AttributeError, TypeError, ValueError) as e:
            fail(f"distance or predicate {what} fails with {type(e).__name__}: {e}")
    for flag in (False, True):
        g = a.get_t_distance(withExtrusion=flag)
        n = math.sqrt(sum(x * x for x in (ra if flag else ra[:3])))
        need(abs(g - n) <= 1e-12 * n + 1e-150, lambda: f"distance of {ra} to zero: {g} instead of {n}")
