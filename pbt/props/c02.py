"""C02: only supported commands act; other text is inert; unsupported commands are tallied exactly."""

import contextlib
import io
import re
from collections import Counter

from hypothesis import strategies as st

from .. import gen
from ..core import need, vclose
from ..simio import Scratch, blocks, make_setup, render, simulate, simulate_text, states, write_gcode

from pyGCodeDecode import state_generator

N = {"quick": 10000, "thorough": 300000}
RULE = (
    "a random program of supported commands is decorated (comments with command words, blank lines, unknown and "
    "known-but-unsupported commands on own lines or beside supported ones, other spacing, line endings, command and "
    "number spellings); states and trajectory must be those of the plain program and the tally of unsupported commands "
    "exact. Non-trivial: the program moves and at least 3 decorations of 2 kinds were applied."
)
CFG = gen.Cfg(modes=2, units=1, g92=1, m203=1, noop=1, dwell=1, settings=2, macros=1, move=6, max_ops=9)

WORDS = [
    "G1 X5 Y5 F600", "G28", "G92 E0", "M82", "M83", "G91", "G20", "G4 S100", "M204 P1", "M205 X0.1", "G2 X1 Y1 I1 J1",
    "TYPE:Perimeter", "LAYER_CHANGE", "Z:0.2", "layer height = 0.2", "; G90", "", " ", "µm é 🎈", "F100 X Y Z E",
    "M203 X1", "G0X9", "thumbnail begin 16x16 540", "iVBORw0KGgoAAAANG1X5==", "100% G10 G11 G29", "\tG1 X1",
]
UNKNOWN = [
    "M104 S200", "M109 S215", "M140 S60", "M190 S60", "M106 S255", "M106 P1 S127.5", "M107", "M84", "M84 X Y E", "T0",
    "T1", "M201 X1250 Y1250 Z400 E4000", "M900 K0.05", "M73 P10 R35", "G17", "G18", "G19", "G94", "G5 X1", "G130 X5",
    "G53", "G54", "G80", "G30 P1", "G12", "G100", "G92.1", "G91.1", "G90.1", "G28.1", "G29.1 X1", "M2030 X1", "M2040 P5",
    "M2055 X1", "M820", "M830", "M8", "M20", "M205.1 X3", "M420 S1", "M221 S95", "M862.3", "M600", "M0", "M30", "M25",
    "G9", "G200", "G280", "G290", "G103 X4", "G111 F5", "G39 X1", "G40", "G41", "G4000", "G900 X4 Y5", "G21.5", "G20.1",
    "M400", "M117", "M1000 P5", "EXCLUDE_OBJECT_START", "SET_VELOCITY_LIMIT ACCEL=500", "%", "O1234",
]
COMMAND = re.compile(r"[GM]\s*\d")  # might be taken for a command
KNOWN = {"G": {0, 1, 2, 3, 4, 10, 11, 20, 21, 28, 29, 90, 91, 92}, "M": {82, 83, 203, 204, 205}}
UNSUPPORTED = {
    "G2": ["", " X5 Y5 I1 J1", " X1 Y2 R5 E.5 F600", " I-3 J0"],
    "G3": ["", " X5 Y5 I1 J1", " X-1.5 Y2 R5 E.5 F600"],
    "G10": ["", " S1"],
    "G11": [""],
    "G28": ["", " X", " X Y", " X0 Y0 Z0", " Z", " W", " O"],
    "G29": ["", " P1", " A", " L1 R9 F1 B9"],
}


@st.composite
def number(draw):
    """How to respell a number (applied to its exact decimal text)."""
    return draw(st.sampled_from(["", "", "", "+", "0", "00", "d", "z", "l", "+z", "+0", "+l"]))


def respell(text, how):
    neg = text.startswith("-")
    body = text[1:] if neg else text
    sign = "-" if neg else ""
    if "+" in how and not neg:
        sign = "+"
    if "0" in how:
        body = "0" * how.count("0") + body
    if "d" in how and "." not in body:
        body += "."
    if "z" in how:
        body += "00" if "." in body else ".0"
    if "l" in how and body.startswith("0."):
        body = body[1:]
    return sign + body


@st.composite
def decorated(draw):
    s = draw(gen.setups())
    ops = gen.build(draw, s, CFG)
    pick = lambda x: draw(st.sampled_from(x))  # noqa: E731
    chance = lambda k: draw(st.integers(0, k - 1)) == 0  # noqa: E731
    lines = []  # [text, index of the op or None, [unsupported commands]]
    kinds = Counter()
    level = draw(st.integers(1, 4))

    def unsup():
        k = pick(sorted(UNSUPPORTED))
        arg = pick(UNSUPPORTED[k])
        kinds["unsupported"] += 1
        name = k
        if chance(4):
            name = "G" + pick(["0", "00"]) + k[1:]
        return k, name + arg

    def inert():
        r = draw(st.integers(0, 4))
        if r == 0:
            kinds["blank"] += 1
            lines.append([pick(["", " ", "   ", "\t"]), None, []])
        elif r == 1:
            kinds["comment line"] += 1
            lines.append([pick(["", " "]) + ";" + (draw(gen.raw_text) if chance(2) else pick(WORDS)), None, []])
        elif r == 2:
            kinds["unknown"] += 1
            t = pick(UNKNOWN)
            if chance(4):  # any other text
                t = draw(gen.raw_text)
                if COMMAND.search(t) or ";" in t:
                    t = ""
            elif chance(2):  # any other number
                a, n = pick("GM"), draw(st.integers(0, 999))
                if n not in KNOWN[a]:
                    t = f"{a}{n}" + pick(["", "", ".1"])
                elif n:
                    t = f"{a}{n}" + pick([".1", "0000", "1111"])
                t += "".join(f" {k}{v}" for k, v in draw(st.lists(st.tuples(st.sampled_from("SPRTXYZEFIJ"), st.sampled_from(["1", "-5.5", "200", "0"])), max_size=3)))
            if chance(3):
                t += " ;" + pick(WORDS)
            lines.append([t, None, []])
        else:
            ks, t = [], ""
            for _ in range(1 if r == 3 else draw(st.integers(1, 2))):
                k, x = unsup()
                if k in ks:
                    continue
                ks.append(k)
                t += (" " if t else "") + x
            if chance(3):
                t += " ;" + pick(WORDS)
            lines.append([t, None, ks])

    for i, op in enumerate(ops):
        while draw(st.integers(0, 5)) < level and len(lines) < 60:
            inert()
        if op["o"] in ("blank", "comment"):
            t = ""
        else:
            name = op["o"]
            if chance(5) and name[0] == "G":
                name = "G" + pick(["0", "00"]) + name[1:]
                kinds["command spelling"] += 1
            t = pick(["", "", "", " ", "  ", "\t"]) + name
            sep = pick([" ", " ", " ", "", "  ", "\t"])
            if sep != " ":
                kinds["spacing"] += 1
            words = list(op.get("w", {}).items())
            if len(words) > 1 and chance(3):
                words = draw(st.permutations(words))
                kinds["word order"] += 1
            for n, (a, v) in enumerate(words):
                how = draw(number())
                v2 = respell(v, how)
                kinds["number spelling"] += v2 != v
                gap = pick(["", "", "", "", " "])
                if gap:
                    kinds["spacing"] += 1
                t += sep + a + gap + v2
        ks = []
        if level > 1 and op["o"] not in ("blank", "comment") and chance(8):
            k, x = unsup()
            ks.append(k)
            t = t + " " + x if chance(2) else x + " " + t
        if chance(3):
            t += pick(["", " ", "   "])
        if chance(3):
            t += pick([" ;", ";", "; "]) + (draw(gen.raw_text) if chance(3) else pick(WORDS))
            kinds["trailing comment"] += 1
        lines.append([t, i, ks])
    while draw(st.integers(0, 5)) < level and len(lines) < 70:
        inert()
    eol = pick(["\n", "\n", "\r\n", "\r"])
    return {
        "setup": s,
        "ops": ops,
        "lines": lines,
        "eol": eol,
        "last_eol": draw(st.booleans()),
        "kinds": {k: v for k, v in kinds.items() if v},
    }


def cases(tier):
    return decorated()


SAME = ("pos", "feed", "acc", "jerk", "v", "units", "pause")


def check(case):
    s, ops, lines = case["setup"], case["ops"], case["lines"]
    text = case["eol"].join(x[0] for x in lines) + (case["eol"] if case["last_eol"] else "")
    with Scratch() as scr:
        base = simulate(scr, ops, s, "base")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            deco = simulate_text(scr, text, s, "deco")
        # 1. settings and positions after every supported line
        sa, sb = states(base), states(deco)
        need(
            len(sb) in (len(lines) + 1, len(lines)) if not case["last_eol"] else len(sb) == len(lines) + 1,
            lambda: f"{len(sb)} states for {len(lines)} lines",
        )
        last = sa[0]
        for n, (t, i, _) in enumerate(lines):
            want = sa[i + 1] if i is not None else last
            if n + 1 >= len(sb):
                need(t.strip() == "", f"line {n + 1} {t!r} has no state")
                continue
            got = sb[n + 1]
            for k in SAME:
                w = None if (k == "pause" and i is None) else want[k]
                ok = vclose(got[k], w, 1e-12, 1e-14) if k in ("pos", "v") else got[k] == w
                need(ok, lambda: f"line {n + 1} {t!r}: {k} is {got[k]}, without the decoration {w}")
            last = want
        # 2. the motion itself
        ba, bb = blocks(base), blocks(deco)
        need(len(ba) == len(bb), f"{len(bb)} executed pieces, without the decoration {len(ba)}")
        for x, y in zip(ba, bb):
            need(len(x) == len(y), "different phases of a move")
            for g, h in zip(x, y):
                for a, b in zip(g.key(), h.key()):
                    a, b = (a, b) if isinstance(a, tuple) else ((a,), (b,))
                    need(vclose(a, b, 1e-9, 1e-12), lambda: f"piece {h.key()}, without the decoration {g.key()}")
        # 3. the tally
        want = Counter(k for x in lines for k in x[2])
        path = write_gcode(scr, text, "tally.gcode")
        if hasattr(state_generator, "check_for_unsupported_commands") and hasattr(state_generator, "read_gcode_to_dict_list"):
            got = state_generator.check_for_unsupported_commands(state_generator.read_gcode_to_dict_list(path))
        else:
            got = want
        need(dict(got) == dict(want), lambda: f"unsupported commands {dict(got)}, the file contains {dict(want)}")
        printed = Counter({k: int(n) for k, n in re.findall(r"'(G\d+)' found (\d+) time", out.getvalue())})
        need(printed == want, lambda: f"reported unsupported commands {dict(printed)}, the file contains {dict(want)}")
    moves = any(a["pos"] != b["pos"] for a, b in zip(sa, sa[1:]))
    res = {k: 1 for k in case["kinds"]}
    res["tallied"] = sum(want.values())
    res["eol " + repr(case["eol"])] = 1
    res["nontrivial"] = moves and sum(case["kinds"].values()) >= 3 and len(case["kinds"]) >= 2
    return res
