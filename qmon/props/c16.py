"""C16: the text drawing shows exactly the circuit (the drawing is parsed back)."""
import io
import re
from contextlib import redirect_stdout

from .. import drive, gen, model
from ..core import expect, rng_for, sut
from .c09 import shifted

RULE = (
    "Random circuits with dimensions 2-9 (and up to 101), increments from -9 to 99; the drawing is parsed back into columns of symbols and "
    "compared with the layers the request history defines, before measurement, after it and after running; non-trivial: at least one gate."
)
REQUIRED = {"drawings": 300, "cells": 3000, "passing_lines": 30, "controls": 100, "unmeasured": 100, "listed_layers": 1000, "two_digit_levels": 8, "long": 4, "hundred": 5}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(330 * k):
        r = rng_for("C16", seed, i)
        s = gen.circuit(r, maxn=100, nmin=1, nmax=6, dmax=9, depth=r.choice([0, 1, 2, 4, 6, 10]), wide=False, kinds=r.choice(["hxzctu", "hxzct", "ctu", "ct", "hxz"]))
        out.append({"spec": digits(r, s)})
    for i in range(60 * k):  # many registers: long controlled gates, never run
        r = rng_for("C16", seed, "wide", i)
        n = r.randint(6, 16)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(n)]
        ops = []
        for _ in range(r.randint(1, 8)):
            o = gen.op(r, dims, "hxzcct", wide=False)
            if o[0] == "cx" or model.size([dims[q] for q in model.span_of(o)]) <= 160:
                ops.append(o)
        out.append({"spec": digits(r, {"dims": dims, "init": gen.init_states(r, dims), "backend": "sparse", "tuple": False, "ops": ops}), "norun": True})
    for i in range(40 * k):  # dimensions and initial levels of two and three digits
        r = rng_for("C16", seed, "large", i)
        dims = [r.choice([2, 3, r.randint(9, 14), r.randint(9, 30), r.choice([99, 100, 101])]) for _ in range(r.randint(1, 4))]
        ops = []
        for _ in range(r.randint(0, 6)):
            o = gen.op(r, dims, "hxzc", wide=False)
            if model.size([dims[q] for q in model.span_of(o)]) <= 160:
                ops.append(o)
        out.append({"spec": digits(r, {"dims": dims, "init": gen.init_states(r, dims), "backend": "sparse", "tuple": False, "ops": ops}), "norun": True, "large": True})
    for i in range(6 * k):  # a hundred registers
        r = rng_for("C16", seed, "hundred", i)
        dims = [r.choice([2, 2, 3, 4]) for _ in range(r.choice([33, 63, 64, 65, 70, 100, 101, 128, 130]))]
        ops = []
        while len(ops) < r.choice([3, 20, 90]):
            a = r.choice([0, len(dims) - 6, r.randrange(len(dims) - 6)])
            near = gen.op(r, dims[a:a + r.randint(1, 4)], "hxzct", wide=False)
            ops.append(shifted(near, a))
        out.append({"spec": digits(r, {"dims": dims, "init": gen.init_states(r, dims), "backend": "sparse", "tuple": False, "ops": ops}), "norun": True, "hundred": True})
    for i in range(5 * k):  # long circuits
        r = rng_for("C16", seed, "long", i)
        s = gen.circuit(r, maxn=16, nmin=1, nmax=4, dmax=4, depth=r.choice([60, 130, 230, 520, 1030]), wide=False, kinds=r.choice(["hxz", "hxzct", "c", "hxzu"]))
        out.append({"spec": digits(r, s)})
    return out


def digits(r, s):
    for o in s["ops"]:
        if o[0] in ("x", "cx", "tof"):
            if r.random() < 0.2:  # as many digits as fit the column
                o[-1] = r.randint(-9, 99)
            if not -9 <= o[-1] <= 99:
                o[-1] = o[-1] % 10
    return s


def nontrivial(case):
    return len(case["spec"]["ops"]) > 0


def columns(spec):
    """Expected symbols, layer by layer."""
    n = len(spec["dims"])
    out = []
    for layer in model.pack(n, spec["ops"]):
        col = [""] * n
        for i in layer:
            o = spec["ops"][i]
            k = o[0]
            if k in ("h", "z"):
                col[o[1]] = k.upper()
            elif k == "x":
                col[o[1]] = "X(%d)" % o[2]
            elif k == "u":
                for q in model.regs_of(o):
                    col[q] = "G"
            else:
                controls = [o[1]] if k == "cx" else o[1]
                for q in model.span_of(o):
                    col[q] = "|"
                for c in controls:
                    col[c] = "*"
                col[o[2]] = "X(%d)" % o[3]
        out.append(col)
    return out


def listing(qc, obs):
    """print_opflow_list() prints the gates of one layer after the other."""
    with sut("print_opflow_list"):
        f = io.StringIO()
        with redirect_stdout(f):
            qc.print_opflow_list()
        want = [str(m.peek_list()) for m in qc.op_flow.peek()]
    got = [l.strip() for l in f.getvalue().split("\n") if l.strip()]
    expect(got == want, "print_opflow_list() lists\n%s\ninstead of\n%s", "\n".join(got), "\n".join(want))
    obs.hit("listed_layers", len(want))


def check(qc, spec, measured, obs):
    listing(qc, obs)
    dims = spec["dims"]
    n = len(dims)
    with sut("str()"):
        text = str(qc)
        f = io.StringIO()
        with redirect_stdout(f):
            qc.draw()
    expect(f.getvalue() == text + "\n", "draw() prints something else than str():\n%s\nand\n%s", f.getvalue(), text)
    obs.hit("drawings")
    want = columns(spec)
    depth = len(want)
    if measured:
        want.append(["M"] * n)
    lines = text.split("\n")
    rows, rest = lines[:n], [l for l in lines[n:] if l.strip()]
    expect(len(rest) == 1, "the drawing of %d registers is\n%s", n, text)
    m = re.fullmatch(r"\s*depth: (\d+), width: (\d+)\s*", rest[0])
    expect(m and (int(m.group(1)), int(m.group(2))) == (depth, n), "the last line is %r for depth %d and width %d", rest[0], depth, n)
    init = drive.init_of(spec)
    bodies = []
    for q, row in enumerate(rows):
        m = re.fullmatch(r"-*\((\d+)\)\|(\d+)>(.*)", row)
        expect(m, "line %d of the drawing is %r", q, row)
        expect((int(m.group(1)), int(m.group(2))) == (dims[q], init[q]), "line %d starts with dimension %s and level %s instead of %d and %d", q, m.group(1), m.group(2), dims[q], init[q])
        bodies.append(m.group(3))
    expect(len({len(b) for b in bodies}) == 1, "the lines of the drawing have different lengths:\n%s", text)
    total = len(bodies[0])
    grid = None
    for ncols in (len(want), len(want) + 1):  # an unmeasured circuit may keep room for the measurement
        if ncols == 0:
            grid = [] if total == 0 else None
        elif total % ncols == 0 and total // ncols >= 4:
            w = total // ncols
            grid = [[b[j * w:(j + 1) * w].strip("-") for b in bodies] for j in range(ncols)]
            if ncols > len(want):
                if any(any(col) for col in grid[len(want):]):
                    grid = None
                else:
                    grid = grid[: len(want)]
        if grid == want:
            break
    expect(grid == want, "the drawing\n%s\nshows %r instead of %r", text, grid, want)
    for col in want:
        for s in col:
            obs.hit("cells")
            if s == "|":
                obs.hit("passing_lines")
            elif s == "*":
                obs.hit("controls")
    obs.hit("measured" if measured else "unmeasured")


def run_case(case, obs):
    spec = case["spec"]
    qc = drive.build(spec, measure=False)
    obs.hit("hundred", case.get("hundred", False))
    obs.hit("long", len(spec["ops"]) >= 60)
    obs.hit("two_digit_levels", max(drive.init_of(spec)) > 9)
    check(qc, spec, False, obs)
    with sut("measure_all"):
        qc.measure_all()
    check(qc, spec, True, obs)
    if not case.get("norun"):
        drive.run(qc)
        check(qc, spec, True, obs)
