"""C17: the matplotlib drawing shows exactly the circuit.

Monitor: pyplot.show() is hooked; the artists of every figure that is open when it is called
are read back into layers of symbols, which are compared with the layers the request history
defines."""
import io
import re

import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.patches import Rectangle

RULE = (
    "Random circuits with mixed dimensions, long controlled gates and custom gates, unmeasured and measured, with one or several "
    "figures and several values of compress; every artist of every figure shown is read back; non-trivial: at least one gate."
)
REQUIRED = {"drawings": 100, "figures": 130, "symbols": 800, "controlled": 60, "qubit_cx": 15, "blocks": 15, "several_figures": 15, "unmeasured": 40, "rendered": 8}
ASSUMPTIONS = [
    "A CX between two qubits is drawn without its increment, so only odd increments are asked for there",
]


def fix(r, s):
    for o in s["ops"]:
        if o[0] == "cx" and s["dims"][o[1]] == s["dims"][o[2]] == 2:
            o[3] = o[3] | 1
    return s


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    out = []
    for i in range(110 * k):
        r = rng_for("C17", seed, i)
        s = gen.circuit(r, maxn=90, nmin=1, nmax=6, dmax=12, depth=r.choice([0, 1, 2, 4, 7, 10, 14, 25]), kinds=r.choice(["hxzctu", "hxzct", "ctu", "ct", "hxz", "cc", "u"]))
        out.append({"spec": fix(r, s), "compress": r.choice([None, None, 0, 1, 2, 4, 0.5]), "measured": r.random() < 0.6, "render": i % 9 == 0})
    for i in range(20 * k):
        r = rng_for("C17", seed, "wide", i)
        n = r.randint(6, 12)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(n)]
        ops = []
        for _ in range(r.randint(1, 8)):
            o = gen.op(r, dims, "hxzct")
            if model.size([dims[q] for q in model.span_of(o)]) <= 160:
                ops.append(o)
        out.append({"spec": fix(r, {"dims": dims, "init": gen.init_states(r, dims), "backend": "sparse", "tuple": False, "ops": ops}), "compress": r.choice([None, 1, 0, 3]), "measured": r.random() < 0.6})
    for i in range(2 * k):  # very many figures
        r = rng_for("C17", seed, "figures", i)
        s = gen.circuit(r, maxn=6, nmin=1, nmax=2, dmax=3, depth=r.choice([200, 320]), kinds="hxz" if i % 2 else "hxzc")
        out.append({"spec": fix(r, s), "compress": r.choice([None, 1]), "measured": r.random() < 0.6})
    return out


def nontrivial(case):
    return len(case["spec"]["ops"]) > 0


def want_layers(spec, measured):
    dims = spec["dims"]
    out = []
    for layer in model.pack(len(dims), spec["ops"]):
        syms = set()
        for i in layer:
            o = spec["ops"][i]
            k = o[0]
            if k in ("h", "z"):
                syms.add((k.upper(), o[1]))
            elif k == "x":
                syms.add(("X", o[1], o[2], dims[o[1]]))
            elif k == "u":
                regs = model.regs_of(o)
                syms.add(("G", regs[0]) if len(regs) == 1 else ("block", min(regs), max(regs), tuple(regs)))
            elif k == "cx" and dims[o[1]] == dims[o[2]] == 2:
                syms.add(("qubit_cx", o[1], o[2]))
            else:
                controls = [o[1]] if k == "cx" else o[1]
                syms.add(("controlled", tuple(sorted(controls)), o[2], o[3], dims[o[2]]))
        out.append(syms)
    if measured:
        out.append({("M", q) for q in range(len(dims))})
    return out


def reg(y):
    q = round(float(y)) - 1
    expect(abs(float(y) - 1 - q) < 1e-6, "something is drawn at height %r, between the registers", y)
    return q


def marked(line):
    """Indices of the points of a line that carry its marker."""
    every = line.get_markevery()
    n = len(line.get_xdata())
    if line.get_marker() in (None, "None", "none", "", " "):
        return []
    if every is None:
        return list(range(n))
    if isinstance(every, (list, tuple, np.ndarray)) and all(isinstance(b, (bool, np.bool_)) for b in every):
        return [j for j, b in enumerate(every) if b]
    if isinstance(every, (list, np.ndarray)):
        return [int(j) for j in every]
    if isinstance(every, int):
        return list(range(0, n, every))
    raise AssertionError("markevery %r" % (every,))


def visible(color):
    rgba = to_rgba(color)
    return rgba[3] > 0 and rgba[:3] != (1.0, 1.0, 1.0)


def dots(line):
    """Points of a line at which a filled dot is visible."""
    if line.get_marker() != "o" or not line.get_visible() or not visible(line.get_markerfacecolor()):
        return []
    return marked(line)


def stroke(line):
    return line.get_visible() and line.get_linestyle() not in ("None", "none", "", " ") and line.get_linewidth() > 0 and visible(line.get_color())


def read_figure(fig, dims, init, first, obs):
    """-> list of sets of symbols, by position from left to right."""
    expect(len(fig.axes) == 1, "a figure has %d axes", len(fig.axes))
    ax = fig.axes[0]
    n = len(dims)
    lo, hi = sorted(ax.get_xlim())
    ylo, yhi = ax.get_ylim()
    items = []  # (x, symbol)
    xs_text = []
    lines_c = []
    plus_marks, rings, cx_lines, triangles = [], [], [], []
    labels, corners = {}, []
    wires = []
    block_names = []
    for t in ax.texts:
        x, y = t.get_position()
        s = t.get_text()
        if not t.get_visible() or not visible(t.get_color()):
            continue
        if s in ("MSB", "LSB"):
            corners.append((y, s))
            continue
        m = re.fullmatch(r"\$Q\^\{(\d+)D\}_\{(\d+)\}\|(\d+)>\$", s)
        if m:
            q = int(m.group(2))
            expect(q not in labels, "register %d has two labels", q)
            expect(abs(y - (q + 1)) <= 0.3, "the label of register %d stands at height %r", q, y)
            labels[q] = (int(m.group(1)), int(m.group(3)))
            continue
        if s == "G":
            block_names.append((x, y))
            continue
        m = re.fullmatch(r"\$X\^\{\+(-?\d+)\}_\{(\d+)\}\$", s)
        if m:
            items.append((x, ("X", reg(y), int(m.group(1)), int(m.group(2)))))
            continue
        m = re.fullmatch(r"\$([HZMG])\$", s)
        expect(m, "unexpected text %r in the drawing", s)
        items.append((x, (m.group(1), reg(y))))
    for line in ax.lines:
        x = np.atleast_1d(np.asarray(line.get_xdata(), dtype=float))
        y = np.atleast_1d(np.asarray(line.get_ydata(), dtype=float))
        if len(x) == 1 and line.get_marker() == "+":
            if visible(line.get_markeredgecolor()) and line.get_visible() and marked(line):
                plus_marks.append((x[0], reg(y[0])))
        elif len(x) == 1 and line.get_marker() == "o":
            if visible(line.get_markeredgecolor()) and line.get_visible() and marked(line):
                rings.append((x[0], reg(y[0])))
        elif line.get_marker() in (9, "9"):
            triangles.append((x[0], tuple(sorted(reg(v) for j, v in enumerate(y) if j in marked(line)))))
        elif len(x) == 2 and y[0] == y[1] and x[0] != x[1]:
            expect(not dots(line), "the wire at height %r has dots", y[0])
            expect(stroke(line), "the wire at height %r cannot be seen", y[0])
            wires.append((reg(y[0]), min(x), max(x)))
        else:
            expect(len(set(x)) == 1, "unexpected line %r %r in the drawing", x, y)
            expect(stroke(line), "a vertical line at %r cannot be seen", x[0])
            lines_c.append((x[0], sorted(reg(v) for v in y), tuple(sorted(reg(y[j]) for j in dots(line)))))
    rects = []
    for p in ax.patches:
        expect(isinstance(p, Rectangle), "unexpected shape %r", p)
        rects.append((p.get_x(), p.get_y(), p.get_y() + p.get_height(), p.get_width()))
    # one wire per register
    expect(sorted(w[0] for w in wires) == list(range(n)), "the figure has wires for registers %r of %d", sorted(w[0] for w in wires), n)
    if first:
        want = {q: (dims[q], init[q]) for q in range(n)}
        expect(labels == want, "the registers are labelled %r instead of %r", labels, want)
        expect([s for _, s in sorted(corners)] == ["MSB", "LSB"], "the ends of the register are marked %r", corners)
    else:
        expect(not labels and not corners, "a later figure has labels")
    # blocks of custom gates
    for x, y0, y1, w in rects:
        qs = [q for q in range(n) if y0 <= q + 1 <= y1]
        expect(len(qs) >= 2, "a block covers registers %r", qs)
        names = [b for b in block_names if x <= b[0] <= x + w and y0 <= b[1] <= y1]
        expect(len(names) == 1, "a block has %d names", len(names))
        block_names.remove(names[0])
        tri = [t for t in triangles if abs(t[0] - x) < 1e-6 and set(t[1]) <= set(qs)]
        expect(len(tri) == 1, "a block on registers %r marks registers %r", qs, tri)
        triangles.remove(tri[0])
        items.append((x, ("block", qs[0], qs[-1], tri[0][1])))
    expect(not block_names and not triangles, "parts of a block are drawn outside every block: %r %r", block_names, triangles)
    # circled plus
    expect(sorted(plus_marks) == sorted(rings), "circles at %r but plus signs at %r", rings, plus_marks)
    for x, q in plus_marks:
        own = [l for l in lines_c if abs(l[0] - x) < 1e-6 and q in (l[1][0], l[1][-1]) and len(l[2]) == 1 and l[2][0] != q]
        expect(len(own) == 1, "the circled plus on register %d is joined to %d lines", q, len(own))
        lines_c.remove(own[0])
        c = own[0][2][0]
        expect({own[0][1][0], own[0][1][-1]} == {c, q}, "the line of a CX from %d to %d spans %r", c, q, own[0][1])
        items.append((x, ("qubit_cx", c, q)))
    # the remaining vertical lines belong to the X of a controlled gate in the same layer
    pos = sorted({x for x, _ in items})
    for lx, ys, ctl in lines_c:
        left = [x for x in pos if x <= lx + 1e-9]
        expect(left, "a controlled line stands left of every gate")
        x0 = left[-1]
        owners = [it for it in items if it[0] == x0 and it[1][0] == "X" and ys[0] <= it[1][1] <= ys[-1]]
        expect(len(owners) == 1, "the line over registers %r with dots on %r passes %d X gates", ys, ctl, len(owners))
        items.remove(owners[0])
        _, t, p, d = owners[0][1]
        expect(t not in ctl, "there is a dot on the target of a controlled gate")
        expect(ctl, "a controlled gate has no dots")
        expect((ys[0], ys[-1]) == (min(ctl + (t,)), max(ctl + (t,))), "the line of a gate from %r to %d spans %r", ctl, t, ys)
        items.append((x0, ("controlled", ctl, t, p, d)))
    out = []
    for x in sorted({x for x, _ in items}):
        syms = []
        for it in items:
            if it[0] != x:
                continue
            s = it[1]
            expect(lo <= x <= hi, "a gate is drawn at %r, outside the figure", x)
            for q, a, b in wires:
                expect(a - 1e-6 <= x <= b + 1e-6, "a gate is drawn at %r, beyond the wires, which reach from %r to %r", x, a, b)
            if s[0] in ("X", "controlled"):
                expect(s[-1] > 0, "an X is labelled with dimension %r", s[-1])
            syms.append(s)
        expect(len(set(syms)) == len(syms), "a layer has the same symbol twice: %r", syms)
        obs.hit("symbols", len(syms))
        for s in syms:
            if s[0] in ("controlled", "qubit_cx"):
                obs.hit(s[0])
            elif s[0] == "block":
                obs.hit("blocks")
        out.append(set(syms))
    expect(ylo < 1 and yhi > n or yhi < 1 and ylo > n, "the figure shows heights %r of %d registers", (ylo, yhi), n)
    return out


def drawing(qc, compress, render=False):
    """Calls draw(style="mpl") and hands the figures that are open at show() to a reader."""
    figures = []
    old = plt.show

    def show(*a, **k):
        figures[:] = [plt.figure(i) for i in plt.get_fignums()]

    plt.close("all")
    plt.show = show
    try:
        with sut("draw(style='mpl', compress=%r)" % compress):
            if compress is None:
                qc.draw(style="mpl")
            else:
                qc.draw(style="mpl", compress=compress)
            if render:
                for f in figures:
                    f.savefig(io.BytesIO(), format="png")
    finally:
        plt.show = old
    return figures


def check(qc, spec, measured, compress, obs, render):
    dims = spec["dims"]
    want = want_layers(spec, measured)
    try:
        figures = drawing(qc, compress, render)
        expect(figures, "no figure was shown")
        got = []
        for i, f in enumerate(figures):
            got += read_figure(f, dims, drive.init_of(spec), i == 0, obs)
    finally:
        plt.close("all")
    obs.hit("drawings")
    obs.hit("figures", len(figures))
    if render:
        obs.hit("rendered")
    if len(figures) > 1:
        obs.hit("several_figures")
    obs.hit("measured" if measured else "unmeasured")
    for j in range(max(len(got), len(want))):
        a = sorted(got[j], key=repr) if j < len(got) else None
        b = sorted(want[j], key=repr) if j < len(want) else None
        expect(a == b, "layer %d of the drawing shows %r instead of %r", j + 1, a, b)


def run_case(case, obs):
    spec = case["spec"]
    qc = drive.build(spec, measure=False)
    if not case["measured"]:
        check(qc, spec, False, case["compress"], obs, case.get("render"))
        return
    with sut("measure_all"):
        qc.measure_all()
    check(qc, spec, True, case["compress"], obs, case.get("render"))
