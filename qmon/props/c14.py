"""C14: QASM layout is irrelevant, and nothing in a program is silently skipped."""
import locale
import os
import re
import tempfile

from .. import drive, gen, model, qasm
from ..core import expect, rng_for, sut

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

RULE = (
    "Random programs rewritten with comments (some quoting instructions and directives) on their own lines and after instructions, blank "
    "lines, indentation by spaces and tabs, CRLF, spaces, tabs or commas in every combination between operands, registers declared in any order and other register keywords; read from a string and from "
    "a file, with a recording backend; and programs with one bad instruction (unknown, or on an undeclared register) at a random "
    "place, which must raise; programs with garbled instructions, which must raise or give a gate for each line; non-trivial: every case."
)
REQUIRED = {"rewritten": 100, "from_file": 100, "refused": 80, "backend_events": 200, "header_first": 20, "large_dimensions": 20, "garbled_refused": 100, "garbled_accepted": 60, "long_programs": 10, "gaps": 15, "overwritten": 60}
SEPARATORS = [" ", ", ", "  ", ",  ", "   ", ",", "\t", ",\t", " , ", " ,", "\t\t"]
UNKNOWN = ["Y x0", "SWAP x0 x1", "S x0", "T x0", "RX x0 90", "RX x0 1180", "RX x0 1800", "RX x0 360", "RX x0 18", "RX x0", "RX x0 0", "RX x0 80", "RX x0 180 90", "RY x0 180", "RZ x0 180", "MEASURE x0", "U x0 1", "FREDKIN x0, x1, x2", "barrier", "foo", "? x0", "Q x0", "swap x0, x1", "id x0", "--", "x0", "2", "ADD x0 1", "MCX x0 x1", "iX x0", "-X x0", "PHASE x0"]
COMMENTS = ["# comment", "#", "# X x0", "# .begin", "# .end", "# .qudit 4", "# qudit x7 (5)", "# Toffoli x0, x1, x0", "## H x0 # Z x0", "#X x0 2", "# (9)", "# 180", "# a, b, c"]
if locale.getpreferredencoding(False).lower().replace("-", "") == "utf8":
    COMMENTS += ["# Gr\u00f6\u00dfe \u2192 \u03c8", "# |\u03c8\u27e9 \U0001d7da"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(260 * k):
        r = rng_for("C14", seed, i)
        declared = gen.layout(r, maxn=40, nmin=1, nmax=5, dmax=5)
        if i % 8 == 5:  # dimensions of two digits
            declared = [r.choice([2, 3, r.randint(10, 24)]) for _ in range(r.randint(1, 2))]
        kinds = r.choice(["hxzct", "xctt", "xct"]) if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
        ops = qasm.random_ops(r, declared, r.choice([0, 1, 2, 3, 5, 8]), 80, kinds)
        out.append({"what": "layout", "declared": declared, "ops": ops, "backend": r.choice(["numpy", "sparse"]), "seed": r.randrange(2**30)})
    for i in range(10 * k):  # long files
        r = rng_for("C14", seed, "long", i)
        declared = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
        kinds = "xctth" if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
        ops = qasm.random_ops(r, declared, r.choice([2, 5, 12, 40]), 80, kinds)
        out.append({"what": "layout", "declared": declared, "ops": ops, "backend": r.choice(["numpy", "sparse"]), "seed": r.randrange(2**30), "size": [5000, 9000, 33000, 66000, 70000, 140000][i % 6]})
    for i in range(220 * k):
        r = rng_for("C14", seed, "bad", i)
        declared = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
        ops = qasm.random_ops(r, declared, r.choice([0, 1, 2, 4]), 50, "hxzc" if len(declared) > 1 else "hxz")
        n = len(declared)
        if i % 2:
            bad = UNKNOWN[(i // 2) % len(UNKNOWN)]
        else:
            q = n + r.choice([0, 0, 1, 7, 90])
            p = r.randrange(n)
            bad = r.choice(["X x%d" % q, "H x%d" % q, "Z x%d" % q, "X x%d 2" % q, "RX x%d 180" % q, "CX x%d x%d" % (p, q), "CX x%d, x%d" % (q, p), "CNOT x%d x%d 2" % (q, p)]
                           + (["Toffoli x0, x1, x%d" % q, "Toffoli x%d, x0, x1" % q, "Toffoli x0, x%d, x1" % q] if n >= 2 else []))
        gap = None
        if i % 10 == 4:
            gap, bad = r.randrange(n), None
            bad = r.choice(["X x%d", "H x%d", "Z x%d"]) % gap
        out.append({"what": "bad", "declared": declared, "ops": ops, "bad": bad, "gap": gap, "at": r.randint(0, len(ops)), "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(200 * k):
        r = rng_for("C14", seed, "garbled", i)
        declared = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
        kinds = "hxzctt" if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
        ops = qasm.random_ops(r, declared, r.choice([1, 1, 2, 3, 5]), 50, kinds)
        out.append({"what": "garbled", "declared": declared, "ops": ops, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    return out


def garble(r, line, n):
    """A line that may or may not still be an instruction, but is still one line."""
    words = line.replace(",", " ").split()
    k = r.randrange(9)
    if k == 0 and len(words) > 1:
        del words[r.randrange(1, len(words))]
    elif k == 1:
        words.insert(r.randint(0, len(words)), r.choice(words))
    elif k == 2:
        words.insert(r.randint(1, len(words)), r.choice(["x%d" % r.randrange(n + 2), "0", "-1", "2", "1.5", "y", "x", "$", "(3)", "180", "90"]))
    elif k == 3:
        i = r.randrange(len(words))
        w = words[i]
        j = r.randrange(len(w))
        words[i] = w[:j] + r.choice(["", w[j] * 2, "x", "7", "_", w[j].swapcase()]) + w[j + 1 :]
    elif k == 4:
        r.shuffle(words)
    elif k == 5:
        words[0] = r.choice(["Toffoli", "CX", "CNOT", "H", "X", "Z", "RX", "TOFFOLI", "cx", "h", "z", "cnot", "toffoli", "rx", "Rx", "CCX", "CZ"])
    elif k == 6:
        words = words + words
    elif k == 7:
        return "".join(words)
    else:
        words = words[:1] + [w + r.choice(["", "x", ";", ".", ":"]) for w in words[1:]]
    line = r.choice([" ", ", ", "  "]).join(w for w in words if w)
    return line if line and not line.startswith(".") else "?"


def census(case, obs):
    """However the instructions are garbled: an error, or a gate for every line."""
    r = rng_for("C14 garbled", case["seed"])
    n = len(case["declared"])
    lines = qasm.program(r, case["declared"], case["ops"], case["declared"]).split("\n")
    first = lines.index(".begin") + 1
    for i in r.sample(range(len(case["ops"])), r.randint(1, min(2, len(case["ops"])))):
        lines[first + i] = garble(r, lines[first + i], n)
    text = "\n".join(lines)
    try:
        qc = circuit_from_qasm(text, drive.BACKENDS[case["backend"]])
    except Exception:
        obs.hit("garbled_refused")
        return
    with sut("counting the gates"):
        got = sum(len(qc.op_flow.peek()[j].peek_list()) - sum(k == "i" for k, _ in layer) for j, layer in enumerate(drive.shape_of(qc)) if 0 < j < len(drive.shape_of(qc)) - 1)
    expect(got == len(case["ops"]), "a program of %d instructions gave %d gates without an error:\n%s", len(case["ops"]), got, text)
    obs.hit("garbled_accepted")


def recording(base, obs):
    def record(f):
        def g(*a, **k):
            obs.hit("backend_events")
            return f(*a, **k)

        return staticmethod(g)

    return type("Recording", (base,), {m: record(getattr(base, m)) for m in ("kron", "dot", "eye", "matrix")})


def rewrite(r, text, obs):
    lines = text.split("\n")
    if r.random() < 0.3 and lines[0].startswith("#"):
        del lines[0]
    out = []
    style = set(x for x in ("comment", "trailing", "blank", "indent", "space", "crlf") if r.random() < 0.5)
    indent = r.choice(["    ", "\t", "  ", "\t  "])
    for i, line in enumerate(lines):
        words = line.split()
        if "space" in style and words and line[0] not in "#.":
            if words[0] in ("CX", "CNOT", "Toffoli"):
                ops = [w.strip(",") for w in words[1:]]
                sep = r.choice(SEPARATORS)
                line = words[0] + r.choice([" ", " ", "  ", "\t"]) + (r.choice(SEPARATORS) if r.random() < 0.5 else sep).join([sep.join(ops[:-1]), ops[-1]])
            elif words[0] in ("X", "x", "RX", "H", "Z"):
                line = words[0] + r.choice(["  ", " ", "   ", "\t"]) + r.choice(SEPARATORS).join(words[1:])
            elif words[0] in ("qudit", "qubit", "qutrit"):
                line = words[0] + r.choice(["  ", " ", "\t"]) + r.choice([" ", "   ", "\t"]).join(words[1:])
        if "trailing" in style and r.random() < 0.5:
            line += r.choice([" ", "  ", ""]) + r.choice(COMMENTS) if words else r.choice(COMMENTS)
        if "indent" in style:
            line = indent + line + r.choice(["", " ", "\t"])
        out.append(line)
        if "comment" in style and r.random() < 0.4:
            out.append(r.choice(["", indent]) + r.choice(COMMENTS))
        if "blank" in style:
            out += [r.choice(["", "   ", "\t"]) for _ in range(r.randint(0, 2))]
    if "blank" in style or "indent" in style:
        out += ["", r.choice(["", "  "])]
    obs.hit("header_first", out[0].strip().startswith("."))
    for x in style:
        obs.hit("style_" + x)
    return ("\r\n" if "crlf" in style else "\n").join(out)


def padded(r, text, size):
    """The program with comments until it is that long."""
    lines = text.split("\n")
    at = [[] for _ in range(len(lines) + 1)]
    n = len(text)
    while n < size:
        pad = r.choice([0, 1, 1, 2, 7, 60, 60, 300, 5000])
        line = r.choice(COMMENTS) + " " + r.choice(["x", "-", ". ", "X x0 ", "#"]) * pad
        r.choice(at).append(line)
        n += len(line) + 1
    out = list(at[0])
    for line, more in zip(lines, at[1:]):
        out += [line] + more
    return "\n".join(out)


def run_case(case, obs):
    declared, ops = case["declared"], case["ops"]
    if case["what"] == "garbled":
        return census(case, obs)
    r = rng_for("C14 text", case["seed"])
    dims = qasm.raised(declared, ops)
    backend = drive.BACKENDS[case["backend"]]
    if case["what"] == "bad":
        lines = qasm.program(r, dims, ops, declared).split("\n")
        lines.insert(lines.index(".begin") + 1 + case["at"], case["bad"])
        if case.get("gap") is not None:
            # every register from there on is declared under a later name
            first = lines.index(".begin")
            lines[:first] = [re.sub(r"^(qu\w+ x)(\d+)", lambda m: m.group(1) + str(int(m.group(2)) + (int(m.group(2)) >= case["gap"])), x) for x in lines[:first]]
            obs.hit("gaps")
        text = "\n".join(lines)
        try:
            qc = circuit_from_qasm(text, backend)
        except Exception:
            obs.hit("refused")
        else:
            expect(False, "a program with the instruction %r gave a circuit of %d layers", case["bad"], len(qc.op_flow.peek()))
        return
    rec = recording(backend, obs)
    plain = qasm.program(r, dims, ops, declared)
    text = rewrite(r, plain, obs)
    if case.get("size"):
        text = padded(r, text, case["size"])
        obs.hit("long_programs")
    before = obs.get("backend_events", 0)
    with sut("circuit_from_qasm(%r)" % plain):
        a = circuit_from_qasm(plain, rec)
    with sut("circuit_from_qasm(%r)" % text[:3000]):
        b = circuit_from_qasm(text, rec)
    want = model.simulate(dims, [0] * len(dims), ops)
    same(a, b, dims, want, text, obs)
    expect(obs.get("backend_events", 0) > before, "the circuit does not use the backend that was asked for")
    obs.hit("rewritten")
    with tempfile.TemporaryDirectory(prefix="qmon-") as d:
        path = os.path.join(d, r.choice(["p.qasm", "p.txt", "a b.qasm", "p"]))
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        obs.hit("not_ascii", not text.isascii())
        before = obs.get("backend_events", 0)
        with sut("parse_qasm of %r" % text[:3000]):
            c = parse_qasm(path, rec)
        same(a, c, dims, want, text, obs)
        expect(obs.get("backend_events", 0) > before, "the circuit read from a file does not use the backend that was asked for")
        with sut("parse_qasm of %r" % text[:3000]):
            same(a, parse_qasm(path), dims, want, text, obs)
        with open(path, newline="", encoding="utf-8") as f:
            expect(f.read() == text, "parse_qasm changed the file")
        obs.hit("from_file")
        # the same name, length and time, but another program
        lines = plain.split("\n")
        first = lines.index(".begin") + 1
        lines[first:first + len(ops)] = lines[first:first + len(ops)][::-1]
        for text, order in ((plain, ops), ("\n".join(lines), ops[::-1])):
            with open(path, "w", newline="", encoding="utf-8") as f:
                f.write(text)
            os.utime(path, (1600000000, 1600000000))
            with sut("parse_qasm of %r" % text[:3000]):
                d = parse_qasm(path, backend)
                got = [[(k, q) for k, q in layer if k != "i"] for layer in drive.shape_of(d)]
                want = [[(k, q) for k, q in layer if k != "i"] for layer in drive.shape_of(circuit_from_qasm(text, backend))]
            expect(got == want, "%r overwritten by a program of the same length gives the layers %r instead of %r", path, got, want)
            if max(dims) <= 10:
                drive.same_state(drive.report_state(drive.run(d), dims), model.simulate(dims, [0] * len(dims), order), "report of an overwritten file")
        obs.hit("overwritten")


def same(a, b, dims, want, text, obs):
    text = text[:3000]
    with sut("reading the circuits"):
        expect(str(a) == str(b), "%r is drawn as\n%s\ninstead of\n%s", text, str(b), str(a))
        expect(drive.shape_of(a) == drive.shape_of(b), "%r gives other layers", text)
    if max(dims) > 10:
        with sut("reading the circuits"):
            expect([(g.dim, g.state) for g in b.op_flow.peek()[0].peek_list()] == [(d, 0) for d in dims], "%r gives other registers", text)
            expect(drive.snapshot(a) == drive.snapshot(b), "%r gives other gates", text)
        obs.hit("large_dimensions")
        return
    drive.same_state(drive.report_state(drive.run(b), dims), want, "report of %r" % text)
    obs.hit("reports")
