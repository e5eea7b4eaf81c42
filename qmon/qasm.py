"""QASM programs: a generator, and an independent reading of existing program files."""
import re


def declare(r, q, d):
    forms = ["qudit x%d (%d)" % (q, d)] * 2
    if d == 2:
        forms.append("qubit x%d" % q)
    if d == 3:
        forms.append("qutrit x%d" % q)
    return r.choice(forms)


def spell(r, op, sep=None):
    """One instruction line for an op; sep joins the operands."""
    k = op[0]
    sep = sep or r.choice([" ", ", "])
    x = lambda q: "x%d" % q
    if k == "h":
        return "H " + x(op[1])
    if k == "z":
        return "Z " + x(op[1])
    if k == "x":
        if op[2] == 1:
            return r.choice(["X %s", "X %s", "x %s", "RX %s 180", "X %s 1"]) % x(op[1])
        return "X %s %d" % (x(op[1]), op[2])
    if k == "cx":
        name = r.choice(["CX", "CNOT"])
        ops = [x(op[1]), x(op[2])] + ([] if op[3] == 1 and r.random() < 0.8 else [str(op[3])])
        return name + " " + sep.join(ops)
    if k == "tof":
        return "Toffoli " + sep.join(x(q) for q in list(op[1]) + [op[2]])
    raise ValueError(k)


def program(r, dims, ops, declared=None):
    """A plain program: header, declarations, gates."""
    lines = r.choice([["# generated"], ["# generated"], [""], []]) + [".%s %d" % (r.choice(["qubit", "qudit", "qutrit"]), len(dims)), ""]
    declarations = [declare(r, q, d) for q, d in enumerate(declared or dims)]
    if r.random() < 0.25:
        r.shuffle(declarations)
    lines += declarations
    sep = r.choice([None, ", ", " "])
    lines += ["", ".begin"] + [spell(r, o, sep) for o in ops] + [".end"]
    return "\n".join(lines)


def raised(declared, ops):
    """Dimensions after the Toffoli rule: every second control gains one level, once."""
    second = {o[1][1] for o in ops if o[0] == "tof"}
    return [d + (q in second) for q, d in enumerate(declared)]


def random_ops(r, declared, depth, maxn, kinds="hxzct"):
    """Ops within what QASM can spell (increments are free; Toffoli adds one)."""
    from . import gen, model

    n = len(declared)
    ops = []
    levels = [0] * n
    dims = list(declared)
    repeat = r.choice([0.9, 0.6]) if r.random() < 0.12 else 0
    for _ in range(depth if not repeat else max(depth, 9)):
        if ops and r.random() < repeat:
            ops.append(list(ops[-1]))
            gen.classical_step(levels, ops[-1], dims)
            continue
        for _ in range(50):
            k = r.choice(kinds)
            if k == "t":
                if n < 3:
                    continue
                a, b, c = r.sample(range(n), 3)
                o = ["tof", [a, b], c, 1]
                if model.size(raised(declared, ops + [o])) > maxn:
                    continue
            else:
                o = gen.op(r, dims, k, levels)
            break
        else:
            o = ["x", 0, 1]
        ops.append(o)
        dims = raised(declared, ops)
        gen.classical_step(levels, o, dims)
    return ops


def read_file(text):
    """(declared dims, ops) of a program file, or None if it uses something out of scope."""
    declared, ops, body = [], [], False
    for line in text.split("\n"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line.startswith("."):
            if line == ".begin":
                body = True
            elif line == ".end":
                return declared, ops
            continue
        if not body:
            m = re.fullmatch(r"(qubit|qutrit|qudit)\s+x(\d+)\s*(?:\((\d+)\))?", line)
            if not m or int(m.group(2)) != len(declared):
                return None
            if m.group(1) == "qudit" and not m.group(3):
                return None
            declared.append(int(m.group(3)) if m.group(1) == "qudit" else {"qubit": 2, "qutrit": 3}[m.group(1)])
            continue
        words = line.replace(",", " ").split()
        name, args = words[0], [w.lstrip("xX") for w in words[1:]]
        if not all(re.fullmatch(r"-?\d+", a) for a in args):
            return None
        args = [int(a) for a in args]
        if name in ("X", "x") and len(args) in (1, 2):
            ops.append(["x", args[0], args[1] if len(args) == 2 else 1])
        elif name == "RX" and len(args) == 2 and args[1] == 180:
            ops.append(["x", args[0], 1])
        elif name in ("H", "Z") and len(args) == 1:
            ops.append([name.lower(), args[0]])
        elif name in ("CX", "CNOT") and len(args) in (2, 3):
            ops.append(["cx", args[0], args[1], args[2] if len(args) == 3 else 1])
        elif name == "Toffoli" and len(args) == 3:
            ops.append(["tof", args[:2], args[2], 1])
        else:
            return None
    return None
