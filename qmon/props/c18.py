"""C18: invalid requests are rejected and leave the circuit unchanged."""

import numpy as np

from .. import drive, gen, model
from ..core import Violation, expect, rng_for, sut

from qudiet.core.quantum_circuit import QuantumCircuit

RULE = (
    "Random histories in which invalid requests of every kind are mixed with valid ones before and after measurement; each must "
    "raise, the layers, matrices, summaries and drawing are compared before and after it, and the final report with that of the "
    "valid requests alone; and constructions from invalid initial levels and register types; non-trivial: every case."
)
REQUIRED = {
    "rejected": 900, "rejected_after_measurement": 80, "out_of_range": 250, "negative": 150, "dimension": 150,
    "same_register": 60, "toffoli": 120, "toffoli_target": 30, "bad_initial": 100, "bad_registers": 12, "reports": 150,
}
ASSUMPTIONS = [
    "Controls repeated in a Toffoli, and registers that are not integers, are outside the property",
]


def invalid(r, dims):
    """One invalid request: [entry point, arguments.., class]."""
    n = len(dims)
    k = r.choice(["range", "range", "neg", "neg", "dim", "dim", "same", "tof"])
    out = n + r.choice([0, 0, 0, 1, 2, 7])
    neg = -r.choice([1, 1, 1, 2, n, n + 1])
    if k in ("range", "neg"):
        q = out if k == "range" else neg
        e = r.choice(["h", "x", "z", "gate", "gatelist", "cx_c", "cx_t", "cx_both"])
        if e in ("h", "z", "gate"):
            return [e, q, "out_of_range" if k == "range" else "negative"]
        if e == "x":
            return [e, q, r.choice([1, 2, -1]), "out_of_range" if k == "range" else "negative"]
        if e == "gatelist":
            regs = [q] if r.random() < 0.3 else ([n - 1, n] if k == "range" else [-1, 0])
            if r.random() < 0.4:  # one bad register at any place of a longer list
                regs = [r.randrange(n) for _ in range(r.randint(2, 4))]
                regs.insert(r.randint(0, len(regs)), q)
            return [e, regs, "out_of_range" if k == "range" else "negative"]
        o = r.randrange(n)
        pair = {"cx_c": [q, o], "cx_t": [o, q], "cx_both": [q, q + 1 if k == "range" else q - 1]}[e]
        return ["cx", pair, 1, "out_of_range" if k == "range" else "negative"]
    if k == "dim":
        q = r.randrange(n)
        e = r.choice(["h", "x", "z", "gate", "cx"]) if n > 1 else r.choice(["h", "x", "z", "gate"])
        big = dims[q] + r.choice([1, 1, 2, 10])
        if e == "cx":
            o = r.choice([i for i in range(n) if i != q])
            # too large for at least one of the two
            return ["cxdim", r.choice([[q, o], [o, q]]), 1, big, "dimension"]
        return [e + "dim", q, big, "dimension"]
    if k == "same":
        q = r.randrange(n)
        return ["cx", [q, q], r.choice([1, 0, 2]), "same_register"]
    how = r.choice(["out", "neg", "all_neg", "same", "mixed"])
    if how == "all_neg":  # as a list counted from the end
        regs = [q - n for q in r.sample(range(n), min(n, r.randint(2, 4)))]
        if len(regs) < 2:
            regs.append(neg)
    elif how == "same":
        regs = r.sample(range(n), min(n, r.randint(1, 3)))
        regs.insert(r.randint(0, len(regs)), r.choice(regs))
        t = r.choice([q for q in regs if regs.count(q) > 1])
        regs.remove(t)
        return ["tof", regs, t, "toffoli_target"]
    else:
        regs = r.sample(range(n), min(n, r.randint(1, 3)))
        regs += {"out": [out], "neg": [neg], "mixed": [out, neg]}[how]
        r.shuffle(regs)
    return ["tof", regs[:-1], regs[-1], "toffoli"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(220 * k):
        r = rng_for("C18", seed, i)
        s = gen.circuit(r, maxn=60, nmin=1, nmax=5, dmax=6, depth=r.choice([0, 1, 2, 4, 7]))
        hist = []
        for o in s["ops"] + [None]:
            while r.random() < 0.55:
                hist.append(["bad", invalid(r, s["dims"])])
            if o is not None:
                hist.append(["op", o])
        if r.random() < 0.7:
            hist.append(["bad", invalid(r, s["dims"])])
        after = [["bad", invalid(r, s["dims"])] for _ in range(r.choice([0, 0, 1, 2]))]
        out.append({"what": "history", "spec": dict(s, ops=[]), "hist": hist, "after": after})
    for i in range(120 * k):
        r = rng_for("C18", seed, "init", i)
        dims = gen.layout(r, maxn=60, nmax=5)
        init = [r.randrange(d) for d in dims[: r.randint(1, len(dims))]]
        q = r.randrange(len(init))
        init[q] = r.choice([dims[q], dims[q] + 1, -1, -1, -dims[q], dims[q] + 7])
        out.append({"what": "init", "dims": dims, "init": init, "backend": r.choice(["numpy", "sparse", None]), "tuple": len(set(dims)) == 1 and r.random() < 0.5})
    for i in range(30 * k):
        r = rng_for("C18", seed, "many", i)
        n = r.choice([11, 17, 33, 40, 65, 70, 101, 130])
        dims = [r.choice([2, 2, 3])] * n if i % 2 else [r.choice([2, 2, 3, 4]) for _ in range(n)]
        q = r.choice([n - 1, r.randrange(n)])
        init = [r.randrange(d) for d in dims[: r.choice([n, q + 1])]]
        init[q] = r.choice([dims[q], dims[q] + 1, -1, -1, -dims[q], dims[q] + 7])
        out.append({"what": "init", "dims": dims, "init": init, "backend": r.choice(["numpy", "sparse", None]), "tuple": len(set(dims)) == 1 and r.random() < 0.5})
    for kind in ["int", "str", "none", "set", "dict", "generator", "float", "range", "array", "bytes", "frozenset", "object"]:
        out.append({"what": "registers", "kind": kind})
    return out


NO_SHRINK = True


def call(qc, b, dims):
    e = b[0]
    if e in ("hdim", "zdim", "xdim", "gatedim") and b[2] % 3 == 0:  # an integer of another kind
        b = [e, b[1], np.int64(b[2])]
    if e in ("h", "z"):
        return getattr(qc, e)(b[1])
    if e == "x":
        return qc.x(b[1], plus=b[2])
    if e == "gate":
        return qc.gate(drive.gate_class(np.eye(2)), b[1])
    if e == "gatelist":
        return qc.gate(drive.gate_class(np.eye(4)), list(b[1]))
    if e == "cx":
        return qc.cx(tuple(b[1]), b[2])
    if e in ("hdim", "zdim", "xdim"):
        return getattr(qc, e[0])(b[1], dims=b[2])
    if e == "gatedim":
        return qc.gate(drive.gate_class(np.eye(2)), b[1], dims=b[2])
    if e == "cxdim":
        return qc.cx(tuple(b[1]), b[2], dims=b[3])
    if e == "tof":
        return qc.toffoli((list(b[1]), b[2]))
    raise ValueError(e)


def state(qc):
    with sut("reading the circuit"):
        return drive.snapshot(qc), qc.get_circuit_config(), qc.get_circuit_info(), str(qc), list(qc.qregs), list(qc.init_states)


def reject(qc, b, dims, obs):
    before = state(qc)
    try:
        got = call(qc, b, dims)
    except ValueError:
        pass
    except Exception as e:
        raise Violation("the invalid request %r raised %s, not ValueError: %s" % (b, type(e).__name__, e))
    else:
        raise Violation("the invalid request %r on registers %r returned %r" % (b, dims, got))
    expect(state(qc) == before, "the rejected request %r changed the circuit", b)
    obs.hit("rejected")
    obs.hit(b[-1])


def run_case(case, obs):
    if case["what"] == "registers":
        value = {
            "int": 3, "str": "222", "none": None, "set": {2, 3}, "dict": {2: 3}, "generator": (i for i in [2, 3]), "float": 2.0,
            "range": range(2, 4), "array": np.array([2, 3]), "bytes": b"22", "frozenset": frozenset([2, 3]), "object": object(),
        }[case["kind"]]
        refuse(lambda: QuantumCircuit(value), "registers %r" % (value,))
        obs.hit("bad_registers")
        return
    if case["what"] == "init":
        spec = {"dims": case["dims"], "init": case["init"], "backend": case["backend"], "tuple": case["tuple"], "ops": []}
        refuse(lambda: drive.construct(spec), "initial levels %r on registers %r" % (case["init"], case["dims"]))
        obs.hit("bad_initial")
        return
    spec = case["spec"]
    dims = spec["dims"]
    with sut("building the circuit"):
        qc = drive.construct(spec)
    valid = []
    for kind, what in case["hist"]:
        if kind == "bad":
            reject(qc, what, dims, obs)
        else:
            with sut("request %r" % what):
                got = drive.issue(qc, what, dims)
            expect(got is True, "the valid request %r returned %r", what, got)
            valid.append(what)
    with sut("measure_all"):
        qc.measure_all()
    for _, what in case["after"]:
        reject(qc, what, dims, obs)
        obs.hit("rejected_after_measurement")
    got = drive.report_state(drive.run(qc), dims)
    drive.same_state(got, model.simulate(dims, drive.init_of(spec), valid), "report after rejected requests")
    obs.hit("reports")


def refuse(make, what):
    try:
        make()
    except ValueError:
        return
    except Exception as e:
        raise Violation("%s raised %s, not ValueError: %s" % (what, type(e).__name__, e))
    raise Violation("%s were accepted" % what)
