"""C30: on the sparse backend a circuit costs what its nonzero entries cost.

Monitors: a backend that watches the stored entries of every matrix the sparse backend returns
while a circuit is built and run; the stored entries of every gate, layer and result; the peak of
the memory allocated (tracemalloc) while wide circuits are built and run."""
import tracemalloc

import numpy as np
import scipy.sparse as sp

from .. import drive, gen, model, qasm
from ..core import expect, rng_for, sut

from qudiet.core.backend.SparseBackend import SparseBackend
from qudiet.qasm.qasm_parser import circuit_from_qasm

RULE = (
    "Wide circuits of X, Z, CX and Toffoli gates (up to 2^13 basis states, thorough 2^16, mixed dimensions, gates that span few registers) from the API and "
    "from QASM on the sparse backend, given, by default or watched, with the peak of memory measured; random circuits of all kinds with every layer's entries "
    "counted; random operands of the backend's operations; non-trivial: at least one gate, or an operation."
)
REQUIRED = {"wide_runs": 60, "watched_matrices": 2000, "peaks": 30, "large": 20, "layers": 500, "gates": 1000, "operations": 200, "programs": 10}
NO_SHRINK = False
LADDER = (128, 512, 2048, 8192)


def wide_layout(r, low, high):
    while True:
        style = r.random()
        dims = []
        while model.size(dims) < low:
            dims.append(2 if style < 0.4 else r.choice([2, 2, 3]) if style < 0.7 else r.choice([2, 2, 2, 3, 4, 5, 7]))
        if model.size(dims) <= high:
            return dims


def near_op(r, dims, levels, span):
    """A gate whose registers span at most `span` basis states."""
    n = len(dims)
    for _ in range(300):
        k = r.choice("xxzzcct")
        if k == "z":
            return ["z", r.randrange(n)]
        if k == "x":
            q = r.randrange(n)
            return ["x", q, gen.plus_for(r, dims[q])]
        a = r.randrange(n)
        b = min(n, a + r.randint(2, 6))
        m = 2 if k == "c" else r.randint(2, 4)
        if b - a < m:
            continue
        regs = r.sample(range(a, b), m)
        if model.size(dims[min(regs):max(regs) + 1]) > span:
            continue
        p = gen.plus_for(r, dims[regs[-1]])
        return ["cx", regs[0], regs[1], p] if k == "c" else ["tof", regs[:-1], regs[-1], p]
    return ["x", 0, 1]


def near_ops(r, dims, init, n, span):
    levels = list(init)
    ops = []
    for _ in range(n):
        o = near_op(r, dims, levels, span)
        ops.append(o)
        gen.classical_step(levels, o, dims)
    return ops


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    out = []
    for i in range(14 * k):
        r = rng_for("C30", seed, "wide", i)
        top = LADDER[-1] if tier == "quick" else r.choice([8192, 8192, 20000, 70000])
        sizes = [s for s in LADDER if s < top] + [top]
        rungs = []
        for s in sizes:
            dims = wide_layout(r, s // 2, s)
            init = gen.init_states(r, dims)
            full = list(init or []) + [0] * (len(dims) - len(init or []))
            form = r.choice([None, None, ["state", "amplitude"], ["state", "probability"], ["print", "probability"]])
            rungs.append({"dims": dims, "init": init, "ops": near_ops(r, dims, full, r.choice([1, 3, 6, 10]), 64), "form": form})
        out.append({"what": "wide", "rungs": rungs, "backend": ["sparse", None, "watched"][i % 3]})
    for i in range(5 * k):
        r = rng_for("C30", seed, "program", i)
        rungs = []
        for s in LADDER[:3] if tier == "quick" else LADDER:
            dims = wide_layout(r, s // 2, s)
            ops = [o if o[0] != "tof" else ["z", o[2]] for o in near_ops(r, dims, [0] * len(dims), r.choice([2, 4, 8]), 64)]
            rungs.append({"dims": dims, "init": None, "ops": ops})
        out.append({"what": "program", "rungs": rungs, "backend": ["sparse", None, "watched"][i % 3], "seed": r.randrange(2**30)})
    for i in range(60 * k):
        r = rng_for("C30", seed, "layers", i)
        out.append({"what": "layers", "spec": gen.circuit(r, maxn=96, nmax=6, dmax=6, backend=["sparse", None][i % 2]), "watched": i % 4 == 0})
    for i in range(60 * k):
        r = rng_for("C30", seed, "operation", i)
        out.append({"what": "operation", "op": r.choice(["kron", "kron", "dot", "eye", "matrix"]), "seed": r.randrange(2**30)})
    return out


def nontrivial(case):
    if case["what"] == "layers":
        return len(case["spec"]["ops"]) > 0
    return True


def stored(m):
    """Entries a sparse matrix keeps."""
    expect(sp.issparse(m), "a matrix of a circuit on the sparse backend is a %s", type(m).__name__)
    return int(m.nnz)


def watched(obs, monomial):
    """The sparse backend, with its results looked at.  In a circuit of permutations and phases
    every matrix has at most one entry in a row and one in a column."""

    def look(m, what):
        expect(sp.issparse(m), "%s of the sparse backend returned a %s", what, type(m).__name__)
        obs.hit("watched_matrices")
        if monomial:
            expect(stored(m) <= min(m.shape), "%s returned a %r matrix with %d entries in a circuit of permutations and phases", what, m.shape, stored(m))
        return m

    class Watched(SparseBackend):
        @staticmethod
        def kron(a, b):
            m = look(SparseBackend.kron(a, b), "kron")
            if sp.issparse(a) and sp.issparse(b):
                expect(stored(m) <= stored(a) * stored(b), "kron of matrices with %d and %d entries returned %d", stored(a), stored(b), stored(m))
            return m

        @staticmethod
        def dot(a, b):
            return look(SparseBackend.dot(a, b), "dot")

        @staticmethod
        def eye(n, m):
            return look(SparseBackend.eye(n, m), "eye")

        @staticmethod
        def matrix(a):
            return look(SparseBackend.matrix(a), "matrix")

    return Watched


def span_of(op, dims):
    if op[0] in ("x", "z"):
        return dims[op[1]]
    regs = [op[1], op[2]] if op[0] == "cx" else list(op[1]) + [op[2]]
    return model.size(dims[min(regs):max(regs) + 1])


def allowed(dims, ops):
    size, n = model.size(dims), len(dims)
    return 400_000 + 1500 * size + 400 * max([span_of(o, dims) ** 2 for o in ops] + [0]) + 4000 * n * (len(ops) + 2)


def one_entry(report, dims, init, ops):
    levels = list(init)
    for o in ops:
        gen.classical_step(levels, o, dims)
    entries = drive.report_entries(report, dims)
    expect(len(entries) == 1, "a basis state came out as %d entries", len(entries))
    expect(entries[0][0] == tuple(levels) and abs(abs(entries[0][1]) - 1) < 1e-9, "got %r instead of %r", entries[0], levels)


def climb(case, obs):
    for rung in case["rungs"]:
        dims, ops = rung["dims"], rung["ops"]
        spec = dict(rung, backend=case["backend"])
        init = drive.init_of(rung)
        limit = allowed(dims, ops)
        backend = watched(obs, True) if case["backend"] == "watched" else drive.BACKENDS[case["backend"]]
        text = qasm.program(rng_for("C30", case["seed"]), dims, ops, dims) if case["what"] == "program" else None
        tracemalloc.start()
        try:
            if text is None:
                form = rung.get("form")
                qc = drive.build(spec, backend=backend, output=drive.output_for(dims, *form) if form else "auto")
            else:
                with sut("parsing the program"):
                    qc = circuit_from_qasm(text, backend)
                obs.hit("programs")
            built = tracemalloc.get_traced_memory()[1]
            check_memory(built, limit, dims, "building", obs)
            rep = drive.run(qc)
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        check_memory(peak, limit, dims, "running", obs)
        obs.hit("peaks")
        obs.hit("wide_runs")
        obs.hit("large", model.size(dims) >= 1000)
        one_entry(rep, dims, init, ops)
        with sut("reading the layers"):
            for m in qc.op_flow.peek()[:-1]:
                u = m.exec(qc.backend)
                expect(stored(u) <= min(u.shape), "a layer of permutations and phases has %d entries for %r", stored(u), u.shape)
                obs.hit("layers")


def check_memory(peak, limit, dims, what, obs):
    expect(peak <= limit, "%s a circuit of permutations and phases with %d basis states took %d kB, %.0f bytes for each", what, model.size(dims), peak // 1000, peak / model.size(dims))


def run_case(case, obs):
    if case["what"] in ("wide", "program"):
        return climb(case, obs)
    if case["what"] == "operation":
        return operation(case, obs)
    spec = case["spec"]
    monomial = all(o[0] in ("x", "z", "cx", "tof") for o in spec["ops"])
    qc = drive.build(spec, backend=watched(obs, monomial)) if case["watched"] else drive.build(spec)
    drive.run(qc)
    with sut("reading the layers"):
        for m in qc.op_flow.peek()[:-1]:
            bound = 1
            for g in m.peek_list():
                u = g.unitary
                entries = np.count_nonzero(drive.dense(u))
                expect(stored(u) == entries, "the matrix of %s stores %d entries, %d of them not zero", drive.describe(g), stored(u), entries)
                obs.hit("gates")
                bound *= entries
            u = m.exec(qc.backend)
            expect(stored(u) <= bound, "a layer whose gates have %d entries in all combinations stores %d", bound, stored(u))
            obs.hit("layers")


def operand(r, g, rows, cols):
    density = r.choice([0.05, 0.2, 0.5, 1.0])
    a = np.where(g.random((rows, cols)) < density, g.normal(size=(rows, cols)), 0.0)
    if r.random() < 0.3:
        a = a * 1j
    form = r.choice(["csr", "csr", "coo", "csc"])
    return sp.csr_matrix(a).asformat(form)


def operation(case, obs):
    r = rng_for("C30", case["seed"])
    g = np.random.default_rng(case["seed"])
    n, m, p, q = (r.randint(1, 9) for _ in range(4))
    B = SparseBackend
    with sut(case["op"]):
        if case["op"] == "kron":
            a, b = operand(r, g, n, m), operand(r, g, p, q)
            got, bound = B.kron(a, b), stored(a) * stored(b)
        elif case["op"] == "dot":
            a, b = operand(r, g, n, m).tocsr(), operand(r, g, m, p)
            got, bound = B.dot(a, b), int(((drive.dense(a) != 0).astype(int) @ (drive.dense(b) != 0).astype(int) > 0).sum())
        elif case["op"] == "eye":
            got, bound = B.eye(n, m), min(n, m)
        else:
            a = operand(r, g, n, m)
            if r.random() < 0.6:
                a = a.toarray()
            got, bound = B.matrix(a), np.count_nonzero(drive.dense(a))
    expect(sp.issparse(got), "%s returned a %s", case["op"], type(got).__name__)
    expect(stored(got) <= bound, "%s returned %d entries where at most %d are not zero", case["op"], stored(got), bound)
    obs.hit("operations")
