"""C25: the GPU backends agree with the CPU backends.

There is no GPU here.  The real CUDABackend and CUDASparseBackend run on a stand-in for CuPy
(qmon/standin) that keeps host and device memory apart the way CuPy does; the monitor compares
every report with the reference model and every operation with its definition."""
import json
import os
import subprocess
import sys

import numpy as np

from .. import drive, env, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Random circuits of every kind of gate on CUDABackend and CUDASparseBackend over the stand-in, in the four forms of report, each "
    "run twice and next to a CPU backend; random operands for kron, dot, eye, matrix, nonzero and is_unitary; child processes with each of the "
    "environment variables that announce CUDA, and with none; non-trivial: a circuit with a gate, or an operand."
)
REQUIRED = {"runs": 300, "device_matrices": 500, "direct_ops": 300, "device_operations": 5000, "uploads": 500, "refused": 2, "enabled": 5}
VARIABLES = ["CUDA_HOME", "CUDA_PATH", "CUDA_VERSION", "CUDNN_VERSION", "COLAB_GPU"]


def backends():
    from qudiet.core.backend.CUDABackend import CUDABackend
    from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend

    return {"cuda": CUDABackend, "cudasparse": CUDASparseBackend}


def cases(tier, seed):
    k = 1 if tier == "quick" else 40
    out = [{"what": "process", "set": v} for v in [None] + VARIABLES]
    for i in range(120 * k):
        r = rng_for("C25", seed, i)
        s = gen.circuit(r, maxn=48, dmax=5, backend=None, depth=r.choice([0, 1, 2, 3, 5, 8, 12]))
        if r.random() < 0.4:
            s["ops"] = gen.probe_ops(s["dims"], r.randrange(2**30)) + s["ops"]
        s["ops"] = [o if o[0] != "u" or o[2]["kind"] != "intperm" else o[:2] + [dict(o[2], kind="perm")] for o in s["ops"]]
        out.append({"what": "circuit", "spec": s, "form": [["print", "amplitude"], ["state", "probability"], ["state", "amplitude"], ["print", "probability"]][i % 4]})
    for i in range(60 * k):
        out.append({"what": "direct", "seed": rng_for("C25", seed, "direct", i).randrange(2**31)})
    return out


def nontrivial(case):
    return case["what"] != "circuit" or len(case["spec"]["ops"]) > 0


def run_case(case, obs):
    import cupy

    before = dict(cupy.counts)
    {"circuit": circuit, "direct": direct, "process": process}[case["what"]](case, obs)
    for k in ("device_operations", "uploads"):
        obs.hit(k, cupy.counts[k] - before[k])


def host(m):
    """A copy of a device matrix in host memory."""
    if hasattr(m, "toarray"):
        m = m.toarray()
    return m.get() if hasattr(m, "get") else np.asarray(m)


def on_device(m):
    import cupy
    from cupyx.scipy import sparse

    return isinstance(m, (cupy.ndarray, sparse.spmatrix))


def state(report, dims):
    v = np.zeros(tuple(dims), dtype=complex)
    for levels, value in drive.report_entries(report, dims):
        with sut("reading a value of the report"):
            v[levels] = complex(value.item() if hasattr(value, "item") else value)
    return v


def circuit(case, obs):
    spec, dims = case["spec"], case["spec"]["dims"]
    form = case["form"]
    if form[0] == "print" and max(dims) > 10:
        form = ["state", form[1]]
    want = drive.expected_state(spec)
    if form[1] == "probability":
        want = (np.abs(want) ** 2).astype(complex)
    with sut("importing the GPU backends"):
        found = backends()
    for name, backend in found.items():
        qc = drive.build(spec, backend=backend, output=drive.output_for(dims, *form))
        cpu = drive.build(spec, backend=drive.NumpyBackend, output=drive.output_for(dims, *form))
        for turn in ("first", "second"):
            report = drive.run(qc)
            drive.same_state(state(report, dims), want, "%s report on %s" % (turn, backend.__name__))
            there = drive.run(cpu)
            labels = [next(iter(x)) for x in report], [next(iter(x)) for x in there]
            expect(all(type(a) is type(b) for a, b in zip(*labels)), "labels on %s are %r instead of %r", backend.__name__, labels[0][:2], labels[1][:2])
            obs.hit("runs")
        with sut("reading the layers on %s" % backend.__name__):
            for moment in qc.op_flow.peek():
                for g in moment.peek_list():
                    kind, regs = drive.describe(g)
                    if kind == "m":
                        continue
                    u = g.unitary
                    expect(on_device(u), "the matrix of a %s gate on %s is a %s in host memory", kind, backend.__name__, type(u).__name__)
                    obs.hit("device_matrices")


def direct(case, obs):
    r = np.random.RandomState(case["seed"])

    def rnd(*shape):
        a = r.normal(size=shape)
        if r.rand() < 0.5:
            a = a + 1j * r.normal(size=shape)
        if r.rand() < 0.5:
            a = a * (r.rand(*shape) < 0.5)
        return a

    with sut("importing the GPU backends"):
        found = backends()
    for name, backend in found.items():
        n, m, p, q = (int(x) for x in r.randint(1, 7, size=4))
        a, b, c = rnd(n, m), rnd(p, q), rnd(m, p)
        v = rnd(m)
        if r.rand() < 0.3:
            with sut("making a %s" % backend.__name__):
                cls, backend = backend, backend()
                backend.__name__ = cls.__name__
        with sut("%s operation" % backend.__name__):
            A, B, C = backend.matrix(a), backend.matrix(b), backend.matrix(c)
            got = {
                "matrix": (host(A), a),
                "matrix of a matrix": (host(backend.matrix(A)), a),
                "kron": (host(backend.kron(A, B)), np.kron(a, b)),
                "kron of a kron": (host(backend.kron(backend.kron(A, B), C)), np.kron(np.kron(a, b), c)),
                "dot": (host(backend.dot(A, C)), a @ c),
                "dot of krons": (host(backend.dot(backend.kron(A, B), backend.kron(C, backend.matrix(b.T)))), np.kron(a, b) @ np.kron(c, b.T)),
                "eye": (host(backend.eye(n, m)), np.eye(n, m)),
                "eye by name": (host(backend.eye(n=m, m=n)), np.eye(m, n)),
            }
            if name == "cuda":
                got["matrix of a list of numbers"] = (host(backend.matrix(v)), v.reshape(-1, 1))
            where = [host(x) for x in backend.nonzero(A)]
            u = model.umatrix([n + 1], {"kind": "haar", "seed": int(r.randint(2**30))})
            bad = u.copy()
            bad[int(r.randint(n + 1))] *= 1 + 0.01 * (1 + r.rand())
            answers = [bool(backend.is_unitary(x)) for x in (u, bad)]
        for what, (x, y) in got.items():
            expect(x.shape == y.shape and np.allclose(x, y, atol=1e-9), "%s of %s is wrong", what, backend.__name__)
            obs.hit("direct_ops")
        expect(sorted(zip(*[x.tolist() for x in where])) == sorted(zip(*[x.tolist() for x in a.nonzero()])), "nonzero of %s is wrong", backend.__name__)
        expect(answers == [True, False], "is_unitary of %s is %r for a unitary matrix and one that is not", backend.__name__, answers)
        for x in (A, B, C):
            expect(on_device(x), "matrix of %s stays in host memory", backend.__name__)


CHILD = """
import json, sys
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
out = {}
for name in ("CUDABackend", "CUDASparseBackend"):
    try:
        getattr(__import__("qudiet.core.backend." + name, fromlist=[name]), name).eye(2, 2)
        out[name] = "imported"
    except Exception as e:
        out[name] = "refused"
from qudiet.core.quantum_circuit import QuantumCircuit
qc = QuantumCircuit([2, 3])
qc.x(1, plus=2)
qc.measure_all()
out["report"] = [next(iter(x)) for x in qc.run()]
print(json.dumps(out))
"""


def process(case, obs):
    """A process in which at most one of the variables that announce CUDA is set."""
    e = {k: v for k, v in os.environ.items() if k not in VARIABLES}
    if case["set"]:
        e[case["set"]] = "1"
    e["PYTHONPATH"] = os.pathsep.join([env.SRC, env.STANDIN])
    e["PYTHONPYCACHEPREFIX"] = "/nonexistent-qmon-pycache"
    p = subprocess.run([sys.executable, "-c", CHILD], env=e, capture_output=True, text=True, timeout=150, cwd="/")
    expect(p.returncode == 0, "a process with %s failed: %s", case["set"] or "no CUDA variable", p.stderr[-400:])
    out = json.loads(p.stdout.splitlines()[-1])
    want = "imported" if case["set"] else "refused"
    for name in ("CUDABackend", "CUDASparseBackend"):
        expect(out[name] == want, "%s is %s with %s", name, out[name], case["set"] or "no CUDA variable")
        obs.hit("enabled" if case["set"] else "refused")
    expect(out["report"] == ["|02>"], "the default backend reports %r with %s", out["report"], case["set"] or "no CUDA variable")
