"""C27: a circuit computes through the backend it was given, and nothing else.

Monitor: circuits run on a backend whose matrices are opaque: no operator and no NumPy or
SciPy function accepts them, so anything done past the backend fails.  The backend records
every operation, and refuses operands that it (this very backend) did not make."""
import numpy as np
import scipy.sparse as sp

from .. import drive, gen, model, qasm
from ..core import Violation, expect, rng_for, sut

from qudiet.core.backend.core import Backend
from qudiet.core.backend.NumpyBackend import NumpyBackend
from qudiet.core.backend.SparseBackend import SparseBackend
from qudiet.core.operator_flow import OperatorFlow
from qudiet.qasm.qasm_parser import circuit_from_qasm

RULE = (
    "Random circuits (all kinds of gates, QASM programs, several circuits with a backend each that take turns) on backends of opaque tagged matrices; the monitor "
    "records every operation, the backend every operand came from, and compares the report with the reference model. Further, the type "
    "of every gate matrix, layer and result on the built-in backends; non-trivial: at least one gate."
)
REQUIRED = {"runs": 150, "events_matrix": 500, "events_eye": 300, "events_kron": 500, "events_dot": 300, "operands": 2000, "foreign_possible": 60, "typed": 500, "kind_h": 50, "kind_x": 50, "kind_z": 50, "kind_cx": 40, "kind_tof": 25, "kind_u": 25}
NO_SHRINK = False


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(120 * k):
        r = rng_for("C27", seed, "one", i)
        s = gen.circuit(r, maxn=48 if i % 3 else 120, nmax=5, dmax=5 if i % 3 else 14, backend=None)
        out.append({"what": "one", "spec": s, "instance": i % 4 == 0})
    for i in range(40 * k):
        r = rng_for("C27", seed, "two", i)
        specs = [gen.circuit(r, maxn=24, nmax=4, dmax=4, depth=r.choice([1, 2, 4, 6]), backend=None) for _ in range(r.randint(2, 3))]
        if i % 2:
            for s in specs[1:]:
                s.update(dims=specs[0]["dims"], init=specs[0]["init"], ops=list(specs[0]["ops"]), tuple=specs[0]["tuple"])
        out.append({"what": "several", "specs": specs, "seed": r.randrange(2**30), "instances": i % 4 >= 2})
    for i in range(40 * k):
        r = rng_for("C27", seed, "qasm", i)
        declared = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
        ops = qasm.random_ops(r, declared, r.choice([0, 1, 3, 6]), 48, "hxzct" if len(declared) > 2 else "hxzc" if len(declared) > 1 else "hxz")
        out.append({"what": "qasm", "declared": declared, "ops": ops, "seed": r.randrange(2**30)})
    for i in range(80 * k):
        r = rng_for("C27", seed, "typed", i)
        out.append({"what": "typed", "spec": gen.circuit(r, maxn=40 if i % 2 else 120, nmax=5, dmax=5 if i % 2 else 14, backend=["numpy", "sparse", None][i % 3])})
    return out


def nontrivial(case):
    return case["what"] == "several" or len((case.get("spec") or case)["ops"]) > 0


class Opaque:
    """A matrix that only its backend can compute with."""

    __array_ufunc__ = None  # NumPy refuses it
    __slots__ = ("_rows", "_maker")

    def __init__(self, rows, maker):
        self._rows = rows
        self._maker = maker

    @property
    def shape(self):
        return self._rows.shape

    ndim = 2

    def transpose(self):
        return Opaque(self._rows.T, self._maker)

    T = property(transpose)

    def copy(self):
        return Opaque(self._rows.copy(), self._maker)

    def toarray(self):
        self._maker.read += 1
        return self._rows.copy()

    todense = toarray

    @property
    def dtype(self):
        return self._rows.dtype

    def __array__(self, *a, **k):
        raise TypeError("an opaque matrix of a user's backend was read as a NumPy array")

    def __len__(self):
        raise TypeError("an opaque matrix of a user's backend was read as a sequence")


def _outside(name):
    def operation(self, *a, **k):
        raise Violation("%s of a matrix was called past its backend" % name)

    return operation


for _n in ("dot", "multiply", "__matmul__", "__rmatmul__", "__mul__", "__rmul__", "__imul__", "__imatmul__", "__add__", "__radd__", "__sub__", "__rsub__", "__truediv__", "__pow__", "__neg__"):
    setattr(Opaque, _n, _outside(_n))


class Log:
    def __init__(self, name, obs):
        self.name, self.obs = name, obs
        self.read = 0
        self.events = {"kron": 0, "dot": 0, "eye": 0, "matrix": 0}

    def hit(self, what):
        self.events[what] += 1
        self.obs.hit("events_" + what)


class Opaques(Backend):
    """Backends that are objects of one class."""

    def __init__(self, ops):
        self.__dict__.update(ops)


def opaque_backend(name, obs, instance=False):
    log = Log(name, obs)

    def rows(x, what):
        if not isinstance(x, Opaque):
            raise Violation("%s of backend %s got a %s, which the backend did not make" % (what, name, type(x).__name__))
        if x._maker is not log:
            raise Violation("%s of backend %s got a matrix made by backend %s" % (what, name, x._maker.name))
        obs.hit("operands")
        return x._rows

    def kron(a, b):
        a, b = rows(a, "kron"), rows(b, "kron")
        log.hit("kron")
        n, m = a.shape
        p, q = b.shape
        return Opaque((a[:, None, :, None] * b[None, :, None, :]).reshape(n * p, m * q), log)

    def dot(a, b):
        a, b = rows(a, "dot"), rows(b, "dot")
        log.hit("dot")
        return Opaque(a @ b, log)

    def eye(n, m):
        log.hit("eye")
        return Opaque(np.eye(n, m, dtype=complex), log)

    def matrix(a):
        if isinstance(a, Opaque):
            return Opaque(rows(a, "matrix"), log)
        log.hit("matrix")
        a = np.array(drive.dense(a), dtype=complex)
        return Opaque(a.reshape(-1, 1) if a.ndim == 1 else a, log)

    def nonzero(a):
        return rows(a, "nonzero").nonzero()

    def is_unitary(a):
        a = a._rows if isinstance(a, Opaque) else drive.dense(a)
        return bool(a.ndim == 2 and a.shape[0] == a.shape[1] and np.allclose(a @ a.conj().T, np.eye(len(a))))

    ops = dict(kron=kron, dot=dot, eye=eye, matrix=matrix, nonzero=nonzero, is_unitary=is_unitary)
    if instance:
        return Opaques(ops), log
    return type("Opaque" + name, (Backend,), {k: staticmethod(f) for k, f in ops.items()}), log


def run_case(case, obs):
    {"one": one, "several": several, "qasm": program, "typed": typed}[case["what"]](case, obs)


def saw(log, ops):
    expect(log.events["matrix"] > 0, "no matrix of the circuit was made by its backend (%r)", log.events)
    if ops:
        expect(log.events["dot"] > 0, "no product of the circuit was computed by its backend (%r)", log.events)
    for o in ops:
        log.obs.hit("kind_" + o[0])


def one(case, obs):
    spec = case["spec"]
    backend, log = opaque_backend("A", obs, case["instance"])
    for _ in range(2):
        got = drive.state_of(spec, backend=backend)
        obs.hit("runs")
        drive.same_state(got, drive.expected_state(spec), "report on a user's backend")
    saw(log, spec["ops"])


def several(case, obs):
    r = rng_for("C27 order", case["seed"])
    specs = case["specs"]
    made = [opaque_backend("ABC"[i], obs, case["instances"]) for i in range(len(specs))]
    qcs = [drive.construct(s, backend=b) for s, (b, _) in zip(specs, made)]
    todo = [i for i, s in enumerate(specs) for _ in s["ops"]]
    r.shuffle(todo)
    at = [0] * len(specs)
    for i in todo:
        with sut("a request"):
            drive.issue(qcs[i], specs[i]["ops"][at[i]], specs[i]["dims"])
        at[i] += 1
    for qc in qcs:
        qc.measure_all()
    order = [i for i in range(len(specs)) for _ in range(2)]
    r.shuffle(order)
    for i in order:
        got = drive.report_state(drive.run(qcs[i]), specs[i]["dims"])
        obs.hit("runs")
        obs.hit("foreign_possible")
        drive.same_state(got, drive.expected_state(specs[i]), "report of circuit %d on its own backend" % i)
    for s, (_, log) in zip(specs, made):
        saw(log, s["ops"])


def program(case, obs):
    dims = qasm.raised(case["declared"], case["ops"])
    text = qasm.program(rng_for("C27 text", case["seed"]), dims, case["ops"], case["declared"])
    backend, log = opaque_backend("A", obs)
    with sut("circuit_from_qasm"):
        qc = circuit_from_qasm(text, backend)
    got = drive.report_state(drive.run(qc), dims)
    obs.hit("runs")
    drive.same_state(got, model.simulate(dims, [0] * len(dims), case["ops"]), "report of a program on a user's backend")
    saw(log, case["ops"])


def typed(case, obs):
    spec = case["spec"]
    dense = spec["backend"] == "numpy"
    base = NumpyBackend if dense else SparseBackend

    def check(m, what):
        ok = isinstance(m, np.ndarray) and not isinstance(m, np.matrix) if dense else sp.issparse(m)
        expect(ok, "%s on %s is a %s", what, base.__name__, type(m).__name__)
        obs.hit("typed")

    qc = drive.build(spec)
    for n, moment in enumerate(qc.op_flow.peek()[:-1]):
        for g in moment.peek_list():
            with sut("matrix of a gate"):
                u = g.unitary
            check(u, "the matrix of %s in layer %d" % (drive.describe(g), n))
        with sut("matrix of a layer"):
            m = moment.exec(base)
        check(m, "layer %d" % n)
    with sut("execution of the flow"):
        m = qc.op_flow.exec(base)
    check(m, "the result of the flow")
    drive.same_state(drive.state_of(spec), drive.expected_state(spec), "report")
    obs.hit("runs")
