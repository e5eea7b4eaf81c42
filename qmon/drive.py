"""Drives the real code from a JSON-able circuit spec and observes it at the client
boundary: every call with its arguments and return value, and the report of every run.

spec = {"dims": [..], "init": [..] | None, "tuple": bool, "backend": "numpy"|"sparse"|None,
        "ops": [["h", q], ["z", q], ["x", q, plus], ["cx", c, t, plus],
                ["tof", [c..], t, plus], ["u", q | [q..], {"kind": ..}]]}"""
import numpy as np
from scipy import sparse

from . import model
from .core import Violation, expect, sut

from qudiet.circuit_library import ArbitaryGate
from qudiet.circuit_library.standard_gates.h import HGate
from qudiet.circuit_library.standard_gates.x import XGate
from qudiet.circuit_library.standard_gates.z import ZGate
from qudiet.core.backend.NumpyBackend import NumpyBackend
from qudiet.core.backend.SparseBackend import SparseBackend
from qudiet.core.output import Output, OutputMethod, OutputType
from qudiet.core.quantum_circuit import QuantumCircuit



class LeanBackend(SparseBackend):
    """A user's backend: the sparse backend with entries only where there are any.  Circuits
    of many registers that the built-in backends cannot hold run on it in no time."""

    @staticmethod
    def kron(a, b):
        a, b = sparse.coo_matrix(a), sparse.coo_matrix(b)
        shape = (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
        row = (a.row[:, None].astype(np.int64) * b.shape[0] + b.row[None, :]).ravel()
        col = (a.col[:, None].astype(np.int64) * b.shape[1] + b.col[None, :]).ravel()
        return sparse.csr_matrix(((a.data[:, None] * b.data[None, :]).ravel(), (row, col)), shape=shape)

    @staticmethod
    def matrix(a):
        m = sparse.csr_matrix(a)
        m.eliminate_zeros()
        return m


BACKENDS = {"numpy": NumpyBackend, "sparse": SparseBackend, "lean": LeanBackend, None: None}
ATOL = 1e-9


def gate_class(mat):
    """A custom gate, defined the way the README tells users to."""

    class CustomGate(ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = np.array(mat)

    return CustomGate


def output_for(dims, type="state", method="amplitude"):
    return Output(list(dims), OutputType[type], OutputMethod[method])


def construct(spec, backend="spec", output="auto"):
    dims = spec["dims"]
    if backend == "spec":
        backend = BACKENDS[spec.get("backend")]
    if output == "auto":
        output = None if max(dims) <= 10 else output_for(dims)
    if spec.get("tuple"):
        assert len(set(dims)) == 1
        qregs = (len(dims), dims[0])
    else:
        qregs = list(dims)
    init = spec.get("init")
    kw = {}
    if backend is not None:
        kw["backend"] = backend
    if output is not None:
        kw["output"] = output
    if init is not None:
        kw["init_states"] = list(init)
    if "name" in spec:
        kw["name"] = spec["name"]
    return QuantumCircuit(qregs, **kw)


_custom = {}


def custom(dims, desc):
    return gate_class(model.umatrix(dims, desc))


def issue(qc, op, dims):
    """Issues one gate request and returns what the request returned."""
    k = op[0]
    if k == "h":
        return qc.h(op[1])
    if k == "z":
        return qc.z(op[1])
    if k == "x":
        return qc.x(op[1]) if op[2] == 1 else qc.x(op[1], plus=op[2])
    if k == "cx":
        return qc.cx([op[1], op[2]], op[3]) if len(op) < 5 else qc.cx((op[1], op[2]), plus=op[3])
    if k == "tof":
        q = (list(op[1]), op[2])
        return qc.toffoli(q) if op[3] == 1 else qc.toffoli(q, op[3])
    if k == "u":
        regs = model.regs_of(op)
        return qc.gate(custom([dims[r] for r in regs], op[2]), op[1])
    raise ValueError(k)


def build(spec, backend="spec", output="auto", measure=True, obs=None):
    with sut("building the circuit"):
        qc = construct(spec, backend, output)
    for i, op in enumerate(spec["ops"]):
        with sut("request %d %r" % (i, op)):
            issue(qc, op, spec["dims"])
        if obs is not None:
            obs.hit("calls")
    if measure:
        with sut("measure_all"):
            qc.measure_all()
    return qc


def run(qc):
    with sut("run()"):
        return qc.run()


def report_entries(report, dims):
    """The online monitor of a report: shape, labels and order.  Returns [(levels, value)]."""
    expect(isinstance(report, list), "report is a %s, not a list", type(report).__name__)
    out = []
    last = None
    for item in report:
        expect(isinstance(item, dict) and len(item) == 1, "report entry %r is not a one-entry dict", item)
        (label, value), = item.items()
        if isinstance(label, tuple):
            levels = tuple(int(x) for x in label)
        else:
            expect(
                isinstance(label, str) and label.startswith("|") and label.endswith(">"),
                "label %r is not of the form |...>", label,
            )
            digits = label[1:-1]
            expect(digits.isdigit() and len(digits) == len(dims), "label %r does not give %d levels", label, len(dims))
            levels = tuple(int(c) for c in digits)
        expect(len(levels) == len(dims), "label %r does not give %d levels", label, len(dims))
        expect(all(0 <= x < d for x, d in zip(levels, dims)), "label %r is out of range for %r", label, dims)
        expect(last is None or levels > last, "label %r is not in ascending order", label)
        last = levels
        out.append((levels, value))
    return out


def report_state(report, dims):
    v = np.zeros(tuple(dims), dtype=complex)
    for levels, value in report_entries(report, dims):
        v[levels] = value
    return v


def fmt_state(v, limit=6):
    idx = [tuple(int(x) for x in i) for i in np.argwhere(np.abs(v) > ATOL)]
    s = ", ".join("%s:%.4g%+.4gj" % ("".join(map(str, i)) if max(i, default=0) < 10 else i, v[i].real, v[i].imag) for i in idx[:limit])
    return "{%s%s}" % (s, ", ... %d more" % (len(idx) - limit) if len(idx) > limit else "")


def same_state(got, want, what, tol=ATOL):
    expect(got.shape == want.shape, "%s: shape %r instead of %r", what, got.shape, want.shape)
    bad = np.abs(got - want)
    if not np.all(np.isfinite(got)) or bad.max(initial=0) > tol:
        raise Violation("%s: got %s, expected %s" % (what, fmt_state(got), fmt_state(want)))


def dense(m):
    """A matrix of either backend as an ndarray."""
    m = m.toarray() if hasattr(m, "toarray") else np.asarray(m)
    return m


def state_of(spec, **kw):
    return report_state(run(build(spec, **kw)), spec["dims"])


def init_of(spec):
    init = list(spec.get("init") or [])
    return init + [0] * (len(spec["dims"]) - len(init))


def expected_state(spec):
    return model.simulate(spec["dims"], init_of(spec), spec["ops"])


def layers(qc):
    """The layers of gates (without the layer of initial states)."""
    return [m.peek_list() for m in qc.op_flow.peek()][1:]


def layer_matrices(qc, backend):
    """The matrix of every layer except the initial states (and the measurement)."""
    from qudiet.circuit_library.standard_gates.measurement import Measurement

    out = []
    for m in qc.op_flow.peek()[1:]:
        if any(isinstance(g, Measurement) for g in m.peek_list()):
            continue
        out.append(dense(m.exec(backend)))
    return out


# ---- structural observation of a circuit's layers -------------------------------------
from qudiet.circuit_library.standard_gates.cx import CXGate  # noqa: E402
from qudiet.circuit_library.standard_gates.i import IGate  # noqa: E402
from qudiet.circuit_library.standard_gates.measurement import Measurement  # noqa: E402
from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli  # noqa: E402
from qudiet.core.init_states import InitState  # noqa: E402


def describe(gate):
    """(kind, registers) of a gate in a layer; kind as in ops, "i" for identity and "m" for
    measurement.  Controls come first, in the order the gate gives them, then the target."""
    if isinstance(gate, InitState):
        return "init", (gate.qreg,)
    kind = None
    for cls, k in ((Toffoli, "tof"), (CXGate, "cx"), (HGate, "h"), (XGate, "x"), (ZGate, "z"), (IGate, "i"), (Measurement, "m"), (ArbitaryGate, "u")):
        if isinstance(gate, cls):
            kind = k
            break
    on = gate.acting_on
    if kind == "tof":
        controls, target = on
        return kind, tuple(controls) + (target,)
    if hasattr(on, "__iter__"):
        return kind, tuple(int(q) for q in on)
    return kind, (int(on),)


def requested(op):
    """(kind, registers) a request should leave in the layers."""
    k = op[0]
    if k == "tof":
        return k, tuple(op[1]) + (op[2],)
    if k == "cx":
        return k, (op[1], op[2])
    return k, tuple(model.regs_of(op))


def op_matrix(op, dims):
    """The matrix of one op on its span."""
    sp = list(span_of(op))
    sub = [dims[q] for q in sp]
    base = sp[0]
    k = op[0]
    if k in ("h", "z", "x"):
        moved = [k, op[1] - base] + op[2:]
    elif k == "cx":
        moved = ["cx", op[1] - base, op[2] - base] + op[3:]
    elif k == "tof":
        moved = ["tof", [c - base for c in op[1]], op[2] - base] + op[3:]
    else:
        moved = ["u", [q - base for q in model.regs_of(op)]] + op[2:]
    return model.operator(sub, [moved])


span_of = model.span_of


class Entries:
    """The entries of a matrix: equal up to rounding (numpy's vector code may
    round the same computation differently from one array to the next)."""

    def __init__(self, a):
        self.a = dense(a)

    def __eq__(self, other):
        return isinstance(other, Entries) and self.a.shape == other.a.shape and np.allclose(self.a, other.a, rtol=1e-9, atol=1e-11)

    __hash__ = None

    def __repr__(self):
        return "<%s>" % (self.a.shape,)


def snapshot(qc):
    """The layers of a circuit as plain data: kinds, registers and matrices."""
    out = []
    for m in qc.op_flow.peek():
        layer = []
        for g in m.peek_list():
            kind, regs = describe(g)
            u = g.unitary
            layer.append((kind, regs, None if u is None else Entries(u)))
        out.append(tuple(layer))
    return tuple(out)


def shape_of(qc):
    """Kinds and registers of the gates in every layer (cheap snapshot)."""
    return [[describe(g) for g in m.peek_list()] for m in qc.op_flow.peek()]
