"""C34: users' own gates, layers and outputs are called as often as they should be, with what they
should get, and are believed.

Monitor: the classes given to the circuits are recorders: every construction, every reading of a
matrix, every hook of a layer and every call of an output is an event.  The log of a session is
compared with what was requested, the reports with the reference model."""
import contextlib
import copy

import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

from qudiet.circuit_library import ArbitaryGate
from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
from qudiet.core.moment import Moment
from qudiet.core.output import Output, OutputMethod, OutputType

RULE = (
    "Random circuits whose gates come partly from the methods and partly from recording classes (derived from ArbitaryGate, from "
    "QuantumGate itself and from the standard gates), with layers of the user's own between them and recording outputs, run several "
    "times; between runs matrices of custom gates and the form of report change. The log of events is compared with the requests, "
    "every report and final state with the model, and drawing, configuration and summary with the circuit of the methods; "
    "non-trivial: at least one recording object."
)
REQUIRED = {
    "constructions": 1500, "matrix_readings": 2500, "derived": 600, "plain": 250, "custom": 500, "changed_matrices": 350, "own_layers": 200,
    "hooks": 3000, "output_calls": 900, "runs": 1200, "twins": 250, "changed_forms": 60, "refused_unmeasured": 150, "wide_plain": 40,
}
NO_SHRINK = True


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(160 * k):
        r = rng_for("C34", seed, i)
        s = gen.circuit(r, maxn=40, nmin=1, nmax=5, dmax=5, depth=r.choice([1, 2, 4, 7, 12]))
        s["backend"] = r.choice(["numpy", "sparse", None])
        out.append({"spec": s, "seed": r.randrange(2**30), "output": r.choice(["callable", "callable", "derived", "function", "builtin"]), "layers": r.random() < 0.35})
    for i in range(3 * k):  # very many layers
        r = rng_for("C34", seed, "long", i)
        s = gen.circuit(r, maxn=6, nmin=1, nmax=2, dmax=3, depth=r.choice([300, 600, 1100]), kinds="hxzc")
        s["backend"] = r.choice(["numpy", "sparse", None])
        out.append({"spec": s, "seed": r.randrange(2**30), "output": "callable", "layers": i % 2 == 0})
    return out


class Log:
    def __init__(self):
        self.made, self.read = [], 0


def recorder(log, mat, base):
    """A class for gate() whose objects report to the log."""
    if base is ArbitaryGate:

        class Own(ArbitaryGate):
            def __init__(self, qreg, dims, backend):
                super().__init__(qreg, dims, backend)
                log.made.append((self, copy.copy(qreg), copy.copy(dims), backend))
                self._unitary = np.array(mat)

            @property
            def unitary(self):
                log.read += 1
                return super().unitary

            def change(self, m):
                self._unitary = np.array(m)

        return Own

    class Plain(QuantumGate):
        def __init__(self, qreg, dims, backend):
            log.made.append((self, copy.copy(qreg), copy.copy(dims), backend))
            self.on, self.mine, self.engine = qreg, np.array(mat), backend

        is_controlled = property(lambda self: False)
        is_single_qudit = property(lambda self: isinstance(self.on, int))
        acting_on = property(lambda self: self.on)

        @property
        def unitary(self):
            log.read += 1
            return self.engine.matrix(self.mine)

        def change(self, m):
            self.mine = np.array(m)

    return Plain


def derived(log, op):
    """A gate class of the user's that is a standard gate."""
    base = {"h": drive.HGate, "x": drive.XGate, "z": drive.ZGate, "cx": drive.CXGate}[op[0]]

    class Mine(base):
        def __init__(self, qreg, dims, backend):
            log.made.append((self, copy.copy(qreg), copy.copy(dims), backend))
            if op[0] == "cx":
                super().__init__(qreg=list(dims), acting_on=tuple(qreg), plus=op[3], backend=backend)
            elif op[0] == "x":
                super().__init__(qreg=qreg, dims=dims, plus=op[2], backend=backend)
            else:
                super().__init__(qreg=qreg, dims=dims, backend=backend)

        @property
        def unitary(self):
            log.read += 1
            return super().unitary

    return Mine


class Whole(Moment):
    """A layer that acts on all registers at once."""

    def __init__(self, name, mat):
        super().__init__(name)
        self.mat = mat

    def exec(self, backend):
        return backend.matrix(self.mat)


class Taker:
    """An output of the user's own, with answers of any type."""

    def __init__(self, kind):
        self.kind = kind
        self.got, self.last = [], None

    def __call__(self, result):
        self.got.append(result)
        k = len(self.got)
        self.last = [("answer", k), None, [], "answer %d" % k, {}, 0, {"answer": k}, object(), [{"answer": k}]][self.kind % 9]
        self.kind += 1
        return self.last


@contextlib.contextmanager
def watch(qc, events):
    """Hooks every kind of layer of a circuit."""
    layers = qc.op_flow.peek()
    was, inside = [], set()
    for cls in {c for m in layers for c in type(m).__mro__}:
        for name in ("preprocess", "exec", "postprocess"):
            if name not in vars(cls):
                continue

            def wrap(self, *args, _name=name, _f=vars(cls)[name], **kw):
                if (id(self), _name) in inside:  # by super()
                    return _f(self, *args, **kw)
                events.extend((i, _name, args, kw) for i, m in enumerate(layers) if m is self)
                inside.add((id(self), _name))
                try:
                    return _f(self, *args, **kw)
                finally:
                    inside.discard((id(self), _name))

            was.append((cls, name, vars(cls)[name]))
            setattr(cls, name, wrap)
    try:
        yield
    finally:
        for cls, name, f in was:
            setattr(cls, name, f)


def run_case(case, obs):
    spec = case["spec"]
    dims, n = spec["dims"], len(spec["dims"])
    r = rng_for("C34 run", case["seed"])
    backend = drive.BACKENDS[spec["backend"]]
    taker = None
    if case["output"] in ("callable", "function"):
        taker = Taker(r.randrange(9))
        output = taker if case["output"] == "callable" else (lambda result: taker(result))
    elif case["output"] == "derived":
        taker = Taker(r.randrange(9))

        class Own(Output):
            def __call__(self, result):
                taker(result)
                self.last = super().__call__(result)
                return self.last

        output = Own(list(dims), OutputType.state, OutputMethod.amplitude)
    else:
        output = Output(list(dims), OutputType.state, OutputMethod.amplitude)
    with sut("building the circuit"):
        qc = drive.construct(spec, output=output)
        twin = drive.construct(spec, output=output)
    held = qc.backend
    ops, gates, whole = [], [], False
    comparable = True  # with the circuit of the methods
    log = Log()
    for op in spec["ops"]:
        regs = model.regs_of(op)
        how = r.choice(["method", "derived", "own", "plain"])
        wide = op[0] == "tof" or (op[0] == "cx" and op[2] != op[1] + 1)
        if wide and how != "plain":
            how = "method"
        if wide and how == "plain":  # in the order of the request
            regs = list(op[1]) + [op[2]] if op[0] == "tof" else [op[1], op[2]]
            obs.hit("wide_plain")
        if op[0] == "u" and how in ("derived", "method"):
            how = "own"
        if op[0] in "hxz" and how != "method" and r.random() < 0.6:
            how = "derived"
        with sut("request of the twin"):
            drive.issue(twin, op, dims)
        if how == "method":
            with sut("request %r" % (op,)):
                got = drive.issue(qc, op, dims)
            expect(got is True, "request %r is answered with %r", op, got)
        else:
            if how == "derived":
                cls = derived(log, op)
                obs.hit("derived")
            else:
                cls = recorder(log, drive.op_matrix(op, dims), ArbitaryGate if how == "own" else QuantumGate)
                obs.hit("custom" if how == "own" else "plain")
                comparable = comparable and op[0] == "u" and how == "own"
            on = list(regs) if len(regs) > 1 or (op[0] == "u" and not isinstance(op[1], int)) else regs[0]
            log.made, log.read = [], 0
            explicit = r.random() < 0.2 and isinstance(on, int)
            with sut("gate(%s, %r)" % (how, on)):
                got = qc.gate(cls, on, dims[on]) if explicit else qc.gate(cls, on)
            expect(got is True, "gate(%s, %r) is answered with %r", how, on, got)
            expect(len(log.made) == 1, "the class given to gate() was called %d times", len(log.made))
            (g, qreg, gdims, engine), = log.made
            expect(type(qreg) is type(on) and qreg == on, "the class given to gate() got the registers %r, not %r", qreg, on)
            want = dims[on] if isinstance(on, int) else [dims[q] for q in on]
            expect(gdims == want, "the class given to gate() for registers %r of %r got the dimensions %r", on, dims, gdims)
            expect(engine is held, "the class given to gate() got the backend %r, not %r", engine, held)
            places = sum(x is g for m in qc.op_flow.peek() for x in m.peek_list())
            expect(places == 1, "the gate is in the layers %d times", places)
            obs.hit("constructions")
            gates.append([g, len(ops), how, regs])
        ops.append(["mat", list(model.span_of(op)), drive.op_matrix(op, dims)])
        if case["layers"] and r.random() < 0.5:
            m = model.umatrix(dims, gen.udesc(r, dims))
            with sut("populate_opflow with a layer of the user's own"):
                got = qc.op_flow.populate_opflow(Whole("mine", m))
            expect(got is True, "a layer of the user's own is answered with %r", got)
            ops.append(["mat", list(range(n)), m])
            whole = True
            obs.hit("own_layers")
    calls = len(taker.got) if taker else 0
    try:
        qc.run()
    except Exception:
        obs.hit("refused_unmeasured")
    else:
        expect(False, "an unmeasured circuit ran")
    expect(not taker or len(taker.got) == calls, "the output was called although the circuit did not run")
    if comparable and not whole:
        compare(qc, twin, obs)
    with sut("measure_all"):
        qc.measure_all()
        twin.measure_all()
    if comparable and not whole:
        compare(qc, twin, obs)
    events = []
    layers = [i for i, m in enumerate(qc.op_flow.peek()) if not any(isinstance(g, drive.Measurement) for g in m.peek_list())]
    hooked = r.random() < 0.7
    method = "amplitude"
    for turn in range(r.randint(2, 4)):
        log.read = 0
        del events[:]
        before = len(taker.got) if taker else 0
        with watch(qc, events) if hooked else contextlib.nullcontext():
            report = drive.run(qc)
        obs.hit("runs")
        obs.hit("matrix_readings", log.read)
        expect(log.read >= len(gates), "a run read %d matrices of %d gates of the user's", log.read, len(gates))
        want = model.basis(dims, drive.init_of(spec))
        for _, axes, m in ops:
            want = model.apply_matrix(want, m, axes)
        if hooked:
            hooks(events, layers, held, obs)
        if taker:
            expect(len(taker.got) == before + 1, "a run called the output %d times", len(taker.got) - before)
            got = taker.got[-1]
            column(got, want, held, obs)
            obs.hit("output_calls")
            answer = output.last if case["output"] == "derived" else taker.last
            expect(report is answer, "run() returns %r, not what the output returned", report)
        if case["output"] in ("builtin", "derived"):
            w = want if method == "amplitude" else (abs(want) ** 2).astype(complex)
            drive.same_state(drive.report_state(report, dims), w, "run %d" % turn)
        expect(qc.circuit_output is report or (not taker and qc.circuit_output == report), "circuit_output is %r after a run that returned %r", qc.circuit_output, report)
        # nothing but a run calls the output
        calls = len(taker.got) if taker else 0
        with sut("looking at the circuit"):
            str(qc), qc.get_circuit_config(), qc.get_circuit_info()
        expect(not taker or len(taker.got) == calls, "the output was called although the circuit did not run")
        # the next run finds other matrices
        for g, at, how, regs in gates:
            if how != "derived" and r.random() < 0.5:
                span = list(range(min(regs), max(regs) + 1))
                sub = [dims[q] for q in span]
                m = model.umatrix(sub, gen.udesc(r, sub))
                g.change(m)
                ops[at] = ["mat", span, m]
                obs.hit("changed_matrices")
        if case["output"] in ("builtin", "derived") and r.random() < 0.4:
            method = r.choice(["amplitude", "probability"])
            output.output_method = OutputMethod[method]
            obs.hit("changed_forms")


def compare(qc, twin, obs):
    """Derived gates are scheduled, drawn and counted as what they derive from."""
    with sut("looking at the circuits"):
        a = drive.shape_of(qc), str(qc), qc.get_circuit_config(), qc.get_circuit_info()
        b = drive.shape_of(twin), str(twin), twin.get_circuit_config(), twin.get_circuit_info()
    expect(a == b, "with gates of the user's own the circuit looks like\n%s\n%r\ninstead of\n%s\n%r", a[1], a[2:], b[1], b[2:])
    obs.hit("twins")


def hooks(events, layers, held, obs):
    for i in layers:
        mine = [e for e in events if e[0] == i]
        names = [e[1] for e in mine]
        expect(names == ["preprocess", "exec", "postprocess"], "a run called %r of layer %d", names, i)
        given = list(mine[1][2]) + list(mine[1][3].values())
        expect(len(given) == 1 and given[0] is held, "layer %d was executed with %r, not with the backend of the circuit", i, given)
        obs.hit("hooks", 3)


def column(got, want, held, obs):
    with sut("the matrix type of the backend"):
        kind = type(held.dot(held.matrix(np.eye(2)), held.matrix(np.eye(2))))
    if kind is np.ndarray:
        expect(isinstance(got, np.ndarray), "the output got a %s from %r", type(got).__name__, held)
    else:
        expect(hasattr(got, "toarray"), "the output got a %s from %r", type(got).__name__, held)
    a = drive.dense(got)
    expect(a.shape == (want.size, 1), "the output got a matrix of shape %r for %d basis states", a.shape, want.size)
    drive.same_state(a.reshape(want.shape), want, "the state given to the output")
