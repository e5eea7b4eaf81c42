"""C29: what fails or is interrupted leaves every circuit intact.

Faults are injected where they happen: in an operation of the backend, in a call of NumPy or SciPy
(out of memory), in the matrix or constructor of a user's gate, in the output, in the terminal and
in the window of a drawing, and by warnings turned into errors.  The monitor compares the circuit
(and one that was left alone) with the time before, and with the reference model."""
import contextlib
import io
import os
import sys
import warnings

import matplotlib.pyplot as plt
import numpy as np
import scipy

from .. import drive, gen, model, qasm
from ..core import expect, rng_for, sut
from ..env import SRC

from qudiet.circuit_library import ArbitaryGate
from qudiet.core.output import Output, OutputMethod, OutputType
from qudiet.core.backend.NumpyBackend import NumpyBackend
from qudiet.core.quantum_circuit import QuantumCircuit
from qudiet.qasm.qasm_parser import circuit_from_qasm

QUICK_SEEDS = 4
RULE = (
    "Random circuits of all gate kinds on both backends; a fault (memory, interrupt, error) in every or a random backend operation, "
    "library call, gate matrix, output or drawing of a first, second or later run, and in requests and inspections while the circuit grows; "
    "interrupts before any line of qudiet during runs, drawings, listings and summaries; "
    "non-trivial: every case."
)
REQUIRED = {
    "backend_faults": 200, "library_faults": 60, "output_faults": 60, "constructor_faults": 40, "terminal_faults": 40, "window_faults": 20,
    "line_interrupts": 500, "line_interrupted_runs": 200, "line_interrupted_looks": 200, "warning_faults": 40, "recovered_runs": 600, "others": 150, "bystanders": 150, "refused_again": 100, "parse_faults": 30,
}
NO_SHRINK = True


class Fault(Exception):
    pass


class FaultInterrupt(KeyboardInterrupt):
    pass


class FaultMemory(MemoryError):
    pass


FAULTS = {"error": Fault, "interrupt": FaultInterrupt, "memory": FaultMemory}
FAULT = tuple(FAULTS.values())
LIBS = tuple(os.path.dirname(os.path.abspath(m.__file__)) + os.sep for m in (np, scipy))


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(90 * k):
        r = rng_for("C29", seed, i)
        s = gen.circuit(r, maxn=40, nmin=1, nmax=5, dmax=6, depth=r.choice([0, 1, 2, 4, 6, 9]), kinds=r.choice(["hxzctu", "hxzc", "ctu", "u", "hxz"]))
        out.append({"what": "runs", "spec": s, "fault": r.choice(["error", "interrupt", "memory"]), "seed": r.randrange(2**30)})
    for i in range(90 * k):
        r = rng_for("C29", seed, "growing", i)
        s = gen.circuit(r, maxn=40, nmin=1, nmax=5, dmax=6, depth=r.choice([1, 2, 4, 7, 10]), kinds=r.choice(["hxzctu", "hxzct", "hxzt", "ctu"]))
        out.append({"what": "growing", "spec": s, "seed": r.randrange(2**30)})
    for i in range(60 * k):
        r = rng_for("C29", seed, "lines", i)
        s = gen.circuit(r, maxn=40, nmin=1, nmax=4, dmax=6, depth=r.choice([0, 1, 2, 4, 6]), kinds=r.choice(["hxzctu", "hxzc", "ctu", "u", "hxz"]))
        if i % 6 == 5:  # many layers
            s = gen.circuit(r, maxn=6, nmin=1, nmax=2, dmax=3, depth=r.choice([40, 70, 140, 270]), kinds=r.choice(["hxzc", "xz"]))
        out.append({"what": "lines", "spec": s, "backend": r.choice(["numpy", "sparse"]), "seed": r.randrange(2**30)})
    return out


class Trigger:
    """Counts operations; raises at the one it is set to."""

    def __init__(self):
        self.at = None
        self.seen = 0
        self.exc = None

    def arm(self, at, exc):
        self.at, self.exc, self.seen, self.fired = at, exc, 0, False

    def disarm(self):
        self.at = None

    def hit(self):
        self.seen += 1
        if self.at is not None and self.seen == self.at:
            self.fired = True
            raise self.exc()


def faulty_backend(base, trigger):
    def wrap(f):
        def g(*a, **k):
            trigger.hit()
            return f(*a, **k)

        return staticmethod(g)

    return type("Faulty", (base,), {m: wrap(getattr(base, m)) for m in ("kron", "dot", "eye", "matrix", "is_unitary", "nonzero")})


@contextlib.contextmanager
def library(trigger, obs):
    """While this lasts, calls of NumPy and SciPy from the code under test pass the trigger."""

    def watch(frame, event, arg):
        if event == "call":
            caller = frame.f_back
            if caller is None or not caller.f_code.co_filename.startswith(SRC) or not frame.f_code.co_filename.startswith(LIBS):
                return
        elif event == "c_call":
            caller = frame
            if not frame.f_code.co_filename.startswith(SRC):
                return
            owner = getattr(arg, "__self__", None)
            if not (str(getattr(arg, "__module__", None)).startswith(("numpy", "scipy")) or isinstance(owner, np.ndarray) or "numpy" in str(getattr(owner, "__name__", ""))):
                return
        else:
            return
        if trigger.at is not None and trigger.seen + 1 == trigger.at:
            obs.hit("distinct:places:%s-%d" % (os.path.basename(caller.f_code.co_filename).replace(":", ""), caller.f_lineno))
        trigger.hit()

    sys.setprofile(watch)
    try:
        yield
    finally:
        sys.setprofile(None)


def view(qc):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with sut("looking at the circuit"):
            return drive.shape_of(qc), str(qc), qc.get_circuit_config(), repr(qc.get_circuit_info())


def bystander(r):
    spec = gen.circuit(r, maxn=16, nmin=1, nmax=3, dmax=4, depth=4)
    qc = drive.build(spec)
    return spec, qc, view(qc)


def check_bystander(other, obs):
    spec, qc, before = other
    expect(view(qc) == before, "a circuit that had nothing to do with it changed")
    drive.same_state(drive.report_state(drive.run(qc), spec["dims"]), drive.expected_state(spec), "report of a circuit that had nothing to do with it")
    obs.hit("bystanders")


def attempt(f, dims, want, what):
    """Runs f under a fault: True if the fault came out; a report that came out instead must be right."""
    try:
        report = f()
    except FAULT:
        return True
    except Exception as e:
        # the fault as the code under test reports it
        chain = e
        while chain is not None and not isinstance(chain, FAULT):
            chain = chain.__cause__ or chain.__context__
        expect(chain is not None, "%s: raised %s: %s", what, type(e).__name__, e)
        return True
    if want is not None:
        drive.same_state(drive.report_state(report, dims), want, "report of a run during which %s" % what)
    return False


def recovered(qc, before, dims, want, what, obs):
    expect(view(qc) == before, "after a run during which %s the circuit is\n%s\ninstead of\n%s", what, view(qc)[1], before[1])
    drive.same_state(drive.report_state(drive.run(qc), dims), want, "the run after one during which %s" % what)
    obs.hit("recovered_runs")


class Breaking(Output):
    """An output of the user's that fails when told to."""

    trigger = None

    def __call__(self, result):
        out = super().__call__(result)
        self.trigger.hit()
        return out


def gates_with(trigger, where, mat):
    class Flaky(ArbitaryGate):
        def __init__(self, *a, **k):
            if where == "constructor":
                trigger.hit()
            super().__init__(*a, **k)
            self._unitary = np.array(mat)
            if where == "late constructor":
                trigger.hit()

        @property
        def unitary(self):
            if where == "matrix":
                trigger.hit()
            return super().unitary

    return Flaky


def runs(case, obs):
    spec, exc = case["spec"], FAULTS[case["fault"]]
    dims = spec["dims"]
    r = rng_for("C29 runs", case["seed"])
    want = drive.expected_state(spec)
    trigger = Trigger()
    output = Breaking(list(dims), OutputType.state, OutputMethod.amplitude)
    output.trigger = Trigger()
    backend = faulty_backend(drive.BACKENDS[spec["backend"] or "sparse"], trigger)
    other = bystander(r)

    def fresh():
        qc = drive.build(spec, backend=backend, output=output)
        return qc, view(qc)

    # in a backend operation: every one of a first run (or ten of them), then two of later runs
    qc, before = fresh()
    trigger.arm(None, exc)
    drive.run(qc)
    total = trigger.seen
    places = list(range(1, total + 1))
    if len(places) > 10:
        places = [1, 2, total - 1, total] + r.sample(places, 6)
    for n in places:
        qc, before = fresh()
        for again in range(r.randint(1, 2)):
            at = n if not again else r.randint(1, total)
            trigger.arm(at, exc)
            what = "backend operation %d of %d failed" % (at, total)
            if attempt(qc.run, dims, want, what):
                obs.hit("backend_faults")
            trigger.disarm()
            if r.random() < 0.3:
                obs.hit("others")
                drive.run(other[1])
        recovered(qc, before, dims, want, what, obs)

    # out of memory in a library call
    trigger.disarm()
    calls = Trigger()
    qc, before = fresh()
    calls.arm(None, FaultMemory)
    with library(calls, obs):
        qc.run()
    total = calls.seen
    for n in {1, 2, total, *(r.randint(1, max(1, total)) for _ in range(7))}:
        qc, before = fresh()
        calls.arm(n, FaultMemory)

        def hard():
            with library(calls, obs):
                return qc.run()

        what = "library call %d of %d ran out of memory" % (n, total)
        if attempt(hard, dims, want, what):
            obs.hit("library_faults")
        recovered(qc, before, dims, want, what, obs)

    # in the output
    qc, before = fresh()
    output.trigger.arm(1, exc)
    if attempt(qc.run, dims, want, "the output failed"):
        obs.hit("output_faults")
    output.trigger.disarm()
    recovered(qc, before, dims, want, "the output failed", obs)

    # in the matrix of a user's gate
    for _ in range(2):
        flaky = Trigger()
        at = r.randint(0, len(spec["ops"]))
        q = r.randrange(len(dims))
        with sut("building the circuit"):
            qc = drive.construct(spec, output=output)
            ident = gates_with(flaky, "matrix", np.eye(dims[q]))
            for o in spec["ops"][:at]:
                drive.issue(qc, o, dims)
            qc.gate(ident, q if r.random() < 0.5 else [q])
            for o in spec["ops"][at:]:
                drive.issue(qc, o, dims)
            qc.measure_all()
        before = view(qc)
        for _ in range(r.randint(1, 2)):
            flaky.arm(1, exc)
            if attempt(qc.run, dims, want, "a gate's matrix failed"):
                obs.hit("matrix_faults")
            flaky.disarm()
        recovered(qc, before, dims, want, "a gate's matrix failed", obs)
    # what has to be refused still is
    q = r.randrange(len(dims))
    with sut("building the circuit"):
        qc = drive.construct(spec, backend=backend, output=output)
        for o in spec["ops"]:
            drive.issue(qc, o, dims)
        qc.gate(drive.gate_class(np.eye(dims[q]) * r.choice([2, 0.5, 1.001])), q)
        qc.measure_all()
    trigger.arm(None, exc)
    try:
        qc.run()
        expect(False, "a gate that is not unitary gave a report")
    except Exception as e:
        expect(not isinstance(e, FAULT), "a fault nobody asked for")
    total = trigger.seen
    for n in {1, total, r.randint(1, max(1, total)), max(1, total - 1)}:
        trigger.arm(n, exc)
        try:
            report = qc.run()
        except (Exception, KeyboardInterrupt):
            report = None
            obs.hit("refused_faults", trigger.fired)
        expect(report is None, "a gate that is not unitary gave a report when backend operation %d failed", n)
        trigger.disarm()
        try:
            qc.run()
        except Exception:
            obs.hit("refused_again")
        else:
            expect(False, "a gate that is not unitary gave a report after backend operation %d of a run had failed", n)
    check_bystander(other, obs)


class Broken(io.StringIO):
    def __init__(self, left):
        super().__init__()
        self.left = left

    def write(self, s):
        self.left -= 1
        if self.left < 0:
            raise Fault("broken pipe")
        return super().write(s)


def trouble(qc, r, dims, obs):
    """Something that fails and is none of the circuit's business."""
    k = r.randrange(7)
    n = len(dims)
    if k == 0:
        t = Trigger()
        t.arm(1, FAULTS[r.choice(list(FAULTS))])
        q = r.randrange(n)
        cls = gates_with(t, r.choice(["constructor", "late constructor"]), np.eye(dims[q]))
        expect(attempt(lambda: qc.gate(cls, r.choice([q, [q]])), dims, None, "a gate's constructor failed"), "a gate whose constructor fails was accepted")
        obs.hit("constructor_faults")
    elif k == 1:
        try:
            with contextlib.redirect_stdout(Broken(r.choice([0, 0, 1]))), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r.choice([qc.draw, qc.draw, qc.print_opflow_list])()
        except Fault:
            obs.hit("terminal_faults")
    elif k == 2:
        show = plt.show

        def refuse(*a, **kw):
            raise Fault("no display")

        plt.show = refuse
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                qc.draw(style="mpl")
        except Fault:
            obs.hit("window_faults")
        finally:
            plt.show = show
            plt.close("all")
    elif k == 3:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                r.choice([qc.get_circuit_config, qc.get_circuit_info, qc.__str__])()
        except Warning:
            obs.hit("warning_faults")
    elif k == 4:
        try:
            qc.run()
        except Exception:
            obs.hit("unmeasured_runs")
    elif k == 5:
        ops = [["h", n - 1], ["x", 0, 1]]
        text = qasm.program(r, dims, ops, dims)
        try:
            circuit_from_qasm(text.replace(".end", r.choice(["H x%d\n.end" % n, "Y x0\n.end", "X\n.end", ""])))
        except Exception:
            obs.hit("parse_faults")
        with sut("parsing a program after one with an error"):
            good = circuit_from_qasm(text, NumpyBackend)
        drive.same_state(drive.report_state(drive.run(good), dims), model.simulate(dims, [0] * n, ops), "report of a program parsed after one with an error")
    else:
        try:
            QuantumCircuit(list(dims), init_states=[d if i == n - 1 else 0 for i, d in enumerate(dims)])
        except ValueError:
            obs.hit("construction_faults")


def growing(case, obs):
    spec = case["spec"]
    dims = spec["dims"]
    r = rng_for("C29 growing", case["seed"])
    other = bystander(r)
    with sut("building the circuit"):
        qc = drive.construct(spec)
    twin = drive.build({**spec, "ops": []}, measure=False)
    calls = Trigger()
    for i, op in enumerate(spec["ops"]):
        for _ in range(r.choice([0, 1, 1, 2])):
            before = view(qc)
            trouble(qc, r, dims, obs)
            expect(view(qc) == before, "something that failed changed the circuit from\n%s\nto\n%s", before[1], view(qc)[1])
        before = view(qc)
        drive.issue(twin, op, dims)
        if r.random() < 0.5:
            # the request itself runs out of memory
            calls.arm(r.choice([1, 1, 2, 3, r.randint(1, 30)]), FaultMemory)

            def hard():
                with library(calls, obs):
                    return drive.issue(qc, op, dims)

            what = "request %d ran out of memory" % i
            if attempt(hard, dims, None, what):
                obs.hit("request_faults")
            elif not calls.fired:
                continue
            calls.disarm()
            after = view(qc)
            if after == view(twin):
                continue
            expect(after == before, "%s: the circuit went from\n%s\nto\n%s", what, before[1], after[1])
        with sut("request %r" % (op,)):
            drive.issue(qc, op, dims)
        expect(view(qc) == view(twin), "after failures request %r gives\n%s\ninstead of\n%s", op, view(qc)[1], view(twin)[1])
    with sut("measure_all"):
        qc.measure_all()
    want = drive.expected_state(spec)
    drive.same_state(drive.report_state(drive.run(qc), dims), want, "report of a circuit that met failures while it grew")
    obs.hit("recovered_runs")
    check_bystander(other, obs)


@contextlib.contextmanager
def between_lines(trigger, obs):
    """While this lasts, an interrupt can arrive before any line of the code under test."""
    old = sys.gettrace()
    trigger.where = {}

    def lines(frame, event, arg):
        if event == "line":
            trigger.where.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(trigger.seen + 1)
            if trigger.at is not None and trigger.seen + 1 == trigger.at:
                obs.hit("distinct:lines:%s-%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            trigger.hit()
        return lines

    def calls(frame, event, arg):
        return lines if frame.f_code.co_filename.startswith(SRC) else None

    sys.settrace(calls)
    try:
        yield
    finally:
        sys.settrace(old)


def lines(case, obs):
    """An interrupt before a line of a run, a drawing, a listing, a summary: several in a row on one circuit."""
    spec = case["spec"]
    dims = spec["dims"]
    r = rng_for("C29 lines", case["seed"])
    want = drive.expected_state(spec)
    output = Output(list(dims), OutputType.state, OutputMethod.amplitude)
    other = bystander(r)
    qc = drive.build(spec, backend=drive.BACKENDS[case["backend"]], output=output, measure=False)

    def quiet(f):
        def g():
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return f()

        return g

    looks = {"str": quiet(qc.__str__), "draw": quiet(qc.draw), "print_opflow_list": quiet(qc.print_opflow_list),
             "get_circuit_config": quiet(qc.get_circuit_config), "get_circuit_info": quiet(qc.get_circuit_info)}
    trigger = Trigger()

    def length(f):
        trigger.arm(None, FaultInterrupt)
        with between_lines(trigger, obs):
            f()
        return trigger.seen, trigger.where

    def spread(where, k):
        """Places such that a line that is rarely executed is as likely as any other."""
        return {r.choice(where[at]) for at in r.sample(sorted(where), min(k, len(where)))}

    def interrupted(name, f, total, n, want):
        trigger.arm(n, FaultInterrupt)

        def hard():
            with between_lines(trigger, obs):
                return f()

        what = "an interrupt came before line %d of %d of %s()" % (n, total, name)
        attempt(hard, dims, want, what)
        obs.hit("line_interrupts", trigger.fired)
        trigger.disarm()
        return what

    for phase in ("open", "measured"):
        if phase == "measured":
            with sut("measure_all"):
                qc.measure_all()
        before = view(qc)
        for name in r.sample(sorted(looks), 3):
            total, where = length(looks[name])
            for n in {1, total, r.randint(1, total), *spread(where, 3)}:
                what = interrupted(name, looks[name], total, n, None)
                obs.hit("line_interrupted_looks", trigger.fired)
                expect(view(qc) == before, "after %s the circuit is\n%s\ninstead of\n%s", what, view(qc)[1], before[1])
    total, where = length(qc.run)
    places = {1, 2, total - 1, total, *(r.randint(1, total) for _ in range(4)), *spread(where, 9)} - {0}
    for n in sorted(places, key=lambda _: r.random()):
        for _ in range(r.choice([1, 1, 2])):
            what = interrupted("run", qc.run, total, n, want)
            obs.hit("line_interrupted_runs", trigger.fired)
            n = r.randint(1, total)
        recovered(qc, before, dims, want, what, obs)
    fresh = drive.build(spec, backend=drive.BACKENDS[case["backend"]], output=output)
    drive.same_state(drive.report_state(drive.run(fresh), dims), want, "report of a circuit built after runs of others were interrupted")
    check_bystander(other, obs)


def run_case(case, obs):
    {"lines": lines, "runs": runs, "growing": growing}[case["what"]](case, obs)
