"""C21: the multi-controlled Toffoli decompositions compute an n-controlled NOT.

Monitor: RUN_CIRC is called for every input; the circuit it builds is hooked, so that its
requests, its layout and its complete report (of which RUN_CIRC returns one label) are
recorded.  For more registers than can be simulated, the recorded requests are replayed on
basis states, on which every gate of the decomposition is a permutation."""
import inspect
import os
import sys
from contextlib import contextmanager

from .. import drive, gen, model
from ..core import Inconclusive, expect, rng_for, sut
from ..env import REPO

from qudiet.core.quantum_circuit import QuantumCircuit

RULE = (
    "RUN_CIRC for 3 up to 7 (thorough: 9) registers and every input, through the real engine; and for 3 to 70 and nine numbers up to 257 (thorough: all up to 260) registers the "
    "recorded requests replayed on all-ones, all-but-one and random inputs; non-trivial: every case."
)
REQUIRED = {"inputs": 200, "flips": 10, "distinct_sizes": 5, "replayed_sizes": 20, "replayed_inputs": 1500, "requests": 500}
ASSUMPTIONS = ["Replaying requests on basis states assumes that cx is what C05 says it is; the sizes that are run do not need it"]
NO_SHRINK = True
_used = None


def useq():
    global _used
    if _used is None:
        path = os.path.join(REPO, "test_circuit")
        if path not in sys.path:
            sys.path.insert(0, path)
        with sut("importing test_circuit/useQudiet.py"):
            import useQudiet
        _used = useQudiet
    return _used


def cases(tier, seed):
    out = []
    for n in range(3, 8 if tier == "quick" else 9):
        total = 2**n
        step = 4 if n == 7 else 2 if n == 8 else 8
        for a in range(0, total, step):
            out.append({"what": "run", "n": n, "inputs": [[(v >> (n - 1 - i)) & 1 for i in range(n)] for v in range(a, min(total, a + step))]})
    if tier == "thorough":
        r = rng_for("C21", seed, 9)
        for t in (0, 1):
            out.append({"what": "run", "n": 9, "inputs": [[1] * 8 + [t]]})
            for i in range(8):
                out.append({"what": "run", "n": 9, "inputs": [[int(j != i) for j in range(8)] + [t]]})
        for _ in range(10):
            out.append({"what": "run", "n": 9, "inputs": [[r.randint(0, 1) for _ in range(9)]]})
    for n in list(range(3, 71)) + ([99, 100, 101, 127, 128, 129, 130, 200, 257] if tier == "quick" else list(range(71, 261))):
        out.append({"what": "replay", "n": n, "seed": seed})
    out.append({"what": "default", "n": 4})
    out.append({"what": "default", "n": 5})
    return out


@contextmanager
def recording(log, live):
    """Hooks the client calls of every circuit: requests and reports are recorded, and with
    live=False the gates are not built and run() answers all zeros."""
    saved = {m: getattr(QuantumCircuit, m) for m in ("__init__", "h", "x", "z", "cx", "toffoli", "gate", "run")}

    def init(self, *a, **k):
        saved["__init__"](self, *a, **k)
        log.update(dims=list(self.qregs), ops=[], report=None)

    def hook(name):
        def call(self, *a, **k):
            bound = inspect.signature(saved[name]).bind(self, *a, **k)
            bound.apply_defaults()
            v = bound.arguments
            if name == "cx":
                op = ["cx", v["acting_on"][0], v["acting_on"][1], v["plus"]]
            elif name == "x":
                op = ["x", v["qreg"], v["plus"]]
            elif name == "toffoli":
                op = ["tof", list(v["qreg"][0]), v["qreg"][1], v["plus"]]
            else:
                op = [name]
            log["ops"].append(op)
            return saved[name](self, *a, **k) if live else True

        return call

    def run(self, *a, **k):
        log["report"] = saved["run"](self, *a, **k) if live else [{"|%s>" % ("0" * len(log["dims"])): 1.0}]
        return log["report"]

    try:
        QuantumCircuit.__init__ = init
        for m in ("h", "x", "z", "cx", "toffoli", "gate"):
            setattr(QuantumCircuit, m, hook(m))
        QuantumCircuit.run = run
        yield
    finally:
        for m, f in saved.items():
            setattr(QuantumCircuit, m, f)


def run_circ(n, inputs, live, log):
    u = useq()
    with recording(log, live), sut("RUN_CIRC(%d, %r)" % (n, inputs)):
        return u.RUN_CIRC(n, list(inputs))


def wanted(inputs):
    return list(inputs[:-1]) + [inputs[-1] ^ int(all(inputs[:-1]))]


def run_case(case, obs):
    n = case["n"]
    if case["what"] == "default":
        with sut("RUN_CIRC(%d)" % n):
            got = useq().RUN_CIRC(n)
        expect(got == "|" + "1" * (n - 1) + "0>", "RUN_CIRC(%d) returns %r for all ones", n, got)
        return
    if case["what"] == "run":
        for inputs in case["inputs"]:
            log = {}
            got = run_circ(n, inputs, True, log)
            want = wanted(inputs)
            expect(got == "|%s>" % "".join(map(str, want)), "RUN_CIRC(%d, %r) returns %s instead of %r", n, inputs, got, want)
            if log.get("report"):
                state = drive.report_state(log["report"], log["dims"])
                drive.same_state(state, model.basis(log["dims"], want), "report for the input %r" % inputs)
                obs.hit("requests", len(log["ops"]))
            obs.hit("inputs")
            obs.hit("flips", int(all(inputs[:-1])))
        obs.distinct("sizes", n)
        obs.hit("size_%d" % n)
        return
    log = {}
    run_circ(n, [1] * n, False, log)
    if not log.get("ops") or any(o[0] not in ("cx", "x", "tof") for o in log["ops"]):
        raise Inconclusive("RUN_CIRC(%d) does not make requests that can be replayed" % n)
    expect(len(log["dims"]) == n, "RUN_CIRC(%d) uses %d registers", n, len(log["dims"]))
    r = rng_for("C21 replay", case["seed"], n)
    tests = [[1] * (n - 1) + [t] for t in (0, 1)]
    for i in range(n - 1):
        tests.append([int(j != i) for j in range(n - 1)] + [r.randint(0, 1)])
    for _ in range(30):
        p = r.choice([0.5, 0.8, 0.95])
        tests.append([int(r.random() < p) for _ in range(n)])
    if n <= 10:
        tests += [[(v >> i) & 1 for i in range(n)] for v in range(2**n)]
    for inputs in tests:
        levels = list(inputs)
        for o in log["ops"]:
            gen.classical_step(levels, o, log["dims"])
        expect(levels == wanted(inputs), "the decomposition on %d registers takes %r to %r", n, inputs, levels)
        obs.hit("replayed_inputs")
    obs.distinct("replayed", n)
    obs.hit("replayed_sizes")
