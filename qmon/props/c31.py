"""C31: the work done grows in proportion to the circuit, never faster.

Monitors: a meter that counts the lines of QuDiet's code that are executed and the calls they make
(sys.settrace, sys.setprofile), and a backend that counts its operations; both are deterministic, no
clock is involved.  The same pattern of requests is repeated, and the work of early and late
repetitions, short and long circuits, programs, few and many registers and repeated runs compared."""
import contextlib
import io
import sys
import tracemalloc
import warnings

import matplotlib.pyplot as plt
import numpy as np

from .. import drive, gen, model, qasm
from ..core import expect, rng_for, sut
from ..env import SRC

from qudiet.core.backend.core import Backend
from qudiet.core.output import Output, OutputMethod, OutputType
from qudiet.qasm.qasm_parser import circuit_from_qasm

RULE = (
    "A random pattern of requests of all kinds repeated up to 64 times (thorough 256), the same program text, the same gates among up to 64 "
    "registers (thorough 256), reports of few and many entries in few and many states, and repeated runs and looks; work is counted, not timed; non-trivial: every case."
)
REQUIRED = {"late_requests": 60, "long_runs": 50, "long_looks": 200, "programs": 40, "wide_requests": 40, "wide_looks": 120, "wide_programs": 20, "reports": 60, "drawings": 8, "held": 20, "repeated": 80, "lines": 500000}
NO_SHRINK = True
QUICK_SEEDS = 1
SLACK = 1.35


def cases(tier, seed):
    quick = tier == "quick"
    k = 1 if quick else 12
    out = []
    for i in range(60 * k):
        r = rng_for("C31", seed, "long", i)
        s = gen.circuit(r, maxn=24, nmin=1, nmax=5, dmax=4, depth=r.choice([1, 2, 3, 4, 6]), kinds=r.choice(["hxzctu", "hxzc", "ctu", "ct", "u", "hxz", "xc"]))
        s["ops"] = s["ops"] or [["x", 0, 1]]
        out.append({"what": "long", "spec": s, "times": 64 if quick else r.choice([64, 128, 256]), "seed": r.randrange(2**30)})
    for i in range(40 * k):
        r = rng_for("C31", seed, "program", i)
        declared = gen.layout(r, maxn=16, nmin=1, nmax=4, dmax=4)
        ops = qasm.random_ops(r, declared, r.choice([1, 2, 4, 6]), 32, "hxzct" if len(declared) > 2 else "hxzc" if len(declared) > 1 else "hxz")
        out.append({"what": "program", "declared": declared, "ops": ops or [["h", 0]], "times": 64 if quick else r.choice([64, 256]), "seed": r.randrange(2**30)})
    for i in range(40 * k):
        r = rng_for("C31", seed, "wide", i)
        dims = gen.layout(r, maxn=24, nmin=2, nmax=4, dmax=4)
        ops = [gen.op(r, dims, "hxzctu" if i % 2 else "hxzc") for _ in range(r.randint(1, 6))]
        out.append({"what": "wide", "dims": dims, "ops": ops, "at": r.choice(["first", "last"]), "to": 64 if quick else r.choice([64, 128, 256]), "seed": r.randrange(2**30)})
    for i in range(40 * k):
        r = rng_for("C31", seed, "report", i)
        out.append({"what": "report", "type": r.choice(["print", "state"]), "method": r.choice(["amplitude", "probability"]), "backend": r.choice(["numpy", "sparse"]),
                    "many": i % 2, "d": r.choice([2, 2, 3]), "seed": r.randrange(2**30)})
    for i in range(10 * k):
        r = rng_for("C31", seed, "drawing", i)
        s = gen.circuit(r, maxn=24, nmin=1, nmax=4, dmax=4, depth=r.choice([1, 2, 3]), kinds=r.choice(["hxzctu", "hxz", "ct"]))
        s["ops"] = s["ops"] or [["x", 0, 1]]
        out.append({"what": "drawing", "spec": s, "compress": r.choice([1, 1, 2, 3])})
    for i in range(6 * k):
        r = rng_for("C31", seed, "bytes", i)
        dims = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
        out.append({"what": "bytes", "dims": dims, "ops": [gen.op(r, dims, kind) for kind in "hxzctu"], "to": r.choice([6000, 10000]), "seed": r.randrange(2**30)})
    return out


class Meter:
    """Lines of QuDiet's code executed, and calls made by them."""

    def __init__(self):
        self.lines = self.calls = 0

    def local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
        return self.local

    def call(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(SRC) else None

    def profile(self, frame, event, arg):
        if event == "c_call" and frame.f_code.co_filename.startswith(SRC):
            self.calls += 1
        elif event == "call" and frame.f_back is not None and frame.f_back.f_code.co_filename.startswith(SRC):
            self.calls += 1

    def __enter__(self):
        self.old = sys.gettrace(), sys.getprofile()
        sys.settrace(self.call)
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *a):
        sys.setprofile(self.old[1])
        sys.settrace(self.old[0])


def held(case, obs):
    """Memory a request needs for the moment, in short and in long circuits."""
    dims, ops = case["dims"], case["ops"]
    need = []
    for n in (300, case["to"]):
        with sut("building the circuit"):
            qc = drive.construct({"dims": dims, "init": None, "backend": "sparse", "tuple": False})
            while len(qc.op_flow.peek()) < n:
                qc.x(0)
        took = []
        tracemalloc.start()
        try:
            for o in ops:
                least = None
                for _ in range(4):
                    tracemalloc.reset_peak()
                    before = tracemalloc.get_traced_memory()[0]
                    with sut("request %r" % o):
                        drive.issue(qc, o, dims)
                    here = tracemalloc.get_traced_memory()[1] - before
                    least = here if least is None else min(least, here)
                took.append(least)
                obs.hit("held")
        finally:
            tracemalloc.stop()
        need.append(took)
    for o, a, b in zip(ops, *need):
        expect(b <= SLACK * a + 8000, "request %r in a circuit of %d layers needs %d bytes for the moment instead of %d in one of 300", o, case["to"], b, a)


def quiet(f):
    def g():
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f()

    return g


def work(f, obs, what):
    """The work of one call: a pair of counters."""
    with sut(what), Meter() as m:
        f()
    obs.hit("lines", m.lines)
    return m.lines, m.calls


def compare(small, large, factor, what, *args):
    """Work `large` on something `factor` times the size of what took `small`."""
    for kind, a, b in zip(("lines of QuDiet's code", "calls from QuDiet's code", "backend operations"), small, large):
        expect(b <= SLACK * factor * a + 60, "%s: %d %s instead of %d times %d", what % args if args else what, b, kind, factor, a)


def plus(a, b):
    return tuple(x + y for x, y in zip(a, b))


def counting(base, count):
    def wrap(f):
        def g(*a, **k):
            count[0] += 1
            return f(*a, **k)

        return staticmethod(g)

    return type("Counting", (base,), {m: wrap(getattr(base, m)) for m in ("kron", "dot", "eye", "matrix", "is_unitary", "nonzero")})


def looks_of(qc):
    return {"str()": quiet(qc.__str__), "draw()": quiet(qc.draw), "print_opflow_list()": quiet(qc.print_opflow_list),
            "get_circuit_config()": quiet(qc.get_circuit_config), "get_circuit_info()": quiet(qc.get_circuit_info)}


def long(case, obs):
    spec, times = case["spec"], case["times"]
    dims, ops = spec["dims"], spec["ops"]
    count = [0]
    backend = counting(drive.BACKENDS[spec["backend"] or "sparse"], count)
    short_at = times // 4

    def pattern(qc):
        for o in ops:
            drive.issue(qc, o, dims)

    made = {}
    early = late = None
    with sut("building the circuits"):
        qcs = {n: drive.construct(spec, backend=backend, output=drive.output_for(dims)) for n in (short_at, times)}
        for _ in range(short_at):
            pattern(qcs[short_at])
    qc = qcs[times]
    for i in range(times):
        if i in (2, 3, 4, times - 3, times - 2, times - 1):
            count[0] = 0
            w = (*work(lambda: pattern(qc), obs, "requests"), count[0])
            if i < 5:
                early = w if early is None else tuple(map(max, early, w))
            else:
                late = w if late is None else tuple(map(min, late, w))
        else:
            with sut("requests"):
                pattern(qc)
    compare(early, late, 1, "requests for %d gates in a circuit that already holds %d (first: %d)", len(ops), (times - 3) * len(ops), 2 * len(ops))
    obs.hit("late_requests")
    for measured in (False, True):
        for n, qc in qcs.items():
            if measured:
                with sut("measure_all"):
                    qc.measure_all()
            made[n] = {name: work(f, obs, name) for name, f in looks_of(qc).items()}
        for name in made[times]:
            compare(made[short_at][name], made[times][name], times / short_at, "%s of a circuit with %d gates, after %d", name, times * len(ops), short_at * len(ops))
            obs.hit("long_looks")
    ran = {}
    for n, qc in qcs.items():
        quiet(qc.run)()
        count[0] = 0
        ran[n] = (*work(qc.run, obs, "run()"), count[0])
    compare(ran[short_at], ran[times], times / short_at, "run() of a circuit with %d gates, after %d", times * len(ops), short_at * len(ops))
    obs.hit("long_runs")
    # again and again: the same work
    qc = qcs[short_at]
    for _ in range(12):
        with sut("run()"):
            qc.run()
        for f in looks_of(qc).values():
            f()
    count[0] = 0
    compare(ran[short_at], (*work(qc.run, obs, "run()"), count[0]), 1, "run() after a dozen runs")
    for name, f in looks_of(qc).items():
        compare(made[short_at][name], work(f, obs, name), 1, "%s after a dozen runs and looks", name)
        obs.hit("repeated")


def program(case, obs):
    declared, ops, times = case["declared"], case["ops"], case["times"]
    r = rng_for("C31 program", case["seed"])
    dims = qasm.raised(declared, ops)
    head, _, rest = qasm.program(r, dims, ops, declared).partition(".begin")
    body = rest.replace(".end", "").strip("\n")
    if r.random() < 0.4:
        body += "\n# a comment\n\n"
    made = {}
    for n in (times // 4, times):
        text = head + ".begin\n" + "\n".join([body] * n) + "\n.end\n"
        circuit_from_qasm(text)
        made[n] = work(lambda: circuit_from_qasm(text), obs, "circuit_from_qasm")
    compare(made[times // 4], made[times], 4, "circuit_from_qasm of %d instructions, after %d", times * len(ops), times // 4 * len(ops))
    obs.hit("programs")


class Shape(Backend):
    """Computes shapes only, so that any number of registers will do."""

    count = [0]

    class Matrix:
        def __init__(self, shape):
            self.shape = shape

        def toarray(self):
            return np.zeros((1, 1))

        def transpose(self):
            return Shape.Matrix(self.shape[::-1])

        T = property(transpose)

        def copy(self):
            return Shape.Matrix(self.shape)

        ndim, dtype = 2, np.dtype(float)

    def wrap(f):
        def g(*a, **k):
            Shape.count[0] += 1
            return Shape.Matrix(f(*a, **k))

        return staticmethod(g)

    kron = wrap(lambda a, b: (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    dot = wrap(lambda a, b: (a.shape[0], b.shape[1]))
    eye = wrap(lambda n, m=None: (n, n if m is None else m))
    matrix = wrap(lambda a: a.shape)

    @staticmethod
    def is_unitary(a):
        return True

    @staticmethod
    def nonzero(a):
        return []


class Nothing(Output):
    def __call__(self, result):
        return []


def wide(case, obs):
    dims, ops = case["dims"], case["ops"]
    r = rng_for("C31 wide", case["seed"])
    made = {}
    for w in (case["to"] // 2, case["to"]):
        idle = [2] * (w - len(dims))
        all_dims = dims + idle if case["at"] == "first" else idle + dims
        off = 0 if case["at"] == "first" else len(idle)
        moved = [shift(o, off) for o in ops]
        rec = made[w] = {}
        made_qc = []
        rec["construction"] = work(lambda: made_qc.append(drive.QuantumCircuit(list(all_dims), backend=Shape, output=Nothing(list(all_dims)))), obs, "construction")
        qc = made_qc[0]

        def requests():
            for o in moved:
                drive.issue(qc, o, all_dims)

        Shape.count[0] = 0
        rec["requests"] = (*work(requests, obs, "requests"), Shape.count[0])
        rec["measure_all()"] = work(qc.measure_all, obs, "measure_all")
        for name, f in looks_of(qc).items():
            rec[name] = work(f, obs, name)
        Shape.count[0] = 0
        rec["run()"] = (*work(qc.run, obs, "run()"), Shape.count[0])
        if not any(o[0] == "u" for o in ops) and not any(o[0] == "tof" and (len(o[1]) != 2 or o[3] != 1) for o in ops):
            declared = qasm.raised(all_dims, [])
            text = qasm.program(rng_for("C31 text", case["seed"]), all_dims, moved, declared)
            rec["circuit_from_qasm"] = work(lambda: circuit_from_qasm(text, Shape), obs, "circuit_from_qasm")
            obs.hit("wide_programs")
    for name, small in made[case["to"] // 2].items():
        compare(small, made[case["to"]][name], 2, "%s with %d registers, after %d", name, case["to"], case["to"] // 2)
        obs.hit("wide_requests" if name == "requests" else "wide_looks")


def shift(o, off):
    k = o[0]
    if k in ("h", "z"):
        return [k, o[1] + off]
    if k == "x":
        return [k, o[1] + off, o[2]]
    if k == "cx":
        return [k, o[1] + off, o[2] + off, o[3]]
    if k == "tof":
        return [k, [q + off for q in o[1]], o[2] + off, o[3]]
    return [k, [q + off for q in o[1]] if isinstance(o[1], list) else o[1] + off, o[2]]


def report(case, obs):
    d = case["d"]
    r = rng_for("C31 report", case["seed"])
    base = drive.BACKENDS[case["backend"]]
    made = {}
    if case["many"]:  # ever more entries among the same states
        n = 8 if d == 2 else 5
        sizes = [n - 3, n]
    else:  # one entry among ever more states
        sizes = [3, 9 if d == 2 else 6]
    for s in sizes:
        n = max(sizes) if case["many"] else s
        dims = [d] * n
        with sut("building the circuit"):
            qc = drive.QuantumCircuit(dims, backend=base, init_states=[r.randrange(d) for _ in dims], output=drive.output_for(dims, case["type"], case["method"]))
            for q in range(s if case["many"] else 0):
                qc.h(q)
            qc.measure_all()
            result = qc.op_flow.exec(base)
        rep = qc.output_processor(result)
        expect(len(rep) == (d**s if case["many"] else 1), "a report of %d entries", len(rep))
        made[s] = work(lambda: qc.output_processor(result), obs, "the report")
    factor = d ** (sizes[1] - sizes[0]) if case["many"] else sizes[1] / sizes[0]
    compare(made[sizes[0]], made[sizes[1]], factor, "report of %s", "%d entries, after %d" % tuple(d**s for s in sizes) if case["many"] else "one entry among %d states, after %d" % (d ** sizes[1], d ** sizes[0]))
    obs.hit("reports")
    obs.hit("reports")


def drawing(case, obs):
    spec = case["spec"]
    made = {}
    show = plt.show
    plt.show = lambda *a, **k: None
    try:
        for n in (8, 32):
            qc = drive.build({**spec, "ops": spec["ops"] * n})
            draw = quiet(lambda: qc.draw(style="mpl", compress=case["compress"]))
            made[n] = work(draw, obs, "draw(style='mpl')")
            plt.close("all")
    finally:
        plt.show = show
        plt.close("all")
    compare(made[8], made[32], 4, "draw(style='mpl') of a circuit with %d gates, after %d", 32 * len(spec["ops"]), 8 * len(spec["ops"]))
    obs.hit("drawings")


def run_case(case, obs):
    {"long": long, "program": program, "wide": wide, "report": report, "drawing": drawing, "bytes": held}[case["what"]](case, obs)
