"""C32: copies of a circuit are circuits of their own, in this process and in others.

Circuits are copied (copy.deepcopy, pickle in every protocol) at random points of random histories;
original and copies then go different ways.  Other circuits continue in a fresh process that reads
their pickles, or in a forked one.  Every report is compared with the reference model of that history."""
import copy
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import warnings

from .. import drive, gen, model, qasm, usergates
from ..core import VERIF, Inconclusive, expect, rng_for, sut
from .c09 import shifted

from qudiet.core.backend.NumpyBackend import NumpyBackend
from qudiet.core.backend.SparseBackend import SparseBackend
from qudiet.core.output import Output, OutputMethod, OutputType
from qudiet.qasm.qasm_parser import circuit_from_qasm

QUICK_SEEDS = 1
RULE = (
    "Random circuits of all kinds of gates (from the API and from QASM, with up to 70 registers or a thousand layers, all four forms of report, both backends and none) copied before, between, after requests, "
    "measurement and runs by deepcopy or pickle; original and copy go on with different requests in alternation; pickles read by a fresh "
    "process with another hash seed and directory, and circuits that go on in a forked process; non-trivial: every case."
)
REQUIRED = {"copies": 240, "deepcopies": 90, "pickles": 90, "copies_of_copies": 36, "compared_runs": 480, "looks": 480, "links": 600, "elsewhere": 48, "processes": 4,
            "forked": 18, "measured_copies": 48, "ran_copies": 36, "reports": 180, "programs": 15, "taken_apart": 120, "many_layers": 6, "many_registers": 12}
NO_SHRINK = True
CASE_SECONDS = 150


class MyBackend(SparseBackend):
    """A user's backend, importable."""


BACKENDS = {"numpy": NumpyBackend, "sparse": SparseBackend, "mine": MyBackend, None: None}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(200 * k):
        r = rng_for("C32", seed, "copies", i)
        out.append({"what": "copies", "spec": history(r), "seed": r.randrange(2**30)})
    for i in range(10 * k):
        r = rng_for("C32", seed, "elsewhere", i)
        out.append({"what": "elsewhere", "specs": [history(r) for _ in range(14)], "seed": r.randrange(2**30)})
    for i in range(24 * k):  # very many layers, or registers
        r = rng_for("C32", seed, "large", i)
        if i % 3 == 0:
            s = gen.circuit(r, maxn=9, nmin=1, nmax=2, dmax=3, depth=r.choice([350, 500, 1100]), kinds="hxzc")
        else:
            dims = [r.choice([2, 2, 2, 3]) for _ in range(r.choice([10, 12, 13, 16, 17, 24, 33, 64, 65, 70]))]
            s = {"dims": dims, "init": gen.init_states(r, dims), "tuple": False, "ops": []}
            for _ in range(r.randint(1, 12)):
                a = r.randrange(len(dims) - 3)
                s["ops"].append(shifted(gen.op(r, dims[a:a + r.randint(1, 3)], "hxzctu", wide=False), a))
        s["backend"], s["output"] = r.choice(["sparse", "mine", None]), ["state", "amplitude"]
        out.append({"what": "large", "spec": s, "seed": r.randrange(2**30)})
    for i in range(40 * k):
        r = rng_for("C32", seed, "fork", i)
        out.append({"what": "fork", "spec": history(r), "seed": r.randrange(2**30)})
    return out


def history(r):
    if r.random() < 0.2:
        declared = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
        ops = qasm.random_ops(r, declared, r.choice([0, 1, 3, 6]), 48, "hxzct" if len(declared) > 2 else "hxzc" if len(declared) > 1 else "hxz")
        dims = qasm.raised(declared, ops)
        s = {"dims": dims, "init": None, "tuple": False, "ops": ops, "text": qasm.program(r, dims, ops, declared)}
    else:
        s = gen.circuit(r, maxn=40, nmin=1, nmax=5, dmax=6, depth=r.choice([0, 1, 2, 4, 7, 12, 40, 100]))
    s["backend"] = r.choice(["numpy", "sparse", "mine", None])
    s["output"] = r.choice([None, None, ["state", "amplitude"], ["print", "amplitude"], ["state", "probability"], ["print", "probability"]])
    if s["output"] is None and (max(s["dims"]) > 10 or s["init"] is None):
        s["output"] = ["state", "amplitude"]
    if s["output"] and max(s["dims"]) > 10:
        s["output"][0] = "state"
    return s


def issue(qc, o, dims):
    if o[0] == "u":
        return qc.gate(usergates.gate([dims[q] for q in model.regs_of(o)], o[2]), o[1])
    return drive.issue(qc, o, dims)


def output_of(spec):
    return None if spec["output"] is None else Output(list(spec["dims"]), OutputType[spec["output"][0]], OutputMethod[spec["output"][1]])


def construct(spec):
    if "text" in spec:
        b = BACKENDS[spec["backend"]]
        return circuit_from_qasm(spec["text"], b) if b else circuit_from_qasm(spec["text"])
    return drive.construct(spec, backend=BACKENDS[spec["backend"]], output=output_of(spec))


def view(qc):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return drive.shape_of(qc), str(qc), qc.get_circuit_config(), qc.get_circuit_info()


class Way:
    """A circuit, and what has been asked of it."""

    def __init__(self, spec, qc, ops=(), measured=False):
        self.spec, self.qc, self.ops, self.measured = spec, qc, list(ops), measured
        self.ran = False
        self.dims = spec["dims"]
        self.program = "text" in spec

    def request(self, o):
        with sut("request %r" % (o,)):
            got = issue(self.qc, o, self.dims)
        expect(bool(got) == (not self.measured), "request %r returned %r %s measurement", o, got, "after" if self.measured else "before")
        if not self.measured:
            self.ops.append(o)

    def measure(self):
        with sut("measure_all"):
            self.qc.measure_all()
        self.measured = True

    def want(self):
        return model.simulate(self.dims, drive.init_of(self.spec), self.ops)

    def check(self, report, what):
        form = "amplitude" if self.program or not self.spec["output"] else self.spec["output"][1]
        kind = None if self.program or not self.spec["output"] else self.spec["output"][0]
        want = self.want()
        if form == "probability":
            want = (abs(want) ** 2).astype(complex)
        drive.same_state(drive.report_state(report, self.dims), want, what)
        for entry in report:
            for label in entry:
                expect(isinstance(label, tuple) == (kind == "state"), "%s: label %r", what, label)

    def run(self, what, obs):
        report = drive.run(self.qc)
        self.ran = True
        self.check(report, what)
        obs.hit("compared_runs")
        return report

    def look(self, what, obs):
        """The circuit looks as one that was built alone by the same requests."""
        with sut("looking at " + what):
            got = view(self.qc)
            twin = construct(self.spec)
            for o in self.ops if not self.program else ():
                issue(twin, o, self.dims)
            if self.measured and not self.program:
                twin.measure_all()
            want = view(twin)
        expect(got == want, "%s looks like\n%s\n%r\ninstead of\n%s\n%r", what, got[1], got[2:], want[1], want[2:])
        obs.hit("looks")


def linked(qc, what, obs):
    ms = list(qc.op_flow.peek())
    for a, b in zip(ms, ms[1:]):
        expect(a.next_pointer is b and b.prev_pointer is a, "%s: two layers in a row are not linked to each other", what)
        obs.hit("links")


def copied(way, how, obs):
    with sut("copying a circuit (%s)" % how):
        if how == "deepcopy":
            qc = copy.deepcopy(way.qc)
            obs.hit("deepcopies")
        else:
            qc = pickle.loads(pickle.dumps(way.qc, protocol=int(how[-1])))
            obs.hit("pickles")
    expect(type(qc) is type(way.qc), "the copy is a %s", type(qc).__name__)
    expect(getattr(qc, "backend", None) is getattr(way.qc, "backend", None), "the copy has another backend")
    linked(qc, "the copy", obs)
    obs.hit("copies")
    return Way(way.spec, qc, way.ops, way.measured)


def spoil(way, r, obs):
    """Takes a copy apart; the original must not notice."""
    qc = way.qc
    was = copy.deepcopy(getattr(qc, "circuit_output", None))
    forms = [getattr(qc.output_processor, a, None) for a in ("output_type", "output_method")]
    other = copied(way, r.choice(HOW), obs).qc
    if way.ran:
        expect(getattr(other, "circuit_output", None) == was, "the copy of a circuit that ran holds %r as its last report, not %r", getattr(other, "circuit_output", None), was)
    with sut("taking a copy apart"):
        for name in ("qregs", "init_states", "circuit_output"):
            if isinstance(getattr(other, name, None), list):
                getattr(other, name).append({"mine": 1} if name == "circuit_output" else 1)
        if other.output_processor is not None:
            for a in ("output_type", "output_method", "base"):
                if hasattr(other.output_processor, a):
                    setattr(other.output_processor, a, None)
        for m in other.op_flow.peek():
            for g in m.peek_list():
                for a in ("qreg", "dims", "plus", "_plus", "state", "dim"):
                    try:
                        setattr(g, a, 1)
                    except AttributeError:
                        pass
            m.prev_pointer = m.next_pointer = None
            m.peek_list().reverse()
        del other.op_flow.peek()[1:]
        other.backend = None
    obs.hit("taken_apart")
    linked(qc, "a circuit whose copy was taken apart", obs)
    expect(getattr(qc, "circuit_output", None) == was, "the last report of a circuit changed with that of a copy")
    expect([getattr(qc.output_processor, a, None) for a in ("output_type", "output_method")] == forms, "the form of report of a circuit changed with that of a copy")


HOW = ["deepcopy", "deepcopy", "deepcopy", "pickle2", "pickle3", "pickle4", "pickle5"]


def start(spec):
    with sut("building the circuit"):
        way = Way(spec, construct(spec))
    if way.program:
        way.ops, way.measured = list(spec["ops"]), True
    return way


def copies(case, obs):
    spec = case["spec"]
    r = rng_for("C32 copies", case["seed"])
    dims = spec["dims"]
    ways = [start(spec)]
    obs.hit("programs", ways[0].program)
    left = [[] if ways[0].program else list(spec["ops"]) + ["measure", "run"]]
    reports = []
    copies_left = r.randint(1, 3)
    at = r.randint(0, len(left[0]))  # when the first copy is taken
    steps = 0
    while copies_left or any(left):
        if copies_left and (steps >= at or not any(left)):
            i = r.randrange(len(ways))
            obs.hit("copies_of_copies", i > 0)
            obs.hit("measured_copies", ways[i].measured)
            obs.hit("ran_copies", ways[i].ran)
            before = view(ways[i].qc)
            way = copied(ways[i], r.choice(HOW), obs)
            expect(view(ways[i].qc) == before, "copying a circuit changed it")
            spoil(ways[i], r, obs)
            expect(view(ways[i].qc) == before, "a circuit changed when a copy of it was taken apart")
            way.look("a copy", obs)
            ways.append(way)
            if way.measured:
                todo = ["run"]
            else:  # goes another way
                todo = [gen.op(r, dims, "hxzctu") for _ in range(r.randint(0, 4))] + ["measure", "run"]
            left.append(todo)
            copies_left -= 1
            at = steps + r.randint(0, 4)
            continue
        i = r.choice([i for i, t in enumerate(left) if t])
        e = left[i].pop(0)
        steps += 1
        what = "the original" if i == 0 else "copy %d" % i
        if e == "measure":
            ways[i].measure()
        elif e == "run":
            rep = ways[i].run("report of %s" % what, obs)
            reports.append((rep, copy.deepcopy(rep)))
        else:
            ways[i].request(e)
    for i, way in enumerate(ways):
        what = "the original" if i == 0 else "copy %d" % i
        way.look(what, obs)
        rep = way.run("report of %s at the end" % what, obs)
        with sut("pickling a report"):
            again = pickle.loads(pickle.dumps(rep))
        expect(again == rep, "a report is %r after pickling, not %r", again[:4], rep[:4])
        obs.hit("reports")
        way.request(["x", 0, 1])
    for rep, was in reports:
        expect(rep == was, "a report changed when copies of its circuit ran")
    # the copies do not need the original
    keep = ways[-1]
    del ways
    keep.run("report of a copy whose original is gone", obs)


def large(case, obs):
    """Copies of a circuit with more layers, or registers, than others have."""
    spec = case["spec"]
    r = rng_for("C32 large", case["seed"])
    dims = spec["dims"]
    small = model.size(dims) <= 50
    way = start(spec)
    for o in spec["ops"]:
        way.request(o)
    if r.random() < 0.3:
        way.measure()
    ways = [way]
    for how in r.sample(HOW[2:], 2):
        before = view(way.qc)
        ways.append(copied(ways[-1], how, obs))
        expect(view(way.qc) == before, "copying a circuit changed it")
    for i, way in enumerate(ways):
        if not way.measured:
            for _ in range(r.randint(0, 3)):
                a = 0 if small else r.randrange(len(dims) - 3)
                way.request(shifted(gen.op(r, dims if small else dims[a:a + 2], "hxzc" if len(dims) > 1 else "hxz"), a))
            way.measure()
    for i, way in enumerate(ways):
        way.look("the original" if i == 0 else "copy %d" % i, obs)
        linked(way.qc, "the original" if i == 0 else "copy %d" % i, obs)
        if small:
            way.run("report of %s" % ("the original" if i == 0 else "copy %d" % i), obs)
    obs.hit("many_layers" if small else "many_registers")


def child(path):
    with open(path, "rb") as f:
        jobs = pickle.load(f)
    out = []
    for blob, todo, dims in jobs:
        try:
            qc = pickle.loads(blob)
            first = view(qc)
            for e in todo:
                qc.measure_all() if e == "measure" else issue(qc, e, dims)
            out.append((first, view(qc), qc.run(), qc.run()))
        except Exception as e:
            out.append("%s: %s" % (type(e).__name__, str(e)[:300]))
    with open(path + ".out", "wb") as f:
        pickle.dump(out, f)


def elsewhere(case, obs):
    r = rng_for("C32 elsewhere", case["seed"])
    jobs, ways = [], []
    for spec in case["specs"]:
        way = start(spec)
        todo = []
        if not way.program:
            cut = r.randint(0, len(spec["ops"]))
            for o in spec["ops"][:cut]:
                way.request(o)
            todo = spec["ops"][cut:] + ["measure"]
            if r.random() < 0.3:
                for o in todo[:-1]:
                    way.request(o)
                way.measure()
                todo = []
                if r.random() < 0.5:
                    way.run("report of a circuit that is pickled next", obs)
        with sut("pickling a circuit"):
            blob = pickle.dumps(way.qc)
            jobs.append((blob, todo, spec["dims"]))
        ways.append((way, todo, view(way.qc)))
    root = tempfile.mkdtemp(prefix="qmon-c32-")
    try:
        path = os.path.join(root, "jobs")
        with open(path, "wb") as f:
            pickle.dump(jobs, f)
        env = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 2**32)), PYTHONPATH=VERIF)
        try:
            p = subprocess.run([sys.executable, "-c", "from qmon import env\nfrom qmon.props import c32\nimport sys\nc32.child(sys.argv[1])", path],
                               cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the other process did not finish")
        if p.returncode or not os.path.exists(path + ".out"):
            raise Inconclusive("the other process failed: %s" % p.stderr.decode(errors="replace")[-300:])
        obs.hit("processes")
        with open(path + ".out", "rb") as f:
            out = pickle.load(f)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for (way, todo, before), got in zip(ways, out):
        expect(not isinstance(got, str), "in another process a pickled circuit raised %s", got)
        first, last, rep, rep2 = got
        expect(first == before, "a circuit read by another process looks like\n%s\ninstead of\n%s", first[1], before[1])
        expect(view(way.qc) == before, "a circuit changed while a pickle of it was used elsewhere")
        for e in todo:
            way.measure() if e == "measure" else way.request(e)
        with sut("looking at a circuit"):
            here = view(way.qc)
        expect(last == here, "a circuit that went on in another process looks like\n%s\ninstead of\n%s", last[1], here[1])
        way.check(rep, "report of a circuit read by another process")
        expect(rep == rep2, "two reports of a circuit read by another process differ")
        way.run("report of a circuit that was also used elsewhere", obs)
        obs.hit("elsewhere")


def fork(case, obs):
    """The circuit goes on in a forked process as well."""
    spec = case["spec"]
    r = rng_for("C32 fork", case["seed"])
    way = start(spec)
    todo = []
    if not way.program:
        cut = r.randint(0, len(spec["ops"]))
        for o in spec["ops"][:cut]:
            way.request(o)
        todo = spec["ops"][cut:] + ["measure"]
    before = view(way.qc)
    a, b = os.pipe()
    pid = os.fork()
    if not pid:
        status = 1
        try:
            signal.alarm(100)
            os.close(a)
            try:
                for e in todo:
                    way.qc.measure_all() if e == "measure" else issue(way.qc, e, spec["dims"])
                got = (view(way.qc), way.qc.run())
            except Exception as e:
                got = "%s: %s" % (type(e).__name__, str(e)[:300])
            with os.fdopen(b, "wb") as f:
                pickle.dump(got, f)
            status = 0
        finally:
            os._exit(status)
    os.close(b)
    try:
        with os.fdopen(a, "rb") as f:
            blob = f.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not blob:
        raise Inconclusive("the forked process did not answer")
    got = pickle.loads(blob)
    expect(not isinstance(got, str), "in a forked process a circuit raised %s", got)
    expect(view(way.qc) == before, "a circuit changed while it went on in a forked process")
    for e in todo:
        way.measure() if e == "measure" else way.request(e)
    with sut("looking at a circuit"):
        here = view(way.qc)
    expect(got[0] == here, "a circuit that went on in a forked process looks like\n%s\ninstead of\n%s", got[0][1], here[1])
    way.check(got[1], "report of a circuit in a forked process")
    way.run("report of a circuit that was also used in a forked process", obs)
    obs.hit("forked")


def run_case(case, obs):
    {"copies": copies, "large": large, "elsewhere": elsewhere, "fork": fork}[case["what"]](case, obs)
