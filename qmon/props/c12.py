"""C12: circuits are isolated from each other, from caller data and across threads."""
import copy
import sys
import threading
import time

from .. import drive, gen, model
from ..env import SRC
from ..core import Violation, expect, rng_for, sut

from qudiet.qasm.qasm_parser import circuit_from_qasm

RULE = (
    "Interleaved: 2-4 circuits of different layouts whose constructions, requests, measurements and runs alternate at random. "
    "Caller data: the lists passed as registers, initial levels, gate registers and the returned reports are changed right after "
    "the call, and compared with their copies before. One class: gates of one class with different matrices in several circuits, some of which must fail. Threads: 4 threads each build and run circuits with a "
    "switch interval of a microsecond and a backend that yields at every operation; the order of backend events is recorded; or 4 threads run and inspect one measured circuit at once. Every report is "
    "compared with the reference model of that circuit alone; non-trivial: every case."
)
REQUIRED = {"runs": 300, "interleaved_events": 500, "kept_reports": 200, "caller_lists_changed": 150, "one_class_runs": 200, "failed_runs": 40, "threaded_runs": 60, "threaded_looks": 100, "one_output_threads": 20, "shared_circuit_runs": 100, "shared_circuit_looks": 100, "thread_switches": 200}
NO_SHRINK = True


def cases(tier, seed):
    quick = tier == "quick"
    k = 1 if quick else 20
    out = []
    for i in range(24 * k):
        r = rng_for("C12", seed, "threads", i)
        out.append({"what": "threads", "specs": [[gen.circuit(r, maxn=24, nmax=4, dmax=4, depth=r.choice([2, 4, 6])) for _ in range(3)] for _ in range(4)],
                    "same": i % 3 == 0, "output": i % 6 == 0 or i % 6 == 3, "qasm": [program(r) for _ in range(3)], "trace": i % 4 < 2, "seed": r.randrange(2**30)})
    for i in range(24 * k):
        r = rng_for("C12", seed, "shared", i)
        out.append({"what": "shared", "specs": [gen.circuit(r, maxn=24, nmax=4, dmax=4, depth=r.choice([1, 2, 4, 6])) for _ in range(2)],
                    "trace": i % 4 < 3, "seed": r.randrange(2**30)})
    for i in range(130 * k):
        r = rng_for("C12", seed, "inter", i)
        specs = [gen.circuit(r, maxn=32, nmax=5, dmax=5, depth=r.choice([1, 2, 4, 6])) for _ in range(r.randint(2, 4))]
        if r.random() < 0.5:  # same layout, shared argument objects
            for s in specs[1:]:
                s["dims"], s["init"], s["tuple"] = list(specs[0]["dims"]), copy.deepcopy(specs[0]["init"]), specs[0]["tuple"]
                s["ops"] = [gen.op(r, s["dims"]) for _ in s["ops"]]
        out.append({"what": "interleaved", "specs": specs, "seed": r.randrange(2**30)})
    for i in range(130 * k):
        r = rng_for("C12", seed, "caller", i)
        s = gen.circuit(r, maxn=48, nmin=2, nmax=5, dmax=5, kinds="ctuhxz", depth=r.choice([2, 4, 6]))
        s["tuple"] = False
        out.append({"what": "caller", "spec": s, "seed": r.randrange(2**30)})
    for i in range(60 * k):  # one gate class in several circuits
        r = rng_for("C12", seed, "oneclass", i)
        layouts = [[r.choice([2, 2, 3]) for _ in range(r.randint(1, 4))] for _ in range(r.randint(2, 4))]
        uses = []
        for _ in range(r.randint(3, 10)):
            c = r.randrange(len(layouts))
            uses.append([c, r.randrange(len(layouts[c]))])
        out.append({"what": "oneclass", "layouts": layouts, "uses": uses, "bad": r.randrange(len(uses)) if i % 2 else None, "backends": [r.choice(["numpy", "sparse", None]) for _ in layouts], "seed": r.randrange(2**30)})
    return out


def program(r):
    dims = [r.choice([2, 3, 4]) for _ in range(r.randint(1, 3))]
    ops = [gen.op(r, dims, "hxzc", wide=False) for _ in range(r.randint(1, 5))]
    lines = [".qudit %d" % len(dims)] + ["qudit x%d (%d)" % (i, d) for i, d in enumerate(dims)] + [".begin"]
    for o in ops:
        lines.append({"h": "H x%d", "z": "Z x%d", "x": "X x%d %d", "cx": "CX x%d x%d %d"}[o[0]] % tuple(o[1:]))
    return {"dims": dims, "ops": ops, "text": "\n".join(lines + [".end"])}


def oneclass(case, obs):
    """Gates of one class with different matrices in different circuits, one of which may
    have a matrix that is not unitary: only its own circuit may fail."""
    layouts, uses = case["layouts"], case["uses"]
    r = rng_for("C12 oneclass", case["seed"])
    mats = [model.umatrix([layouts[c][q]], {"kind": "haar", "seed": r.randrange(2**30)}) for c, q in uses]
    if case["bad"] is not None:
        mats[case["bad"]] = mats[case["bad"]] * 0.5
    made = []

    class Custom(drive.ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = mats[len(made)]
            made.append(1)

    with sut("building the circuits"):
        qcs = [drive.construct({"dims": d, "backend": b}) for d, b in zip(layouts, case["backends"])]
        for c, q in uses:
            qcs[c].gate(Custom, q)
        for qc in qcs:
            qc.measure_all()
    if len(made) != len(uses):
        obs.hit("not_applicable")
        return
    order = [c for c in range(len(qcs)) for _ in range(3)]
    r.shuffle(order)
    for c in order:
        dims = layouts[c]
        if case["bad"] is not None and uses[case["bad"]][0] == c:
            try:
                qcs[c].run()
            except Exception:
                obs.hit("failed_runs")
                continue
            expect(False, "a circuit with a gate that is not unitary was run, next to others with good gates of its class")
        want = model.basis(dims, [0] * len(dims))
        for (c2, q), m in zip(uses, mats):
            if c2 == c:
                want = model.apply_matrix(want, m, [q])
        drive.same_state(drive.report_state(drive.run(qcs[c]), dims), want, "report of one of %d circuits with gates of one class" % len(qcs))
        obs.hit("runs")
        obs.hit("one_class_runs")


def run_case(case, obs):
    {"oneclass": oneclass, "threads": threads, "shared": shared, "interleaved": interleaved, "caller": caller}[case["what"]](case, obs)


def check(qc, spec, what, obs):
    report = drive.run(qc)
    got = drive.report_state(report, spec["dims"])
    drive.same_state(got, drive.expected_state(spec), what)
    obs.hit("runs")
    return report


def interleaved(case, obs):
    r = rng_for("C12 order", case["seed"])
    specs = case["specs"]
    todo = [["new"] + [["op", o] for o in s["ops"]] + ["measure"] + ["run"] * r.randint(1, 2) for s in specs]
    shared = all(s["dims"] == specs[0]["dims"] and s["init"] == specs[0]["init"] for s in specs)
    regs, init = list(specs[0]["dims"]), list(specs[0]["init"] or [])
    out = drive.output_for(specs[0]["dims"]) if r.random() < 0.5 else None
    qcs = [None] * len(specs)
    kept = []
    while any(todo):
        i = r.choice([i for i, t in enumerate(todo) if t])
        for _ in range(r.choice([1, 1, 1, 2, 5])):
            if not todo[i]:
                break
            e = todo[i].pop(0)
            obs.hit("interleaved_events")
            spec = specs[i]
            with sut("circuit %d: %r" % (i, e)):
                if e == "new":
                    if shared and not spec["tuple"]:
                        kw = {"backend": drive.BACKENDS[spec["backend"]]}
                        if out is not None:
                            kw["output"] = out
                        qcs[i] = drive.QuantumCircuit(regs, init_states=init, **kw)
                        obs.hit("shared_arguments")
                    else:
                        qcs[i] = drive.construct(spec)
                elif e == "measure":
                    qcs[i].measure_all()
                elif e == "run":
                    report = check(qcs[i], spec, "report of circuit %d of %d interleaved ones" % (i, len(specs)), obs)
                    kept.append((i, report, copy.deepcopy(report)))
                else:
                    drive.issue(qcs[i], e[1], spec["dims"])
                    if r.random() < 0.1:
                        str(qcs[i])
    for i, (qc, spec) in enumerate(zip(qcs, specs)):
        check(qc, spec, "report of circuit %d, run again after all others" % i, obs)
        with sut("reading the layers"):
            shape = drive.shape_of(qc)[1:-1]
        want = model.pack(len(spec["dims"]), spec["ops"])
        got = [sorted(g for g in layer if g[0] != "i") for layer in shape]
        expect(got == [sorted(drive.requested(spec["ops"][j]) for j in layer) for layer in want], "circuit %d holds other gates than it was given", i)
    for i, report, was in kept:
        expect(report == was, "a report of circuit %d changed from %r to %r when circuits ran again", i, was[:6], report[:6])
        obs.hit("kept_reports")


def caller(case, obs):
    spec = case["spec"]
    dims = spec["dims"]
    r = rng_for("C12 caller", case["seed"])

    def scramble(lst, copy_of):
        expect(lst == copy_of, "the caller's list %r became %r", copy_of, lst)
        how = r.randrange(4)
        if how == 0:
            lst.clear()
        elif how == 1:
            lst.append(1)
        elif how == 2:
            lst.reverse()
            if lst:
                lst[0] = lst[0] + 1
        else:
            lst[:] = [0] * len(lst)
        obs.hit("caller_lists_changed")

    regs = list(dims)
    init = None if spec["init"] is None else list(spec["init"])
    kw = {"backend": drive.BACKENDS[spec["backend"]]}
    if init is not None:
        kw["init_states"] = init
    with sut("building the circuit"):
        qc = drive.QuantumCircuit(regs, **kw)
    scramble(regs, dims)
    if init is not None:
        scramble(init, spec["init"])
    pair, pair_was = [0, 0], None
    for o in spec["ops"]:
        with sut("request %r" % o):
            if o[0] == "cx":
                pair[:] = [o[1], o[2]]  # one list used for every request
                pair_was = list(pair)
                qc.cx(pair, o[3])
                expect(pair == pair_was, "cx() changed the caller's list")
                if r.random() < 0.5:
                    scramble(pair, pair_was)
                    pair[:] = [0, 0]
            elif o[0] == "tof":
                controls = list(o[1])
                qc.toffoli((controls, o[2]), o[3])
                scramble(controls, o[1])
            elif o[0] == "u" and isinstance(o[1], list):
                where = list(o[1])
                qc.gate(drive.custom([dims[q] for q in where], o[2]), where)
                scramble(where, o[1])
            else:
                drive.issue(qc, o, dims)
    with sut("measure_all"):
        text = str(qc)
        qc.measure_all()
        info = qc.get_circuit_info()
    check(qc, spec, "report after the caller changed the lists it had passed", obs)
    rep = drive.run(qc)
    keep = copy.deepcopy(rep)
    for entry in rep:
        entry.clear()
    rep.clear()
    with sut("get_circuit_info"):
        for d in (info, qc.get_circuit_config()):
            for v in list(d.values()):
                if isinstance(v, dict):
                    v.clear()
            d.clear()
    check(qc, spec, "report after the caller changed an earlier report", obs)
    expect(drive.run(qc) == keep, "changing a returned report changed the next one")
    with sut("get_circuit_info"):
        expect(qc.get_circuit_info()["gate_count"] == len(spec["ops"]), "changing a returned summary changed the next one")
        lines = str(qc).split("\n")[: len(dims)]
    for a, b in zip(text.split("\n"), lines):
        expect(b.startswith(a.rstrip("-")), "the drawing changed: %r, then %r", a, b)


class Yielding:
    """Makes backend subclasses that record every event and give way to other threads."""

    def __init__(self, base, seed):
        self.lock = threading.Lock()
        self.log = []
        log, lock = self.log, self.lock
        r = rng_for("yield", seed)
        coin = [r.random() < 0.5 for _ in range(512)]

        def yields(f):
            def g(*a, **k):
                with lock:
                    log.append(threading.get_ident())
                    n = len(log)
                if coin[n % 512]:
                    time.sleep(0)
                res = f(*a, **k)
                if coin[(n * 7) % 512]:
                    time.sleep(0.0001)
                return res

            return staticmethod(g)

        self.cls = type("Yielding" + base.__name__, (base,), {m: yields(getattr(base, m)) for m in ("kron", "dot", "eye", "matrix", "nonzero", "is_unitary")})


def drive_threads(work, args, case, errors, obs):
    """One thread per argument, with delays injected at random lines of the code under test."""

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if event == "line":
            counter[0] += 1
            if delays[counter[0] % 4096]:
                time.sleep(0.00005)
        return tracer

    counter = [0]
    r = rng_for("delays", case["seed"])
    delays = [r.random() < 0.02 for _ in range(4096)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    if case["trace"]:
        threading.settrace(tracer)
    try:
        ts = [threading.Thread(target=work, args=(g,), daemon=True) for g in args]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    obs.hit("lines_with_delay_points", counter[0])
    for e in errors:
        if isinstance(e, Violation):
            raise e
    for e in errors:
        if not isinstance(e, threading.BrokenBarrierError):
            raise e


def shared(case, obs):
    """One measured circuit run and looked at by four threads at once."""
    for spec in case["specs"]:
        bases = {b: Yielding(drive.BACKENDS[b], case["seed"]) for b in ("numpy", "sparse")}
        bases[None] = bases["sparse"]
        qc = drive.build(spec, backend=bases[spec["backend"]].cls)
        want = drive.expected_state(spec)

        def look():
            return str(qc), qc.get_circuit_info(), qc.get_circuit_config(), drive.shape_of(qc)

        with sut("inspecting a circuit"):
            alone = look()
        errors, done = [], []
        barrier = threading.Barrier(4)

        def work(seed):
            r = rng_for("C12 shared", seed)
            try:
                barrier.wait(30)
                for _ in range(5):
                    if r.random() < 0.5:
                        got = drive.report_state(drive.run(qc), spec["dims"])
                        drive.same_state(got, want, "report of a circuit that other threads run or inspect at the same time")
                        done.append("run")
                    else:
                        with sut("inspecting a circuit that other threads run"):
                            was = look()
                        expect(was == alone, "a circuit that other threads run at the same time looks like %r, not %r", was, alone)
                        done.append("look")
            except BaseException as e:
                errors.append(e)

        drive_threads(work, [case["seed"] + i for i in range(4)], case, errors, obs)
        with sut("inspecting a circuit"):
            expect(look() == alone, "after four threads had run and inspected it, the circuit looks different")
        drive.same_state(drive.report_state(drive.run(qc), spec["dims"]), want, "report of a circuit that four threads had run and inspected")
        obs.hit("shared_circuit_runs", done.count("run"))
        obs.hit("shared_circuit_looks", done.count("look"))
        schedule(bases, obs)


def threads(case, obs):
    groups = case["specs"]
    if case["same"]:
        groups = [groups[0]] * 4
    bases = {b: Yielding(drive.BACKENDS[b], case["seed"]) for b in ("numpy", "sparse")}
    bases[None] = bases["sparse"]
    errors = []
    barrier = threading.Barrier(len(groups))
    runs = []

    # circuits of one layout may report through one output object
    outs = [drive.output_for(s["dims"]) for s in groups[0]] if case.get("output") else None
    looks = []

    def look(qc):
        return str(qc), qc.get_circuit_info(), qc.get_circuit_config(), drive.shape_of(qc)

    def work(specs):
        try:
            for j, spec in enumerate(specs):
                barrier.wait(30)
                qc = drive.build(spec, backend=bases[spec["backend"]].cls, output=outs[j] if outs else "auto")
                for _ in range(2):
                    got = drive.report_state(drive.run(qc), spec["dims"])
                    drive.same_state(got, drive.expected_state(spec), "report of a circuit driven while other threads drive others")
                    runs.append(1)
                with sut("inspecting a circuit"):
                    looks.append((spec, look(qc)))
                text = case["qasm"][j]
                with sut("circuit_from_qasm while other threads use others"):
                    read = circuit_from_qasm(text["text"])
                got = drive.report_state(drive.run(read), text["dims"])
                drive.same_state(got, model.simulate(text["dims"], [0] * len(text["dims"]), text["ops"]), "report of a program read while other threads drive others")
                runs.append(1)
        except BaseException as e:
            errors.append(e)
            barrier.abort()

    drive_threads(work, groups, case, errors, obs)
    for spec, was in looks:
        with sut("inspecting a circuit"):
            alone = look(drive.build(spec))
        expect(was == alone, "a circuit driven while other threads drive others looks like %r, not %r", was, alone)
        obs.hit("threaded_looks")
    if outs:
        obs.hit("one_output_threads", len(groups))
    obs.hit("threaded_runs", len(runs))
    schedule(bases, obs)


def schedule(bases, obs):
    log = bases["sparse"].log + bases["numpy"].log
    obs.hit("thread_switches", sum(a != b for a, b in zip(log, log[1:])))
    obs.hit("threaded_events", len(log))
    ids = {t: i for i, t in enumerate(dict.fromkeys(log))}
    obs.distinct("interleavings", bytes(ids[t] for t in log))
