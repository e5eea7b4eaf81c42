"""C28: what nobody uses any more is released.

Monitors: weak references to circuits, flows and layers after the last reference is dropped;
the memory Python has allocated (tracemalloc) and the number of objects the collector knows, before
and after many repetitions of what has been done before; open descriptors and threads."""
import gc
import itertools
import os
import shutil
import sys
import tempfile
import threading
import tracemalloc
import types
import warnings
import weakref

from .. import drive, gen, qasm
from ..env import SRC
from ..core import expect, rng_for, sut

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

QUICK_SEEDS = 2
RULE = (
    "Random circuits and programs, built, extended with refused and accepted requests, inspected, run before and after measurement and dropped; the same "
    "things are done again and again, and running or inspecting one circuit is repeated; memory, objects and descriptors are compared; "
    "non-trivial: every case."
)
REQUIRED = {"released": 300, "rounds": 600, "repeated_runs": 500, "repeated_looks": 500, "refused": 60, "failed_runs": 60, "programs": 30, "extents": 200}
NO_SHRINK = True
# What the code under test allocates itself.  The interpreter's own caches fluctuate by a few
# kilobytes (strings it interns for open(), free lists), a leak grows with every repetition
OWN = tracemalloc.Filter(True, os.path.join(SRC, "*"))
WARM, ROUNDS = 3, (24, 48, 96, 192, 384)


def cases(tier, seed):
    k = 1 if tier == "quick" else 30
    out = []
    for i in range(60 * k):
        r = rng_for("C28", seed, i)
        items = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.4:
                declared = gen.layout(r, maxn=24, nmin=1, nmax=4, dmax=4)
                kinds = "hxzctt" if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
                ops = qasm.random_ops(r, declared, r.choice([0, 2, 4, 6]), 36, kinds)
                items.append({"program": qasm.program(r, qasm.raised(declared, ops), ops, declared), "file": r.random() < 0.5, "backend": r.choice(["numpy", "sparse", None])})
            else:
                s = gen.circuit(r, maxn=24, nmax=4, dmax=5, depth=r.choice([0, 1, 3, 5, 8]))
                items.append({"spec": s, "early": r.random() < 0.5, "bad": r.random() < 0.4, "after": r.random() < 0.4})
        out.append({"what": "sessions", "items": items})
    for i in range(60 * k):
        r = rng_for("C28", seed, "again", i)
        s = gen.circuit(r, maxn=32, nmax=5, dmax=5, depth=r.choice([0, 1, 3, 5, 8]))
        out.append({"what": "again", "spec": s, "measured": r.random() < 0.75, "how": i % 4})
    return out


def bad_requests(qc, n, obs):
    for f in (lambda: qc.h(n), lambda: qc.x(-1), lambda: qc.cx((0, n), 1), lambda: qc.cx((0, 0), 1)):
        try:
            f()
        except ValueError:
            obs.hit("refused")


def failing_run(qc, obs):
    try:
        qc.run()
    except Exception:
        obs.hit("failed_runs")


def look(qc):
    with sut("inspecting"):
        return len(str(qc)), qc.get_circuit_config(), qc.get_circuit_info(), len(qc.op_flow.peek())


def ref(o):
    try:
        return weakref.ref(o)
    except TypeError:  # objects with __slots__ may not have any; the memory still tells
        return lambda: None


NUMBER = itertools.count(1)


def another(spec, k):
    """The same circuit with increments of its own, which differ by multiples of the dimension."""
    ops = []
    for o in spec["ops"]:
        if o[0] == "x":
            o = ["x", o[1], (1 if o[2] is None else o[2]) + k * spec["dims"][o[1]]]
        elif o[0] in ("cx", "tof"):
            o = [o[0], o[1], o[2], (1 if o[3] is None else o[3]) + k * spec["dims"][o[2]]]
        ops.append(o)
    return dict(spec, ops=ops)


def play(items, where, obs):
    """Builds, uses and drops; returns weak references to everything that was made.  Every time
    round the circuits have names and increments, and programs texts and files, of their own."""
    refs = []
    for n, item in enumerate(items):
        k = next(NUMBER)
        if "program" in item:
            b = drive.BACKENDS[item["backend"]]
            text = "# program %d\n%s" % (k, item["program"])
            if item["file"]:
                path = os.path.join(where, "%d.txt" % k)
                with open(path, "w") as f:
                    f.write(text)
                with sut("parsing a program"):
                    qc = parse_qasm(path, b)
                os.unlink(path)
            else:
                with sut("parsing a program"):
                    qc = circuit_from_qasm(text, b)
            obs.hit("programs")
        else:
            spec = another(item["spec"], k)
            qc = drive.build(dict(spec, name="circuit %d" % k), measure=False)
            if item["bad"]:
                bad_requests(qc, len(spec["dims"]), obs)
            if item["early"]:
                look(qc)
                failing_run(qc, obs)
            with sut("measure_all"):
                qc.measure_all()
        drive.run(qc)
        look(qc)
        if item.get("after"):
            with sut("a request after the measurement"):
                qc.h(0)
                qc.measure_all()
        drive.run(qc)
        with sut("reading the layers"):
            refs.append([(what, ref(o)) for what, o in [("circuit", qc), ("flow", qc.op_flow)] + [("layer", m) for m in qc.op_flow.peek()]])
        del qc
    return refs


def held():
    gc.collect()
    gc.collect()
    total = tracemalloc.get_traced_memory()[0]
    own = sum(t.size for t in tracemalloc.take_snapshot().filter_traces([OWN]).traces)
    return own, total, len(gc.get_objects()), len(os.listdir("/proc/self/fd")), threading.active_count()


def extent(qc):
    """How many objects a circuit holds, and their bytes."""
    seen, todo, size = {id(qc)}, [qc], 0
    while todo:
        here = todo.pop()
        size += sys.getsizeof(here)
        for o in gc.get_referents(here):
            if id(o) not in seen and not isinstance(o, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
                seen.add(id(o))
                todo.append(o)
    return len(seen), size


def grown(qc, f, obs, what):
    """Calls f on a circuit again and again: what the circuit holds settles."""
    for rounds in ROUNDS[:4]:
        before = extent(qc)
        for _ in range(rounds):
            f()
        after = extent(qc)
        obs.hit("extents", 2)
        if after[0] - before[0] < rounds // 2 and after[1] - before[1] < 4 * rounds:
            return
    expect(False, "%s %d times more makes it grow from %d objects (%d bytes) to %d (%d bytes)", what, rounds, *before, *after)


def steady(f, obs, what, counter):
    """Calls f until it has warmed up, then many times more: nothing may pile up.  What fills up
    once (a cache of the interpreter or of the code) stops growing in a later, longer attempt."""
    for _ in range(WARM):
        f()
    for rounds in ROUNDS:
        before = held()
        for _ in range(rounds):
            f()
            obs.hit(counter)
        after = held()
        bad = []
        for x, y, most, name in zip(before, after, (2048 + 32 * rounds, 1 << 16, rounds - 1, rounds // 2, rounds // 2), ("bytes of its own", "bytes", "objects", "open descriptors", "threads")):
            if y - x > most:
                bad.append("%d %s" % (y - x, name))
        if not bad:
            return
    expect(False, "%s %d times more leaves %s behind", what, rounds, " and ".join(bad))


def run_case(case, obs):
    gc.collect()
    tracemalloc.start()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("default")  # warnings that are seen once are remembered
            warnings.showwarning = lambda *a, **k: None
            {"sessions": sessions, "again": again}[case["what"]](case, obs)
    finally:
        tracemalloc.stop()


def sessions(case, obs):
    where = tempfile.mkdtemp(prefix="qmon-c28-")
    try:
        refs = play(case["items"], where, obs)
        gc.collect()
        for made in refs:
            for what, r in made:
                expect(r() is None, "a %s is kept although nobody refers to the circuit any more", what)
                obs.hit("released")
        del refs
        steady(lambda: play(case["items"], where, obs), obs, "building, running and dropping the circuits", "rounds")
    finally:
        shutil.rmtree(where, ignore_errors=True)


def again(case, obs):
    qc = drive.build(case["spec"], measure=case["measured"])
    n = len(case["spec"]["dims"])

    def repeat(f, what, counter):
        steady(f, obs, what, counter)
        grown(qc, f, obs, what)

    if case["measured"]:
        repeat(lambda: drive.run(qc), "running the circuit", "repeated_runs")
    else:
        repeat(lambda: failing_run(qc, obs), "running a circuit that is not measured", "repeated_fails")
    repeat(lambda: look(qc), "inspecting the circuit", "repeated_looks")
    if case["how"] == 1:
        repeat(lambda: bad_requests(qc, n, obs), "issuing invalid requests", "repeated_refusals")
    elif case["how"] == 2 and case["measured"]:

        def late():
            with sut("a request after the measurement"):
                qc.h(0), qc.x(n - 1), qc.measure_all()

        repeat(late, "issuing requests after the measurement", "repeated_late")
