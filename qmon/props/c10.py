"""C10: measurement closes a circuit (history monitor against a two-state model)."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Random histories of valid gate requests, measure_all, run, run attempts without measurement and runs that fail at a custom gate that is not unitary; a model with the states open and closed "
    "predicts every return value, whether run() raises (and that measure(q), which is not offered, raises NotImplementedError and leaves the circuit as it was), the layers and every report; non-trivial: the history has a gate "
    "request before or after the measurement."
)
REQUIRED = {"refused_runs": 100, "late_requests": 300, "late_measurements": 60, "runs": 200, "accepted": 300, "failed_runs": 60, "wide": 10, "single_measurements": 100}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(330 * k):
        r = rng_for("C10", seed, i)
        s = gen.circuit(r, maxn=48, nmin=1, nmax=5, depth=r.choice([0, 1, 2, 3, 5, 8]), kinds=r.choice(["hxzctu", "hxz", "ctu", "x", "h"]))
        dims = s["dims"]
        hist = []
        for o in s["ops"]:
            if r.random() < 0.3:
                hist.append(["run"])
            hist.append(["op", o])
        if r.random() < 0.7:
            hist.append(["run"])
        if i % 12 != 0:
            hist.append(["measure"])
            for _ in range(r.choice([1, 2, 4, 6, 10])):
                x = r.random()
                if x < 0.5:
                    hist.append(["op", gen.op(r, dims, "hxzctu")])
                elif x < 0.65:
                    hist.append(["measure"])
                else:
                    hist.append(["run"])
            hist.append(["run"])
        if i % 2 == 0:  # measurements of single registers
            for _ in range(r.randint(1, 3)):
                hist.insert(r.randint(0, len(hist)), ["one", r.choice([0, len(dims) - 1, r.randrange(len(dims))])])
        c = {"dims": dims, "init": s["init"], "backend": s["backend"], "tuple": s["tuple"], "hist": hist}
        if i % 5 == 2:  # a gate on which every run fails
            c["bad"] = [r.randrange(len(dims)), r.randrange(2**30)]
            c["hist"].insert(r.randint(0, next((j for j, h in enumerate(hist) if h[0] == "measure"), len(hist))), ["bad"])
        out.append(c)
    for i in range(12 * k):  # a long unmeasured circuit
        r = rng_for("C10", seed, "long", i)
        s = gen.circuit(r, maxn=16, nmin=1, nmax=3, depth=r.choice([30, 60, 120, 200]), kinds=r.choice(["hxzc", "ct", "cu"]))
        hist = [["op", o] for o in s["ops"]]
        for _ in range(6):
            hist.insert(r.randint(0, len(hist)), ["run"])
        hist += [["run"], ["measure"], ["op", gen.op(r, s["dims"])], ["run"]]
        out.append({"dims": s["dims"], "init": s["init"], "backend": s["backend"], "tuple": s["tuple"], "hist": hist})
    for i in range(5 * k):  # very many requests after the measurement
        r = rng_for("C10", seed, "late", i)
        s = gen.circuit(r, maxn=24, nmin=1, nmax=3, depth=r.choice([0, 1, 4]))
        late = [["op", gen.op(r, s["dims"], "hxzctu")] if r.random() < 0.9 else ["measure"] for _ in range(r.choice([40, 140, 300]))]
        hist = [["op", o] for o in s["ops"]] + [["measure"]] + late + [["run"], ["run"]]
        out.append({"dims": s["dims"], "init": s["init"], "backend": s["backend"], "tuple": s["tuple"], "hist": hist})
    for i in range(15 * k):  # many registers
        r = rng_for("C10", seed, "wide", i)
        s = gen.wide(r, 7, 11, 1 << 11, depth=r.choice([0, 1, 3]), kinds="hxzctu", span=64)
        hist = [["op", o] for o in s["ops"]]
        if r.random() < 0.3:
            hist.append(["run"])
        hist += [["measure"], ["op", near(r, s["dims"], "t")], ["run"]]
        hist += [["op", near(r, s["dims"], kind)] for kind in r.sample("hxzctu", r.randint(2, 6))] + [["run"]]
        out.append({"dims": s["dims"], "init": s["init"], "backend": s["backend"], "tuple": s["tuple"], "hist": hist, "wide": True})
    return out


def near(r, dims, kind):
    """A request of that kind whose gate has few registers to span."""
    while True:
        o = gen.op(r, dims, kind)
        if model.size([dims[q] for q in model.span_of(o)]) <= 64:
            return o


def nontrivial(case):
    return any(h[0] == "op" for h in case["hist"])


def run_case(case, obs):
    dims = case["dims"]
    with sut("building the circuit"):
        qc = drive.construct(case)
    obs.hit("wide", case.get("wide", False))
    done = []
    closed = False
    layers = None
    want = None
    broken = False
    for h in case["hist"]:
        if h[0] == "bad":
            q, sd = case["bad"]
            d = dims[q]
            with sut("gate(%d)" % q):
                res = qc.gate(drive.gate_class(np.eye(d) * 0.5 + np.diag([0.5] * (d - 1) + [0.1])), q)
            expect(res is True and not closed, "a custom gate before the measurement returned %r", res)
            done.append(["u", q, {"kind": "ident"}])
            broken = True
        elif h[0] == "op":
            with sut("request %r" % h[1]):
                res = drive.issue(qc, h[1], dims)
            if closed:
                expect(res is False, "request %r after the measurement returned %r", h[1], res)
                obs.hit("late_requests")
            else:
                expect(res is True, "request %r before the measurement returned %r", h[1], res)
                obs.hit("accepted")
                done.append(h[1])
        elif h[0] == "one":
            with sut("reading the layers"):
                before = drive.shape_of(qc)
            try:
                res = qc.measure(h[1])
            except NotImplementedError:
                obs.hit("single_measurements")
            except Exception as e:
                expect(False, "measure(%d) raised %r", h[1], e)
            else:
                expect(False, "measure(%d) returned %r", h[1], res)
            with sut("reading the layers"):
                expect(drive.shape_of(qc) == before, "measure(%d) changed the layers", h[1])
        elif h[0] == "measure":
            with sut("measure_all"):
                res = qc.measure_all()
            if closed:
                obs.hit("late_measurements")
            else:
                closed = True
                want = model.simulate(dims, drive.init_of(case), done)
                layers = drive.snapshot(qc) if not broken else [[(k, q, None) for k, q in layer] for layer in drive.shape_of(qc)]
                expect(len(layers) == len(model.pack(len(dims), done)) + 2, "the measured circuit has %d layers", len(layers))
        else:
            if closed and broken:
                try:
                    rep = qc.run()
                except Exception:
                    obs.hit("failed_runs")
                else:
                    expect(False, "run() of a circuit with a gate that is not unitary reported %d entries", len(rep))
            elif closed:
                got = drive.report_state(drive.run(qc), dims)
                drive.same_state(got, want, "report of the closed circuit")
                obs.hit("runs")
            else:
                before = drive.shape_of(qc)
                try:
                    rep = qc.run()
                except Exception:
                    obs.hit("refused_runs")
                else:
                    expect(False, "run() of a circuit without measurement reported %d entries", len(rep))
                expect(drive.shape_of(qc) == before, "a refused run() changed the layers")
        if closed and layers is not None:
            with sut("reading the layers"):
                expect(drive.shape_of(qc) == [[(k, q) for k, q, _ in layer] for layer in layers], "%s after the measurement changed the layers", h)
    if closed and not broken:
        with sut("reading the layers"):
            expect(drive.snapshot(qc) == layers, "the gates of the closed circuit changed")
