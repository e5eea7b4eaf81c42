"""C11: running and inspecting a circuit never changes it.

Monitor: a history that mixes gate requests with runs and inspections is compared, call by
call, with a circuit that only got the gate requests and is asked for the first time."""
import copy
import io
from contextlib import redirect_stdout

import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

import matplotlib.pyplot as plt

RULE = (
    "Random histories interleaving gate requests, measurement, runs and every inspection call (str, draw, draw(mpl), configuration, "
    "summary, layer list, layer and gate matrices); every answer is compared with the answers given before at the same stage and with that of a "
    "circuit with the same requests that was never run or inspected, failed runs included, and reports kept from earlier runs are compared with their copies; non-trivial: at least one run and one inspection."
)
REQUIRED = {"runs": 300, "inspections": 600, "mpl": 15, "inspections_before_measurement": 150, "failed_runs": 60, "twin_comparisons": 1500}
INSPECT = ["str", "draw", "config", "info", "peek", "print_opflow", "matrices"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(230 * k):
        r = rng_for("C11", seed, i)
        if i % 8 == 0:  # matplotlib drawings of layers with wide gates beside others
            s = gen.circuit(r, maxn=64, nmin=4, nmax=6, dmax=3, kinds="hxzctttcu", depth=r.choice([3, 5, 8]))
        else:
            s = gen.circuit(r, maxn=40, nmin=1, nmax=5, dmax=5, depth=r.choice([1, 2, 3, 5, 8]))
        hist = []
        for o in s["ops"]:
            while r.random() < 0.4:
                hist.append(r.choice(INSPECT))
            hist.append(["op", o])
        while r.random() < 0.5:
            hist.append(r.choice(INSPECT))
        hist.append("measure")
        for _ in range(r.randint(3, 8)):
            hist.append(r.choice(["run", "run"] + INSPECT))
        if i % 4 == 0:
            hist.insert(r.randrange(len(hist) + 1), "mpl")
            hist.insert(r.randrange(len(hist) + 1), "mpl")
        if i % 5 == 2:  # many times
            what = r.choice(["run", "run"] + INSPECT)
            hist += [what] * r.choice([12, 40, 130])
            if r.random() < 0.3:
                hist[1:1] = [r.choice(INSPECT)] * r.choice([12, 40])
        hist += ["run", r.choice(INSPECT), "run"]
        if i % 7 == 3:  # a gate on which every run fails
            hist.insert(r.randint(0, hist.index("measure")), ["bad", r.randrange(len(s["dims"]))])
            for _ in range(3):
                hist.insert(r.randint(hist.index("measure"), len(hist)), ["op", gen.op(r, s["dims"])])
        for _ in range(r.choice([0, 0, 1, 2])):  # runs without measurement
            hist.insert(r.randint(0, hist.index("measure")), "run")
        out.append({"spec": dict(s, ops=[]), "ops": s["ops"], "hist": hist, "form": r.choice([["print", "amplitude"], ["state", "probability"], ["state", "amplitude"], ["print", "probability"]])})
    return out


NO_SHRINK = True


def nontrivial(case):
    return True


def fresh(case):
    with sut("building the circuit"):
        return drive.construct(case["spec"], output=drive.output_for(case["spec"]["dims"], *case["form"]))


def inspect(qc, what):
    """One inspection; returns something comparable."""
    with sut(what):
        if what == "str":
            return str(qc)
        if what in ("draw", "print_opflow"):
            f = io.StringIO()
            with redirect_stdout(f):
                qc.draw() if what == "draw" else qc.print_opflow_list()
            return f.getvalue() if what == "draw" else None
        if what == "config":
            return copy.deepcopy(qc.get_circuit_config())
        if what == "info":
            return copy.deepcopy(qc.get_circuit_info())
        if what == "peek":
            return drive.shape_of(qc)
        if what == "matrices":
            return drive.snapshot(qc)
        if what == "mpl":
            old = plt.show
            plt.show = lambda *a, **k: None
            try:
                qc.draw(style="mpl")
            finally:
                plt.show = old
                plt.close("all")
            return None
    raise ValueError(what)


def run_case(case, obs):
    dims = case["spec"]["dims"]
    qc = fresh(case)
    done = []
    asked = {}
    report = None
    kept = []
    bad = any(isinstance(h, list) and h[0] == "bad" for h in case["hist"])

    def request(c, h):
        if h == "measure":
            return c.measure_all()
        if h[0] == "bad":
            d = dims[h[1]]
            return c.gate(drive.gate_class(np.diag([1.0] * (d - 1) + [0.5])), h[1])
        return drive.issue(c, h[1], dims)

    def twin():
        """A circuit with the same requests that was never run or inspected."""
        c = fresh(case)
        with sut("building the twin"):
            answers = [request(c, h) for h, _ in done]
        expect(all(a is b for a, (_, b) in zip(answers, done)), "the requests %r were answered %r, and %r on the circuit that was not inspected", [h for h, _ in done], [b for _, b in done], answers)
        return c

    for h in case["hist"]:
        if isinstance(h, list) or h == "measure":
            with sut("request %r" % (h,)):
                done.append((h, request(qc, h)))
            asked = {}
        elif h == "run" and (bad or ["measure"] not in [[x] for x, _ in done]):
            try:
                got = qc.run()
            except Exception:
                obs.hit("failed_runs")
            else:
                expect(False, "run() of a circuit that is %s reported %d entries", "not acceptable" if bad else "not measured", len(got))
        elif h == "run":
            got = drive.run(qc)
            obs.hit("runs")
            if report is None:
                report = copy.deepcopy(got)
                want = drive.run(twin())
                same_report(got, want, "report of the inspected circuit and of its twin")
                dense = drive.report_state(got, dims)
                ref = model.simulate(dims, drive.init_of(case["spec"]), case["ops"])
                if case["form"][1] == "probability":
                    ref = np.abs(ref) ** 2
                drive.same_state(dense, ref.astype(complex), "report")
            else:
                same_report(got, report, "second report of the same circuit", exact=True)
            kept.append((got, copy.deepcopy(got)))
        else:
            if h == "matrices" and bad:
                h = "peek"
            got = inspect(qc, h)
            obs.hit("mpl" if h == "mpl" else "inspections")
            if not any(x == "measure" for x, _ in done):
                obs.hit("inspections_before_measurement")
            if h in asked:
                expect(got == asked[h], "%s gave %r and then %r", h, asked[h] if h != "matrices" else "..", got if h != "matrices" else "..")
                obs.hit("repeated")
            else:
                want = inspect(twin(), h)
                expect(got == want, "%s after %r gives\n%s\nand\n%s\non a circuit that was not run or inspected before", h, [x for x, _ in done], got if h != "matrices" else "..", want if h != "matrices" else "..")
                obs.hit("twin_comparisons")
            asked[h] = got
    with sut("building the twin"):
        last = twin()
    for h in INSPECT:
        if h == "matrices" and bad:
            continue
        expect(inspect(qc, h) == inspect(last, h), "%s differs between the inspected circuit and its twin", h)
        obs.hit("twin_comparisons")
    for now, then in kept:
        expect(now == then, "a report that was returned earlier changed")


def same_report(a, b, what, exact=False):
    expect(len(a) == len(b), "%s: %d and %d entries", what, len(a), len(b))
    for x, y in zip(a, b):
        (kx, vx), = x.items()
        (ky, vy), = y.items()
        expect(kx == ky, "%s: labels %r and %r", what, kx, ky)
        expect(abs(vx - vy) <= 1e-12, "%s: %r has values %r and %r", what, kx, vx, vy)
