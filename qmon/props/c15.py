"""C15: width, depth and gate counts describe the circuit."""
import warnings
from collections import Counter

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Random circuits with registers given as list or tuple; after construction, after every request and after measurement the configuration and "
    "summary are compared with a census of the request history; non-trivial: at least two requests."
)
REQUIRED = {"censuses": 1000, "measured": 150, "unmeasured": 500, "tuples": 30, "warnings": 500, "deep": 3}
NAMES = {"h": "h", "x": "x", "z": "z", "cx": "cx", "tof": "toffoli", "u": "arbitary"}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(330 * k):
        r = rng_for("C15", seed, i)
        s = gen.circuit(r, maxn=80, nmin=1, nmax=6, dmax=6, depth=r.choice([0, 1, 2, 3, 5, 8, 12, 25]), kinds=r.choice(["hxzctu", "hxz", "ctu", "hxzc", "u", "t", "xxxc"]))
        out.append({"spec": s})
    for i in range(10 * k):  # many registers (never run)
        r = rng_for("C15", seed, "wide", i)
        n = r.randint(10, 30)
        d = r.randint(2, 5)
        ops = []
        for _ in range(r.randint(0, 20)):
            q = r.randrange(n - 1)
            ops.append(r.choice([["h", q], ["x", q, 1], ["z", q + 1], ["cx", q, q + 1, 1], ["tof", [q + 1], q, 1], ["u", q, {"kind": "ident"}]]))
        out.append({"spec": {"dims": [d] * n, "init": None, "tuple": r.random() < 0.5, "backend": "sparse", "ops": ops}})
    for i in range(4 * k):  # many layers
        r = rng_for("C15", seed, "deep", i)
        out.append({"spec": gen.circuit(r, maxn=12, nmin=1, nmax=3, dmax=3, depth=r.choice([260, 520, 1050, 2100]), kinds=r.choice(["hxz", "hxzct", "c", "hu"]))})
    return out


def nontrivial(case):
    return len(case["spec"]["ops"]) >= 2


def census(qc, dims, ops, measured, obs):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        with sut("get_circuit_config"):
            config = qc.get_circuit_config()
    expect(bool(caught) == (not measured), "the configuration of the %s circuit comes with %d warnings", "measured" if measured else "unmeasured", len(caught))
    obs.hit("warnings", len(caught))
    with sut("get_circuit_info"):
        info = qc.get_circuit_info()
    depth = len(model.pack(len(dims), ops))
    state = "measured" if measured else "unmeasured"
    expect(config["width"] == len(dims), "width of the %s circuit is %r instead of %d", state, config["width"], len(dims))
    expect(config["depth"] == depth, "depth of the %s circuit is %r instead of %d", state, config["depth"], depth)
    expect(info["depth"] == depth, "the summary gives depth %r instead of %d for the %s circuit", info["depth"], depth, state)
    expect(info["qudit"] == len(dims), "the summary gives %r registers instead of %d", info["qudit"], len(dims))
    want = dict(Counter(NAMES[o[0]] for o in ops))
    expect(dict(info["details"]) == want, "the summary counts %r instead of %r", info["details"], want)
    expect(info["gate_count"] == len(ops), "the summary counts %r gates instead of %d", info["gate_count"], len(ops))
    obs.hit("censuses")
    obs.hit(state)


def run_case(case, obs):
    spec = case["spec"]
    dims = spec["dims"]
    with sut("building the circuit"):
        qc = drive.construct(spec)
    if spec["tuple"]:
        obs.hit("tuples")
    census(qc, dims, [], False, obs)
    for i, o in enumerate(spec["ops"]):
        with sut("request %r" % o):
            drive.issue(qc, o, dims)
        if len(spec["ops"]) <= 12 or i % (5 if len(spec["ops"]) < 100 else len(spec["ops"]) // 3) == 4:
            census(qc, dims, spec["ops"][: i + 1], False, obs)
    obs.hit("deep", len(spec["ops"]) >= 250)
    with sut("measure_all"):
        qc.measure_all()
    census(qc, dims, spec["ops"], True, obs)
    if model.size(dims) <= 80:
        drive.run(qc)
        census(qc, dims, spec["ops"], True, obs)
    with sut("measure_all"):
        qc.measure_all()
        drive.issue(qc, ["x", 0, 1], dims)
    census(qc, dims, spec["ops"], True, obs)
