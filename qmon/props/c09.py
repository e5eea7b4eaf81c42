"""C09: every accepted gate is scheduled exactly once, in request order per register.

Monitor: after every request the layers are read back and compared with the documented
packing of the request history; at the end every gate's matrix is compared as well."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Random request histories (0-1100 requests on 1-130 registers, gate mixes that maximise packing conflicts, repeated gates on few registers, "
    "spans passing over other registers); the layers are checked after every request; non-trivial: at "
    "least three requests."
)
REQUIRED = {"requests": 1000, "joined": 200, "opened": 200, "gates_matched": 1000, "very_wide": 15, "very_long": 3}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    mixes = ["hxz", "hxzc", "hxzct", "hxzu", "hxzctu", "xxxc", "hz", "hxzhxzhxzt", "cctu"]
    for i in range(420 * k):
        r = rng_for("C09", seed, i)
        n = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        s = gen.circuit(r, maxn=100, nmin=1, nmax=n, dmax=5, kinds=mixes[i % len(mixes)], depth=r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20]))
        out.append({"spec": s})
    for i in range(20 * k):
        r = rng_for("C09", seed, "long", i)
        s = gen.circuit(r, maxn=40, nmin=2, nmax=4, dmax=3, kinds=r.choice(mixes), depth=r.choice([40, 90]))
        out.append({"spec": s})
    for i in range(150 * k):  # many registers: nothing is computed, only scheduled
        r = rng_for("C09", seed, "wide", i)
        n = r.randint(5, 12)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(n)]
        ops = []
        while len(ops) < r.choice([3, 6, 12, 20]):
            o = gen.op(r, dims, ["hxzcct", "xcuu", "hzcttu", "ccxz"][i % 4], wide=False)
            if o[0] != "cx" and model.size([dims[q] for q in model.span_of(o)]) > 96:
                continue
            ops.append(o)
        out.append({"spec": {"dims": dims, "init": gen.init_states(r, dims), "backend": "sparse", "ops": ops}, "wide": True})
    for i in range(25 * k):  # very many registers, gates close together
        r = rng_for("C09", seed, "very wide", i)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(r.choice([r.randint(18, 34), r.randint(30, 48), r.choice([63, 64, 65, 66, 130])]))]
        ops = []
        while len(ops) < r.choice([4, 12, 25]):
            a = r.randrange(len(dims) - 3)
            o = gen.op(r, dims[a : a + 3], ["hxzc", "hxzu", "hxzctu"][i % 3], wide=False)
            ops.append(shifted(o, a))
        out.append({"spec": {"dims": dims, "init": gen.init_states(r, dims), "backend": "sparse", "ops": ops}, "wide": True})
    for i in range(4 * k):  # very many requests
        r = rng_for("C09", seed, "very long", i)
        s = gen.circuit(r, maxn=16, nmin=1, nmax=3, dmax=3, kinds=r.choice(["hxz", "hxzct", "hxzu"]), depth=r.choice([300, 550, 1100]))
        out.append({"spec": s})
    return out


def shifted(o, a):
    """The same request on registers that many places further down."""
    o = list(o)
    o[1] = [q + a for q in o[1]] if isinstance(o[1], list) else o[1] + a
    if o[0] in ("cx", "tof"):
        o[2] += a
    return o


def nontrivial(case):
    return len(case["spec"]["ops"]) >= 3


def check_layers(shape, expected, dims, ops, obs):
    n = len(dims)
    expect(len(shape) == len(expected) + 1, "%d layers instead of %d after %r", len(shape) - 1, len(expected), ops)
    expect([x for x in shape[0]] == [("init", (q,)) for q in range(n)], "the first layer is not the initial state: %r", shape[0])
    for j, (layer, want) in enumerate(zip(shape[1:], expected)):
        covered = []
        found = []
        for kind, regs in layer:
            covered += list(range(min(regs), max(regs) + 1))
            if kind != "i":
                found.append((kind, regs))
        expect(covered == list(range(n)), "layer %d covers registers %r", j, covered)
        wanted = sorted(drive.requested(ops[i]) for i in want)
        expect(sorted(found) == wanted, "layer %d holds %r instead of %r", j, sorted(found), wanted)


def run_case(case, obs):
    spec = case["spec"]
    dims, ops = spec["dims"], spec["ops"]
    n = len(dims)
    with sut("building the circuit"):
        qc = drive.construct(spec)
    check_layers(drive.shape_of(qc), [], dims, [], obs)
    depth = 0
    obs.hit("very_wide", n >= 18)
    obs.hit("very_long", len(ops) >= 300)
    stride = 1 if len(ops) <= 20 else 7 if len(ops) <= 100 else len(ops) // 9
    for i, op in enumerate(ops):
        with sut("request %d %r" % (i, op)):
            res = drive.issue(qc, op, dims)
        expect(res is True, "request %r returned %r", op, res)
        obs.hit("requests")
        if i % stride == 0 or i == len(ops) - 1:
            with sut("reading the layers"):
                shape = drive.shape_of(qc)
            expected = model.pack(n, ops[: i + 1])
            check_layers(shape, expected, dims, ops[: i + 1], obs)
            obs.hit("opened" if len(expected) > depth else "joined")
            depth = len(expected)
            obs.hit("layer_checks")
    with sut("measure_all"):
        qc.measure_all()
    shape = drive.shape_of(qc)
    expect(shape[-1] == [("m", (q,)) for q in range(n)], "the last layer is not the measurement of every register: %r", shape[-1])
    expected = model.pack(n, ops)
    check_layers(shape[:-1], expected, dims, ops, obs)
    with sut("reading the layers"):
        layers = [m.peek_list() for m in qc.op_flow.peek()][1:-1]
        for gates, want in zip(layers, expected):
            by = {drive.requested(ops[i]): ops[i] for i in want}
            for g in gates:
                d = drive.describe(g)
                if d[0] != "i" and model.size([dims[q] for q in model.span_of(by[d])]) > 128:
                    obs.hit("gates_too_large_to_compare")
                    continue
                if d[0] == "i":
                    q = d[1][0]
                    u = np.eye(dims[q])
                else:
                    u = drive.op_matrix(by[d], dims)
                got = drive.dense(g.unitary)
                expect(got.shape == u.shape and np.allclose(got, u, atol=1e-9), "the gate %r in the layers is not the one requested", d)
                obs.hit("gates_matched")
