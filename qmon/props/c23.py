"""C23: layers and operator flows compose as documented.

Monitor: Moment and OperatorFlow are driven directly.  Every operation is compared with a
plain-data picture of the layers, and every matrix with the reference model."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

from qudiet.core.moment import Moment
from qudiet.core.operator_flow import OperatorFlow

RULE = (
    "Random lists of layers (full of gates or mostly idle, with controlled and custom gates, on either backend) given to operator "
    "flows one by one and in random groupings; links, layer lists, matrices, execution, look-up and replacement are compared with "
    "the model; non-trivial: at least two layers."
)
REQUIRED = {"flows": 300, "links": 800, "layer_matrices": 400, "executions": 250, "lookups": 1500, "replaced": 100, "not_replaced": 150, "refused": 240, "multi_gate_layers": 100, "absorbed": 60, "reused_gates": 50, "passed_over": 40}
ASSUMPTIONS = ["The first layer of a flow has one entry per register, as the initial states a circuit starts with"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(230 * k):
        r = rng_for("C23", seed, i)
        dims = gen.layout(r, maxn=48, nmin=1, nmax=5, dmax=5)
        layers = []
        if i % 5 == 0:  # room for several gates of several registers
            dims = [2] * (r.randint(4, 6) if i % 15 else r.randint(7, 8)) if i % 2 else [r.choice([2, 2, 2, 3]) for _ in range(4)]
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            layers.append(r.choice(layers) if layers and r.random() < 0.2 else layer(r, dims))
        cuts = sorted(r.sample(range(len(layers) + 2), r.randint(0, min(3, len(layers) + 2))))
        out.append({"dims": dims, "init": [r.randrange(d) for d in dims], "layers": layers, "cuts": cuts, "backend": r.choice(["numpy", "sparse"]), "operator": r.random() < 0.3, "after": r.random() < 0.5, "reuse": r.random() < 0.4, "seed": r.randrange(2**30)})
    return out


def layer(r, dims):
    """A list of ops on disjoint spans; registers without one are idle."""
    n = len(dims)
    ops, q = [], 0
    full = n >= 4 and r.random() < 0.7
    if not full and r.random() < 0.55:  # a single gate, as a circuit issues them
        return [gen.op(r, dims, r.choice(["hxz", "hxz", "hxzctu"]))]
    while q < n:
        room = n - q
        w = min(room, r.choice([2, 2, 2, 3, 1] if full else [1, 1, 1, 2, 3]))
        if r.random() < (0.15 if full else 0.3):
            q += 1
            continue
        sub = dims[q:q + w]
        o = gen.op(r, sub, "hxzu" if w == 1 else "ctu")
        o = shift(o, q)
        ops.append(o)
        q = max(model.span_of(o)) + 1
    return ops


def shift(o, k):
    if o[0] == "cx":
        return ["cx", o[1] + k, o[2] + k] + o[3:]
    if o[0] == "tof":
        return ["tof", [c + k for c in o[1]], o[2] + k] + o[3:]
    if o[0] == "u" and not isinstance(o[1], int):
        return ["u", [q + k for q in o[1]]] + o[2:]
    return [o[0], o[1] + k] + o[2:]


def gate_of(op, dims, backend):
    k = op[0]
    if k == "h":
        return drive.HGate(qreg=op[1], dims=dims[op[1]], backend=backend)
    if k == "z":
        return drive.ZGate(qreg=op[1], dims=dims[op[1]], backend=backend)
    if k == "x":
        return drive.XGate(qreg=op[1], dims=dims[op[1]], plus=op[2], backend=backend)
    if k == "cx":
        sp = model.span_of(op)
        return drive.CXGate(qreg=[dims[q] for q in sp], acting_on=(op[1], op[2]), plus=op[3], backend=backend)
    if k == "tof":
        return drive.Toffoli(qreg=(list(op[1]), op[2]), dims=list(dims), plus=op[3], backend=backend)
    regs = model.regs_of(op)
    cls = drive.custom([dims[q] for q in regs], op[2])
    if isinstance(op[1], int):
        return cls(qreg=op[1], dims=dims[op[1]], backend=backend)
    return cls(qreg=list(regs), dims=[dims[q] for q in regs], backend=backend)


def moment_of(ops, dims, backend, name):
    gates = []
    starts = {min(model.span_of(o)): o for o in ops}
    q = 0
    while q < len(dims):
        if q in starts:
            gates.append(gate_of(starts[q], dims, backend))
            q = max(model.span_of(starts[q])) + 1
        else:
            gates.append(drive.IGate(qreg=q, dims=dims[q], backend=backend))
            q += 1
    return Moment(name, *gates), gates


def init_moment(case, backend):
    dims = case["dims"]
    if case["operator"]:
        return Moment("first", *[drive.IGate(qreg=q, dims=d, backend=backend) for q, d in enumerate(dims)])
    return Moment("first", *[drive.InitState(dim=d, state=s, qreg=q, backend=backend) for q, (d, s) in enumerate(zip(dims, case["init"]))])


def flow(case, backend, groups, obs):
    """Builds a flow giving the layers in the groups asked for; returns it and the answers."""
    dims = case["dims"]
    ms = [init_moment(case, backend)]
    made = {}
    for i, ops in enumerate(case["layers"]):
        if case["reuse"] and repr(ops) in made:  # the same gate objects in another layer
            ms.append(Moment("Moment%d" % i, *made[repr(ops)]))
            obs.hit("reused_gates")
        else:
            m, made[repr(ops)] = moment_of(ops, dims, backend, "Moment%d" % i)
            ms.append(m)
    ms.append(Moment("last", *[drive.Measurement(qreg=q) for q in range(len(dims))]))
    f = OperatorFlow()
    answers = []
    for a, b in groups:
        answers.append(f.populate_opflow(*ms[a:b]))
    obs.hit("flows")
    return f, answers


def picture(f):
    return [[(drive.describe(g), None if g.unitary is None else drive.dense(g.unitary).round(12).tolist()) for g in m.peek_list()] for m in f.peek()]


def linked(f, obs):
    ms = f.peek()
    expect(ms[0].prev_pointer is None, "the first layer has a predecessor")
    expect(ms[-1].next_pointer is None, "the last layer has a successor")
    for i in range(len(ms) - 1):
        expect(ms[i].next_pointer is ms[i + 1], "layer %d does not point to the next one", i)
        expect(ms[i + 1].prev_pointer is ms[i], "layer %d does not point back to layer %d", i + 1, i)
        obs.hit("links")


def run_case(case, obs):
    dims, backend = case["dims"], drive.BACKENDS[case["backend"]]
    n = len(dims)
    total = len(case["layers"]) + 2
    r = rng_for("C23 run", case["seed"])
    # the layers on their own
    for i, ops in enumerate(case["layers"]):
        single(ops, dims, backend, r, obs)
        if len(ops) > 1:
            obs.hit("multi_gate_layers")
    # one by one, all at once, and in groups
    with sut("populating flows"):
        one, answers = flow(case, backend, [(i, i + 1) for i in range(total)], obs)
        expect(answers == [True] * total, "populate_opflow answered %r", answers)
        want = picture(one)
        cuts = [0] + case["cuts"] + [total]
        other, answers = flow(case, backend, [(a, b) for a, b in zip(cuts, cuts[1:]) if b > a], obs)
        expect(all(a is True for a in answers), "populate_opflow answered %r", answers)
        whole, answers = flow(case, backend, [(0, total)], obs)
        expect(answers == [True], "populate_opflow answered %r", answers)
        for f, what in ((other, "in groups %r" % cuts), (whole, "in one call")):
            expect(picture(f) == want, "layers given %s are held differently from layers given one by one", what)
        for f in (one, other, whole):
            linked(f, obs)
    # every gate is there once, on its registers
    asked = sorted(repr(drive.requested(o)) for ops in case["layers"] for o in ops)
    for f in (one, other, whole):
        held = sorted(repr(drive.describe(g)) for m in f.peek() for g in m.peek_list() if not isinstance(g, (drive.IGate, drive.InitState, drive.Measurement)))
        expect(held == asked, "the flow holds %r instead of %r", held, asked)
    obs.hit("absorbed", total - len(one.peek()))
    # execution
    flat = [o for ops in case["layers"] for o in ops]
    if case["operator"]:
        ref = model.operator(dims, flat)
    else:
        ref = model.simulate(dims, case["init"], flat).reshape(-1, 1)
    for f in (one, other, whole):
        with sut("exec"):
            got = drive.dense(f.exec(backend))
        expect(got.shape == ref.shape, "execution gives a matrix of shape %r instead of %r", got.shape, ref.shape)
        expect(np.abs(got - ref).max() <= drive.ATOL, "execution is not the product of the layers, latest leftmost")
        obs.hit("executions")
    with sut("exec again"):
        again = drive.dense(one.exec(backend))
    expect(np.abs(again - ref).max() <= drive.ATOL and picture(one) == want, "executing a flow changes it")
    # nothing is added after the measurement layer
    if case["after"]:
        for late in ([["x", 0, 1]], [], None, layer(r, dims)):
            with sut("populate after measurement"):
                if late is None:
                    m = Moment("late", *[drive.Measurement(qreg=q) for q in range(n)])
                else:
                    m = moment_of(late, dims, backend, "late")[0]
                got = one.populate_opflow(m) if r.random() < 0.5 else one.populate_opflow(m, m)
            expect(got is False, "a layer after the measurement is answered with %r", got)
            expect(picture(one) == want, "a layer after the measurement was added")
            obs.hit("refused")
    unmeasured(case, backend, obs)


def unmeasured(case, backend, obs):
    f = OperatorFlow()
    with sut("populating a flow"):
        f.populate_opflow(init_moment(case, backend))
    try:
        f.exec(backend)
    except Exception:
        obs.hit("unmeasured_refused")
        return
    expect(False, "a flow without measurement was executed")


def single(ops, dims, backend, r, obs):
    """One layer: matrix, look-up, replacement."""
    with sut("building a layer"):
        m, gates = moment_of(ops, dims, backend, "m")
        expect(len(m.peek_list()) == len(gates) and all(a is b for a, b in zip(m.peek_list(), gates)), "a layer does not hold the gates it was given in order")
        got = drive.dense(m.exec(backend))
    ref = model.operator(dims, ops)
    expect(got.shape == ref.shape and np.abs(got - ref).max() <= drive.ATOL, "the matrix of layer %r on %r is not the tensor product of its gates", ops, dims)
    obs.hit("layer_matrices")
    owner = {}
    for i, g in enumerate(gates):
        for q in drive.describe(g)[1]:
            owner[q] = (g, i)
    for q, (g, i) in owner.items():
        with sut("get_qreg_moment(%d)" % q):
            a, b = m.get_qreg_moment(q), m.get_qreg_moment(q, index=True)
        expect(a is g, "looking up register %d in %r finds %r", q, ops, a)
        expect(tuple(b) == (g, i), "looking up register %d in %r finds %r", q, ops, b)
        obs.hit("lookups")
    for q in range(len(dims)):
        if q not in owner:  # passed over by a controlled gate
            with sut("get_qreg_moment(%d)" % q):
                a = m.get_qreg_moment(q)
            expect(a is None, "looking up register %d, on which no gate of %r acts, finds %r", q, ops, a)
            obs.hit("passed_over")
    for q in r.sample(sorted(owner), min(2, len(owner))):
        with sut("replace_igate"):
            before = list(m.peek_list())
            new = gate_of([r.choice("hz"), q], dims, backend)
            done = m.replace_igate(new)
            after = list(m.peek_list())
        g, i = owner[q]
        if isinstance(g, drive.IGate):
            expect(done is True, "an identity on register %d of %r was not replaced", q, ops)
            expect(len(after) == len(before) and all((b is new) if j == i else (a is b) for j, (a, b) in enumerate(zip(before, after))), "replacing the identity on register %d of %r changed other positions", q, ops)
            owner[q] = (new, i)
            obs.hit("replaced")
        else:
            expect(done is False, "replacing the gate on register %d of %r is answered with %r", q, ops, done)
            expect(len(after) == len(before) and all(a is b for a, b in zip(before, after)), "a gate of %r was displaced", ops)
            obs.hit("not_replaced")
