"""C35: gates, initial levels and circuits tell what they are.

Monitor: every attribute of every gate of random circuits, and of gates made with their
constructors, is compared with the request; the matrices with the reference model."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut
from .c09 import shifted

from qudiet.circuit_library.standard_gates.cx import CXGate
from qudiet.circuit_library.standard_gates.h import HGate
from qudiet.circuit_library.standard_gates.i import IGate
from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
from qudiet.circuit_library.standard_gates.x import XGate
from qudiet.circuit_library.standard_gates.z import ZGate
from qudiet.core.backend import DefaultBackend
from qudiet.core.init_states import InitState

RULE = (
    "Random circuits of all kinds of gates: registers, dimensions, increment, kind and matrix of every gate in every layer, the initial levels and "
    "the attributes of the circuit, before and after measurement and running; gates and initial levels made with their constructors on both "
    "backends, circuits of up to 130 registers; far from the first register, beside gates of other sizes; initial levels out of range; non-trivial: every case."
)
REQUIRED = {"gates": 2000, "made": 1000, "controlled": 300, "not_controlled": 800, "several": 300, "initial_levels": 500, "refused_levels": 60, "circuits": 150, "matrices": 1000, "hundred": 5}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(170 * k):
        r = rng_for("C35", seed, i)
        s = gen.circuit(r, maxn=90, nmin=1, nmax=6, dmax=8, depth=r.choice([0, 1, 3, 6, 10]), kinds=r.choice(["hxzctu", "hxzctu", "ctu", "hxz", "tu"]))
        s["name"] = r.choice(["", "a circuit", "q", None])
        out.append({"what": "circuit", "spec": s})
    for i in range(8 * k):  # a hundred registers: only described
        r = rng_for("C35", seed, "hundred", i)
        dims = [r.choice([2, 2, 3, 4, 7]) for _ in range(r.choice([33, 63, 64, 65, 70, 100, 101, 128, 130]))]
        if i % 3 == 0:
            dims = dims[:1] * len(dims)
        ops = []
        while len(ops) < r.choice([3, 20, 60]):
            a = r.choice([0, len(dims) - 6, r.randrange(len(dims) - 6)])
            near = gen.op(r, dims[a:a + r.randint(1, 4)], "hxzctu", wide=False)
            ops.append(shifted(near, a))
        out.append({"what": "circuit", "norun": True, "spec": {"dims": dims, "init": gen.init_states(r, dims), "backend": r.choice(["sparse", "numpy", None]), "tuple": len(set(dims)) == 1, "name": None, "ops": ops}})
    for i in range(12 * k):  # gates over many registers of several sizes
        r = rng_for("C35", seed, "wide", i)
        dims = [2] * r.randint(6, 8)
        for j in r.sample(range(len(dims)), 2):
            dims[j] = r.choice([2, 3, 3])
        qs = list(range(len(dims)))
        ops = []
        for _ in range(3):
            r.shuffle(qs)
            m = r.choice([2, 3, len(qs) - 1])
            ops.append(["tof", qs[:m], qs[m], r.choice([1, 1, 2])])
        first = gen.op(r, dims[:6], "u", wide=True)
        out.append({"what": "made", "dims": dims, "ops": ops + [first], "backend": r.choice(["numpy", "sparse"]), "shift": r.choice([0, 1, 20]), "levels": [[2, 1]], "bad": [[2, 2]]})
    for i in range(150 * k):
        r = rng_for("C35", seed, "made", i)
        if i % 6 == 5:
            dims = [r.randint(8, 40), r.choice([2, 3])][:: r.choice([1, -1])]
        else:
            dims = gen.layout(r, maxn=90, nmin=2, nmax=6, dmax=7)
        ops = [gen.op(r, dims, "hxzcctu", wide=True) for _ in range(8)]
        out.append({"what": "made", "dims": dims, "ops": ops, "backend": r.choice(["numpy", "sparse"]), "shift": r.choice([0, 0, 1, 3, 20]), "levels": [[d, r.randrange(d)] for d in [2, 3, r.randint(4, 9), r.randint(10, 90)]],
                    "bad": [r.choice([[1, 0], [0, 0], [-2, 0], [2, 2], [3, -1], [r.randint(2, 9), r.randint(9, 20)], [2, -r.randint(1, 5)]])]})
    return out


def plain(on):
    """Registers as plain data, tuples and lists alike."""
    return [plain(x) for x in on] if isinstance(on, (list, tuple)) else int(on)


def check_gate(g, o, dims, backend, obs, q=None, compare=True, base=0):
    """The gate g was asked for as o (None: the identity of register q)."""
    span = [q] if o is None else list(model.span_of(o))
    kind = "i" if o is None else o[0]
    what = "the gate for %r" % (o,) if o is not None else "the identity of register %d" % q
    with sut("reading the attributes of " + what):
        on, dim, controlled, single = g.acting_on, g.dims, g.is_controlled, g.is_single_qudit
        again = g.acting_on
    want = {"i": q, "h": None, "x": None, "z": None, "cx": None, "tof": None, "u": None}[kind]
    if o is not None:
        want = [o[1], o[2]] if kind in ("cx", "tof") else o[1]
    want = up(want, base)
    expect(plain(on) == want and plain(again) == want, "%s acts on %r", what, on)
    size = model.size([dims[x] for x in span])
    expect(int(np.prod(dim)) == size, "%s, of size %d, has the dimensions %r", what, size, dim)
    if kind in "ihxz":
        expect(int(dim) == size and plain(g.qreg) == want, "%s is on register %r with dimension %r", what, g.qreg, dim)
    if kind in ("u", "tof"):
        expect(plain(g.qreg) == want, "%s is on registers %r", what, g.qreg)
        full = [dims[x] for x in (model.regs_of(o) if kind == "u" else span)]
        expect(plain(dim) == (full if isinstance(o[1], list) or kind == "tof" else full[0]), "%s has the dimensions %r", what, dim)
    if kind == "x":
        expect(int(g.plus) == o[2], "%s adds %r", what, g.plus)
    expect(bool(controlled) == (kind in ("cx", "tof")), "%s says is_controlled = %r", what, controlled)
    obs.hit("controlled" if controlled else "not_controlled")
    expect(bool(single) == (kind in "ihxz" or kind == "u" and len(model.regs_of(o)) == 1), "%s says is_single_qudit = %r", what, single)
    obs.hit("several", not single)
    if compare and size <= 100:
        with sut("reading the matrix of " + what):
            a, b = g.unitary, g.unitary
        a, b = drive.dense(a), drive.dense(b)
        u = np.eye(size) if o is None else drive.op_matrix(o, dims)
        expect(a.shape == u.shape and np.allclose(a, u, atol=1e-9), "the matrix of %s is\n%s\ninstead of\n%s", what, a, u)
        expect(np.allclose(a, b, rtol=1e-12, atol=1e-14), "the matrix of %s differs from one reading to the next", what)
        obs.hit("matrices")
    obs.hit("gates")


def up(on, base):
    return [up(x, base) for x in on] if isinstance(on, list) else on + base


def check_init(s, dim, level, q, obs):
    with sut("reading an initial level"):
        got = drive.dense(s.unitary)
        also = drive.dense(s.get_init_states())
        dim_, level_, q_ = s.dim, s.state, s.qreg
    expect((int(dim_), int(level_), int(q_)) == (dim, level, q), "the initial level %d of register %d of dimension %d says %r", level, q, dim, (level_, q_, dim_))
    want = np.zeros((dim, 1))
    want[level] = 1
    for m in (got, also):
        expect(m.shape == want.shape and (m == want).all(), "the initial level %d of dimension %d is the column %r", level, dim, m.tolist())
    obs.hit("initial_levels")


def run_case(case, obs):
    {"circuit": circuit, "made": made}[case["what"]](case, obs)


def check_circuit(qc, spec, obs, full):
    dims = spec["dims"]
    n = len(dims)
    backend = drive.BACKENDS[spec["backend"]] or DefaultBackend
    with sut("reading the attributes of the circuit"):
        attrs = (list(qc.qregs), list(qc.init_states), qc.name, qc.backend)
    want = (dims, drive.init_of(spec), spec["name"] or "", backend)
    expect(attrs == want, "the circuit says %r instead of %r", attrs, want)
    with sut("reading the layers"):
        layers = [m.peek_list() for m in qc.op_flow.peek()]
    for q, s in enumerate(layers[0]):
        check_init(s, dims[q], drive.init_of(spec)[q], q, obs)
    for gates, idx in zip(layers[1:], model.pack(n, spec["ops"])):
        by = {drive.requested(spec["ops"][i]): spec["ops"][i] for i in idx}
        for g in gates:
            d = drive.describe(g)
            if d[0] == "i":
                check_gate(g, None, dims, backend, obs, d[1][0], compare=full)
            else:
                expect(d in by, "there is a gate %r in the layers, but none was asked for", d)
                check_gate(g, by[d], dims, backend, obs, compare=full)
    obs.hit("circuits")


def circuit(case, obs):
    spec = case["spec"]
    qc = drive.build(spec, measure=False)
    check_circuit(qc, spec, obs, False)
    with sut("measure_all"):
        qc.measure_all()
    with sut("reading the measurement"):
        last = qc.op_flow.peek()[-1].peek_list()
        for q, m in enumerate(last):
            expect(int(m.acting_on) == q and not m.is_controlled and m.is_single_qudit, "the measurement of register %d says %r", q, (m.acting_on, m.is_controlled, m.is_single_qudit))
    if case.get("norun"):
        obs.hit("hundred")
    else:
        drive.run(qc)
    check_circuit(qc, spec, obs, True)


def made(case, obs):
    dims, base = case["dims"], case["shift"]
    backend = drive.BACKENDS[case["backend"]]
    # the gates stand further down in a longer list of registers
    everything = [3 + x % 2 for x in range(base)] + dims
    gates = []
    for o in case["ops"]:
        k = o[0]
        span = model.span_of(o)
        if model.size([dims[x] for x in span]) > 200:
            continue
        with sut("making the gate for %r" % (o,)):
            if k in "hz":
                g = {"h": HGate, "z": ZGate}[k](qreg=o[1] + base, dims=dims[o[1]], backend=backend)
            elif k == "x":
                g = XGate(qreg=o[1] + base, dims=dims[o[1]], plus=o[2], backend=backend)
            elif k == "cx":
                g = CXGate(qreg=[dims[x] for x in span], acting_on=(o[1] + base, o[2] + base), plus=o[3], backend=backend)
            elif k == "tof":
                g = Toffoli(qreg=(up(o[1], base), o[2] + base), dims=list(everything), plus=o[3], backend=backend)
            else:
                regs = model.regs_of(o)
                g = drive.custom([dims[x] for x in regs], o[2])(qreg=up(o[1], base), dims=[dims[x] for x in regs] if isinstance(o[1], list) else dims[o[1]], backend=backend)
        gates.append((g, o))
        obs.hit("made")
    for q, d in enumerate(dims):
        with sut("making an identity"):
            gates.append((IGate(qreg=q + base, dims=d, backend=backend), q))
    for rounds in range(2):
        for g, o in gates:
            if isinstance(o, int):
                check_gate(g, None, dims, backend, obs, o, base=base)
            else:
                check_gate(g, o, dims, backend, obs, base=base)
    for q, (d, level) in enumerate(case["levels"]):
        with sut("InitState"):
            s = InitState(dim=d, state=level, qreg=q + base, backend=backend)
        check_init(s, d, level, q + base, obs)
    for d, level in case["bad"]:
        try:
            InitState(dim=d, state=level, qreg=0, backend=backend)
        except ValueError:
            obs.hit("refused_levels")
        except Exception as e:
            expect(False, "an initial level %d of dimension %d raises %s", level, d, type(e).__name__)
        else:
            expect(False, "an initial level %d of dimension %d is accepted", level, d)
