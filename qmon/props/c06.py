"""C06: custom gates act by exactly their matrix, or not at all."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Custom gates on every adjacent block of random layouts: Haar, real orthogonal, integer permutation, diagonal, identity and tiny-angle "
    "matrices in several memory layouts, alone (every column) and on a generic superposition, compared with tensor algebra; "
    "and corrupted gates (scaled, perturbed by 1e-4 to 1, singular, complex orthogonal, too small, too large, not square) at any place of "
    "a circuit, whose run must raise; gate classes whose instances have different matrices, one of them possibly not acceptable; non-trivial: every case."
)
REQUIRED = {"columns": 200, "superpositions": 100, "refused": 100, "shared_classes": 20, "refused_shared": 20}
BAD = ["wide", "nan", "inf", "scaled", "perturbed", "singular", "complex_orthogonal", "zero", "small", "large", "other", "rows", "columns", "one", "shear", "column_scaled", "twins", "turned"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(320 * k):
        r = rng_for("C06", seed, "good", i)
        dims = gen.layout(r, maxn=64, nmin=1, nmax=6, dmax=8)
        w = min(len(dims), r.choice([1, 1, 2, 2, 2, 3, 3, 4]))
        a = r.randrange(len(dims) - w + 1)
        regs = list(range(a, a + w))
        op = ["u", regs[0] if w == 1 and r.random() < 0.7 else regs, gen.udesc(r, [dims[q] for q in regs])]
        out.append({"what": "good", "dims": dims, "op": op, "memory": r.choice(["C", "F", "view", "readonly"]), "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(260 * k):
        r = rng_for("C06", seed, "bad", i)
        s = gen.circuit(r, maxn=36, nmin=1, nmax=4, depth=r.randint(0, 5))
        dims = s["dims"]
        w = min(len(dims), r.choice([1, 1, 2, 2, 3, 4]))
        a = r.randrange(len(dims) - w + 1)
        regs = list(range(a, a + w))
        out.append({"what": "bad", "spec": s, "at": r.randint(0, len(s["ops"])), "regs": regs, "as_int": w == 1 and r.random() < 0.7,
                    "kind": BAD[i % len(BAD)], "seed": r.randrange(2**30)})
    for i in range(65 * k):  # the gate covers the whole circuit and ends it
        r = rng_for("C06", seed, "cover", i)
        dims = gen.layout(r, maxn=36, nmin=1 + i % 3, nmax=4, dmax=5)
        s = {"dims": dims, "init": r.choice([None, gen.init_states(r, dims)]), "backend": r.choice(["numpy", "sparse", None]), "ops": []}
        out.append({"what": "bad", "spec": s, "at": 0, "regs": list(range(len(dims))), "as_int": False, "kind": BAD[i % len(BAD)] if i % 2 else "rows", "seed": r.randrange(2**30)})
    for i in range(24 * k):  # wide gates: what is wrong is far from the rest
        r = rng_for("C06", seed, "wide", i)
        dims = gen.layout(r, maxn=300, nmin=2, nmax=8, dmax=9)
        while model.size(dims) < 48:
            dims.append(r.choice([2, 3]))
        s = {"dims": dims, "init": r.choice([None, gen.init_states(r, dims)]), "backend": r.choice(["numpy", "sparse", None]), "ops": []}
        out.append({"what": "bad", "spec": s, "at": 0, "regs": list(range(len(dims))), "as_int": False, "kind": ["alike", "shear", "twins", "perturbed", "column_scaled", "turned"][i % 6], "seed": r.randrange(2**30)})
    for i in range(70 * k):  # one gate class whose matrix depends on where the gate stands
        r = rng_for("C06", seed, "shared", i)
        d = r.choice([2, 2, 3, 4])
        n = r.randint(2, {2: 5, 3: 3, 4: 3}[d])
        dims = [d] * n if r.random() < 0.6 else [r.randint(2, 4) for _ in range(min(n, 3))]
        n = len(dims)
        seq = [r.randrange(n) for _ in range(r.randint(2, 6))]
        if i % 2:
            seq += [q for q in range(n) if q not in seq]
        out.append({"what": "shared", "dims": dims, "seq": seq, "bad": r.choice(seq) if i % 2 else None, 
                    "kind": r.choice(["perturbed", "scaled", "singular", "shear", "column_scaled", "large", "rows"] + ["alike", "phased"] * 3),
                    "by": r.choice(["qreg", "count", "count"]), "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    return out


def shared(case, obs):
    """The same class of gate used several times with different matrices, one of them
    possibly not acceptable."""
    dims, seq = case["dims"], case["seq"]
    mats = []
    for j, q in enumerate(seq):
        # by register: every use on one register has the same matrix
        mats.append(model.umatrix([dims[q]], {"kind": "haar", "seed": case["seed"] % 2**30 + (q if case["by"] == "qreg" else j)}))
    if case["bad"] is not None:
        if case["kind"] in ("alike", "phased"):
            # all good ones are of the family that the bad one nearly belongs to
            r = np.random.RandomState(case["seed"])
            for j, q in enumerate(seq):
                mats[j] = family(case["kind"], dims[q], r.randint(2**30) if case["by"] == "count" else case["seed"] % 2**30 + q)
        places = [j for j, q in enumerate(seq) if q == case["bad"]]
        if case["by"] == "count":
            places = [rng_for("C06 place", case["seed"]).choice(places)]
        for j in places:
            m = corrupt(case["kind"], dims[seq[j]], case["seed"])
            if m is None:
                obs.hit("not_applicable")
                return
            mats[j] = m
    made = []

    class Custom(drive.ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = mats[len(made)]
            made.append(self)

    with sut("building the circuit"):
        qc = drive.construct({"dims": dims, "init": None, "backend": case["backend"]})
        for q in seq:
            qc.gate(Custom, q)
        qc.measure_all()
    if len(made) != len(seq):
        obs.hit("not_applicable")
        return
    if case["bad"] is not None:
        for attempt in range(3):
            try:
                rep = qc.run()
            except Exception:
                continue
            expect(False, "run() reported %d entries although one of %d gates of a class is a %r matrix", len(rep), len(seq), case["kind"])
        obs.hit("refused")
        obs.hit("refused_shared")
        return
    want = model.basis(dims, [0] * len(dims))
    for q, m in zip(seq, mats):
        want = model.apply_matrix(want, m, [q])
    drive.same_state(drive.report_state(drive.run(qc), dims), want, "gates of one class with different matrices")
    obs.hit("shared_classes")


def family(kind, n, seed):
    r = np.random.RandomState(seed)
    if kind == "alike":
        return model.umatrix([n], {"kind": "perm", "seed": int(seed)})
    ph = np.exp(1j * r.uniform(0, 6, size=n))
    return model.H(n) * ph


def corrupt(kind, n, seed):
    """A matrix that is not a unitary of size n (or None if this kind does not apply)."""
    r = np.random.RandomState(seed)
    if kind in ("alike", "phased"):
        m = family(kind, n, seed)
        if kind == "alike":  # one 1 moves to another row: two rows equal, the sums all the same
            j = r.randint(n)
            i = int(m[:, j].argmax())
            m[i, j] = 0
            m[(i + 1 + r.randint(n - 1)) % n, j] = 1
        else:  # one phase is wrong, no modulus changes
            m[r.randint(n), r.randint(n)] *= np.exp(1j * r.uniform(0.5, 2.5))
        return m
    u = model.umatrix([n], {"kind": ["haar", "real", "perm", "phase"][r.randint(4)], "seed": int(r.randint(2**31))})
    i, j = (int(x) for x in r.randint(0, n, size=2))
    if kind == "scaled":
        m = u * [0.5, 2.0, 1.001, 0.99][r.randint(4)]
    elif kind == "perturbed":
        m = np.array(u, dtype=complex)
        m[i, j] += [1e-4, 1e-3, 1e-2, 0.1, 1][r.randint(5)] * (u[i, j] / abs(u[i, j]) if abs(u[i, j]) > 0.1 else 1)
        # first order change of the column norm, or failing that of orthogonality
    elif kind == "singular":
        m = np.array(u)
        m[:, j] = m[:, (j + 1) % n]
        if n > 2:
            m[:, (j + 2) % n] = m[:, j]
    elif kind == "complex_orthogonal":  # m m^T = 1 but not unitary
        if n < 2:
            return None
        t = 0.3 + r.rand()
        m = np.eye(n, dtype=complex)
        m[0, 0] = m[1, 1] = np.cosh(t)
        m[0, 1] = 1j * np.sinh(t)
        m[1, 0] = -1j * np.sinh(t)
    elif kind == "twins":  # two equal rows
        m = np.array(u)
        i, j = (i, (i + 1 + r.randint(n - 1)) % n) if r.randint(2) else (0, n - 1)
        m[i] = m[j]
    elif kind == "turned":  # two rows that are not orthogonal to each other
        m = np.array(u, dtype=complex)
        i, j = (i, (i + 1 + r.randint(n - 1)) % n) if r.randint(2) else (0, n - 1)
        m[i] = (m[i] + 0.1 * m[j]) / np.sqrt(1.01)
    elif kind == "zero":
        m = np.zeros((n, n))
    elif kind == "small":
        m = model.umatrix([n - 1], {"kind": "haar", "seed": seed}) if n > 2 else np.eye(1)
    elif kind == "large":
        m = model.umatrix([n + 1], {"kind": "haar", "seed": seed})
    elif kind == "other":
        m = np.eye([n * 2, n * n, n + 3][r.randint(3)])
    elif kind == "rows":  # orthonormal rows, not square
        m = u[: max(1, n // 2)]
    elif kind == "columns":
        m = u[:, : max(1, n // 2)]
    elif kind == "one":
        m = np.eye(1)
    elif kind == "shear":
        m = np.eye(n)
        m[0, n - 1] = [1.0, 0.01, -3][r.randint(3)]
    elif kind == "wide":  # as many orthonormal rows as the registers have levels, but more columns
        m = model.umatrix([n * [2, 3][r.randint(2)]], {"kind": "haar", "seed": seed})[:n]
    elif kind in ("nan", "inf"):
        m = np.array(u, dtype=complex if r.randint(2) else float)
        m[i, j] = float(kind)
        return m
    elif kind == "column_scaled":
        m = np.array(u, dtype=complex)
        m[:, j] *= [0, 2, 1.01][r.randint(3)]
    if m.shape == (n, n) and np.abs(m @ m.conj().T - np.eye(n)).max() < 5e-5:
        return None
    return m


def laid_out(mat, memory):
    mat = np.array(mat)
    if memory == "F":
        return np.asfortranarray(mat)
    if memory == "view":
        big = np.zeros((2 * mat.shape[0], 3 * mat.shape[1]), dtype=mat.dtype)
        big[::2, ::3] = mat
        return big[::2, ::3]
    if memory == "readonly":
        mat.setflags(write=False)
    return mat


def gate_of(mat):
    class Custom(drive.ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = mat

    return Custom


def run_case(case, obs):
    if case["what"] == "shared":
        return shared(case, obs)
    if case["what"] == "bad":
        return bad(case, obs)
    dims, op = case["dims"], case["op"]
    regs = model.regs_of(op)
    sub = [dims[q] for q in regs]
    mat = laid_out(model.umatrix(sub, op[2]), case["memory"])
    before = mat.copy()
    gate = gate_of(mat)

    def run(init, probes, output="auto"):
        spec = {"dims": dims, "init": init, "backend": case["backend"], "ops": probes}
        qc = drive.build(spec, measure=False, output=output)
        with sut("gate(%r)" % op[1]):
            qc.gate(gate, op[1])
            qc.measure_all()
        return drive.report_state(drive.run(qc), dims)

    r = rng_for("C06 state", case["seed"])
    probes = gen.probe_ops(dims, case["seed"])
    want = model.apply_matrix(model.simulate(dims, [0] * len(dims), probes), before, regs)
    drive.same_state(run(None, probes), want, "custom gate %s on a superposition" % op)
    obs.hit("superpositions")
    for _ in range(4):
        init = [r.randrange(d) for d in dims]
        want = model.apply_matrix(model.basis(dims, init), before, regs)
        drive.same_state(run(init, []), want, "custom gate %s on %r" % (op, init))
        obs.hit("columns")
    expect(np.array_equal(before, mat), "the gate's matrix was modified")


def bad(case, obs):
    spec, regs = case["spec"], case["regs"]
    dims = spec["dims"]
    m = corrupt(case["kind"], model.size([dims[q] for q in regs]), case["seed"])
    if m is None:
        obs.hit("not_applicable")
        return
    qc = drive.construct(spec)
    with sut("building the circuit"):
        for o in spec["ops"][: case["at"]]:
            drive.issue(qc, o, dims)
    try:
        qc.gate(gate_of(m), regs[0] if case["as_int"] else regs)
    except Exception:
        obs.hit("refused")
        return
    with sut("building the circuit"):
        for o in spec["ops"][case["at"]:]:
            drive.issue(qc, o, dims)
        qc.measure_all()
    for attempt in range(2):
        try:
            rep = qc.run()
        except Exception:
            continue
        expect(False, "run() reported %d entries for a circuit with a %r custom gate %s on %r", len(rep), case["kind"], m.shape, regs)
    obs.hit("refused")
    obs.hit("refused_" + case["kind"])
