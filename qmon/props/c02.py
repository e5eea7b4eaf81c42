"""C02: NumPy and sparse backends are interchangeable.

Monitors: (1) the same circuit on NumPy, sparse and the default backend, reports compared
pairwise; (2) a recording backend (subclass of the real one, passed as backend=) that checks
every kron/dot/matrix/eye/nonzero event against dense linear algebra while a circuit runs;
(3) the backend operations on random operands directly."""
import numpy as np
import scipy.sparse as sp

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Random circuits run on NumPy, sparse and the default backend and on recording subclasses of the first two, plus "
    "random operands (dense, sparse formats, vectors, rectangular, complex) given to the backend operations; "
    "non-trivial: a circuit with a gate, or an operand with more than one entry."
)
REQUIRED = {"runs": 60, "tiny_comparisons": 100, "events_kron": 50, "events_dot": 50, "direct_ops": 100}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(190 * k):
        r = rng_for("C02", seed, "circ", i)
        s = gen.circuit(r, backend=None, maxn=64)
        if r.random() < 0.4:
            s["ops"] = gen.probe_ops(s["dims"], r.randrange(2**30)) + s["ops"]
        out.append({"what": "circuit", "spec": s})
    for i in range(40 * k):
        r = rng_for("C02", seed, "rec", i)
        out.append({"what": "recorded", "spec": gen.circuit(r, backend=r.choice(["numpy", "sparse"]), maxn=36)})
    for i in range(50 * k):
        r = rng_for("C02", seed, "tiny", i)
        out.append({"what": "circuit", "tiny": True, "spec": dict(gen.tiny(r), backend=None)})
    for i in range(160 * k):
        out.append({"what": "direct", "seed": rng_for("C02", seed, "direct", i).randrange(2**31)})
    return out


def nontrivial(case):
    return case["what"] == "direct" or len(case["spec"]["ops"]) > 0


def close(a, b, what, scale=None):
    """Entry by entry, to the precision of the arithmetic: scale is the sum of the moduli of
    the terms each entry is made of."""
    a, b = drive.dense(a), drive.dense(b)
    expect(a.shape == b.shape, "%s: shape %r instead of %r", what, a.shape, b.shape)
    bad = np.abs(a - b) > 1e-12 * (np.abs(b) if scale is None else scale) + 1e-290
    expect(not bad.any() and np.all(np.isfinite(a)), "%s: wrong entries, first at %r", what, np.argwhere(bad)[:1].tolist())


def product(a, b):
    a, b = drive.dense(a), drive.dense(b)
    return a @ b, np.abs(a) @ np.abs(b)


def recording(base, obs):
    class Recording(base):
        @staticmethod
        def kron(a, b):
            res = base.kron(a, b)
            obs.hit("events_kron")
            close(res, np.kron(drive.dense(a), drive.dense(b)), "kron during a run")
            return res

        @staticmethod
        def dot(a, b):
            res = base.dot(a, b)
            obs.hit("events_dot")
            want, scale = product(a, b)
            close(res, want, "dot during a run", scale)
            return res

        @staticmethod
        def eye(n, m):
            res = base.eye(n=n, m=m)
            obs.hit("events_eye")
            close(res, np.eye(n, m), "eye during a run")
            return res

        @staticmethod
        def matrix(a):
            want = drive.dense(a)
            res = base.matrix(a)
            obs.hit("events_matrix")
            if want.ndim == 2:
                close(res, want, "matrix during a run")
            return res

    return Recording


def run_case(case, obs):
    if case["what"] == "direct":
        return direct(case["seed"], obs)
    spec = case["spec"]
    if case["what"] == "recorded":
        base = drive.BACKENDS[spec["backend"]]
        got = drive.state_of(spec, backend=recording(base, obs))
        obs.hit("runs")
        drive.same_state(got, drive.state_of(spec), "recording subclass against %s" % base.__name__)
        return
    res = {}
    for b in ("numpy", "sparse", None):
        for form in ("auto", "prob"):
            out = "auto" if form == "auto" else drive.output_for(spec["dims"], "state", "probability")
            qc = drive.build(spec, backend=drive.BACKENDS[b], output=out, obs=obs)
            res[b, form] = drive.report_state(drive.run(qc), spec["dims"])
            obs.hit("runs")
    for form in ("auto", "prob"):
        for b in ("sparse", None):
            drive.same_state(res[b, form], res["numpy", form], "%s backend against NumPy (%s)" % (b or "default", form))
            if case.get("tiny"):
                x, y = res[b, form], res["numpy", form]
                bad = np.abs(x - y) > 1e-6 * np.maximum(np.abs(x), np.abs(y)) + 1e-100
                expect(not bad.any(), "%s backend against NumPy (%s): small amplitudes differ at %r", b or "default", form, np.argwhere(bad)[:3].tolist())
                obs.hit("tiny_comparisons")
            obs.hit("comparisons")


def direct(seed, obs):
    r = np.random.RandomState(seed)
    from ..drive import NumpyBackend, SparseBackend

    def rnd(*shape):
        a = r.normal(size=shape)
        if r.rand() < 0.5:
            a = a + 1j * r.normal(size=shape)
            if r.rand() < 0.5:  # purely real and purely imaginary entries
                part = r.randint(3, size=shape)
                a = np.where(part == 0, a, np.where(part == 1, a.real + 0j, 1j * a.imag))
        if r.rand() < 0.6:
            a = a * (r.rand(*shape) < 0.4)
        if r.rand() < 0.2:
            whole = np.round(a.real * r.choice([1, 1, 1000, 1e6]))
            return whole.astype(int) if r.rand() < 0.6 else whole
        if r.rand() < 0.4:  # entries of very different size
            a = a * 10.0 ** -(r.rand(*shape) * 40)
        return a

    for base in (NumpyBackend, SparseBackend):
        name = base.__name__
        while True:
            n, m, p, q = (int(x) for x in r.randint(1, 7 if r.rand() < 0.7 else 24, size=4))
            if n * p * m <= 300 and m * q * p <= 300:
                break
        a, b, c = rnd(n, m), rnd(p, q), rnd(m, p)
        with sut(name + " operation"):
            A, B, C = base.matrix(a), base.matrix(b), base.matrix(c)
            close(A, a, name + ".matrix")
            close(base.kron(A, B), np.kron(a, b), name + ".kron")
            close(base.dot(A, C), a @ c, name + ".dot", product(a, c)[1])
            close(base.kron(base.kron(A, B), C), np.kron(np.kron(a, b), c), name + ".kron chained")
            ones = np.ones((m * q, 1))
            close(base.dot(base.kron(A, B), base.matrix(ones)), np.kron(a, b) @ ones, name + ".dot of a kron", product(np.kron(a, b), ones)[1])
            close(base.kron(base.eye(n=n, m=n), A), np.kron(np.eye(n), a), name + ".kron with eye")
            close(base.dot(base.eye(n=n, m=n), A), a, name + ".dot with eye")
            close(base.dot(A, base.eye(n=m, m=m)), a, name + ".dot with eye")
            close(base.eye(n=n, m=m), np.eye(n, m), name + ".eye")
            nz = base.nonzero(A)
        got = sorted(zip(*(np.asarray(x).tolist() for x in nz)))
        want = sorted(zip(*(x.tolist() for x in a.nonzero())))
        expect(got == want, "%s.nonzero: %r instead of %r", name, got[:5], want[:5])
        obs.hit("direct_ops", 10)
        # does not alias the operand it was given
        k = int(r.randint(2, 7))
        u = model.umatrix([k], {"kind": ["haar", "perm", "intperm", "phase", "real"][r.randint(5)], "seed": int(r.randint(2**31))})
        v = np.array(u, dtype=complex)
        i, j = (int(x) for x in r.randint(0, k, size=2))
        v[i, j] += r.choice([0.01, 0.5, -1]) + 0.1j
        singular = np.zeros((k, k))
        singular[0, :] = 1
        stretched = np.array(u) * float(r.choice([0.5, 2, 1.01]))
        with sut(name + ".is_unitary"):
            expect(bool(base.is_unitary(u)), "%s.is_unitary denies a unitary matrix", name)
            expect(not bool(base.is_unitary(v)), "%s.is_unitary accepts a perturbed matrix", name)
            expect(not bool(base.is_unitary(singular)), "%s.is_unitary accepts a singular matrix", name)
            expect(not bool(base.is_unitary(stretched)), "%s.is_unitary accepts a scaled unitary", name)
        obs.hit("direct_ops", 4)
