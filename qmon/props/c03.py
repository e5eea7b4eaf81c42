"""C03: unitary evolution - conservation of norm, unitary layers, reversibility."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Random circuits; monitors: total squared modulus of every report (after every prefix for short circuits), "
    "U U* = 1 for the matrix of every layer and gate, and the echo run (circuit followed by its inverse gates) that must return the "
    "initial basis state; non-trivial: at least two gates."
)
REQUIRED = {"runs": 100, "layers_checked": 200, "echoes": 30}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(170 * k):
        r = rng_for("C03", seed, "a", i)
        out.append({"what": "norm", "spec": gen.circuit(r, maxn=48, dmax=7)})
    for i in range(170 * k):
        r = rng_for("C03", seed, "echo", i)
        out.append({"what": "echo", "spec": gen.circuit(r, maxn=48, dmax=7, depth=r.choice([1, 2, 3, 4, 6, 10]))})
    for d in range(2, 17 if tier == "quick" else 33):
        for kind in "hxz":
            ops = [[kind, 0] + ([1] if kind == "x" else [])]
            out.append({"what": "echo", "spec": {"dims": [d], "init": [d - 1], "backend": "numpy", "ops": ops}})
            out.append({"what": "norm", "spec": {"dims": [d], "init": [d // 2], "backend": "sparse", "ops": ops * 2}})
    return out


def nontrivial(case):
    return len(case["spec"]["ops"]) >= 2


def norm_is_one(state, what):
    s = float((np.abs(state) ** 2).sum())
    expect(abs(s - 1) < 1e-8, "%s: total probability %.12g", what, s)


def run_case(case, obs):
    spec = case["spec"]
    dims = spec["dims"]
    if case["what"] == "norm":
        qc = drive.build(spec, obs=obs)
        norm_is_one(drive.report_state(drive.run(qc), dims), "report")
        obs.hit("runs")
        qc = drive.build(spec, output=drive.output_for(dims, "state", "probability"))
        p = drive.report_state(drive.run(qc), dims)
        obs.hit("runs")
        expect(abs(p.imag).max() < 1e-12 and p.real.min() >= 0, "probabilities are not non-negative reals")
        expect(abs(p.sum() - 1) < 1e-8, "probabilities sum to %.12g", p.real.sum())
        with sut("layer matrices"):
            mats = drive.layer_matrices(qc, qc.backend)
            gates = [g for layer in drive.layers(qc) for g in layer]
        n = model.size(dims)
        for j, m in enumerate(mats):
            expect(m.shape == (n, n), "layer %d has shape %r on a state of size %d", j, m.shape, n)
            expect(np.allclose(m @ m.conj().T, np.eye(n), atol=1e-9), "layer %d is not unitary", j)
            obs.hit("layers_checked")
        for g in gates:
            with sut("gate matrix"):
                u = g.unitary
            if u is None:  # measurement
                continue
            u = drive.dense(u)
            expect(u.ndim == 2 and u.shape[0] == u.shape[1] and np.allclose(u @ u.conj().T, np.eye(len(u)), atol=1e-9),
                   "%s is not unitary", type(g).__name__)
            obs.hit("gates_checked")
        for cut in range(len(spec["ops"])) if len(spec["ops"]) <= 4 else ():
            part = dict(spec, ops=spec["ops"][:cut])
            norm_is_one(drive.state_of(part), "report after %d gates" % cut)
            obs.hit("runs")
        return
    undo = [o for op in reversed(spec["ops"]) for o in model.inverse_op(op, dims)]
    echo = dict(spec, ops=spec["ops"] + undo)
    got = drive.state_of(echo)
    obs.hit("runs")
    obs.hit("echoes")
    drive.same_state(got, model.basis(dims, drive.init_of(spec)), "circuit followed by its inverse", 1e-8)
