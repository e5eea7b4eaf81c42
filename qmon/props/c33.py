"""C33: reports are accurate to double precision, however long the circuit.

Monitor: the reported amplitudes against a simulation in extended precision (80-bit floats), with
a bound in units of the double rounding error; exact equality where the arithmetic is exact."""
import math

import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for, sut

RULE = (
    "Circuits of up to 120 (thorough 400) gates of all kinds, in dimensions up to 60, on both backends, against an extended precision simulation; circuits of "
    "X, CX, Toffoli and permutation gates, whose reports must be exact; products of tiny and ordinary rotations, whose amplitudes must be accurate relative to their size; non-trivial: every case."
)
REQUIRED = {"amplitudes": 3000, "exact": 150, "long": 60, "relative": 400, "tiny": 100, "large_dimensions": 30, "probabilities": 300}
NO_SHRINK = False
EPS = 2.0**-52
LD = np.longdouble
PI = np.arccos(LD(-1))


def cases(tier, seed):
    quick = tier == "quick"
    k = 1 if quick else 20
    out = []
    for i in range(50 * k):
        r = rng_for("C33", seed, "any", i)
        out.append({"what": "any", "spec": gen.circuit(r, maxn=40, nmax=5, dmax=6, depth=r.choice([1, 3, 8, 30, 120] + ([] if quick else [400])), backend=r.choice(["numpy", "sparse"]))})
    for i in range(12 * k):
        r = rng_for("C33", seed, "large", i)
        dims = r.choice([[r.randint(10, 60)], [r.randint(7, 30), r.choice([2, 3])], [r.choice([16, 25, 27, 32, 49, 60])]])
        kinds = "hhzx" if len(dims) == 1 else "hhzxc"
        out.append({"what": "any", "spec": {"dims": dims, "init": [r.randrange(d) for d in dims], "backend": r.choice(["numpy", "sparse"]), "tuple": False,
                                           "ops": [gen.op(r, dims, kinds) for _ in range(r.choice([1, 2, 4, 12]))]}})
    for i in range(40 * k):
        r = rng_for("C33", seed, "exact", i)
        s = gen.circuit(r, maxn=48, nmax=5, dmax=7, depth=r.choice([1, 5, 30, 150] + ([] if quick else [500])), kinds="xct", backend=r.choice(["numpy", "sparse"]))
        for _ in range(len(s["ops"]) // 4):
            q = r.randrange(len(s["dims"]))
            s["ops"].insert(r.randint(0, len(s["ops"])), ["u", q, {"kind": r.choice(["perm", "intperm"]), "seed": r.randrange(2**30)}])
        out.append({"what": "exact", "spec": s, "method": r.choice(["amplitude", "probability"])})
    for i in range(40 * k):
        r = rng_for("C33", seed, "relative", i)
        dims = [r.choice([2, 2, 3, 4]) for _ in range(r.randint(1, 5))]
        out.append({"what": "relative", "dims": dims, "backend": r.choice(["numpy", "sparse"]), "method": r.choice(["amplitude", "probability"]),
                    "gates": [[q, r.sample(range(d), 2), r.choice([1e-9, 1e-8, 1e-7, 1e-5, 1e-3, 0.4, 1.2])] for q, d in r.sample(list(enumerate(dims)), len(dims))]})
    return out


def precise(mat):
    return np.asarray(mat).astype(np.clongdouble)


def wave(d, n):
    a = 2 * PI * LD(n % d) / LD(d)
    return np.cos(a) + 1j * np.sin(a)


def apply(state, mat, axes):
    k = len(axes)
    sub = tuple(state.shape[a] for a in axes)
    out = np.tensordot(mat.reshape(sub + sub), state, axes=(list(range(k, 2 * k)), list(axes)))
    return np.moveaxis(out, list(range(k)), list(axes))


def simulate(dims, init, ops):
    v = precise(model.basis(dims, init))
    for o in ops:
        if o[0] == "h":
            d = dims[o[1]]
            v = apply(v, precise([[wave(d, j * m) for m in range(d)] for j in range(d)]) / np.sqrt(LD(d)), [o[1]])
        elif o[0] == "z":
            d = dims[o[1]]
            v = apply(v, np.diag(precise([wave(d, j) for j in range(d)])), [o[1]])
        elif o[0] == "u":
            regs = model.regs_of(o)
            v = apply(v, precise(model.umatrix([dims[q] for q in regs], o[2])), regs)
        else:
            v = model.apply_op(v, o)
    return v


def run_case(case, obs):
    {"any": any_circuit, "exact": exact, "relative": relative}[case["what"]](case, obs)


def any_circuit(case, obs):
    spec = case["spec"]
    dims = spec["dims"]
    want = simulate(dims, drive.init_of(spec), spec["ops"])
    for method in ("amplitude", "probability"):
        report = drive.run(drive.build(spec, output=drive.output_for(dims, "state", method)))
        got = drive.report_state(report, dims)
        w = want if method == "amplitude" else abs(want) ** 2
        err = float(abs(got.astype(np.clongdouble) - w).max())
        # entries of H and Z and sums over N terms, for every gate
        bound = 40 * EPS * (2 + len(spec["ops"])) * math.sqrt(model.size(dims))
        expect(err <= bound, "a report of %ss after %d gates in %d states is wrong by %.3g, %.0f times the rounding error of doubles (bound: %.3g)", method, len(spec["ops"]), model.size(dims), err, err / EPS, bound)
        obs.hit("amplitudes" if method == "amplitude" else "probabilities", got.size)
        if method == "probability":
            total = math.fsum(v.real for v in got.ravel())
            expect(abs(total - 1) <= 2 * bound, "after %d gates the probabilities sum to 1%+.3g", len(spec["ops"]), total - 1)
        obs.hit("margin_10" if err <= bound / 10 else "margin_2" if err <= bound / 2 else "margin_1")
    obs.hit("long", len(spec["ops"]) >= 30)
    obs.hit("large_dimensions", max(dims) > 6)


def exact(case, obs):
    spec = case["spec"]
    dims = spec["dims"]
    want = model.simulate(dims, drive.init_of(spec), spec["ops"])
    label = tuple(int(x) for x in np.argwhere(want)[0])
    report = drive.run(drive.build(spec, output=drive.output_for(dims, "state", case["method"])))
    entries = drive.report_entries(report, dims)
    expect(len(entries) == 1 and entries[0][0] == label and entries[0][1] == 1, "%d gates that permute states give %r, not exactly 1 for %r", len(spec["ops"]), entries[:4], label)
    obs.hit("exact")
    obs.hit("long", len(spec["ops"]) >= 30)


def relative(case, obs):
    """A rotation of every register: amplitudes are products, however small."""
    dims = case["dims"]
    init = [0] * len(dims)
    ops = []
    for q, levels, angle in case["gates"]:
        init[q] = levels[0]
        ops.append(["u", q, {"kind": "rot", "levels": levels, "angle": angle}])
    want = simulate(dims, init, ops)
    spec = {"dims": dims, "init": init, "backend": case["backend"], "tuple": False, "ops": ops}
    got = drive.report_state(drive.run(drive.build(spec, output=drive.output_for(dims, "state", case["method"]))), dims).astype(np.clongdouble)
    if case["method"] == "probability":
        want = abs(want) ** 2
    bound = 40 * EPS * (2 + len(ops))
    for at in np.argwhere(want):
        at = tuple(int(x) for x in at)
        a, b = got[at], want[at]
        expect(abs(a - b) <= bound * abs(b), "the %s of %r is %r, not %r", case["method"], at, complex(a), complex(b))
        obs.hit("relative")
        obs.hit("tiny", int(abs(b) < 1e-12))
