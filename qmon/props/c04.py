"""C04: H, X and Z are the generalised qudit gates in every dimension.

Monitor: the report of run() for a gate on every level of its register (all columns of the
gate, phases included) and on a generic superposition, against the formulas written out in
model.H / model.X / model.Z."""
import itertools

import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for

RULE = (
    "For every dimension 2..16 (thorough 2..40) and some up to 257 (thorough 600) and both backends: H, Z and X with increments below, equal to and above "
    "the dimension, negative, zero and huge, alone and at a random place among other registers, run on every level of the register and on a "
    "superposition with no two amplitudes alike; non-trivial: every case (a gate and at least two levels)."
)
REQUIRED = {"columns": 400, "superpositions": 100}


def cases(tier, seed):
    quick = tier == "quick"
    out = []

    def add(d, gate, tag):
        r = rng_for("C04", seed, d, tuple(gate), tag)
        if tag == "alone":
            dims, q = [d], 0
        else:
            dims = [r.choice([2, 2, 3, 4, d]) for _ in range(r.randint(1, 3))]
            while dims and model.size(dims) * d > max(96, 2 * d):
                dims.pop()
            q = r.randrange(len(dims) + 1)
            dims.insert(q, d)
        out.append({"dims": dims, "q": q, "gate": gate, "backend": r.choice(["numpy", "sparse", None]) if tag != "alone" else tag2,
                    "seed": r.randrange(2**30), "tag": tag})

    top = 16 if quick else 40
    for d in range(top, 1, -1):
        for rep in range(1 if quick else 6):
            r = rng_for("C04", seed, "p", d, rep)
            ps = {None, 1, d - 1, d, 0, -1, d + 1, -d, -d - 1, r.randint(2, 3 * d), -r.randint(2, 3 * d), r.randint(10**3, 10**9), -r.randint(10**3, 10**9), gen.plus_huge(r, not quick)}
            if not quick:
                ps |= set(range(-2 * d, 2 * d + 1)) if rep == 0 else set()
            gates = [["h"], ["z"]] + [["x", p] for p in sorted(ps, key=lambda p: (p is not None, p or 0))]
            for g in gates:
                for tag2 in ("numpy", "sparse"):
                    if rep == 0:
                        add(d, g, "alone")
                add(d, g, "embedded%d" % rep)
                if len(g) == 1:
                    add(d, g, "again%d" % rep)
    for d in (64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 301, 512, 513, 1025) if quick else (64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1500):
        r = rng_for("C04", seed, "big", d)
        for g in (["h"], ["z"], ["x", None], ["x", r.randint(2, d - 1)], ["x", -r.randint(1, 3 * d)]):
            tag2 = r.choice(["numpy", "sparse"])
            add(d, g, "alone")
    return out


def op_of(case):
    g = case["gate"]
    if g[0] == "x":
        return ["x", case["q"], 1 if g[1] is None else g[1]]
    return [g[0], case["q"]]


def run_case(case, obs):
    dims, q = case["dims"], case["q"]
    d = dims[q]
    o = op_of(case)
    r = rng_for("C04 state", case["seed"])
    mat = {"h": model.H, "z": model.Z}.get(o[0], lambda d: model.X(d, o[2]))(d)
    others = [r.randrange(x) for x in dims]
    levels = range(d) if d <= 16 else r.sample(range(d), 12) if d <= 50 else sorted({0, d - 1, *r.sample(range(d), 3)})
    for k in levels:
        init = list(others)
        init[q] = k
        spec = {"dims": dims, "init": init, "backend": case["backend"], "ops": [o]}
        got = drive.state_of(spec)
        want = np.zeros(tuple(dims), dtype=complex)
        for j in range(d):
            init[q] = j
            want[tuple(init)] = mat[j, k]
        drive.same_state(got, want, "%s on level %d of dimension %d" % (o, k, d))
        obs.hit("columns")
    probes = gen.probe_ops(dims, case["seed"])
    if model.size(dims) <= 256:
        spec = {"dims": dims, "init": others, "backend": case["backend"], "ops": probes + [o]}
        drive.same_state(drive.state_of(spec), drive.expected_state(spec), "%s on a superposition" % o)
        obs.hit("superpositions")
    obs.hit("dimension_%d" % d)
