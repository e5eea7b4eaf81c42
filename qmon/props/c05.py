"""C05: CX and Toffoli fire exactly when every control is at its top level.

Monitor: reports of run() on every basis state of the layout, and on a generic product state
(one run that tells any two operators apart), against the arithmetic definition."""
import itertools

from .. import drive, gen, model
from ..core import expect, rng_for

QUICK_SEEDS = 3
RULE = (
    "Every ordered choice of distinct registers (controls then target) in a set of small layouts that covers all shapes up to 4 "
    "registers of dimension 2-4, with increments in, below, at and above the dimension; plus random larger layouts, "
    "up to 5 controls. Each is run on a generic product state, and on every basis state (or a sample biased to controls "
    "at the top level); non-trivial: every case (one controlled gate)."
)
REQUIRED = {"fired": 300, "idle": 300, "superpositions": 300}
MAXN = 110


def cases(tier, seed):
    quick = tier == "quick"
    out = []
    layouts = []
    for n in (2, 3):
        layouts += list(itertools.product((2, 3, 4) if n == 2 or not quick else (2, 3), repeat=n))
    layouts += [(2, 2, 2, 2), (3, 2, 2, 3), (2, 3, 2, 2), (2, 2, 3, 2), (3, 3, 2, 2), (4, 2, 3, 2), (2, 4, 2, 3), (2, 2, 4, 3)]
    if not quick:
        layouts += list(itertools.product((2, 3), repeat=4)) + [(2,) * 5, (2, 3, 2, 2, 3), (5, 6), (6, 5), (7, 2, 3), (3, 2, 7)]
    for dims in layouts:
        n = len(dims)
        for m in range(2, n + 1):
            for regs in itertools.permutations(range(n), m):
                controls, t = list(regs[:-1]), regs[-1]
                r = rng_for("C05", seed, dims, regs)
                for kind in ("cx", "tof") if m == 2 else ("tof",):
                    ps = {1, r.randint(1, dims[t] - 1)} if quick else {1, dims[t] - 1, gen.plus_for(r, dims[t])}
                    if r.random() < 0.2:
                        ps.add(r.choice([0, -1, dims[t], dims[t] + 1, -dims[t] - 1]))
                    for p in sorted(ps):
                        op = ["cx", controls[0], t, p] if kind == "cx" else ["tof", controls, t, p]
                        out.append({"dims": list(dims), "op": op, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(250 if quick else 6000):
        r = rng_for("C05", seed, "random", i)
        dims = gen.layout(r, maxn=MAXN, nmin=2, nmax=6, dmax=9)
        if len(dims) < 2:
            continue
        if r.random() < 0.4:
            c, t = r.sample(range(len(dims)), 2)
            op = ["cx", c, t, gen.plus_for(r, dims[t])]
        else:
            m = r.randint(2, len(dims))
            regs = r.sample(range(len(dims)), m)
            op = ["tof", regs[:-1], regs[-1], gen.plus_for(r, dims[regs[-1]])]
        out.append({"dims": dims, "op": op, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(60 if quick else 600):  # high dimensions
        r = rng_for("C05", seed, "high", i)
        dims = [r.randint(2, 13), r.randint(8, 13)] if i % 2 else [r.randint(11, 14), r.randint(11, 14)]
        r.shuffle(dims)
        c = r.randrange(2)
        p = gen.plus_for(r, dims[1 - c])
        out.append({"dims": dims, "op": ["cx", c, 1 - c, p] if r.random() < 0.5 else ["tof", [c], 1 - c, p], "backend": r.choice(["numpy", "sparse"]), "seed": r.randrange(2**30)})
    for i in range(90 if quick else 1500):  # far apart, everything in between in superposition
        r = rng_for("C05", seed, "far", i)
        n = r.randint(4, 7)
        dims = [2] * n
        for q in r.sample(range(n), r.randint(0, 2)):
            dims[q] = 3
        if model.size(dims) > 300:
            continue
        ends = [0, n - 1] if r.random() < 0.7 else sorted(r.sample(range(n), 2))
        r.shuffle(ends)
        p = gen.plus_for(r, dims[ends[1]])
        inner = [q for q in range(n) if q not in ends]
        extra = r.sample(inner, r.randint(0, min(3, len(inner)))) if i % 2 else []
        controls = [ends[0]] + extra
        r.shuffle(controls)
        op = ["tof", controls, ends[1], p] if i % 2 else ["cx", ends[0], ends[1], p]
        out.append({"dims": dims, "op": op, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(60 if quick else 900):  # increments around and beyond 32, 53 and 64 bits
        r = rng_for("C05", seed, "huge", i)
        dims = [r.choice([2, 3, 4, 5, 6, 7]) for _ in range(r.choice([2, 3]))]
        regs = r.sample(range(len(dims)), r.randint(2, len(dims)))
        op = ["cx", regs[0], regs[1], gen.plus_huge(r)] if r.random() < 0.6 else ["tof", regs[:-1], regs[-1], gen.plus_huge(r, not quick)]
        out.append({"dims": dims, "op": op, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(8 if quick else 60):  # very high dimensions
        r = rng_for("C05", seed, "big", i)
        d = r.choice([64, 100, 127, 128, 129, 130, 150] + ([200, 256, 257, 300] if not quick else []))
        dims = [d, r.choice([2, 2, 3])]
        r.shuffle(dims)
        c = dims.index(d) if i % 4 == 0 else 1 - dims.index(d)
        p = r.choice([1, d - 1, r.randint(2, d), -r.randint(1, d)])
        out.append({"dims": dims, "op": ["cx", c, 1 - c, p] if i % 2 else ["tof", [c], 1 - c, p], "backend": r.choice(["numpy", "sparse"]), "seed": r.randrange(2**30), "big": True})
    for i in range(60 if quick else 900):  # many controls, one or two of them high
        r = rng_for("C05", seed, "mixed", i)
        dims = [2] * r.randint(3, 6)
        for _ in range(r.choice([1, 1, 2])):
            high = r.choice([r.randint(3, 7), r.randint(5, 24)])
            q = r.randrange(len(dims))
            if model.size(dims) // dims[q] * high <= 300:
                dims[q] = high
        regs = r.sample(range(len(dims)), r.randint(3, len(dims)))
        out.append({"dims": dims, "op": ["tof", regs[:-1], regs[-1], gen.plus_for(r, dims[regs[-1]])], "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(90 if quick else 1500):  # many registers, many controls
        r = rng_for("C05", seed, "many", i)
        n = r.randint(6, 16)
        dims = [2] * n
        for q in r.sample(range(n), r.randint(0, 3)):
            dims[q] = r.choice([3, 3, 4])
        a = r.randint(0, n - 2)
        b = a + 2
        while b < n and model.size(dims[a:b + 1]) <= 384:
            b += 1
        m = r.choice([2, 3, r.randint(2, b - a), b - a])
        regs = r.sample(range(a, b), min(m, b - a))
        op = ["tof", regs[:-1], regs[-1], gen.plus_for(r, dims[regs[-1]])] if len(regs) > 2 or r.random() < 0.4 else ["cx", regs[0], regs[1], gen.plus_for(r, dims[regs[1]])]
        out.append({"dims": dims, "op": op, "backend": "lean", "seed": r.randrange(2**30), "few": True})
    for i in range(10 if quick else 120):  # one gate over as many registers as finish in a second
        r = rng_for("C05", seed, "span", i)
        if i % 2:
            n = r.randint(8, 10)
            op = ["tof", [], 0, 1]
        else:
            n = r.choice([8, 8, 9] if quick else [8, 9])
        dims = [2] * n
        ends = [0, n - 1]
        r.shuffle(ends)
        if i % 2:
            op = ["tof", [ends[0]] + r.sample(range(1, n - 1), r.randint(0, n - 2)), ends[1], gen.plus_for(r, 2)]
        else:
            op = ["cx", ends[0], ends[1], gen.plus_for(r, 2)]
        out.append({"dims": dims, "op": op, "backend": r.choice(["sparse", "lean"]), "seed": r.randrange(2**30), "few": True})
    return out


def run_case(case, obs):
    dims, op = case["dims"], case["op"]
    controls = [op[1]] if op[0] == "cx" else op[1]
    t, p = op[2], op[3]
    r = rng_for("C05 state", case["seed"])
    base = {"dims": dims, "backend": case["backend"]}
    # one run on a generic product state
    probes = gen.probe_ops(dims, case["seed"]) if not case.get("few") else [["h", q] for q in r.sample(model.regs_of(op), min(len(model.regs_of(op)), 4))]
    if case.get("big"):
        probes = [["h", controls[0]], ["h", t]]
    spec = dict(base, init=[0] * len(dims), ops=probes + [op])
    drive.same_state(drive.state_of(spec), drive.expected_state(spec), "%s on a superposition" % op)
    obs.hit("superpositions")
    if not case.get("big"):  # and from other levels, the top ones among them
        start = [r.choice([d - 1, d - 1, r.randrange(d)]) for d in dims]
        spec = dict(base, init=start, ops=probes + [op])
        drive.same_state(drive.state_of(spec), drive.expected_state(spec), "%s on a superposition from %r" % (op, start))
        obs.hit("superpositions")
    n = model.size(dims)
    if n <= 8:
        states = list(itertools.product(*[range(d) for d in dims]))
    else:
        states = []
        for _ in range(6):
            s = [r.randrange(d) for d in dims]
            if r.random() < 0.7:
                for c in controls:
                    s[c] = dims[c] - 1
                if r.random() < 0.35:  # one control just below its top level
                    c = r.choice(controls)
                    s[c] = dims[c] - 2
            states.append(tuple(s))
        if case.get("big") or case.get("few"):
            states = states[:3]
        if not case.get("big"):
            states += [tuple(d - 1 for d in dims), tuple(0 for d in dims)]
    for s in states:
        spec = dict(base, init=list(s), ops=[op])
        got = drive.state_of(spec)
        want = list(s)
        fires = all(s[c] == dims[c] - 1 for c in controls)
        if fires:
            want[t] = (s[t] + p) % dims[t]
        drive.same_state(got, model.basis(dims, want), "%s on %r" % (op, s))
        obs.hit("fired" if fires else "idle")
