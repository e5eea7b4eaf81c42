"""C01: run() reports the state its gate sequence defines (reference-model monitor)."""
from .. import drive, gen, model
from ..core import rng_for

RULE = (
    "Random circuits over mixed-dimension registers (1-18 registers of dimension 2-16, depth 0-2100, all gate kinds, "
    "controls biased to their top level, repeated gates, probes that make every amplitude nonzero); non-trivial: at "
    "least two gates. The report of run() is compared with an independent tensor simulator."
)
ASSUMPTIONS = ["amplitudes are compared to 1e-9; states below that are neither required nor forbidden in a report"]
REQUIRED = {"runs": 50, "class_tower": 3, "nonzero_amplitudes": 100, "calls": 500}


def cases(tier, seed):
    k = 1 if tier == "quick" else 22
    out = []

    def add(cls, n, **kw):
        for i in range(n):
            r = rng_for("C01", seed, cls, i)
            s = gen.circuit(r, **kw)
            if r.random() < 0.5:
                probes = gen.probe_ops(s["dims"], r.randrange(2**30))
                if cls == "wide":
                    probes = []
                s["ops"] = probes + s["ops"]
            out.append({"class": cls, "spec": s})

    add("mixed", 420 * k)
    add("noswide", 60 * k, wide=False)
    add("single", 40 * k, nmax=1, dmax=16, kinds="hxzu", maxn=16)
    for i in range(8 * k):  # very high dimensions
        r = rng_for("C01", seed, "huge", i)
        d = r.choice([r.randint(17, 70), r.randint(64, 140), r.choice([127, 128, 129, 255, 256, 257, 300])])
        dims = [d, 2][: r.choice([1, 1, 2]) if d < 150 else 1]
        r.shuffle(dims)
        init = [r.choice([x - 1, r.randrange(x)]) for x in dims]
        ops = [gen.op(r, dims, "xzh" if len(dims) == 1 else "xzc") for _ in range(r.randint(0, 4))]
        out.append({"class": "huge", "spec": {"dims": dims, "init": init, "backend": r.choice(["numpy", "sparse", None]), "ops": ops}})
    add("highdim", 40 * k, nmin=2, nmax=2, dmax=14, maxn=150)
    add("packing", 80 * k, nmin=2, nmax=4, dmax=3, kinds="hxzxzhc", depth=14, maxn=48)
    for i in range(12 * k):  # deep
        r = rng_for("C01", seed, "deep", i)
        s = gen.circuit(r, nmin=1, nmax=3, dmax=4, maxn=18, depth=r.choice([60, 120, 300]))
        out.append({"class": "deep", "spec": s})
    for i in range(16 * k):  # wide, classical circuits: sparse matrices stay sparse
        r = rng_for("C01", seed, "wide", i)
        n = r.randint(7, 9)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(n)]
        while model.size(dims) > 900:
            dims[dims.index(3) if 3 in dims else 0:1] = []
            if 3 in dims:
                dims[dims.index(3)] = 2
        init = gen.init_states(r, dims)
        ops = []
        lv = list(init or []) + [0] * (len(dims) - len(init or []))
        for _ in range(r.randint(4, 14)):
            for _ in range(60):
                o = gen.op(r, dims, "xcctz" if i % 3 else "xccth", lv)
                if model.size([dims[q] for q in model.span_of(o)]) <= 64:
                    break
            else:
                o = ["x", r.randrange(len(dims)), 1]
            gen.classical_step(lv, o, dims)
            ops.append(o)
        if i % 3 == 0:
            h = 0
            ops = [o for o in ops if o[0] != "h" or (h := h + 1) <= 2]
        out.append({"class": "wide", "spec": {"dims": dims, "init": init, "backend": r.choice(["sparse", None]), "ops": ops}})
    for i in range(9 * k):  # one gate across all of eight to ten registers, all of them high
        r = rng_for("C01", seed, "span", i)
        n = r.choice([7, 8, 8, 9]) if i % 2 else r.randint(8, 10)
        dims = [2] * n
        if n == 7:
            dims[r.randrange(7)] = 3
        ends = [0, n - 1]
        r.shuffle(ends)
        p = r.choice([1, 1, dims[ends[1]] - 1])
        o = ["cx", ends[0], ends[1], p] if i % 2 else ["tof", [ends[0]] + r.sample(range(1, n - 1), r.randint(0, n - 2)), ends[1], p]
        init = [d - 1 if r.random() < 0.85 else 0 for d in dims] if r.random() < 0.7 else [d - 1 for d in dims]
        ops = [gen.op(r, dims[:3], "xz", init) for _ in range(r.choice([0, 0, 1, 2]))] + [o] + [gen.op(r, dims[:3], "xz") for _ in range(r.choice([0, 1]))]
        out.append({"class": "span", "spec": {"dims": dims, "init": init, "backend": r.choice(["sparse", "lean"]), "ops": ops}})
    for i in range(3 * k):  # more layers than Python nests calls
        r = rng_for("C01", seed, "tower", i)
        s = gen.circuit(r, nmin=1, nmax=2, dmax=4, maxn=9, depth=r.choice([1050, 1400, 2100]))
        out.append({"class": "tower", "spec": s})
    for i in range(60 * k):  # many registers
        r = rng_for("C01", seed, "many", i)
        out.append({"class": "many", "spec": gen.wide(r, nmax=18 if i % 3 == 0 else 14)})
    for i in range(30 * k):  # identical requests again and again
        r = rng_for("C01", seed, "again", i)
        s = gen.circuit(r, maxn=36, nmax=3, dmax=5, depth=2)
        s["ops"] = gen.probe_ops(s["dims"], i) + s["ops"] * r.randint(2, 7)
        out.append({"class": "again", "spec": s})
    for i in range(6 * k):  # a larger dense state
        r = rng_for("C01", seed, "dense", i)
        s = gen.circuit(r, nmin=4, nmax=8, dmax=4, maxn=300, depth=6, backend=r.choice(["numpy", "sparse"]))
        out.append({"class": "dense", "spec": s})
    return out


def nontrivial(case):
    return len(case["spec"]["ops"]) >= 2


def run_case(case, obs):
    spec = case["spec"]
    qc = drive.build(spec, obs=obs)
    rep = drive.run(qc)
    obs.hit("runs")
    obs.hit("class_" + case["class"])
    got = drive.report_state(rep, spec["dims"])
    obs.hit("nonzero_amplitudes", int((abs(got) > 1e-9).sum()))
    want = drive.expected_state(spec)
    drive.same_state(got, want, "state reported by run()", 1e-9 * (1 + len(spec["ops"]) / 20))
