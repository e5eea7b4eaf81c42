"""C07: a report lists exactly the nonzero amplitudes, in order, in the chosen form."""
import math

import numpy as np
import scipy.sparse as sp

from .. import drive, gen, model
from ..core import expect, rng_for, sut

QUICK_SEEDS = 2
RULE = (
    "Random circuits (1-20 registers, dimensions 2-16) reported in all four combinations of output type and method and in "
    "the default form; tiny-amplitude circuits (rotations by 1e-3 to 1e-14 on several registers, then permuted) "
    "whose smallest amplitudes (down to 1e-40) must be listed to 6 digits; spread circuits where every amplitude is nonzero; forms of report applied directly to columns in the formats backends leave, up to millions of rows; "
    "non-trivial: at least one gate."
)
REQUIRED = {"reports": 300, "entries": 1000, "tiny_entries": 100, "absent": 300, "two_digit_labels": 60, "many_registers": 100, "direct_reports": 300, "longest": 8}
FORMS = [(t, m) for t in ("print", "state") for m in ("amplitude", "probability")]


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(200 * k):
        r = rng_for("C07", seed, "circ", i)
        s = gen.circuit(r, maxn=72, nmax=6, dmax=9)
        if i % 3 == 0:
            s["ops"] = gen.probe_ops(s["dims"], r.randrange(2**30)) + s["ops"][:4]
        out.append({"what": "circuit", "spec": s})
    for i in range(30 * k):  # many registers, few entries: padding
        r = rng_for("C07", seed, "wide", i)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(r.randint(6, 9))]
        while model.size(dims) > 800:
            dims.pop()
        ops = [gen.op(r, dims, "xz") for _ in range(r.randint(0, 4))] + [["h", q] for q in r.sample(range(len(dims)), r.randint(0, 2))]
        out.append({"what": "circuit", "spec": {"dims": dims, "init": gen.init_states(r, dims), "backend": r.choice(["sparse", None]), "ops": ops}})
    for i in range(40 * k):  # two-digit levels
        r = rng_for("C07", seed, "high", i)
        dims = [r.randint(2, 4), r.randint(9, 16) if i % 3 else r.choice([17, 20, 32, 33, 64, 65, 100, 101, 128, 130])][: r.randint(1, 2)]
        r.shuffle(dims)
        out.append({"what": "circuit", "spec": {"dims": dims, "init": gen.init_states(r, dims), "backend": r.choice(["sparse", "numpy"]),
                                                "ops": gen.probe_ops(dims, i)[: r.randint(0, 2)] + [gen.op(r, dims, "hxzc") for _ in range(r.randint(0, 3))]}})
    for i in range(140 * k):
        r = rng_for("C07", seed, "tiny", i)
        out.append({"what": "tiny", "spec": gen.tiny(r)})
    for i in range(40 * k):  # more registers than the built-in backends can hold
        r = rng_for("C07", seed, "many", i)
        out.append({"what": "many", "spec": gen.wide(r, nmin=9, nmax=18 if i % 2 else 20, maxn=1 << 18 if i % 2 else 1 << 20, depth=r.randint(0, 4), superpose=5)})
    for i in range(20 * k):  # no gates at all: the built-in backends can
        r = rng_for("C07", seed, "empty", i)
        dims = [r.choice([2, 2, 2, 3]) for _ in range(r.randint(9, 18))]
        while model.size(dims) > 1 << 18:
            dims.pop()
        out.append({"what": "many", "spec": {"dims": dims, "init": gen.init_states(r, dims), "backend": r.choice(["sparse", "numpy", None]), "tuple": False, "ops": []}})
    for i in range(150 * k):  # the form of report applied to results of either backend
        r = rng_for("C07", seed, "direct", i)
        dims = gen.layout(r, maxn=400, nmax=7, dmax=10) if i % 3 else [r.choice([2, 2, 3]) for _ in range(r.randint(7, 14))]
        while model.size(dims) > 20000:
            dims.pop()
        out.append({"what": "direct", "dims": dims, "seed": r.randrange(2**30), "format": ["array", "csr", "bsr", "coo"][i % 4]})
    for i in range(5 * k):  # thousands of entries
        r = rng_for("C07", seed, "full", i)
        dims = [r.choice([2, 2, 3, 4, 10]) for _ in range(r.randint(4, 11))]
        top = r.choice([6000, 20000])
        while model.size(dims) > top:
            dims.pop()
        while model.size(dims) < top // 5:
            dims.append(r.choice([2, 3]))
        out.append({"what": "direct", "dims": dims, "seed": r.randrange(2**30), "format": r.choice(["array", "csr"]), "entries": r.choice([1000, 1025, 2000, 5000]) if top < 20000 else r.choice([9000, 20000, 200000])})
    for i in range(3 * k):  # columns of millions of rows
        r = rng_for("C07", seed, "longest", i)
        dims = [2] * 23 if i % 3 == 0 else [r.choice([2, 2, 2, 3]) for _ in range(24)]
        while model.size(dims) > 1 << 23:
            dims.pop()
        out.append({"what": "longest", "dims": dims, "seed": r.randrange(2**30), "format": r.choice(["csr", "bsr", "coo"])})
    return out


def nontrivial(case):
    return case["what"] in ("direct", "longest") or len(case["spec"]["ops"]) > 0


def direct(case, obs):
    """Output objects applied to columns as the backends leave them: entries of every kind
    (negative, imaginary, tiny, integer) at random, first and last positions."""
    r = rng_for("C07 direct", case["seed"])
    dims = case["dims"]
    n = model.size(dims)
    at = sorted(set(r.choice([[0, n - 1], [0], [n - 1], []]) + [r.randrange(n) for _ in range(case.get("entries") or r.choice([1, 1, 2, 5, 20]))]))
    real = r.random() < 0.3
    col = np.zeros((n, 1), dtype=float if real else complex)
    for i in at:
        size = r.choice([1.0, r.uniform(0.05, 1), 10.0 ** -r.uniform(1, 100)])
        col[i, 0] = size * (r.choice([1, -1]) if real else r.choice([1, -1, 1j, -1j, complex(math.cos(i), math.sin(i))]))
    if real and r.random() < 0.3:
        col = np.sign(col).astype(int)
    base = list(dims)
    out = {"array": lambda a: a, "csr": sp.csr_matrix, "bsr": lambda a: sp.bsr_matrix(a, blocksize=(1, 1)), "coo": sp.coo_matrix}[case["format"]]
    for t, m in FORMS:
        result = out(col.copy())
        with sut("applying the form of report to a %s" % case["format"]):
            report = drive.output_for(base, t, m)(result)
        entries = drive.report_entries(report, dims)
        got = [int(np.ravel_multi_index(e[0], dims)) for e in entries]
        expect(got == at, "%s/%s report of a %s column lists the positions %r, not %r", t, m, case["format"], got[:8], at[:8])
        for (levels, value), i in zip(entries, at):
            ref = col[i, 0]
            ref = abs(ref) ** 2 if m == "probability" else ref
            expect(abs(complex(value) - complex(ref)) <= 1e-12 * abs(ref), "%s of %r is reported as %r instead of %r", m, levels, value, ref)
            obs.hit("entries")
        back = result.toarray() if hasattr(result, "toarray") else result
        expect(np.array_equal(back, col), "reporting a %s column changed it", case["format"])
        obs.hit("direct_reports")
    expect(base == dims, "reporting changed the list of bases")


def longest(case, obs):
    """A sparse column of millions of rows with a few entries."""
    r = rng_for("C07 longest", case["seed"])
    dims = case["dims"]
    n = model.size(dims)
    at = sorted({0, n - 1, r.randrange(n), r.randrange(n)} - {r.choice([0, n - 1])})
    values = [r.uniform(0.1, 1) * r.choice([1, -1]) for _ in at]
    make = {"csr": sp.csr_matrix, "bsr": lambda a: sp.bsr_matrix(a, blocksize=(1, 1)), "coo": sp.coo_matrix}[case["format"]]
    for t, m in FORMS:
        result = make(sp.coo_matrix((values, (at, [0] * len(at))), shape=(n, 1)))
        with sut("applying the form of report to a long column"):
            report = drive.output_for(list(dims), t, m)(result)
        entries = drive.report_entries(report, dims)
        got = [int(np.ravel_multi_index(e[0], dims)) for e in entries]
        expect(got == at, "%s/%s report of a column of %d rows lists the positions %r, not %r", t, m, n, got[:8], at)
        for (levels, value), v in zip(entries, values):
            ref = v * v if m == "probability" else v
            expect(abs(complex(value) - ref) <= 1e-12 * abs(ref), "%s of %r is reported as %r instead of %r", m, levels, value, ref)
            obs.hit("entries")
        obs.hit("longest")


def spelled(spec, states, obs):
    """Labels of two-digit levels run together: they are compared as a whole."""
    want = ["|%s>" % "".join(map(str, levels)) for levels in states]
    for out in (None, drive.output_for(spec["dims"], "print", "amplitude"), drive.output_for(spec["dims"], "print", "probability")):
        got = [next(iter(item)) for item in drive.run(drive.build(spec, output=out))]
        expect(got == want, "the report lists the labels %r instead of %r", got[:8], want[:8])
        obs.hit("two_digit_labels", len(got))


def run_case(case, obs):
    if case["what"] == "direct":
        return direct(case, obs)
    if case["what"] == "longest":
        return longest(case, obs)
    spec = case["spec"]
    dims = spec["dims"]
    want = drive.expected_state(spec)
    tiny = case["what"] == "tiny"
    rows = {}
    for form in FORMS + ["default"]:
        if form == "default":
            if max(dims) > 10:
                continue
            t, m = "print", "amplitude"
            qc = drive.build(spec, output=None)
        else:
            t, m = form
            if t == "print" and max(dims) > 10:
                continue  # see spelled()
            qc = drive.build(spec, output=drive.output_for(dims, t, m))
        report = drive.run(qc)
        obs.hit("reports")
        for item in report:
            label = next(iter(item)) if isinstance(item, dict) and item else None
            expect(isinstance(label, str if t == "print" else tuple), "%s report has the label %r", t, label)
        entries = drive.report_entries(report, dims)
        rows[form] = entries
        seen = set()
        for levels, value in entries:
            ref = want[levels]
            value = complex(value)
            if m == "probability":
                expect(value.imag == 0 and value.real >= 0, "probability of %r is %r", levels, value)
                ref = abs(ref) ** 2
            tol = (1e-6 * abs(ref) if tiny else 0) + (1e-300 if tiny else 1e-9)
            expect(abs(value - ref) <= tol, "%s of %r is %r instead of %r", m, levels, value, complex(ref))
            seen.add(levels)
            obs.hit("entries")
            if tiny and abs(want[levels]) < 1e-6:
                obs.hit("tiny_entries")
        if case["what"] == "many":
            rest = want.copy()
            for levels in seen:
                rest[levels] = 0
            i = np.unravel_index(np.abs(rest).argmax(), rest.shape)
            expect(abs(rest[i]) <= 1e-9, "%r with amplitude %r is not in the report", i, complex(rest[i]))
            obs.hit("many_registers")
        for levels in np.ndindex(*dims) if case["what"] != "many" else ():
            if levels not in seen:
                floor = 1e-100 if tiny else 1e-9
                expect(abs(want[levels]) <= floor, "%r with amplitude %r is not in the report", levels, complex(want[levels]))
                obs.hit("absent")
    base = rows["state", "amplitude"]
    if max(dims) > 10:
        spelled(spec, [e[0] for e in base], obs)
    for form, entries in rows.items():
        expect([e[0] for e in entries] == [e[0] for e in base], "the %s report and the state/amplitude report list different states", form)
        for (levels, v), (_, a) in zip(entries, base):
            ref = abs(a) ** 2 if form[1] == "probability" else a
            expect(abs(v - ref) <= 1e-9 * abs(ref), "%s of %r is %r, but its amplitude is reported as %r", form, levels, v, a)
        obs.hit("forms_compared")
