"""C24: gates act locally.

Monitor: metamorphic comparison of the reports of two circuits, without the reference model."""
import numpy as np

from .. import drive, gen, model
from ..core import expect, rng_for

QUICK_SEEDS = 4
RULE = (
    "Random circuits compared with rearrangements of themselves: gates on disjoint registers requested in another order, untouched "
    "registers inserted anywhere (also between control and target) at any level, registers reversed, untouched registers dropped; "
    "every label and amplitude is compared; non-trivial: at least two gates."
)
REQUIRED = {"commuted": 60, "inserted": 100, "inserted_inside": 25, "reversed": 100, "dropped": 60, "swaps": 100}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(800 * k):
        r = rng_for("C24", seed, i)
        what = ["commute", "insert", "insert", "reverse", "drop"][i % 5]
        s = gen.circuit(r, maxn=48 if what != "drop" else 24, nmin=1 if what == "insert" else 2, nmax=5, dmax=5, depth=r.choice([2, 3, 5, 8, 12]))
        s["init"] = drive.init_of(s)
        s["tuple"] = False
        if r.random() < 0.5:  # from a generic state: every amplitude counts
            s["ops"] = gen.probe_ops(s["dims"], i) + s["ops"]
        c = {"what": what, "spec": s, "seed": r.randrange(2**30)}
        if what in ("insert", "drop"):
            # "drop" looks at the same pair of circuits from the other side
            d = r.randint(2, 5 if model.size(s["dims"]) <= 24 else 2)
            n = len(s["dims"])
            inside = [p for p in range(n + 1) if not any(o[0] == "u" and min(model.regs_of(o)) < p <= max(model.regs_of(o)) for o in s["ops"])]
            across = [p for p in inside if any(o[0] != "u" and min(model.regs_of(o)) < p <= max(model.regs_of(o)) for o in s["ops"])]
            c["at"] = r.choice(across) if across and r.random() < 0.6 else r.choice(inside)
            c["dim"], c["level"] = d, r.randrange(d)
            c["across"] = c["at"] in across
        out.append(c)
    for i in range(60 * k):  # many registers, some of them far apart
        r = rng_for("C24", seed, "wide", i)
        what = ["insert", "reverse", "commute"][i % 3]
        s = gen.wide(r, 6, 11, 1 << 12, depth=r.choice([2, 3, 5, 8]), kinds="xccctzh", span=1200, superpose=2)
        s["init"] = drive.init_of(s)
        s["tuple"] = False
        c = {"what": what, "spec": s, "seed": r.randrange(2**30)}
        if what == "insert":
            n = len(s["dims"])
            c["dim"] = r.choice([2, 2, 3])
            c["level"] = r.randrange(c["dim"])
            across = [p for p in range(n + 1) if any(min(model.regs_of(o)) < p <= max(model.regs_of(o)) for o in s["ops"])]
            c["at"] = r.choice(across) if across and r.random() < 0.8 else r.randint(0, n)
            c["across"] = c["at"] in across
        out.append(c)
    return out


NO_SHRINK = True


def nontrivial(case):
    return len(case["spec"]["ops"]) >= 2


def remap(op, f):
    k = op[0]
    if k == "cx":
        return ["cx", f(op[1]), f(op[2])] + op[3:]
    if k == "tof":
        return ["tof", [f(c) for c in op[1]], f(op[2])] + op[3:]
    if k == "u" and not isinstance(op[1], int):
        return ["u", [f(q) for q in op[1]]] + op[2:]
    return [op[0], f(op[1])] + op[2:]


def run_case(case, obs):
    spec, what = case["spec"], case["what"]
    dims, ops, init = spec["dims"], spec["ops"], spec["init"]
    r = rng_for("C24 run", case["seed"])
    base = report(spec)
    if what == "commute":
        new = list(ops)
        swaps = 0
        for _ in range(6 * len(new)):
            i = r.randrange(max(1, len(new) - 1))
            if i + 1 < len(new) and not set(model.regs_of(new[i])) & set(model.regs_of(new[i + 1])):
                new[i], new[i + 1] = new[i + 1], new[i]
                swaps += 1
        obs.hit("swaps", swaps)
        obs.hit("commuted", new != ops)
        compare(report(dict(spec, ops=new)), base, "gates requested in another order")
    elif what in ("insert", "drop"):
        p, d, lv = case["at"], case["dim"], case["level"]
        new = [remap(o, lambda q: q + (q >= p)) for o in ops]
        big = report(dict(spec, dims=dims[:p] + [d] + dims[p:], init=init[:p] + [lv] + init[p:], ops=new))
        want = [(l[:p] + (lv,) + l[p:], v) for l, v in base]
        compare(big, want, "with an untouched register of dimension %d at level %d inserted at %d" % (d, lv, p))
        obs.hit("inserted" if what == "insert" else "dropped")
        obs.hit("inserted_inside", case["across"])
    else:
        n = len(dims)
        new = []
        for o in ops:
            o = remap(o, lambda q: n - 1 - q)
            if o[0] == "u" and not isinstance(o[1], int):
                o = ["u", o[1][::-1], {"kind": "flip", "of": o[2]}]
            new.append(o)
        rev = report(dict(spec, dims=dims[::-1], init=init[::-1], ops=new))
        want = [(l[::-1], v) for l, v in base]
        compare(rev, want, "with the registers in the opposite order")
        obs.hit("reversed")


def report(spec):
    return drive.report_entries(drive.run(drive.build(spec)), spec["dims"])


def compare(got, want, what):
    a, b = dict(got), dict(want)
    for l in sorted(set(a) | set(b)):
        x, y = a.get(l, 0), b.get(l, 0)
        # rounding may leave residue in one circuit and not in the other
        expect(np.isfinite(x) and abs(x - y) <= drive.ATOL, "%s, %r has amplitude %r instead of %r", what, l, x, y)
    expect(abs(sum(abs(v) ** 2 for v in a.values()) - 1) <= 1e-8, "%s, the probabilities do not add up to 1", what)
