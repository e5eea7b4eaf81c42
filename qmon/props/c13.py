"""C13: a QASM program is the circuit it spells."""
import glob
import os

from .. import drive, gen, model, qasm
from ..core import expect, rng_for, sut
from ..env import REPO

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

RULE = (
    "Random programs over every instruction and spelling (declarations as qubit/qutrit/qudit, X/x/RX 180, CX/CNOT with and "
    "without increment, negative and large increments, Toffolis sharing second controls), parsed on either backend and the default, and the program files in the "
    "repository small enough to simulate; compared with the reference model and, layer by layer and drawing, with the circuit "
    "built through the API; non-trivial: at least two instructions."
)
REQUIRED = {"programs": 150, "toffoli_programs": 40, "instructions": 600, "files": 5, "large_dimensions": 30}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    limit = (150, 260) if tier == "quick" else (500, 1100)
    for path in sorted(glob.glob(os.path.join(REPO, "testbench", "**", "*.*"), recursive=True)) + [os.path.join(REPO, "test.qasm")]:
        if not path.endswith((".txt", ".qasm")) or not os.path.exists(path) or os.path.getsize(path) > 60000:
            continue
        with open(path) as f:
            got = qasm.read_file(f.read())
        if got is None:
            continue
        declared, ops = got
        dims = qasm.raised(declared, ops)
        if model.size(dims) <= limit[1] and len(ops) <= limit[0]:
            for b in ("numpy", "sparse"):
                out.append({"what": "file", "path": os.path.relpath(path, REPO), "declared": declared, "ops": ops, "backend": b})
        elif model.size(dims) <= 10**6 and len(ops) <= limit[0] and not any(o[0] == "h" for o in ops) and max(model.size([dims[q] for q in model.span_of(o)]) for o in ops) <= limit[1]:
            out.append({"what": "file", "path": os.path.relpath(path, REPO), "declared": declared, "ops": ops, "backend": "sparse"})
    for i in range(420 * k):
        r = rng_for("C13", seed, i)
        declared = gen.layout(r, maxn=48, nmin=1, nmax=6, dmax=6)
        kinds = r.choice(["hxzct", "xctt", "xct", "hxz", "xc", "t", "ctt"]) if len(declared) >= 3 else r.choice(["hxzc", "hxz", "xc"]) if len(declared) > 1 else "hxz"
        ops = qasm.random_ops(r, declared, r.choice([0, 1, 2, 3, 4, 6, 8, 12]), 120, kinds)
        out.append({"what": "program", "declared": declared, "ops": ops, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(40 * k):  # two-digit register numbers; the larger ones are not run
        r = rng_for("C13", seed, "many", i)
        n = r.randint(11, 13) if i % 4 == 0 else r.randint(11, 25)
        declared = [2] * n if n <= 13 else [r.choice([2, 2, 3, 4]) for _ in range(n)]
        ops = []
        for _ in range(r.randint(2, 6)):
            q = r.randrange(n) if r.random() < 0.5 else r.randrange(10, n)
            p = max(0, q - r.randint(1, 3)) if q else 1
            o = r.choice([["x", q, r.choice([1, 1, 2, 12, -1])], ["z", q], ["cx", p, q, r.choice([1, 1, 10, -11])], ["cx", q, p, 1]] + ([["h", q]] if n > 13 else []))
            if q >= 2 and r.random() < 0.3:
                o = ["tof", [q, q - 1], q - 2, 1] if r.random() < 0.5 else ["tof", [q - 2, q], q - 1, 1]
            ops.append(o)
        out.append({"what": "program" if n <= 13 else "layers", "declared": declared, "ops": ops, "backend": r.choice(["sparse", None]), "seed": r.randrange(2**30)})
    for i in range(8 * k):  # three-digit register numbers: not run
        r = rng_for("C13", seed, "hundred", i)
        n = r.choice([101, 102, 105, 111, 120, 130])
        declared = [r.choice([2, 2, 3, 4]) for _ in range(n)]
        ops = []
        for _ in range(r.randint(6, 14)):
            q = r.choice([r.randrange(3, n), n - 1, r.randrange(99, n)])
            p = q - r.randint(1, 3)
            a, b = r.choice([[p, q], [q, p]])
            ops.append(r.choice([["x", q, r.choice([1, 1, 2, 12, -1])], ["z", q], ["h", q], ["cx", a, b, r.choice([1, 1, 10, -11])]] + ([["tof", r.choice([[q, q - 1], [q - 1, q]]), q - 2, 1]] if i % 2 else [])))
        out.append({"what": "layers", "declared": declared, "ops": ops, "backend": r.choice(["sparse", None]), "seed": r.randrange(2**30)})
    for i in range(3 * k):  # very many Toffolis
        r = rng_for("C13", seed, "toffolis", i)
        declared = [2] * r.randint(3, 4)
        ops = qasm.random_ops(r, declared, r.choice([70, 130, 260, 520]), 60, "t")
        last = r.choice([o for o in ([["tof", [a, b], c, 1] for a in range(3) for b in range(3) for c in range(3) if len({a, b, c}) == 3])])
        ops = [o for o in ops if o[0] == "tof" and o[1][1] != last[1][1]] * 2 + [last]
        out.append({"what": "layers", "declared": declared, "ops": ops, "backend": r.choice(["sparse", None]), "seed": r.randrange(2**30)})
    for i in range(48 * k):  # one or two instructions again and again
        r = rng_for("C13", seed, "again", i)
        declared = [2] * 4 if i % 2 else gen.layout(r, maxn=24, nmin=3, nmax=4, dmax=4)
        few = qasm.random_ops(r, declared, r.choice([1, 1, 1, 2]), 60, "t" if i % 2 else "hxzctt")
        if i % 2:  # every Toffoli of four registers in its turn
            turn = [["tof", [x, y], z, 1] for x in range(4) for y in range(4) for z in range(4) if len({x, y, z}) == 3]
            few = [turn[(i // 2) % 24]]
        ops = few * (r.randint(7, 20) // len(few))
        out.append({"what": "program", "declared": declared, "ops": ops, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(2 * k):  # long programs
        r = rng_for("C13", seed, "long", i)
        declared = gen.layout(r, maxn=12, nmin=1, nmax=3, dmax=4)
        kinds = "hxzct" if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
        ops = qasm.random_ops(r, declared, r.choice([300, 1100]), 24, kinds)
        out.append({"what": "program", "declared": declared, "ops": ops, "backend": r.choice(["numpy", "sparse", None]), "seed": r.randrange(2**30)})
    for i in range(50 * k):  # dimensions of two and three digits
        r = rng_for("C13", seed, "large", i)
        declared = [r.choice([2, 3, 10, 11, 12, 13, r.randint(10, 40), r.choice([100, 101, 120])]) for _ in range(r.randint(1, 3))]
        if i % 4 == 0:
            declared = [10] + [r.choice([2, 3])] * r.randint(0, 1)
        n = len(declared)
        ops = []
        for _ in range(r.randint(1, 4)):
            q = r.randrange(n)
            o = ["x", q, r.choice([1, 9, 10, 11, -10, 100])] if r.random() < 0.5 else [r.choice("hz"), q]
            if n > 1 and r.random() < 0.4:
                a = r.randrange(n - 1)
                pair = [a, a + 1] if r.random() < 0.5 else [a + 1, a]
                if model.size([declared[x] for x in pair]) <= 160:
                    o = ["cx"] + pair + [r.choice([1, 10, 11, -12])]
            ops.append(o)
        if i % 3 == 0:  # second Toffoli controls of one and of two digits
            declared = [r.choice([2, 3]), r.choice([8, 9, 9, 10, 11, 19]), 2]
            r.shuffle(declared)
            n = 3
            ops = [["tof", c[:2], c[2], 1] for c in [r.sample(range(3), 3) for _ in range(r.randint(1, 2))]]
            if model.size(qasm.raised(declared, ops)) > 160:
                ops = ops[:1]
            ops.insert(r.randint(0, len(ops)), ["x", r.randrange(3), r.choice([1, 8, 9, -10])])
        out.append({"what": "program" if max(qasm.raised(declared, ops)) <= 10 else "layers", "declared": declared, "ops": ops, "backend": r.choice(["sparse", None]), "seed": r.randrange(2**30), "large": True})
    return out


def nontrivial(case):
    return len(case["ops"]) >= 2


def run_case(case, obs):
    declared, ops = case["declared"], case["ops"]
    dims = qasm.raised(declared, ops)
    backend = drive.BACKENDS[case["backend"]]
    if case["what"] == "file":
        with sut("parse_qasm(%s)" % case["path"]):
            qc = parse_qasm(os.path.join(REPO, case["path"]), backend)
        obs.hit("files")
        text = case["path"]
    else:
        text = qasm.program(rng_for("C13 text", case["seed"]), dims, ops, declared)
        with sut("circuit_from_qasm(%r)" % text):
            qc = circuit_from_qasm(text, backend) if backend else circuit_from_qasm(text)
    obs.hit("programs")
    obs.hit("instructions", len(ops))
    if case.get("large"):
        obs.hit("large_dimensions")
    if any(o[0] == "tof" for o in ops):
        obs.hit("toffoli_programs")
    spec = {"dims": dims, "init": None, "backend": case["backend"], "ops": ops}
    api = drive.build(spec)
    with sut("reading the circuits"):
        expect(str(qc) == str(api), "the circuit of %r is drawn as\n%s\ninstead of\n%s", text, str(qc), str(api))
        expect(drive.shape_of(qc) == drive.shape_of(api), "the circuit of %r has other layers than its gates give through the API", text)
        expect(qc.get_circuit_config() == api.get_circuit_config(), "the circuit of %r has another configuration", text)
        expect(qc.get_circuit_info() == api.get_circuit_info(), "the circuit of %r has another summary", text)
    if case["what"] == "layers":
        with sut("reading the circuits"):
            expect([(g.dim, g.state) for g in qc.op_flow.peek()[0].peek_list()] == [(d, 0) for d in dims], "the circuit of %r has other registers", text)
            expect(drive.snapshot(qc) == drive.snapshot(api), "the circuit of %r has other gates than the API gives", text)
        obs.hit("layer_comparisons")
        return
    got = drive.report_state(drive.run(qc), dims)
    drive.same_state(got, model.simulate(dims, [0] * len(dims), ops), "report of %r" % text, 1e-9 * (1 + len(ops) / 20))
    obs.hit("reports")
