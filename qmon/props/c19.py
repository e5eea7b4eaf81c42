"""C19: equivalent descriptions of a circuit give equivalent circuits."""
from .. import drive, gen, model
from ..core import expect, rng_for, sut

from qudiet.core.quantum_circuit import QuantumCircuit

RULE = (
    "Random circuits each built in the plainest way and in several random equivalent ways (tuple of registers, missing initial "
    "levels, explicit dimensions, default or explicit increments, positional or keyword arguments, tuples or lists, gate(HGate, q) "
    "instead of the method, one-element lists, explicit default backend and output); all are compared with each other and with the "
    "reference model; non-trivial: at least one gate."
)
REQUIRED = {
    "variants": 400, "tuple_registers": 40, "short_initial": 50, "no_initial": 15, "explicit_dims": 300, "default_plus": 80,
    "pair_list": 40, "pair_tuple": 40, "gate_class": 80, "one_element_list": 40, "default_output": 100, "named": 100, "debug_flag": 100,
}


def cases(tier, seed):
    k = 1 if tier == "quick" else 25
    out = []
    for i in range(190 * k):
        r = rng_for("C19", seed, i)
        s = gen.circuit(r, maxn=60, nmin=1, nmax=5, dmax=6, depth=r.choice([0, 1, 2, 4, 7, 10]))
        if r.random() < 0.3:
            d = r.choice([2, 3, 4, 5])
            n = r.randint(1, {2: 5, 3: 3, 4: 2, 5: 2}[d])
            s = gen.circuit(r, maxn=d**n, nmin=n, nmax=n, dmax=d, depth=r.randint(0, 6))
        init = drive.init_of(s)
        if r.random() < 0.4:
            cut = r.randrange(len(init) + 1)
            init = init[:cut] + [0] * (len(init) - cut)
        s["init"] = init
        out.append({"spec": s, "seed": r.randrange(2**30)})
    return out


def nontrivial(case):
    return len(case["spec"]["ops"]) > 0


def build_variant(spec, r, obs):
    dims, init = spec["dims"], spec["init"]
    if len(set(dims)) == 1 and r.random() < 0.7:
        qregs = (len(dims), dims[0])
        obs.hit("tuple_registers")
    else:
        qregs = list(dims)
    kw = {}
    zeros = 0
    while zeros < len(init) and init[len(init) - 1 - zeros] == 0:
        zeros += 1
    drop = r.randint(0, zeros)
    given = init[: len(init) - drop]
    if drop and drop == len(init) and r.random() < 0.6:
        obs.hit("no_initial")
        if r.random() < 0.4:
            kw["init_states"] = None
    else:
        kw["init_states"] = given
        if drop:
            obs.hit("short_initial")
    b = drive.BACKENDS[spec.get("backend")]
    if b is not None or r.random() < 0.3:
        kw["backend"] = b
    if max(dims) > 10:
        kw["output"] = drive.output_for(dims)
    elif r.random() < 0.5:
        kw["output"] = drive.output_for(dims, "print", "amplitude")
        obs.hit("default_output")
    if r.random() < 0.3:
        kw["name"] = r.choice(["c", "", "x0"])
        obs.hit("named")
    if r.random() < 0.4:
        kw["debug"] = r.random() < 0.4
        obs.hit("debug_flag")
    if r.random() < 0.2:
        kw["cregs"] = r.choice([0, 1, 3])
    qc = QuantumCircuit(qregs, **kw) if r.random() < 0.7 else QuantumCircuit(qregs=qregs, **kw)
    for o in spec["ops"]:
        expect(request(qc, o, dims, r, obs) is True, "an equivalent request for %r was refused", o)
    qc.measure_all()
    return qc


def request(qc, o, dims, r, obs):
    k = o[0]
    kw = {}
    if k in ("h", "z"):
        q = o[1]
        if r.random() < 0.3:
            obs.hit("gate_class")
            cls = drive.HGate if k == "h" else drive.ZGate
            if r.random() < 0.3:
                obs.hit("explicit_dims")
                return qc.gate(cls, q, dims[q])
            return qc.gate(cls, q) if r.random() < 0.7 else qc.gate(gate=cls, qreg=q)
        if r.random() < 0.5:
            kw["dims"] = r.choice([dims[q], dims[q], None])
            obs.hit("explicit_dims")
        f = getattr(qc, k)
        return f(q, **kw) if r.random() < 0.6 else f(qreg=q, **kw)
    if k == "x":
        q, p = o[1], o[2]
        if p == 1 and r.random() < 0.7:
            obs.hit("default_plus")
            if r.random() < 0.4:
                obs.hit("explicit_dims")
                return qc.x(q, dims[q])
            return qc.x(q)
        if r.random() < 0.5:
            obs.hit("explicit_dims")
            return qc.x(q, dims[q], p) if r.random() < 0.5 else qc.x(q, plus=p, dims=dims[q])
        return qc.x(q, plus=p)
    if k == "cx":
        c, t, p = o[1:4]
        if r.random() < 0.5:
            pair = [c, t]
            obs.hit("pair_list")
        else:
            pair = (c, t)
            obs.hit("pair_tuple")
        if r.random() < 0.3:
            kw["dims"] = r.choice([None, min(dims[c], dims[t])])
            obs.hit("explicit_dims")
        return qc.cx(pair, p, **kw) if r.random() < 0.5 else qc.cx(acting_on=pair, plus=p, **kw)
    if k == "tof":
        controls, t, p = o[1:4]
        if r.random() < 0.5:
            q = [list(controls), t]
            obs.hit("pair_list")
        else:
            q = (list(controls), t)
            obs.hit("pair_tuple")
        if p == 1 and r.random() < 0.7:
            obs.hit("default_plus")
            return qc.toffoli(q)
        return qc.toffoli(q, p) if r.random() < 0.5 else qc.toffoli(qreg=q, plus=p)
    regs = model.regs_of(o)
    cls = drive.custom([dims[q] for q in regs], o[2])
    if len(regs) == 1:
        q = regs[0]
        if r.random() < 0.5:
            obs.hit("one_element_list")
            return qc.gate(cls, [q])
        if r.random() < 0.4:
            obs.hit("explicit_dims")
            return qc.gate(cls, q, dims[q])
        return qc.gate(cls, q)
    return qc.gate(cls, list(regs))


def run_case(case, obs):
    spec = dict(case["spec"], tuple=False)
    dims = spec["dims"]
    plain = drive.build(spec)
    report = drive.run(plain)
    drive.same_state(drive.report_state(report, dims), model.simulate(dims, spec["init"], spec["ops"]), "report")
    with sut("inspecting"):
        want = (str(plain), plain.get_circuit_config(), plain.get_circuit_info())
    for v in range(3):
        r = rng_for("C19 variant", case["seed"], v)
        with sut("building the circuit in an equivalent way"):
            qc = build_variant(spec, r, obs)
        got = drive.run(qc)
        expect([list(e) for e in got] == [list(e) for e in report], "an equivalent circuit reports %r instead of %r", got[:6], report[:6])
        drive.same_state(drive.report_state(got, dims), drive.report_state(report, dims), "report of an equivalent circuit")
        with sut("inspecting"):
            have = (str(qc), qc.get_circuit_config(), qc.get_circuit_info())
        expect(have[0] == want[0], "an equivalent circuit is drawn as\n%s\ninstead of\n%s", have[0], want[0])
        expect(have[1] == want[1], "an equivalent circuit has configuration %r instead of %r", have[1], want[1])
        expect(have[2] == want[2], "an equivalent circuit has summary %r instead of %r", have[2], want[2])
        obs.hit("variants")
