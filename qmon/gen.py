"""Workload generators. Everything is drawn from the random generator it is given."""
from . import model

MAXN = 96


def layout(r, maxn=MAXN, nmin=1, nmax=6, dmax=6):
    """Random register dimensions whose product is at most maxn."""
    for _ in range(200):
        n = r.randint(nmin, nmax)
        style = r.random()
        if style < 0.25:
            d = r.choice([2, 2, 3, 3, 4, 5])
            dims = [d] * n
        elif style < 0.6:
            dims = [r.choice([2, 2, 3]) for _ in range(n)]
        else:
            dims = [r.randint(2, dmax) for _ in range(n)]
        if model.size(dims) <= maxn:
            return dims
    return [2] * nmin


def init_states(r, dims):
    s = r.random()
    if s < 0.15:
        return None
    if s < 0.25:
        return [r.randrange(d) for d in dims[: r.randint(0, len(dims))]]
    if s < 0.55:  # controls at their top level
        return [d - 1 if r.random() < 0.7 else r.randrange(d) for d in dims]
    return [r.randrange(d) for d in dims]


def udesc(r, dims):
    n = model.size(dims)
    k = r.choice(["haar", "haar", "perm", "intperm", "phase", "real", "ident", "rot"])
    if k == "rot":
        a = r.randrange(n)
        b = r.choice([i for i in range(n) if i != a])
        return {"kind": "rot", "levels": [a, b], "angle": r.choice([1e-5, 1e-4, 1e-3, 0.01, 0.3, 1.0, 2.5])}
    if k == "ident":
        return {"kind": "ident"}
    return {"kind": k, "seed": r.randrange(2**31)}


def plus_huge(r, wider=True):
    """A huge increment; one that fits into 64 bits unless wider."""
    beyond = [2**63, 2**64, 2**70, 10**20, 10**40] if wider else []
    return r.choice([1, -1]) * (r.choice([2**15, 2**16, 2**31, 2**32, 2**53, 2**61] + beyond) + r.randint(-9, 9))


def plus_for(r, d, wide=True):
    s = r.random()
    if s < 0.3:
        return 1
    if s < 0.8 or not wide:
        return r.randint(1, d - 1)
    far = r.choice([20, 20, 300, 5000]) * d
    return r.choice([0, -1, -r.randint(1, d), d, d + r.randint(0, d), r.randint(-3 * d, 3 * d), r.randint(-far, far), r.randint(-far, far)])


def op(r, dims, kinds="hxzctu", levels=None, wide=True):
    """One random gate; `levels` (a classical guess of the state) biases controls so that
    controlled gates fire about as often as they do not."""
    n = len(dims)
    for _ in range(100):
        k = r.choice(kinds)
        if k == "h":
            return ["h", r.randrange(n)]
        if k == "z":
            return ["z", r.randrange(n)]
        if k == "x":
            q = r.randrange(n)
            return ["x", q, plus_for(r, dims[q], wide)]
        if k == "c" and n >= 2:
            c, t = r.sample(range(n), 2)
            if levels is not None and r.random() < 0.6:
                tops = [i for i in range(n) if levels[i] == dims[i] - 1]
                if tops:
                    c = r.choice(tops)
                    t = r.choice([i for i in range(n) if i != c])
            return ["cx", c, t, plus_for(r, dims[t], wide)]
        if k == "t" and n >= 2:
            m = r.randint(2, min(n, r.choice([3, 4, 4, n])))
            regs = r.sample(range(n), m)
            return ["tof", regs[:-1], regs[-1], plus_for(r, dims[regs[-1]], wide)]
        if k == "u":
            if n >= 2 and r.random() < 0.45:
                w = r.choice([2, 2, 2, 3, r.randint(3, 6)])
                a = r.randrange(max(1, n - w + 1))
                regs = list(range(a, a + w))
                if n >= w and (w <= 3 or model.size([dims[q] for q in regs]) <= 64):
                    return ["u", regs, udesc(r, [dims[q] for q in regs])]
            q = r.randrange(n)
            return ["u", q if r.random() < 0.8 else [q], udesc(r, [dims[q]])]
    return ["x", 0, 1]


def classical_step(levels, o, dims):
    k = o[0]
    if k == "x":
        levels[o[1]] = (levels[o[1]] + o[2]) % dims[o[1]]
    elif k in ("cx", "tof"):
        cs = [o[1]] if k == "cx" else o[1]
        if all(levels[c] == dims[c] - 1 for c in cs):
            levels[o[2]] = (levels[o[2]] + o[3]) % dims[o[2]]


def circuit(r, maxn=MAXN, nmin=1, nmax=6, dmax=6, depth=None, kinds=None, backend="any", wide=True):
    dims = layout(r, maxn, nmin, nmax, dmax)
    init = init_states(r, dims)
    if kinds is None:
        kinds = r.choice(["hxzctu", "hxzctu", "hxzct", "xctt", "hxz", "xc", "hxzccc", "uuhx", "hzzx", "xhu"])
    if depth is None:
        depth = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24])
    levels = list(init or []) + [0] * (len(dims) - len(init or []))
    ops = []
    focus = r.sample(range(len(dims)), min(len(dims), 2)) if r.random() < 0.2 else None
    repeat = 0.85 if r.random() < 0.06 else 0.12
    while len(ops) < depth:
        if ops and r.random() < repeat:
            o = list(r.choice(ops[-3:]))  # repeat a recent gate
        else:
            o = op(r, dims, kinds, levels, wide)
            if focus and o[0] in "hxz" and r.random() < 0.7:
                o[1] = r.choice(focus)
                if o[0] == "x":
                    o[2] = plus_for(r, dims[o[1]], wide)
        classical_step(levels, o, dims)
        ops.append(o)
    if backend == "any":
        backend = r.choice(["numpy", "sparse", None])
    return {
        "dims": dims,
        "init": init,
        "backend": backend,
        "tuple": len(set(dims)) == 1 and r.random() < 0.4,
        "ops": ops,
    }


def probe_ops(dims, seed):
    """Custom gates that take any basis state to a generic product state: every amplitude
    nonzero and no two alike, so that one run distinguishes any two operators."""
    return [["u", q, {"kind": "haar", "seed": (seed * 31 + q) % 2**31}] for q in range(len(dims))]


def wide(r, nmin=10, nmax=18, maxn=1 << 18, depth=None, kinds="xxcctz", span=96, superpose=2, dmax=3):
    """Many registers, mostly qubits, with classical gates and a few superpositions.  The widest
    run on the lean backend, which keeps them cheap whatever becomes of the sparse one (C30)."""
    n = r.randint(nmin, nmax)
    dims = [2] * n
    for q in r.sample(range(n), r.randint(0, min(n, 4))):
        dims[q] = r.randint(3, dmax) if dmax > 3 else 3
    while model.size(dims) > maxn:
        big = [q for q in range(n) if dims[q] > 2]
        if big:
            dims[r.choice(big)] = 2
        else:
            n -= 1
            dims.pop()
    init = init_states(r, dims)
    levels = list(init or []) + [0] * (n - len(init or []))
    ops = []
    for _ in range(depth if depth is not None else r.choice([1, 2, 4, 7, 12])):
        for _ in range(80):
            o = op(r, dims, kinds, levels)
            if model.size([dims[q] for q in model.span_of(o)]) <= span:
                break
        else:
            o = ["x", r.randrange(n), 1]
        classical_step(levels, o, dims)
        ops.append(o)
    for _ in range(r.randint(0, superpose)):
        ops.insert(r.randint(0, len(ops)), ["h", r.randrange(n)])
    backend = r.choice(["lean", "sparse", None]) if model.size(dims) <= 2048 else "lean"
    return {"dims": dims, "init": init, "backend": backend, "tuple": len(set(dims)) == 1 and r.random() < 0.4, "ops": ops}


def tiny(r, maxn=64, nmax=4, dmax=5):
    """Rotations by tiny angles, then permutations: amplitudes of very different size, each
    the result of products only (no cancellation)."""
    dims = layout(r, maxn=maxn, nmax=nmax, dmax=dmax)
    init = [r.randrange(d) for d in dims]
    ops = []
    for q, d in enumerate(dims):
        if r.random() < 0.75:
            other = r.choice([x for x in range(d) if x != init[q]])
            ops.append(["u", q, {"kind": "rot", "levels": [init[q], other], "angle": 10.0 ** -r.uniform(0.5, 14)}])
    for _ in range(r.randint(0, 3)):
        ops.append(op(r, dims, "xctz"))
    return {"dims": dims, "init": init, "backend": r.choice(["numpy", "sparse", None]), "ops": ops}
