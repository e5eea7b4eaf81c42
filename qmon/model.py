"""Reference model: a state-vector simulator for mixed-dimension registers.

Written from the definition of the gates, with the state as a tensor that has one axis
per register (register 0 first, i.e. most significant).  Shares no code with QuDiet."""
import cmath
import itertools
import math

import numpy as np


def size(dims):
    n = 1
    for d in dims:
        n *= d
    return n


def basis(dims, levels):
    v = np.zeros(tuple(dims), dtype=complex)
    v[tuple(levels)] = 1
    return v


def H(d):
    return np.array(
        [[cmath.exp(2j * math.pi * ((j * k) % d) / d) / math.sqrt(d) for k in range(d)] for j in range(d)]
    )


def X(d, p=1):
    m = np.zeros((d, d), dtype=complex)
    for k in range(d):
        m[(k + p) % d, k] = 1
    return m


def Z(d):
    return np.diag([cmath.exp(2j * math.pi * k / d) for k in range(d)])


def apply_matrix(state, mat, axes):
    """mat acts on the registers `axes`, the first of them most significant."""
    dims = state.shape
    k = len(axes)
    sub = tuple(dims[a] for a in axes)
    m = np.asarray(mat, dtype=complex).reshape(sub + sub)
    out = np.tensordot(m, state, axes=(list(range(k, 2 * k)), list(axes)))
    return np.moveaxis(out, list(range(k)), list(axes))


def apply_add(state, controls, target, plus):
    """target += plus (mod its dimension) where every control is at its top level."""
    dims = state.shape
    out = state.copy()
    sl = [slice(None)] * len(dims)
    for c in controls:
        sl[c] = dims[c] - 1
    sl = tuple(sl)
    # integer indices drop axes: find where the target axis ended up
    axis = target - sum(1 for c in set(controls) if c < target)
    out[sl] = np.roll(state[sl], plus % dims[target], axis=axis)
    return out


def umatrix(dims, desc):
    """The unitary described by a JSON-able description, on registers of these dims."""
    n = size(dims)
    kind = desc["kind"]
    r = np.random.RandomState(desc.get("seed", 0))
    if kind == "haar":
        a = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        q, t = np.linalg.qr(a)
        return q * (np.diag(t) / np.abs(np.diag(t)))
    if kind == "real":
        q, t = np.linalg.qr(r.normal(size=(n, n)))
        return q * np.sign(np.diag(t))
    if kind == "perm":
        m = np.zeros((n, n))
        m[r.permutation(n), np.arange(n)] = 1
        return m
    if kind == "intperm":
        return umatrix(dims, {"kind": "perm", "seed": desc["seed"]}).astype(int)
    if kind == "phase":
        return np.diag(np.exp(1j * r.uniform(0, 2 * math.pi, size=n)))
    if kind == "ident":
        return np.eye(n)
    if kind == "rot":  # rotation by a (possibly tiny) angle between two levels
        a, b = desc["levels"]
        m = np.eye(n)
        c, s = math.cos(desc["angle"]), math.sin(desc["angle"])
        m[a, a] = c
        m[b, b] = c
        m[a, b] = -s
        m[b, a] = s
        return m
    if kind == "dagger":
        return umatrix(dims, desc["of"]).conj().T
    if kind == "flip":  # the same gate with its registers in the opposite order
        k = len(dims)
        inner = list(dims)[::-1]
        m = umatrix(inner, desc["of"]).reshape(inner + inner)
        return m.transpose(list(range(k))[::-1] + list(range(k, 2 * k))[::-1]).reshape(n, n)
    raise ValueError(kind)


def regs_of(op):
    """Registers a gate reads or writes."""
    k = op[0]
    if k in ("h", "z", "x"):
        return [op[1]]
    if k == "cx":
        return [op[1], op[2]]
    if k == "tof":
        return sorted(set(op[1]) | {op[2]})
    if k == "u":
        return [op[1]] if isinstance(op[1], int) else list(op[1])
    raise ValueError(k)


def span_of(op):
    r = regs_of(op)
    return range(min(r), max(r) + 1)


def apply_op(state, op):
    d = state.shape
    k = op[0]
    if k == "h":
        return apply_matrix(state, H(d[op[1]]), [op[1]])
    if k == "z":
        return apply_matrix(state, Z(d[op[1]]), [op[1]])
    if k == "x":
        return np.roll(state, op[2] % d[op[1]], axis=op[1])
    if k == "cx":
        return apply_add(state, [op[1]], op[2], op[3])
    if k == "tof":
        return apply_add(state, op[1], op[2], op[3])
    if k == "u":
        axes = regs_of(op)
        return apply_matrix(state, umatrix([d[a] for a in axes], op[2]), axes)
    raise ValueError(k)


def inverse_op(op, dims):
    """Gates that undo op (H is undone by its inverse Fourier power, spelled H H H)."""
    k = op[0]
    if k == "h":
        return [["h", op[1]]] if dims[op[1]] == 2 else [["h", op[1]]] * 3
    if k == "z":
        return [["z", op[1]]] * (dims[op[1]] - 1)
    if k == "x":
        return [["x", op[1], -op[2]]]
    if k == "cx":
        return [["cx", op[1], op[2], -op[3]]]
    if k == "tof":
        return [["tof", op[1], op[2], -op[3]]]
    if k == "u":
        return [["u", op[1], {"kind": "dagger", "of": op[2]}]]
    raise ValueError(k)


def simulate(dims, init, ops):
    s = basis(dims, init)
    for op in ops:
        s = apply_op(s, op)
    return s


def operator(dims, ops):
    n = size(dims)
    cols = []
    for lv in itertools.product(*[range(d) for d in dims]):
        cols.append(simulate(dims, lv, ops).reshape(n))
    return np.array(cols).T


def pack(n, ops):
    """The documented layering: a standard single-register gate joins the last layer if
    its register is idle there, everything else opens a new layer.  Returns a list of
    layers, each a list of indices into ops."""
    layers = []
    busy = []
    for i, op in enumerate(ops):
        if op[0] in ("h", "x", "z") and layers and op[1] not in busy[-1]:
            layers[-1].append(i)
            busy[-1].add(op[1])
        else:
            layers.append([i])
            busy.append(set(span_of(op)))
    return layers
