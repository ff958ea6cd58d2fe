"""Reference semantics for small circuits, independent of qermit.

Dense numpy simulation with classical branching.  Supports gates (through
pytket's Op.get_unitary), boxes, barriers, Measure, Reset, conditionals and
optional Pauli noise inserted after named gates.  Convention: the state is an
array of shape (2,)*n indexed in the order of `qubits`.
"""

from . import boot  # noqa: F401

import numpy as np
from pytket import Bit, Circuit, OpType, Qubit
from pytket.passes import DecomposeBoxes

PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)


def pauli_matrix(letters):
    m = np.array([[1]], dtype=complex)
    for c in letters:
        m = np.kron(m, PAULI[c])
    return m


def apply_unitary(state, u, idx):
    """state has shape (2,)*n (+ trailing axes), u acts on axes idx (BE)."""
    k = len(idx)
    u = u.reshape((2,) * (2 * k))
    st = np.tensordot(u, state, axes=(list(range(k, 2 * k)), list(idx)))
    return np.moveaxis(st, list(range(k)), list(idx))


_NOOP = {OpType.Barrier, OpType.Phase, OpType.noop}


def _cond(op):
    return op.op, op.width, op.value


def flatten(circ):
    c = circ.copy()
    DecomposeBoxes().apply(c)
    return c


class Branch:
    __slots__ = ("bits", "state")

    def __init__(self, bits, state):
        self.bits = bits
        self.state = state


def simulate(circ, noise=None, init=None, decompose=True, prune=1e-14):
    """-> list of (dict Bit->0/1, unnormalised statevector array (2,)*n, qubits).

    noise: optional function(command) -> list of (letters, prob) over
    command.qubits giving a *probabilistic mixture* applied after the command
    (every branch is followed, so keep the number of noisy gates tiny).
    """
    c = flatten(circ) if decompose else circ
    qubits = list(c.qubits)
    n = len(qubits)
    pos = {q: i for i, q in enumerate(qubits)}
    if init is None:
        st = np.zeros((2,) * n, dtype=complex)
        st[(0,) * n] = 1.0
    else:
        st = init.reshape((2,) * n).astype(complex)
    branches = [({b: 0 for b in c.bits}, st)]

    def step(op, args, brs):
        out = []
        if op.type in _NOOP:
            return brs
        if op.type == OpType.Conditional:
            inner, width, value = _cond(op)
            cbits, rest = args[:width], args[width:]
            for bits, s in brs:
                v = sum(bits[b] << i for i, b in enumerate(cbits))
                if v == value:
                    out += step(inner, rest, [(bits, s)])
                else:
                    out.append((bits, s))
            return out
        if op.type == OpType.SetBits:
            vals = op.values
            for bits, s in brs:
                nb = dict(bits)
                for b, v in zip(args, vals):
                    nb[b] = int(v)
                out.append((nb, s))
            return out
        if op.type == OpType.Measure:
            q, b = args[0], args[1]
            for bits, s in brs:
                for v in (0, 1):
                    t = np.zeros_like(s)
                    sl = [slice(None)] * n
                    sl[pos[q]] = v
                    t[tuple(sl)] = s[tuple(sl)]
                    if np.vdot(t, t).real > prune:
                        nb = dict(bits)
                        nb[b] = v
                        out.append((nb, t))
            return out
        if op.type == OpType.Reset:
            q = args[0]
            for bits, s in brs:
                for v in (0, 1):
                    t = np.zeros_like(s)
                    sl = [slice(None)] * n
                    sl[pos[q]] = v
                    sl0 = list(sl)
                    sl0[pos[q]] = 0
                    t[tuple(sl0)] = s[tuple(sl)]
                    if np.vdot(t, t).real > prune:
                        out.append((dict(bits), t))
            return out
        u = op.get_unitary()
        idx = [pos[q] for q in args]
        return [(bits, apply_unitary(s, u, idx)) for bits, s in brs]

    for cmd in c.get_commands():
        branches = step(cmd.op, list(cmd.args), branches)
        if noise is not None:
            mix = noise(cmd)
            if mix:
                nb = []
                for bits, s in branches:
                    for letters, p in mix:
                        if p <= 0:
                            continue
                        t = s
                        for q, l in zip(cmd.qubits, letters):
                            if l != "I":
                                t = apply_unitary(t, PAULI[l], [pos[q]])
                        nb.append((bits, t * np.sqrt(p)))
                branches = nb
    return branches, qubits


def distribution(circ, bits=None, **kw):
    """Exact outcome distribution over `bits` (default: circ.bits in order)."""
    bits = list(circ.bits) if bits is None else list(bits)
    branches, _ = simulate(circ, **kw)
    d = {}
    for b, s in branches:
        p = float(np.vdot(s, s).real)
        k = tuple(b[x] for x in bits)
        d[k] = d.get(k, 0.0) + p
    return {k: v for k, v in d.items() if v > 1e-13}


def unitary(circ, qubits=None):
    """Unitary of a measurement-free circuit on `qubits` (default circ.qubits),
    implicit permutation included (pytket's own convention)."""
    c = flatten(circ)
    qs = list(c.qubits)
    order = list(qubits) if qubits is not None else qs
    n = len(order)
    pos = {q: i for i, q in enumerate(order)}
    st = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    for cmd in c.get_commands():
        if cmd.op.type in _NOOP:
            continue
        st = apply_unitary(st, cmd.op.get_unitary(), [pos[q] for q in cmd.args])
    perm = c.implicit_qubit_permutation()
    # content of wire q ends up at output perm[q]
    src = [None] * n
    for q in order:
        src[pos[perm.get(q, q)]] = pos[q]
    st = np.transpose(st, src + [n])
    u = st.reshape(2**n, 2**n)
    ph = complex(np.exp(1j * np.pi * float(c.phase)))
    return u * ph


def statevector(circ, qubits=None):
    return unitary(circ, qubits)[:, 0]


def equal_up_to_phase(u, v, tol=1e-8):
    if u.shape != v.shape:
        return False
    a = np.vdot(v.reshape(-1), u.reshape(-1))
    if abs(a) < 1e-12:
        return bool(np.allclose(u, v, atol=tol))
    ph = a / abs(a)
    return bool(np.allclose(u, v * ph, atol=tol))


def expectation(circ, qps, qubits=None):
    """<qps> in the state prepared by a measurement-free circ (final qubit labels)."""
    order = list(circ.qubits) if qubits is None else list(qubits)
    sv = statevector(circ, order)
    n = len(order)
    t = sv.reshape((2,) * n)
    for q, p in qps.map.items():
        l = p.name
        if l != "I":
            t = apply_unitary(t, PAULI[l], [order.index(q)])
    return float(np.vdot(sv.reshape(-1), t.reshape(-1)).real)


def tv(d1, d2):
    return 0.5 * sum(abs(d1.get(k, 0) - d2.get(k, 0)) for k in set(d1) | set(d2))


def total_counts(dist, n_shots):
    """Largest-remainder apportionment of n_shots to a distribution."""
    ks = sorted(dist)
    tot = sum(dist.values())
    raw = [dist[k] / tot * n_shots for k in ks]
    base = [int(np.floor(r + 1e-6)) for r in raw]
    left = int(n_shots) - sum(base)
    order = sorted(range(len(ks)), key=lambda i: (-(raw[i] - base[i]), i))
    i = 0
    while left > 0:
        base[order[i % len(ks)]] += 1
        left -= 1
        i += 1
    i = 0
    while left < 0:
        j = order[-1 - (i % len(ks))]
        if base[j] > 0:
            base[j] -= 1
            left += 1
        i += 1
    return {k: b for k, b in zip(ks, base) if b}


__all__ = ["Bit", "Circuit", "Qubit", "OpType"]
