"""Clifford circuits as signed symplectic tableaux (reference implementation)."""

import numpy as np
from pytket import OpType


def _mat(x, z):
    m = np.array([[1]], complex)
    for a, b in zip(x, z):
        m = np.kron(m, [[np.eye(2), np.diag([1, -1])], [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])]][a][b])
    return m


def conjugates(u, k):
    """x, z bits -> (bits of the image under u, sign)"""
    bits = [tuple(b >> i & 1 for i in range(2 * k)) for b in range(4**k)]
    mats = {b: _mat(b[:k], b[k:]) for b in bits}
    out = {}
    for b in bits:
        m = u @ mats[b] @ u.conj().T
        for b2 in bits:
            v = np.trace(mats[b2] @ m) / 2**k
            if abs(v) > 0.5:
                if abs(abs(v) - 1) > 1e-6:
                    raise ValueError("not a Clifford gate")
                out[b] = (b2, int(v.real < 0))
                break
        else:
            raise ValueError("not a Clifford gate")
    return out


def tableau(circ, qubits=None):
    """Images U P U^-1 of X_0..X_{n-1}, Z_0..Z_{n-1}: rows of X, Z bits and signs."""
    qs = list(qubits or circ.qubits)
    n = len(qs)
    X = np.zeros((2 * n, n), int)
    Z = np.zeros((2 * n, n), int)
    S = np.zeros(2 * n, int)
    for i in range(n):
        X[i, i] = 1
        Z[n + i, i] = 1

    def h(a):
        nonlocal S
        S ^= X[:, a] & Z[:, a]
        t = X[:, a].copy()
        X[:, a] = Z[:, a]
        Z[:, a] = t

    def s(a):
        nonlocal S
        S ^= X[:, a] & Z[:, a]
        Z[:, a] ^= X[:, a]

    def cx(a, b):
        nonlocal S
        S ^= X[:, a] & Z[:, b] & (X[:, b] ^ Z[:, a] ^ 1)
        X[:, b] ^= X[:, a]
        Z[:, a] ^= Z[:, b]

    def pauli(x, z, a):
        nonlocal S
        if x:
            S ^= Z[:, a]
        if z:
            S ^= X[:, a]

    for c in circ.get_commands():
        q = [qs.index(a) for a in c.args]
        t = c.op.type
        if t == OpType.H:
            h(q[0])
        elif t == OpType.S:
            s(q[0])
        elif t == OpType.Sdg:
            s(q[0]), pauli(0, 1, q[0])
        elif t in (OpType.V, OpType.SX):
            h(q[0]), s(q[0]), h(q[0])
        elif t in (OpType.Vdg, OpType.SXdg):
            h(q[0]), s(q[0]), pauli(0, 1, q[0]), h(q[0])
        elif t == OpType.X:
            pauli(1, 0, q[0])
        elif t == OpType.Y:
            pauli(1, 1, q[0])
        elif t == OpType.Z:
            pauli(0, 1, q[0])
        elif t == OpType.CX:
            cx(*q)
        elif t == OpType.CZ:
            h(q[1]), cx(*q), h(q[1])
        elif t == OpType.CY:
            s(q[1]), pauli(0, 1, q[1]), cx(*q), s(q[1])
        elif t == OpType.SWAP:
            cx(*q), cx(q[1], q[0]), cx(*q)
        elif t in (OpType.noop, OpType.Barrier, OpType.Phase):
            pass
        else:
            # any other Clifford gate, by its matrix
            k = len(q)
            tab = conjugates(c.op.get_unitary(), k)
            for r in range(2 * n):
                key = tuple(int(X[r, a]) for a in q) + tuple(int(Z[r, a]) for a in q)
                new, sg = tab[key]
                for j, a in enumerate(q):
                    X[r, a], Z[r, a] = new[j], new[k + j]
                S[r] ^= sg
    return X, Z, S


def image(X, Z, S, mask):
    """Image of one Hermitian Pauli (mask as in image_table): mask and sign."""
    n2 = len(S)
    n = n2 // 2
    low = (1 << n) - 1
    # i^{|x&z|} X^x Z^z, multiplied out in the order of the generators
    a, ph = 0, bin(mask & low & (mask >> n)).count("1")
    for r in range(n2):
        if not mask >> r & 1:
            continue
        b = sum(int(X[r, i]) << i for i in range(n)) | sum(int(Z[r, i]) << (n + i) for i in range(n))
        c = a ^ b
        ph += bin(a & low & (a >> n)).count("1") + bin(b & low & (b >> n)).count("1")
        ph += 2 * bin((a >> n) & b & low).count("1") - bin(c & low & (c >> n)).count("1") + 2 * int(S[r])
        a = c
    assert ph % 2 == 0
    return a, ph // 2 % 2


def image_table(X, Z, S):
    """Images of all 4^n Paulis, indexed by bit mask over the 2n generators
    (bit i: X_i, bit n+i: Z_i): masks and signs of the Hermitian images."""
    n2 = len(S)
    n = n2 // 2
    img = [0] * n2
    for r in range(n2):
        img[r] = sum(int(X[r, i]) << i for i in range(n)) | sum(int(Z[r, i]) << (n + i) for i in range(n))
    low = (1 << n) - 1
    # P(mask) = i^{|x&z|} X^x Z^z (Hermitian)
    N = 1 << n2
    mask = np.zeros(N, int)
    ph = np.zeros(N, int)  # power of i for the product of images in generator order (X first then Z)
    for m in range(1, N):
        top = m.bit_length() - 1
        prev = m ^ (1 << top)
        a, b = int(mask[prev]), img[top]
        # a stored as i^{ph} * Hermitian(a); multiply Hermitian(a) * Hermitian(b)
        ax, az, bx, bz = a & low, a >> n, b & low, b >> n
        c = a ^ b
        cx_, cz_ = c & low, c >> n
        k = bin(ax & az).count("1") + bin(bx & bz).count("1") + 2 * bin(az & bx).count("1") - bin(cx_ & cz_).count("1")
        mask[m] = c
        ph[m] = (ph[prev] + k + 2 * int(S[top])) % 4
    sign = np.zeros(N, int)
    for m in range(N):
        x, z = m & low, m >> n
        tot = (ph[m] + bin(x & z).count("1")) % 4
        assert tot in (0, 2)
        sign[m] = tot // 2
    return mask, sign
