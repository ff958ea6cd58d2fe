"""Random Clifford circuits: valid, reproducible and uniformly distributed."""

import numpy as np
from hypothesis import strategies as st
from lib import tableau as T
from lib.pbt import Part, check
from pytket import OpType
from pytket.predicates import CliffordCircuitPredicate
from qermit.probabilistic_error_cancellation.cliff_circuit_gen import random_clifford_circ
from scipy.stats import chi2

PROPERTY = "C26"
RULE = (
    "A case is a number of qubits and a seed (circuits), or a sample of 1000-8000 circuits with consecutive seeds whose tableaux are compared with the uniform "
    "distribution: images of every Pauli with sign, joint images of random pairs under random linear functionals, ranks of every corner of the tableau, and every group element for one and two qubits "
    "(alarm below p = 1e-11). Non-trivial: the circuit has a two qubit gate and a Hadamard, or the sample is over two or more qubits."
)
TECHNIQUE = "property-based testing (Hypothesis): goodness of fit of sampled Clifford tableaux with the uniform distribution on the Clifford group"
ASSUMPTIONS = ["numpy's generator is good enough for the test statistics; alarms need p < 1e-11"]
P_MIN = 1e-11


def one(n, seed):
    return T.tableau(random_clifford_circ(n, seed=seed))


def run_circ(case):
    n, seed = case["n"], case["seed"]
    c = random_clifford_circ(n, seed=seed)
    check(c.n_qubits == n and [q.reg_name for q in c.qubits] == ["q"] * n, lambda: "qubits %r" % c.qubits)
    check(CliffordCircuitPredicate().verify(c), "not a Clifford circuit")
    check(not c.bits, "the circuit has bits")
    for cmd in c.get_commands():
        check(cmd.opgroup in ("Clifford 1", "Clifford 2"), "opgroup %r" % cmd.opgroup)
        check(cmd.opgroup == "Clifford %d" % len(cmd.args), lambda: "opgroup %r of %s" % (cmd.opgroup, cmd))
    check(random_clifford_circ(n, seed=seed) == c, "the same seed gives another circuit")
    types = {cmd.op.type for cmd in c.get_commands()}
    return {"nontrivial": OpType.H in types and any(len(cmd.args) == 2 for cmd in c.get_commands()), "labels": ["n%d" % n]}


def goodness(obs, exp, what):
    exp = np.asarray(exp, float)
    obs = np.asarray(obs, float)
    check(not (obs[exp == 0] > 0).any(), lambda: "%s: impossible outcome" % what)
    k = exp > 0
    s = float(((obs[k] - exp[k]) ** 2 / exp[k]).sum())
    df = int(k.sum()) - 1
    if df:
        pv = float(chi2.sf(s, df))
        check(pv > P_MIN, lambda: "%s not uniform: chi2 %.1f with %d degrees of freedom, p=%.3g" % (what, s, df, pv))


def rank_functional(masks, rows):
    """bits of <mask, row> for all rows, packed"""
    out = np.zeros(len(masks), int)
    for i, r in enumerate(rows):
        v = masks & r
        par = np.zeros(len(masks), int)
        while v.any():
            par ^= v & 1
            v = v >> 1
        out |= par << i
    return out


def corner_ranks(n, rows, cols):
    """The exact distribution of the rank of the commutation table between the
    images of `rows` independent commuting Paulis under a uniform Clifford and
    `cols` fixed independent commuting Paulis: the images are drawn one by one,
    uniformly from what commutes with the earlier ones and is independent of
    them.  V is their span, W that of the fixed ones; the state is the rank so
    far and the dimension of the intersection of V and W."""
    dist = {(0, 0): 1.0}
    for i in range(rows):
        new = {}
        for (r, d), p in dist.items():
            total = 2 ** (2 * n - i) - 2**i
            inside = 2 ** (r + 2 * n - (i + cols - d)) - 2**i
            inw = 2 ** (i + cols - r - d) - 2**i
            for key, k in (((r + 1, d), total - inside), ((r, d + 1), inw), ((r, d), inside - inw)):
                if k:
                    new[key] = new.get(key, 0.0) + p * k / total
        dist = new
    out = np.zeros(min(rows, cols) + 1)
    for (r, _), p in dist.items():
        out[r] += p
    return out


def ranks(rows, width):
    """ranks over GF(2) of many matrices at once; rows: list of arrays of packed rows"""
    rows = [r.copy() for r in rows]
    rank = np.zeros(len(rows[0]), int)
    for c in range(width):
        pivot = np.zeros_like(rows[0])
        for i in range(len(rows)):
            take = (pivot == 0) & ((rows[i] >> c) & 1 == 1)
            pivot = np.where(take, rows[i], pivot)
            rows[i] = np.where(take, 0, rows[i])
        rank += pivot != 0
        for i in range(len(rows)):
            rows[i] = np.where((rows[i] >> c) & 1 == 1, rows[i] ^ pivot, rows[i])
    return rank


def corners(n):
    return sorted({(0, k) for k in range(1, n + 1)} | {(n - k, n) for k in range(1, n)})


def check_corners(n, G):
    """G: the images of the generators (X's, then Z's), packed"""
    N = len(G)
    for kind in (0, n):
        for part in (0, n):
            for r0, r1 in corners(n):
                for c0, c1 in corners(n):
                    if min(r1 - r0, c1 - c0) < 2:
                        continue
                    sub = [(G[:, kind + i] >> (part + c0)) & ((1 << (c1 - c0)) - 1) for i in range(r0, r1)]
                    obs = np.bincount(ranks(sub, c1 - c0), minlength=min(r1 - r0, c1 - c0) + 1)
                    exp = corner_ranks(n, r1 - r0, c1 - c0) * N
                    # outcomes of tiny expectation are merged, with the next one
                    o, e = [0], [0.0]
                    for x, y in zip(obs, exp):
                        if e[-1] >= 5:
                            o.append(0)
                            e.append(0.0)
                        o[-1] += x
                        e[-1] += y
                    if len(e) > 1 and e[-1] < 5:
                        e[-2] += e.pop()
                        o[-2] += o.pop()
                    goodness(o, e, "rank of the %s parts on qubits %d-%d of the images of the %s of qubits %d-%d of %d" % ("XZ"[part > 0], c0, c1 - 1, "XZ"[kind > 0], r0, r1 - 1, n))


def run_sample(case):
    n, N = case["n"], case["N"]
    rng = np.random.default_rng(case["seed"])
    img = []
    for s in range(N):
        img.append(T.image_table(*one(n, case["seed"] * 100003 + s)) if n <= 3 else _generators(*one(n, case["seed"] * 100003 + s)))
    M = np.array([a for a, _ in img])
    S = np.array([b for _, b in img])
    full = 4**n
    idx = range(1, full) if n <= 3 else range(2 * n)
    labels = []
    for p in idx:
        if n <= 4:
            key = M[:, p] * 2 + S[:, p]
            obs = np.bincount(key, minlength=2 * full)
            exp = np.full(2 * full, N / (2.0 * (full - 1)))
            exp[:2] = 0
            if N / (2.0 * (full - 1)) >= 4:
                goodness(obs, exp, "image of Pauli %d on %d qubits" % (p, n))
                labels.append("images")
        goodness(np.bincount(S[:, p], minlength=2), [N / 2, N / 2], "sign of the image of Pauli %d on %d qubits" % (p, n))
        for r in [int(rng.integers(1, full)) for _ in range(6)]:
            bit = rank_functional(M[:, p], [r])
            ones = full // 2
            goodness(np.bincount(bit, minlength=2), [N * (full - ones - 1) / (full - 1), N * ones / (full - 1)], "commutation of the image of Pauli %d with %d" % (p, r))
        # the letter of the image on each qubit, and on each pair of neighbours
        x, z = M[:, p] & ((1 << n) - 1), M[:, p] >> n
        for q in range(n):
            letter = ((x >> q) & 1) + 2 * ((z >> q) & 1)
            exp = np.full(4, N * (full // 4) / (full - 1))
            exp[0] = N * (full // 4 - 1) / (full - 1)
            goodness(np.bincount(letter, minlength=4), exp, "letter on qubit %d of the image of Pauli %d on %d qubits" % (q, p, n))
    if n >= 2:
        check_corners(n, M if n > 3 else M[:, [1 << i for i in range(2 * n)]])
        labels.append("corners")
    if n in (2, 3):
        low = (1 << n) - 1

        def comm(a, b):
            return (bin((a & low) & (b >> n)).count("1") + bin((a >> n) & (b & low)).count("1")) % 2

        anti = np.array([[comm(a, b) for b in range(full)] for a in range(full)])
        for _ in range(40):
            p, q = (int(x) for x in rng.choice(np.arange(1, full), 2, replace=False))
            A, B = np.where(anti == anti[p, q])
            ok = (A > 0) & (B > 0) & (A != B)
            joint = A[ok] + B[ok] * full
            rows = [int(rng.integers(1, full * full)) for _ in range(4)]
            exp = np.bincount(rank_functional(joint, rows), minlength=16) * N / len(joint)
            obs = np.bincount(rank_functional(M[:, p] + M[:, q] * full, rows), minlength=16)
            goodness(obs, exp, "joint image of Paulis %d and %d on %d qubits" % (p, q, n))
    if n in (1, 2):
        gen = [1 << i for i in range(2 * n)]
        key = np.zeros(N, int)
        for g in gen:
            key = key * full + M[:, g]
        size = {1: 6, 2: 720}[n]
        vals, cnt = np.unique(key, return_counts=True)
        check(len(vals) <= size, "%d different Clifford elements on %d qubits" % (len(vals), n))
        if N / size >= 4:
            obs = np.concatenate([cnt, np.zeros(size - len(vals))])
            goodness(obs, np.full(size, N / size), "element of the Clifford group on %d qubits" % n)
            labels.append("elements")
    return {"nontrivial": n >= 2, "labels": ["n%d" % n] + sorted(set(labels))}


def _generators(X, Z, S):
    n = X.shape[1]
    w = 1 << np.arange(n)
    return (X @ w) | ((Z @ w) << n), S


circ_st = st.fixed_dictionaries({"n": st.sampled_from([1, 2, 3, 3, 4, 5, 6, 8]), "seed": st.integers(0, 2**31)})
sample_st = st.sampled_from([(1, 1000), (2, 4000), (3, 5000), (4, 8000), (4, 8000), (5, 1500), (6, 8000)]).flatmap(
    lambda t: st.fixed_dictionaries({"n": st.just(t[0]), "N": st.just(t[1]), "seed": st.integers(0, 20000)})
)

PARTS = [
    Part("circuits", circ_st, run_circ, quick=600, thorough=20000),
    Part("samples", sample_st, run_sample, quick=40, thorough=1000, shards=8),
]
