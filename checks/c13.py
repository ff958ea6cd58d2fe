"""QermitPauli against dense matrices."""

from itertools import product

import numpy as np
from hypothesis import strategies as st
from lib import gen, refsim, tableau
from lib.pbt import Part, check
from pytket import Circuit, OpType, Qubit
from pytket.circuit import Op
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit.noise_model.qermit_pauli import QermitPauli

PROPERTY = "C13"
RULE = (
    "A case is a Pauli string with phase on 1-3 (part large: 6-14) qubits of any name (explicit identities or not) and a history of up to 10 calls (every supported Clifford "
    "gate, rotations by arbitrary Clifford angles, whole circuits, multiplication by a Pauli from either side, dagger, restriction); after every call the string "
    "is compared, sign and phase included, with the dense matrix. Non-trivial: the history contains a two-qubit gate and a multiplication."
)

COEFF = [1 + 0j, 1j, -1 + 0j, -1j]
ONE = ["H", "S", "Sdg", "X", "Y", "Z", "V", "Vdg", "SX", "SXdg", "noop"]
TWO = ["CX", "CY", "CZ", "SWAP", "ZZMax", "ECR", "ISWAPMax"]


def op_st(n):
    half = st.integers(-8, 8).map(lambda k: k / 2)
    opts = [
        st.tuples(st.just("g"), st.sampled_from(ONE), st.permutations(range(n)).map(lambda p: list(p[:1])), st.just([])),
        st.tuples(
            st.just("g"), st.sampled_from(["Rz", "Rx"]), st.permutations(range(n)).map(lambda p: list(p[:1])), half.map(lambda a: [a])
        ),
        st.tuples(
            st.just("g"), st.just("PhasedX"), st.permutations(range(n)).map(lambda p: list(p[:1])), st.tuples(half, half).map(list)
        ),
        st.tuples(st.just("pre"), st.sampled_from("IXYZ"), st.integers(0, n - 1)),
        st.tuples(st.just("post"), st.sampled_from("IXYZ"), st.integers(0, n - 1)),
        st.tuples(st.just("dagger")),
        st.tuples(st.just("circ"), gen.gates(n, 5, ones=[o for o in ONE if o in gen._OT], twos=["CX", "CZ", "CY", "SWAP", "ZZMax"]), st.integers(0, 3)),
    ]
    if n > 1:
        pair = st.permutations(range(n)).map(lambda p: list(p[:2]))
        opts += [st.tuples(st.just("g"), st.sampled_from(TWO), pair, st.just([]))] * 2
        opts.append(st.tuples(st.just("g"), st.just("ZZPhase"), pair, half.map(lambda a: [a])))
    return st.one_of(opts)


case_st = gen.size(1, 3, 5).flatmap(
    lambda n: st.fixed_dictionaries(
        {
            "n": st.just(n),
            "names": st.sampled_from(gen.NAMES),
            "l": gen.letters_st(n),
            "c": st.integers(0, 3),
            "ops": st.lists(op_st(n), max_size=10 if n < 4 else 40),
            "red": st.lists(st.integers(0, n - 1), max_size=2, unique=True),
            "order": st.permutations(range(n)),
        }
    )
)


def mk(letters, qs, c):
    return QermitPauli(
        QubitPauliTensor(string=QubitPauliString({q: gen.P[l] for q, l in zip(qs, letters)}), coeff=COEFF[c])
    )


def matrix(p, qs):
    t = p.qubit_pauli_tensor
    for q in t.string.map:
        check(q in qs or t.string.map[q] == Pauli.I, "unexpected qubit %r" % q)
    return t.coeff * refsim.pauli_matrix([t.string.map[q].name if q in t.string.map else "I" for q in qs])


def big(u, idx, n):
    """u on idx (BE) embedded in n qubits"""
    s = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    return refsim.apply_unitary(s, u, idx).reshape(2**n, 2**n)


def same(p, m, qs, what):
    g = matrix(p, qs)
    check(
        np.allclose(g, m, atol=1e-8),
        lambda: "%s: Pauli is %s, expected %s" % (what, p, describe(m, len(qs))),
    )


def describe(m, n):
    for ls in product("IXYZ", repeat=n):
        c = np.trace(refsim.pauli_matrix(ls) @ m) / 2**n
        if abs(c) > 0.5:
            return "%s*%s" % (complex(round(c.real), round(c.imag)), "".join(ls))
    return "?"


def run(case):
    n = case["n"]
    qs = gen.qubits_of(n, case["names"])
    order = [qs[i] for i in case["order"]]
    byq = dict(zip(qs, case["l"]))
    p = QermitPauli(
        QubitPauliTensor(string=QubitPauliString({q: gen.P[byq[q]] for q in order}), coeff=COEFF[case["c"]])
    )
    m = COEFF[case["c"]] * refsim.pauli_matrix(case["l"])
    same(p, m, qs, "new")
    kinds = set()
    for op in case["ops"]:
        kinds.add(op[0] if op[0] != "g" else "g%d" % len(op[2]))
        if op[0] == "g":
            o = Op.create(gen._OT.get(op[1]) or getattr(OpType, op[1]), list(op[3])) if op[3] else Op.create(getattr(OpType, op[1]))
            p.apply_gate(o, [qs[i] for i in op[2]])
            u = big(o.get_unitary(), op[2], n)
            m = u @ m @ u.conj().T
        elif op[0] == "circ":
            c = Circuit()
            for q in qs:
                c.add_qubit(q)
            for i, g in enumerate(op[1]):
                gen.add(c, g, qs)
                if i == op[2]:
                    c.add_barrier(qs)
            if op[2] == 3:
                c.replace_SWAPs()
            keep = c.copy()
            p.apply_circuit(c)
            check(c == keep, "apply_circuit changed the circuit")
            u = refsim.unitary(c, qs)
            m = u @ m @ u.conj().T
        elif op[0] == "pre":
            p.pre_apply_pauli(gen.P[op[1]], qs[op[2]])
            m = m @ big(refsim.PAULI[op[1]], [op[2]], n)
        elif op[0] == "post":
            p.post_apply_pauli(gen.P[op[1]], qs[op[2]])
            m = big(refsim.PAULI[op[1]], [op[2]], n) @ m
        else:
            d = p.dagger
            same(p, m, qs, "taking the dagger")
            p = d
            m = m.conj().T
        same(p, m, qs, "after %r" % (op,))
    # circuits implementing it
    c = p.circuit
    check(set(c.qubits) <= set(qs), "circuit on %r" % c.qubits)
    got = refsim.unitary(pad(c, qs), qs)
    check(np.allclose(got, m, atol=1e-8), lambda: "circuit of %s implements something else: %r" % (p, c.get_commands()))
    ctl = Qubit("ctl", 7)
    cc = p.get_control_circuit(ctl)
    got = refsim.unitary(pad(cc, [ctl] + qs), [ctl] + qs)
    k = 2**n
    want = np.zeros((2 * k, 2 * k), dtype=complex)
    want[:k, :k] = np.eye(k)
    want[k:, k:] = m
    check(
        refsim.equal_up_to_phase(got, want),
        lambda: "controlled circuit of %s is not the controlled Pauli: %r" % (p, cc.get_commands()),
    )
    same(p, m, qs, "after queries")
    # restriction and measurability
    red = [qs[i] for i in case["red"]]
    t = p.qubit_pauli_tensor.string.map
    want_meas = any(t.get(q, Pauli.I) in (Pauli.X, Pauli.Y) for q in red)
    check(p.is_measureable(red) == want_meas, "%s measurable on %r: %r" % (p, red, not want_meas))
    r = p.reduce_qubits(red)
    rest = [q for q in qs if q not in red]
    rt = r.qubit_pauli_tensor
    check(
        all(q not in rt.string.map for q in red)
        and all(rt.string.map.get(q, Pauli.I) == t.get(q, Pauli.I) for q in rest)
        and rt.coeff == p.qubit_pauli_tensor.coeff,
        "%s restricted to %r is %s" % (p, rest, r),
    )
    same(p, m, qs, "after restriction")
    # equality and hash: as the operators they represent
    q = mk([t.get(x, Pauli.I).name for x in qs], qs, COEFF.index(p.qubit_pauli_tensor.coeff))
    check(q == p and hash(q) == hash(p), "equal Paulis %s and %s compare or hash differently" % (p, q))
    q2 = mk([t.get(x, Pauli.I).name for x in qs], qs, (COEFF.index(p.qubit_pauli_tensor.coeff) + 1) % 4)
    check(not (q2 == p), "%s equals %s" % (p, q2))
    q3 = mk([t.get(x, Pauli.I).name for x in qs], qs, COEFF.index(p.qubit_pauli_tensor.coeff))
    q3.post_apply_pauli(Pauli.X, qs[0])
    check(not (q3 == p), "%s equals %s" % (p, q3))
    return {
        "nontrivial": "g2" in kinds and bool(kinds & {"pre", "post"}),
        "labels": sorted(kinds),
    }


def pad(c, qs):
    d = Circuit()
    for q in qs:
        d.add_qubit(q)
    d.append(c)
    return d


# ---- many qubits, against tableaux
plain = ["H", "S", "Sdg", "X", "Y", "Z", "V", "Vdg"]
large_st = st.integers(6, 14).flatmap(
    lambda n: st.fixed_dictionaries(
        {
            "n": st.just(n),
            "names": st.sampled_from(gen.NAMES),
            "l": gen.letters_st(n),
            "c": st.integers(0, 3),
            "circs": st.lists(
                st.fixed_dictionaries(
                    {
                        "g": gen.gates(n, 30, ones=plain, twos=["CX", "CZ", "CY", "SWAP"]),
                        "swaps": st.one_of(
                            st.lists(st.permutations(range(n)).map(lambda p: list(p[:2])), max_size=4),
                            st.just([[i, i + 1] for i in range(n - 1)]),
                            st.just([[i, n - 1 - i] for i in range(n // 2)]),
                        ),
                        "impl": st.booleans(),
                    }
                ),
                min_size=1,
                max_size=3,
            ),
            "red": st.lists(st.integers(0, n - 1), max_size=n, unique=True),
        }
    )
)


def run_large(case):
    n = case["n"]
    qs = gen.qubits_of(n, case["names"])
    p = mk(case["l"], qs, case["c"])
    mask = sum((l in "XY") << i | (l in "ZY") << (n + i) for i, l in enumerate(case["l"]))
    ph = case["c"]
    for k in case["circs"]:
        full = Circuit()
        for q in qs:
            full.add_qubit(q)
        for g in k["g"]:
            gen.add(full, g, qs)
        for a, b in k["swaps"]:
            full.SWAP(qs[a], qs[b])
        given = full.copy()
        if k["impl"]:
            given.replace_SWAPs()
        p.apply_circuit(given)
        X, Z, S = tableau.tableau(full, qs)
        mask, sg = tableau.image(X, Z, S, mask)
        ph = (ph + 2 * sg) % 4
        want = ["IXZY"[(mask >> i & 1) | (mask >> (n + i) & 1) << 1] for i in range(n)]
        t = p.qubit_pauli_tensor
        got = [t.string.map[q].name if q in t.string.map else "I" for q in qs]
        check(
            got == want and t.coeff == COEFF[ph],
            lambda: "%s on %d qubits through a circuit is %s%r, expected %s%r" % (case["l"], n, got, t.coeff, want, COEFF[ph]),
        )
    red = [qs[i] for i in case["red"]]
    check(
        p.is_measureable(red) == any(want[i] in "XY" for i in case["red"]),
        lambda: "%s measurable on %r: %r" % (p, red, p.is_measureable(red)),
    )
    r = p.reduce_qubits(red).qubit_pauli_tensor
    check(
        all((r.string.map[q].name if q in r.string.map else "I") == ("I" if q in red else w) for q, w in zip(qs, want))
        and r.coeff == COEFF[ph],
        lambda: "%s restricted away from %r is %s" % (p, red, r),
    )
    return {"nontrivial": any(k["swaps"] for k in case["circs"]), "labels": ["n%d" % n]}


# ---- refusals
ref_st = st.fixed_dictionaries(
    {"g": st.sampled_from(["T", "Tdg", "Rz", "Rx", "CCX", "ZZPhase", "PhasedX", "measure"]), "a": st.floats(0.01, 0.49)}
)


def run_ref(case):
    qs = [Qubit(i) for i in range(3)]
    p = mk("XYZ", qs, 0)
    g = case["g"]
    try:
        if g == "measure":
            c = Circuit(3, 1).H(0).Measure(0, 0)
            p.apply_circuit(c)
        else:
            o = (
                Op.create(getattr(OpType, g), [case["a"], 0.1] if g == "PhasedX" else [case["a"]])
                if g in ("Rz", "Rx", "ZZPhase", "PhasedX")
                else Op.create(getattr(OpType, g))
            )
            p.apply_gate(o, qs[: o.n_qubits])
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        return {"labels": [g]}
    check(False, "%s accepted" % g)


PARTS = [
    Part("history", case_st, run, quick=2000, thorough=40000, shards=8),
    Part("large", large_st, run_large, quick=500, thorough=10000, shards=8),
    Part("refuse", ref_st, run_ref, quick=60, thorough=300, shards=1),
]
