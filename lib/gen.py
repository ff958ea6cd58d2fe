"""Strategies for circuits, Pauli strings, operators: JSON descriptions + builders."""

from . import boot  # noqa: F401

from hypothesis import strategies as st
from pytket import Bit, Circuit, OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator

ONE_CLIFF = ["H", "S", "Sdg", "X", "Y", "Z", "V", "Vdg"]
TWO_CLIFF = ["CX", "CZ", "CY", "SWAP", "ZZMax"]
ONE_NONCLIFF = ["T", "Tdg"]
ONE_ROT = ["Rx", "Ry", "Rz"]
TWO_ROT = ["ZZPhase", "CRz", "XXPhase"]

_OT = {
    n: getattr(OpType, n)
    for n in ONE_CLIFF + TWO_CLIFF + ONE_NONCLIFF + ONE_ROT + TWO_ROT + ["TK1", "SX", "PhasedX", "noop", "CCX", "U3", "ECR"]
}

angle = st.one_of(
    st.integers(0, 7).map(lambda k: k / 4),
    st.integers(-40, 40).map(lambda k: k / 20),
    st.floats(-2, 2, allow_nan=False).map(lambda x: round(x, 3)),
)
cliff_angle = st.integers(-4, 7).map(lambda k: k / 2)


def gate(n, ones=ONE_CLIFF, twos=TWO_CLIFF, rots=(), tworots=(), ang=angle):
    """one gate on n qubits: [name, [qubits], [params]]"""
    opts = [st.tuples(st.sampled_from(list(ones)), st.integers(0, n - 1).map(lambda q: [q]), st.just([]))] if ones else []
    if rots:
        opts.append(
            st.tuples(
                st.sampled_from(list(rots)),
                st.integers(0, n - 1).map(lambda q: [q]),
                ang.map(lambda a: [a]),
            )
        )
    if n >= 2:
        pair = st.tuples(st.integers(0, n - 1), st.integers(1, n - 1)).map(
            lambda t: [t[0], (t[0] + t[1]) % n]
        )
        if twos:
            opts.append(st.tuples(st.sampled_from(list(twos)), pair, st.just([])))
            opts.append(st.tuples(st.sampled_from(list(twos)), pair, st.just([])))
        if tworots:
            opts.append(
                st.tuples(
                    st.sampled_from(list(tworots)), pair, ang.map(lambda a: [a])
                )
            )
    return st.one_of(opts)


def gates(n, max_size=10, min_size=0, **kw):
    return st.lists(gate(n, **kw), min_size=min_size, max_size=max_size)


NAMES = ["q", "q", "named", "mixed", "gap", "node"]


def qubits_of(n, naming):
    if naming == "q":
        return [Qubit(i) for i in range(n)]
    if naming == "named":
        return [Qubit("alpha", i) for i in range(n)]
    if naming == "mixed":
        return [Qubit("abd"[i % 3], i // 3) for i in range(n)]
    if naming == "gap":
        # in numerical order, which is not the order of their names
        return [Qubit([2, 10, 11, 100, 101, 102, 110, 200, 1000, 1001, 1010, 1100, 2000, 2001, 10000, 10001][i]) for i in range(n)]
    if naming == "node":
        from pytket.circuit import Node

        return [Node(4 * i + 2) for i in range(n)]
    raise AssertionError(naming)


def layered(d):
    """the circuit after rotations of all qubits, with which no Pauli string is 0"""
    first = [["Ry", [q], [0.3 + 0.02 * q]] for q in range(d["n"])] + [["Rz", [q], [0.2]] for q in range(d["n"])]
    return dict(d, gates=first + d["gates"][-2:])


def circuit_st(min_n=1, max_n=3, max_gates=10, min_gates=0, naming=("q",), big=None, **kw):
    """dict {"n","names","gates"}; with big=(n, gates) one circuit in 25 is up to that large"""

    def pick(k):
        top, most = big if big and k == 24 else (max_n, max_gates)
        low = max_n + 1 if big and k == 24 else min_n
        return st.integers(min(low, top), top).flatmap(
            lambda n: st.fixed_dictionaries(
                {
                    "n": st.just(n),
                    "names": st.sampled_from(list(naming)),
                    "gates": gates(n, most, min_gates, **kw),
                }
            )
        )

    return st.integers(0, 24).flatmap(pick) if big else pick(0)


def build(d, name=None):
    c = Circuit()
    if name or d.get("names", "q") != "q":
        # circuits often share a name
        c.name = name or "circuit"
    qs = qubits_of(d["n"], d.get("names", "q"))
    for q in qs:
        c.add_qubit(q)
    for g in d["gates"]:
        add(c, g, qs)
    if d.get("impl"):
        # swaps become an implicit permutation
        c.replace_SWAPs()
    return c


def add(c, g, qs):
    nm, idx, par = g[0], g[1], g[2] if len(g) > 2 else []
    if nm == "Barrier":
        c.add_barrier([qs[i] for i in idx])
    elif par:
        c.add_gate(_OT[nm], list(par), [qs[i] for i in idx])
    else:
        c.add_gate(_OT[nm], [qs[i] for i in idx])


UNIVERSAL = dict(ones=ONE_CLIFF + ONE_NONCLIFF, twos=TWO_CLIFF, rots=ONE_ROT, tworots=TWO_ROT)


def letters_st(n, min_weight=0, letters="IXYZ"):
    s = st.lists(st.sampled_from(letters), min_size=n, max_size=n).map("".join)
    if min_weight:
        s = s.filter(lambda x: sum(c != "I" for c in x) >= min_weight)
    return s


P = {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}


def qps(letters, qs, keep_identity=False):
    m = {q: P[l] for q, l in zip(qs, letters) if keep_identity or l != "I"}
    return QubitPauliString(m)


def coeff_st():
    return st.one_of(
        st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.25]),
        st.floats(-3, 3, allow_nan=False).map(lambda x: round(x, 3)).filter(lambda x: abs(x) > 1e-2),
    )


def operator_st(n, min_terms=1, max_terms=4, min_weight=1, letters="IXYZ"):
    """list of [letters, coeff] with distinct letters"""
    return st.lists(
        st.tuples(letters_st(n, min_weight, letters), coeff_st()),
        min_size=min_terms,
        max_size=max_terms,
        unique_by=lambda t: t[0],
    )


def operator(terms, qs):
    return QubitPauliOperator({qps(l, qs): c for l, c in terms})


__all__ = ["Bit"]


def some(elem, most, many=None, empty=True, top=18):
    """lists of 1-most elements; one case in 25 is empty, one has 10 to top elements, in two an element occurs twice"""

    def pick(k):
        if k == 0 and empty:
            return st.just([])
        if k == 1:
            return st.integers(10, top).flatmap(
                lambda n: st.lists(many or elem, min_size=n, max_size=n)
            )
        if k in (2, 3):
            return st.tuples(st.lists(elem, min_size=1, max_size=most), st.integers(0, most)).map(
                lambda t: t[0] + [t[0][t[1] % len(t[0])]]
            )
        return st.lists(elem, min_size=1, max_size=most)

    return st.integers(0, 24).flatmap(pick)


def size(lo, most, big):
    """an integer from lo to most; in one case in 25, from most + 1 to big"""
    return st.integers(0, 24).flatmap(
        lambda k: st.integers(most + 1, big) if k == 24 else st.integers(lo, most)
    )
