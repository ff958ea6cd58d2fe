"""Digital noise scaling by folding preserves the circuit and scales the gate count."""

from math import ceil

from hypothesis import strategies as st
from lib import gen, refsim
from lib.pbt import Part, check
from pytket import Circuit, OpType
from pytket.circuit import CircBox
from qermit.zero_noise_extrapolation import Folding
from sympy import Symbol

PROPERTY = "C09"
RULE = (
    "A case is a circuit of 1-3 qubits and 1-10 gates (Clifford, rotation, multi-parameter gates; barriers, global phase, implicit wire "
    "permutation, symbolic angle, named qubits) and a noise scaling (odd, integer, of the exact form (#gates+2i)/#gates, or arbitrary real), "
    "for each of the folding methods. Non-trivial: at least one gate was folded."
)

circ_st = st.fixed_dictionaries(
    {
        "circ": gen.circuit_st(
            1,
            3,
            8,
            1,
            big=(5, 30),
            naming=gen.NAMES,
            ones=["H", "S", "Sdg", "X", "Y", "Z", "V", "T", "Tdg", "SX"],
            twos=["CX", "CX", "CZ", "CY", "SWAP", "ZZMax", "ECR"],
            rots=["Rx", "Ry", "Rz"],
            tworots=["ZZPhase", "CRz"],
        ),
        "barriers": st.lists(st.integers(0, 8), max_size=2),
        "perm": st.sampled_from([None, None, None, [0, 1], [1, 2], [0, 2]]),
        "phase": st.sampled_from([0, 0, 0.5, 0.3]),
        "sym": st.booleans(),
    }
)

SYM = Symbol("s")
VAL = 0.37


def mk(d):
    """-> circuit to fold"""
    c = Circuit(name="circuit") if d["circ"]["names"] != "q" else Circuit()
    qs = gen.qubits_of(d["circ"]["n"], d["circ"]["names"])
    for q in qs:
        c.add_qubit(q)
    for i, g in enumerate(d["circ"]["gates"]):
        for b in d["barriers"]:
            if b == i:
                c.add_barrier(qs[: 1 + b % len(qs)])
        if d["sym"] and g[2] and i % 2 == 0:
            g = [g[0], g[1], [SYM + g[2][0]]]
        gen.add(c, g, qs)
    p = d["perm"]
    if p and p[1] < len(qs):
        t = Circuit()
        for q in qs:
            t.add_qubit(q)
        t.SWAP(qs[p[0]], qs[p[1]])
        t.replace_SWAPs()
        # an implicit permutation in the middle of the circuit
        half = Circuit()
        for q in qs:
            half.add_qubit(q)
        for g in d["circ"]["gates"][:3]:
            gen.add(half, g, qs)
        t.append(half)
        c.append(t)
    if d["phase"]:
        c.add_phase(d["phase"])
    return c


def ngates(c):
    return sum(1 for x in c.get_commands() if x.op.type != OpType.Barrier)


def nbarriers_ok(c):
    return [x for x in c.get_commands() if x.op.type == OpType.Barrier]


def n2(c):
    return sum(
        1 for x in c.get_commands() if x.op.type != OpType.Barrier and len(x.qubits) == 2
    )


def subst(c):
    d = c.copy()
    d.symbol_substitution({SYM: VAL})
    return d


def same(orig, folded, what):
    check(
        set(folded.qubits) == set(orig.qubits),
        "%s: qubits %r became %r" % (what, orig.qubits, folded.qubits),
    )
    u = refsim.unitary(subst(orig), orig.qubits)
    v = refsim.unitary(subst(folded), orig.qubits)
    check(
        refsim.equal_up_to_phase(u, v),
        lambda: "%s changes the unitary of %r (implicit permutation %r) -> %r (implicit permutation %r)"
        % (
            what,
            orig.get_commands(),
            orig.implicit_qubit_permutation(),
            folded.get_commands(),
            folded.implicit_qubit_permutation(),
        ),
    )


def call(method, c, s, **kw):
    keep = c.copy()
    out = method(c, s, **kw)
    check(c == keep, "the circuit passed in was changed")
    check(isinstance(out, list) and len(out) == 1, "%d folded circuits" % len(out))
    return out[0]


# ---- circuit folding
circuit_case = st.fixed_dictionaries({"c": circ_st, "s": st.integers(0, 7).flatmap(lambda k: st.integers(0, 20).map(lambda j: 2 * j + 1) if k == 7 else st.integers(1, 6))})


def run_circuit(case):
    c, s = mk(case["c"]), case["s"]
    if s % 2 == 0:
        try:
            Folding.circuit(c, s)
        except ValueError:
            return {"nontrivial": False, "labels": ["even"]}
        check(False, "circuit folding by an even factor was accepted")
    f = call(Folding.circuit, c, s)
    same(c, f, "circuit folding by %d" % s)
    check(
        ngates(f) == s * ngates(c),
        "circuit folding by %d: %d gates became %d" % (s, ngates(c), ngates(f)),
    )
    return {"nontrivial": s > 1, "labels": ["odd"] + feats(case["c"])}


def feats(d):
    return [k for k in ("perm", "phase", "sym", "barriers") if d[k]]


# ---- odd gate folding
def run_odd(case):
    c, s = mk(case["c"]), case["s"]
    n = ngates(c)
    f = call(Folding.odd_gate, c, s)
    same(c, f, "odd gate folding by %d" % s)
    want = n + 2 * (s - 1) * ceil(n / 2)
    check(
        ngates(f) == want,
        "odd gate folding by %d: %d gates became %d, expected %d" % (s, n, ngates(f), want),
    )
    return {"nontrivial": s > 1, "labels": feats(case["c"])}


# ---- gate / two qubit gate folding
scale_case = st.fixed_dictionaries(
    {
        "c": circ_st,
        "kind": st.sampled_from(["exact", "exact", "any"]),
        "i": gen.size(0, 30, 300),
        "s": gen.size(100, 700, 4500).map(lambda k: k / 100),
        "approx": st.booleans(),
    }
)


def scaling(case, n):
    if case["kind"] == "exact":
        return (n + 2 * case["i"]) / n, case["i"]
    s = case["s"]
    # largest i with (n+2i)/n <= s, by exact arithmetic on the decimal value
    from fractions import Fraction

    fr = Fraction(int(round(s * 100)), 100)
    return s, int(((fr - 1) * n) // 2)


def run_scale(method, name, count, case):
    c = mk(case["c"])
    n = count(c)
    if n == 0:
        try:
            method(c, 3.0)
        except RuntimeError:
            return {"nontrivial": False, "labels": ["none"]}
        check(False, "%s folding of a circuit without such gates was accepted" % name)
    s, i = scaling(case, n)
    reachable = abs(s - (n + 2 * i) / n) <= 0.0009
    unreachable = abs(s - (n + 2 * i) / n) > 0.0011
    if not case["approx"] and unreachable:
        try:
            method(c, s, _allow_approx_fold=False)
        except ValueError:
            return {"nontrivial": False, "labels": ["refused"]}
        check(False, "%s folding of %d gates by %r accepted as exact" % (name, n, s))
    if not case["approx"] and not reachable:
        return {"nontrivial": False}
    f = call(method, c, s, _allow_approx_fold=case["approx"])
    same(c, f, "%s folding by %r" % (name, s))
    check(
        count(f) == n + 2 * i,
        "%s folding of %d gates by %r gives %d gates, expected %d"
        % (name, n, s, count(f), n + 2 * i),
    )
    if count is n2:
        check(
            ngates(f) - n2(f) == ngates(c) - n2(c),
            "two qubit gate folding changed the number of other gates",
        )
    return {
        "nontrivial": i > 0,
        "labels": [case["kind"], "approx" if case["approx"] else "strict"]
        + feats(case["c"]),
    }


def run_gate(case):
    return run_scale(Folding.gate, "gate", ngates, case)


def run_two(case):
    return run_scale(Folding.two_qubit_gate, "two qubit gate", n2, case)


def run_noise_aware(case):
    """without a noise model there is nothing to add"""
    c = mk(case["c"])
    f = call(Folding.noise_aware, c, case["s"])
    same(c, f, "noise aware folding without noise")
    check(ngates(f) == ngates(c), "noise aware folding without noise added gates")
    return {"labels": feats(case["c"])}


def run_box(case):
    c = mk(case["c"])
    b = Circuit(1).H(0)
    c.add_gate(CircBox(b), [c.qubits[0]])
    for m in (Folding.circuit, Folding.two_qubit_gate):
        try:
            m(c, 3)
        except RuntimeError:
            continue
        check(False, "%s accepted a circuit with a box" % m)
    return {}


PARTS = [
    Part("circuit", circuit_case, run_circuit, quick=300, thorough=8000),
    Part("odd_gate", circuit_case, run_odd, quick=300, thorough=8000),
    Part("gate", scale_case, run_gate, quick=400, thorough=10000),
    Part("two_qubit_gate", scale_case, run_two, quick=400, thorough=10000),
    Part("noise_aware", circuit_case, run_noise_aware, quick=100, thorough=1000, shards=2),
    Part("boxes", circuit_case, run_box, quick=40, thorough=200, shards=1),
]
