"""Boxing of Clifford subcircuits."""

from hypothesis import strategies as st
from checks.progs import build, prog_st
from lib import gen, refsim
from lib.pbt import Part, check
from pytket import Bit, Circuit, OpType, Qubit
from pytket.circuit import CircBox
from qermit import CircuitShots
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford
from qermit.coherent_pauli_checks.coherent_pauli_checks_mitres import gen_find_cliffords_task
from qermit.noise_model.qermit_pauli import QermitPauli
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor

PROPERTY = "C15"
RULE = (
    "A case is a circuit of up to 5 qubits (order: 7 qubits, 40 operations; wide: 8 qubits, 30 gates) mixing Clifford and other gates, measurements, resets, conditionals, barriers, "
    "boxes, operation groups, implicit permutations and phases. The boxed circuit is compared by unitary or outcome distribution (meaning), operation by "
    "operation along every qubit and bit (order), and box by box (content). Non-trivial: at least one box of two gates and one operation outside boxes."
)
NAME = "Clifford Subcircuit"


def is_box(x):
    return x.op.type == OpType.CircBox and x.op.get_circuit().name == NAME


def flat(c):
    """commands with Clifford boxes opened: list of (op, args, opgroup)"""
    out = []
    for x in c.get_commands():
        if is_box(x):
            sub = x.op.get_circuit()
            m = dict(zip(sub.qubits, x.qubits))
            perm = sub.implicit_qubit_permutation()
            check(all(k == v for k, v in perm.items()), "box with an implicit permutation")
            for y in sub.get_commands():
                out.append((y.op, [m[q] for q in y.qubits], y.opgroup))
        else:
            out.append((x.op, list(x.args), x.opgroup))
    return out


def describe(op):
    if op.type == OpType.Conditional:
        return "if %d:%d %s" % (op.width, op.value, describe(op.op))
    return "barrier " + op.data if op.type == OpType.Barrier else repr(op)


def writes(op, args):
    """bits written by the operation"""
    if op.type == OpType.Conditional:
        return writes(op.op, args[op.width :])
    if op.type in (OpType.Measure, OpType.Barrier):
        return [a for a in args if not isinstance(a, Qubit)]
    return []


def threads(cmds):
    """unit -> sequence of operations on it; reads of a bit between writes are unordered"""
    t = {}
    for op, args, grp in cmds:
        item = (describe(op), tuple(map(repr, args)), str(grp))
        w = writes(op, args)
        for a in args:
            seq = t.setdefault(repr(a), [])
            if isinstance(a, Qubit) or a in w:
                seq.append(("w", item))
            elif seq and seq[-1][0] == "r":
                seq[-1] = ("r", tuple(sorted(seq[-1][1] + (item,))))
            else:
                seq.append(("r", (item,)))
    return t


def is_clifford(op, nq):
    qs = [Qubit(i) for i in range(nq)]
    try:
        for q in qs:
            for p in (Pauli.X, Pauli.Z):
                QermitPauli(QubitPauliTensor(string=QubitPauliString({r: p if r == q else Pauli.I for r in qs}), coeff=1)).apply_gate(op, qs)
    except Exception:
        return False
    return True


def structure(c, b):
    check(b.qubits == c.qubits and b.bits == c.bits, "registers %r %r became %r %r" % (c.qubits, c.bits, b.qubits, b.bits))
    f = flat(b)
    t0 = threads([(x.op, list(x.args), x.opgroup) for x in c.get_commands()])
    t1 = threads(f)
    check(
        t0 == t1,
        lambda: "the boxed circuit performs other operations, or in another order: %r became %r"
        % ([k for k in t0 if t0[k] != t1.get(k)] and {k: (t0[k], t1.get(k)) for k in t0 if t0[k] != t1.get(k)}, b.get_commands()),
    )
    check(
        b.implicit_qubit_permutation() == c.implicit_qubit_permutation(),
        "implicit permutation %r became %r" % (c.implicit_qubit_permutation(), b.implicit_qubit_permutation()),
    )
    sizes, outside = [], 0
    for x in b.get_commands():
        if is_box(x):
            sub = x.op.get_circuit()
            ys = sub.get_commands()
            sizes.append(len(ys))
            check(len(ys) > 0 and not sub.bits, "box without gates or with bits")
            for y in ys:
                check(is_clifford(y.op, len(y.qubits)), "%r, in a Clifford subcircuit, is not Clifford" % (y.op,))
        else:
            outside += 1
            check(
                not (x.op.is_clifford_type() and x.op.type != OpType.Barrier),
                "Clifford gate %r is left out of the Clifford subcircuits" % (x,),
            )
    return sizes, outside


def run(case):
    c, qs, kinds = build(case, "user name" if case["grp"] else None)
    keep = c.copy()
    b = c.copy()
    BoxClifford().apply(b)
    check(b.name == keep.name, "name %r became %r" % (keep.name, b.name))
    sizes, outside = structure(c, b)
    if kinds <= {"g", "bar", "box"} and not case["final"]:
        check(refsim.unitary(b).shape == refsim.unitary(c).shape, "shape")
        import numpy as np

        check(
            np.allclose(refsim.unitary(b), refsim.unitary(c), atol=1e-8),
            lambda: "boxing changed the unitary: %r became %r" % (c.get_commands(), b.get_commands()),
        )
    elif c.n_bits:
        d0, d1 = refsim.distribution(c), refsim.distribution(b)
        check(refsim.tv(d0, d1) < 1e-7, lambda: "boxing changed the outcomes from %r to %r" % (d0, d1))
    return {
        "nontrivial": any(s > 1 for s in sizes) and outside > 0,
        "labels": sorted(kinds) + ["boxes%d" % min(len(sizes), 3)],
    }


def run_order(case):
    c, qs, kinds = build(case)
    b = c.copy()
    BoxClifford().apply(b)
    sizes, outside = structure(c, b)
    bb = b.copy()
    BoxClifford().apply(bb)
    check(flat(bb) and threads(flat(bb)) == threads(flat(b)) if flat(b) else True, "boxing twice changed the circuit")
    return {"nontrivial": any(s > 1 for s in sizes) and outside > 1, "labels": ["boxes%d" % min(len(sizes), 5)]}


wide_st = st.fixed_dictionaries(
    {
        "n": st.sampled_from([6, 8, 8, 10]),
        "gates": st.lists(
            st.tuples(st.sampled_from("HHHHHTTTTTTSCC"), st.integers(0, 9), st.integers(1, 7)), min_size=16, max_size=30
        ),
        # measurements and gates conditioned on them, in between
        "bits": st.one_of(
            st.just([]),
            st.lists(st.tuples(st.integers(0, 29), st.sampled_from("MXXT"), st.integers(0, 9), st.integers(0, 1)), min_size=2, max_size=10),
        ),
    }
)


def run_wide(case):
    """many qubits which hardly interact: any two subcircuits can be delayed past each other"""
    n = case["n"]
    c = Circuit(n)
    bits = case.get("bits", [])
    if bits:
        for i in range(2):
            c.add_bit(Bit("m", 2 - i))
    for k, (g, q, d) in enumerate(case["gates"]):
        for at, what, r, b in bits:
            if at == k:
                if what == "M":
                    c.Measure(Qubit(r % n), Bit("m", 2 - b))
                else:
                    getattr(c, what)(r % n, condition=Bit("m", 2 - b))
        if g == "C":
            if d % n:
                c.CX(q % n, (q + d) % n)
        else:
            getattr(c, g)(q % n)
    b = c.copy()
    BoxClifford().apply(b)
    sizes, outside = structure(c, b)
    return {"nontrivial": len(sizes) > 1 and any(s > 1 for s in sizes) and outside > 1, "labels": ["boxes%d" % min(len(sizes), 5)]}


task_st = st.fixed_dictionaries(
    {"cs": st.lists(st.tuples(prog_st(3, 6), st.integers(1, 99)), max_size=3)}
)


def run_task(case):
    cs = [CircuitShots(build(p)[0], s) for p, s in case["cs"]]
    keep = [(x.Circuit.copy(), x.Shots) for x in cs]
    (out,) = gen_find_cliffords_task()((list(cs),))
    check(len(out) == len(cs), "%d circuits became %d" % (len(cs), len(out)))
    check([(x.Circuit, x.Shots) for x in cs] == keep, "the task changed the circuits it was given")
    for (c, s), o in zip(keep, out):
        check(o.Shots == s, "%d shots became %d" % (s, o.Shots))
        structure(c, o.Circuit)
    return {"nontrivial": len(cs) > 1}


PARTS = [
    Part("meaning", prog_st(4, 12), run, quick=1600, thorough=16000, shards=8),
    Part("order", prog_st(7, 40, twos=["CX", "CZ", "ZZMax"], boxes=False, min_n=3, min_ops=12), run_order, quick=800, thorough=8000, shards=8),
    Part("wide", wide_st, run_wide, quick=2400, thorough=40000, shards=8),
    Part("task", task_st, run_task, quick=100, thorough=2000, shards=4),
]
__all__ = ["Circuit", "CircBox"]
