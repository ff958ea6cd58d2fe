"""Noise sampled in circuits: insertion by compiler pass and propagation."""

from math import sqrt

import numpy as np
from collections import Counter
from checks.progs import build, prog_st
from hypothesis import strategies as st
from lib import gen, refsim
from lib.pbt import Part, Skip, check
from pytket import Bit, Circuit, OpType, Qubit
from pytket.pauli import QubitPauliString, QubitPauliTensor
from qermit.noise_model import NoiseModel, PauliErrorTranspile
from qermit.noise_model.noise_model import Direction, ErrorDistribution, LogicalErrorDistribution
from qermit.noise_model.qermit_pauli import QermitPauli

PROPERTY = "C14"
RULE = (
    "A case is a Clifford circuit (1-3, rarely 5 qubits with any names; part long: up to 24 gates with few noisy types; part pass: general programs, barriers, implicit permutations, final and mid-circuit measurement, conditionals and phases "
    "for the pass) and a noise model for up to four gate types. With errors of probability one everything is compared exactly (unitaries, signs, outcome "
    "distributions); with mixtures the sampled frequencies are compared with the enumerated distribution (7 sigma). Non-trivial: at least two errors occurred."
)

ONE = ["H", "S", "Sdg", "X", "V", "Z", "noop"]
TWO = ["CX", "CZ", "ZZMax", "SWAP"]
NOISY = ["H", "S", "V", "noop", "CX", "CZ", "ZZMax"]


def arity(g):
    return 2 if g in TWO else 1


@st.composite
def model_st(draw, mixed):
    out = {}
    for g in draw(st.lists(st.sampled_from(NOISY), min_size=1, max_size=4, unique=True)):
        k = draw(st.integers(1, 3)) if mixed else 1
        ls = draw(st.lists(gen.letters_st(arity(g)), min_size=k, max_size=k, unique=True))
        if mixed:
            ps = [draw(st.sampled_from([0.05, 0.1, 0.2, 0.3])) for _ in ls]
        else:
            ps = [1.0]
        out[g] = [[l, p] for l, p in zip(ls, ps)]
    return out


def circ_case(mixed, max_gates):
    return gen.size(1, 3, 5).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "n": st.just(n),
                "names": st.sampled_from(gen.NAMES),
                "gates": gen.gates(n, max_gates if n < 4 or mixed else 24, 1, ones=ONE, twos=TWO),
                "barrier": st.sampled_from([None, 0, 1, 2]),
                "swap": st.booleans(),
                "model": model_st(mixed),
                "measure": st.sampled_from([0, 1, 2]),
                "cond": st.booleans(),
                "phase": st.booleans(),
                "seed": st.integers(0, 10**6),
                "sel": st.lists(st.integers(0, n - 1), max_size=2, unique=True),
            }
        )
    )


@st.composite
def long_case(draw):
    """longer circuits with few errors: one or two of the types of gate there are"""
    case = dict(draw(circ_case(False, 8)))
    n = draw(st.integers(2, 4))
    case["n"] = n
    case["sel"] = [i for i in case["sel"] if i < n]
    case["gates"] = draw(gen.gates(n, 24, 6, ones=ONE, twos=TWO))
    there = sorted({g[0] for g in case["gates"]} & set(NOISY), key=lambda g: (arity(g), [x[0] for x in case["gates"]].count(g), g))
    model = {}
    for g in there[: draw(st.integers(1, 2))]:
        k = arity(g)
        model[g] = [[draw(st.lists(st.sampled_from("XYZ" if k == 1 else "IXYZ"), min_size=k, max_size=k).map("".join)), 1.0]]
    if model:
        case["model"] = model
    return case


def mk(case, measure=False):
    c = Circuit(name="circuit") if case["names"] != "q" else Circuit()
    qs = gen.qubits_of(case["n"], case["names"])
    for q in qs:
        c.add_qubit(q)
    for i, g in enumerate(case["gates"]):
        gen.add(c, g, qs)
        if i == case["barrier"]:
            c.add_barrier(qs)
    if case["swap"]:
        c.replace_SWAPs()
    if measure and case["measure"]:
        bits = [Bit("m", len(qs) + 8 - i) for i in range(len(qs))]
        for b in bits:
            c.add_bit(b)
        if case["measure"] == 2:
            c.Measure(qs[0], bits[0])
            if case["cond"]:
                c.X(qs[-1], condition=bits[0])
            c.H(qs[0])
        for q, b in zip(qs, bits):
            c.Measure(q, b)
    return c, qs


def mk_early(case):
    """every qubit is measured right after its last gate"""
    c = Circuit()
    qs = gen.qubits_of(case["n"], case["names"])
    for q in qs:
        c.add_qubit(q)
    bits = [Bit("m", len(qs) + 8 - i) for i in range(len(qs))]
    for b in bits:
        c.add_bit(b)
    probe = []
    for g in case["gates"]:
        one = Circuit()
        for q in qs:
            one.add_qubit(q)
        gen.add(one, g, qs)
        probe.append({q for x in one.get_commands() for q in x.qubits})
    done = set()
    for i, g in enumerate(case["gates"]):
        gen.add(c, g, qs)
        if i == case["barrier"] and not done:
            c.add_barrier(qs)
        rest = set().union(*probe[i + 1 :])
        if i == case["barrier"]:
            continue
        for q in sorted(probe[i] - rest):
            c.Measure(q, bits[qs.index(q)])
            done.add(q)
    return c


def nm_of(case):
    return NoiseModel(
        {
            OpType.from_name(g): ErrorDistribution({tuple(gen.P[x] for x in l): p for l, p in d})
            for g, d in case["model"].items()
        }
    )


def noisy_cmds(case, c):
    """indices of noisy commands with their error mixtures"""
    names = {OpType.from_name(g): d for g, d in case["model"].items()}
    return [(i, names[x.op.type]) for i, x in enumerate(c.get_commands()) if x.op.type in names]


def dense(case, c, qs, errs):
    """unitary of c with errors errs[i] inserted after command i"""
    n = len(qs)
    s = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    for i, x in enumerate(c.get_commands()):
        if x.op.type == OpType.Barrier:
            continue
        idx = [qs.index(q) for q in x.qubits]
        s = refsim.apply_unitary(s, x.op.get_unitary(), idx)
        if i in errs:
            for k, l in zip(idx, errs[i]):
                s = refsim.apply_unitary(s, refsim.PAULI[l], [k])
    perm = c.implicit_qubit_permutation()
    src = [None] * n
    for q in qs:
        src[qs.index(perm.get(q, q))] = qs.index(q)
    s = np.transpose(s, src + [n])
    return s.reshape(2**n, 2**n) * np.exp(1j * np.pi * float(c.phase))


def pm(p, qs):
    t = p.qubit_pauli_tensor
    return t.coeff * refsim.pauli_matrix([t.string.map[q].name if q in t.string.map else "I" for q in qs])


# ---- certain errors: exact
def run_exact(case):
    nm = nm_of(case)
    c, qs = mk(case)
    keep = c.copy()
    noisy = noisy_cmds(case, c)
    errs = {i: d[0][0] for i, d in noisy}
    if not c.get_commands():
        raise Skip("empty")
    u = dense(case, c, qs, {})
    v = dense(case, c, qs, errs)
    check(np.allclose(u, refsim.unitary(c, qs)), "harness: dense and refsim disagree")
    b = nm.random_propagate(c, direction=Direction.backward)
    f = nm.random_propagate(c, direction=Direction.forward)
    d = nm.random_propagate(c)
    check(c == keep, "propagation changed the circuit")
    check(
        np.allclose(u @ pm(b, qs), v, atol=1e-8),
        lambda: "error pushed to the front of %r is %s for errors %r" % (c.get_commands(), b, errs),
    )
    check(
        np.allclose(pm(f, qs) @ u, v, atol=1e-8),
        lambda: "error pushed to the end of %r (permutation %r) is %s for errors %r"
        % (c.get_commands(), c.implicit_qubit_permutation(), f, errs),
    )
    check(d == b, "the default direction is not backward")
    # measurements, wherever they are, play no role
    if not case["swap"]:
        e = mk_early(case)
        for direction, want in ((Direction.backward, b), (Direction.forward, f)):
            got = nm.random_propagate(e, direction=direction)
            check(
                got == want,
                lambda: "error of %r propagated %s is %s, without the measurements %s" % (e.get_commands(), direction.name, got, want),
            )
    # counters
    k = 5
    for direction, p in ((Direction.backward, b), (Direction.forward, f)):
        cnt = nm.counter_propagate(c, k, direction=direction)
        ident = p.qubit_pauli_tensor.string == QubitPauliString()
        check(
            dict(cnt) == ({} if ident else {p: k}),
            "counter of %d certain errors %s: %r" % (k, p, {str(a): x for a, x in cnt.items()}),
        )
    # the pass
    t = c.copy()
    PauliErrorTranspile(nm).apply(t)
    check(set(t.qubits) == set(qs), "qubits %r became %r" % (qs, t.qubits))
    check(
        refsim.equal_up_to_phase(refsim.unitary(t, qs), v),
        lambda: "%r with certain errors %r became %r" % (c.get_commands(), errs, t.get_commands()),
    )
    # gates of no error stay
    n_err = sum(sum(x != "I" for x in e) for e in errs.values())
    check(t.n_gates == c.n_gates + n_err, "%d gates became %d with %d errors" % (c.n_gates, t.n_gates, n_err))
    # with measurement, as a distribution
    m, _ = mk(case, True)
    if case["measure"]:
        if case["phase"]:
            m.add_phase(0.3)
        ty = {OpType.from_name(g): d[0][0] for g, d in case["model"].items()}
        want = refsim.distribution(m, noise=lambda x: [(ty[x.op.type], 1.0)] if x.op.type in ty else None)
        t = m.copy()
        PauliErrorTranspile(nm).apply(t)
        check(list(t.bits) == list(m.bits), "bits %r became %r" % (m.bits, t.bits))
        got = refsim.distribution(t)
        check(
            refsim.tv(want, got) < 1e-9,
            lambda: "outcomes of %r with certain errors are %r, expected %r" % (m.get_commands(), got, want),
        )
    return {
        "nontrivial": len(errs) > 1,
        "labels": ["measure%d" % case["measure"], "perm" if any(a != b for a, b in c.implicit_qubit_permutation().items()) else "noperm"],
    }


# ---- the pass on any circuit
GENERAL = ["H", "S", "Sdg", "T", "Tdg", "Rz", "Rx", "PhasedX", "X", "Reset", "CX", "CZ", "SWAP", "ZZMax", "ZZPhase", "CRz"]


@st.composite
def pass_st(draw):
    p = draw(prog_st(4, 14, boxes=False, min_ops=2))
    gs = draw(st.lists(st.sampled_from(GENERAL), min_size=2, max_size=6, unique=True))
    two = ("CX", "CZ", "SWAP", "ZZMax", "ZZPhase", "CRz")
    return {"p": p, "model": {g: draw(gen.letters_st(2 if g in two else 1)) for g in gs}}


def run_pass(case):
    c, qs, kinds = build(case["p"])
    # the noise of conditional gates is not specified
    inner = {x.op.op.type for x in c.get_commands() if x.op.type == OpType.Conditional}
    ty = {OpType.from_name(g): l for g, l in case["model"].items()}
    ty = {g: l for g, l in ty.items() if g not in inner}
    nm = NoiseModel({g: ErrorDistribution({tuple(gen.P[x] for x in l): 1.0}) for g, l in ty.items()})
    tr = PauliErrorTranspile(nm)
    errs = {i: ty[x.op.type] for i, x in enumerate(c.get_commands()) if x.op.type in ty}
    for _ in range(2):
        t = c.copy()
        tr.apply(t)
        check(t.qubits == c.qubits and t.bits == c.bits, "registers %r %r became %r %r" % (c.qubits, c.bits, t.qubits, t.bits))
        if kinds <= {"g", "bar"} and not case["p"]["final"]:
            v = dense(case, c, qs, errs)
            check(
                refsim.equal_up_to_phase(refsim.unitary(t, qs), v),
                lambda: "%r with certain errors %r became %r" % (c.get_commands(), errs, t.get_commands()),
            )
        elif c.n_bits:
            want = refsim.distribution(c, noise=lambda x: [(ty[x.op.type], 1.0)] if x.op.type in ty else None)
            got = refsim.distribution(t)
            check(
                refsim.tv(want, got) < 1e-9,
                lambda: "outcomes of %r with certain errors %r are %r, expected %r" % (c.get_commands(), errs, got, want),
            )
        n_err = sum(sum(x != "I" for x in e) for e in errs.values())
        check(t.n_gates == c.n_gates + n_err, "%d gates became %d with %d errors" % (c.n_gates, t.n_gates, n_err))
    return {"nontrivial": len(errs) > 1, "labels": sorted(kinds)}


# ---- mixtures: sampled frequencies
N = 400


def enum(case, c, qs, front):
    """exact distribution over logical error letters"""
    noisy = noisy_cmds(case, c)
    combos = [({}, 1.0)]
    for i, d in noisy:
        rest = 1 - sum(p for _, p in d)
        new = []
        for e, p in combos:
            for l, q in d:
                new.append(({**e, i: l}, p * q))
            if rest > 1e-12:
                new.append((e, p * rest))
        combos = new
        if len(combos) > 600:
            raise Skip("too many combinations")
    u = dense(case, c, qs, {})
    out = {}
    memo = {}
    for e, p in combos:
        # logical errors multiply: one dense simulation per single error suffices
        acc = "I" * len(qs)
        for i, l in e.items():
            if (i, l) not in memo:
                v = dense(case, c, qs, {i: l})
                w = u.conj().T @ v if front else v @ u.conj().T
                memo[(i, l)] = letters(w, len(qs))
            acc = mult(acc, memo[(i, l)])
        out[acc] = out.get(acc, 0) + p
    return out


def mult(a, b):
    o = ""
    for x, y in zip(a, b):
        if x == y:
            o += "I"
        elif "I" in (x, y):
            o += x if y == "I" else y
        else:
            o += ({"X", "Y", "Z"} - {x, y}).pop()
    return o


def letters(m, n):
    from itertools import product

    for ls in product("IXYZ", repeat=n):
        if abs(np.trace(refsim.pauli_matrix(ls) @ m)) / 2**n > 0.5:
            return "".join(ls)
    raise AssertionError("not a Pauli")


def freq(cnt, want, n, what):
    for k in set(cnt) | set(want):
        p = min(1.0, want.get(k, 0.0))
        sd = sqrt(n * p * (1 - p))
        check(
            abs(cnt.get(k, 0) - n * p) < 7 * sd + (3 if 0 < p < 1 else 1e-6),
            lambda: "%s: %s occurs %r times in %d, probability %r" % (what, k, cnt.get(k, 0), n, p),
        )


def name_of(p, qs):
    t = p.qubit_pauli_tensor.string.map if hasattr(p, "qubit_pauli_tensor") else p.map
    return "".join(t[q].name if q in t else "I" for q in qs)


def run_mixed(case):
    nm = nm_of(case)
    nm.reset_rng(np.random.default_rng(case["seed"]))
    c, qs = mk(case)
    if len(noisy_cmds(case, c)) > 5:
        raise Skip("too many noisy gates")
    front = enum(case, c, qs, True)
    back = enum(case, c, qs, False)
    ident = "I" * len(qs)
    for direction, want in ((Direction.backward, front), (Direction.forward, back)):
        cnt = Counter()
        for p, k in nm.counter_propagate(c, N, direction=direction).items():
            cnt[name_of(p, qs)] += k
        check(cnt[ident] == 0, "identity counted as an error")
        w = {k: v for k, v in want.items() if k != ident}
        freq({k: v for k, v in cnt.items() if v}, w, N, "%s propagation" % direction.name)
    led = nm.get_effective_pre_error_distribution(c, n_rand=N)
    check(led.total == N, "total %r for %d samples" % (led.total, N))
    dist = {name_of(s, qs): v * N for s, v in led.distribution.items()}
    freq(dist, {k: v for k, v in front.items() if k != ident}, N, "effective distribution")
    # the pass: single shots of noise; compare the mean outcome distribution's support and frequency of inserted errors
    ins = Counter()
    noisy = dict(noisy_cmds(case, c))
    u = dense(case, c, qs, {})
    m = 60
    tr = PauliErrorTranspile(nm)
    for _ in range(m):
        t = c.copy()
        tr.apply(t)
        ins[letters(u.conj().T @ refsim.unitary(t, qs) , len(qs))] += 1
    freq(ins, front, m, "errors inserted by the pass")
    return {"nontrivial": len(noisy) > 1, "labels": ["noisy%d" % min(4, len(noisy))]}


# ---- post selection of logical errors
led_st = gen.size(1, 3, 5).flatmap(
    lambda n: st.fixed_dictionaries(
        {
            "n": st.just(n),
            "names": st.sampled_from(gen.NAMES),
            "errs": st.lists(st.tuples(gen.letters_st(n, 1), st.integers(0, 3), st.integers(1, 50)), max_size=8 if n < 4 else 30, unique_by=lambda t: (t[0], t[1])),
            "extra": st.one_of(st.none(), st.integers(0, 100), st.sampled_from([10**5, 12345678])),
            "sel": st.lists(st.integers(0, n - 1), max_size=n, unique=True),
        }
    )
)
CO = [1 + 0j, 1j, -1 + 0j, -1j]


def run_led(case):
    qs = gen.qubits_of(case["n"], case["names"])
    cnt = Counter()
    for l, c, k in case["errs"]:
        p = QermitPauli(QubitPauliTensor(string=QubitPauliString({q: gen.P[x] for q, x in zip(qs, l)}), coeff=CO[c]))
        cnt[p] += k
    s = sum(k for _, _, k in case["errs"])
    if case["extra"] is None:
        led = LogicalErrorDistribution(cnt)
        total = s
    else:
        total = s + case["extra"]
        led = LogicalErrorDistribution(cnt, total=total)
    check(led.total == total, "total %r, expected %r" % (led.total, total))
    want = {}
    for l, c, k in case["errs"]:
        want[l] = want.get(l, 0) + k / total
    got = {name_of(x, qs): v for x, v in led.distribution.items()}
    check(
        set(got) == set(want) and all(abs(got[x] - want[x]) < 1e-12 for x in want),
        "distribution %r, expected %r" % (got, want),
    )
    sel = [qs[i] for i in case["sel"]]
    rest = [q for q in qs if q not in sel]
    ps = led.post_select(sel)
    want, tot = {}, total
    for l, c, k in case["errs"]:
        d = dict(zip(qs, l))
        if any(d[q] in "XY" for q in sel):
            tot -= k
        else:
            r = "".join(d[q] for q in rest)
            want[r] = want.get(r, 0) + k
    check(ps.total == tot, "total after post selection is %r, expected %r" % (ps.total, tot))
    if tot:
        got = {}
        for x, v in ps.distribution.items():
            check(all(q not in sel for q in x.map), "post-selected qubits remain in %r" % x)
            got[name_of(x, rest)] = got.get(name_of(x, rest), 0) + v * tot
        check(
            set(got) == set(want) and all(abs(got[x] - want[x]) < 1e-9 for x in want),
            "post-selected counts %r, expected %r" % (got, want),
        )
    check(led.total == total and sum(cnt.values()) == s, "post selection changed the original")
    return {"nontrivial": len(want) > 1 and bool(sel)}


PARTS = [
    Part("exact", circ_case(False, 8), run_exact, quick=800, thorough=16000, shards=8),
    Part("long", long_case(), run_exact, quick=600, thorough=12000, shards=8),
    Part("pass", pass_st(), run_pass, quick=800, thorough=16000, shards=8),
    Part("mixed", circ_case(True, 5), run_mixed, quick=80, thorough=2000, shards=8),
    Part("logical", led_st, run_led, quick=400, thorough=6000),
]
__all__ = ["Qubit"]
