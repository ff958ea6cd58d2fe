"""Pauli checks around Clifford subcircuits."""

import numpy as np
from checks.progs import build, prog_st, with_twins
from hypothesis import strategies as st
from lib import gen, refsim, tableau
from lib.backends import RecordingBackend
from lib.pbt import Part, Skip, check
from numpy.random import default_rng
from pytket import Circuit, OpType
from pytket.circuit import CircBox
from pytket.pauli import QubitPauliString, QubitPauliTensor
from qermit import CircuitShots
from qermit.coherent_pauli_checks import (
    DeterministicXPauliSampler,
    DeterministicZPauliSampler,
    PauliSampler,
    RandomPauliSampler,
    gen_coherent_pauli_check_mitres,
)
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford
from qermit.noise_model.qermit_pauli import QermitPauli

PROPERTY = "C17"
RULE = (
    "A case is a circuit (1-3 qubits; part many: up to 6 boxes with up to 8 checks each; any names, measurements, conditionals, permutations, own boxes) whose Clifford parts are boxed, or which is made of boxes "
    "placed by hand, and a sampler: all-X, all-Z, random, or given Paulis with any phase (0-2 per box). Part detect inserts a Pauli error next to one box. "
    "Non-trivial: at least one check with a non-identity Pauli was added around a box with a two-qubit gate / the error is flagged."
)
COEFF = [1, 1j, -1, -1j]
NAME = "Clifford Subcircuit"


class Given(PauliSampler):
    def __init__(self, lists):
        self.lists, self.k = lists, 0

    def sample(self, circ):
        ls = self.lists[self.k % len(self.lists)] if self.lists else []
        self.k += 1
        return [
            QermitPauli(
                QubitPauliTensor(
                    string=QubitPauliString({q: gen.P[l] for q, l in zip(circ.qubits, s)}), coeff=COEFF[ph]
                )
            )
            for s, ph in ls
        ]


sampler_st = st.one_of(
    st.tuples(st.just("Z")),
    st.tuples(st.just("X")),
    st.tuples(st.just("random"), st.integers(0, 2), st.integers(0, 999)),
    st.tuples(
        st.just("given"),
        st.lists(
            st.lists(st.tuples(st.lists(st.sampled_from("IXYZ"), min_size=5, max_size=5).map("".join), st.integers(0, 3)), max_size=2),
            min_size=1,
            max_size=2,
        ),
    ),
)


def mk_sampler(d):
    if d[0] == "Z":
        s = DeterministicZPauliSampler()
    elif d[0] == "X":
        s = DeterministicXPauliSampler()
    elif d[0] == "random":
        s = RandomPauliSampler(d[1], rng=default_rng(d[2]))
    else:
        s = Given(d[1])
    s.log = []
    orig = s.sample

    def sample(circ, *a, **k):
        r = orig(circ, *a, **k)
        s.log.append((list(circ.qubits), [p.qubit_pauli_tensor for p in r]))
        return r

    s.sample = sample
    return s


@st.composite
def boxes_st(draw):
    """a circuit made of boxes placed by hand and gates in between"""
    n = draw(gen.size(1, 3, 4))
    k = draw(gen.size(1, 2, 4))
    boxes = []
    for _ in range(k):
        m = draw(st.integers(1, n))
        boxes.append(
            {
                "qs": list(draw(st.permutations(range(n))))[:m],
                "gates": draw(gen.gates(m, 6, 1)),
                "swap": draw(st.booleans()),
                "name": draw(st.sampled_from([NAME, NAME, NAME + " 2"])),
                "bar": draw(st.booleans()),
                "phase": draw(st.sampled_from([0, 0.3])),
            }
        )
    return {
        "n": n,
        "names": draw(st.sampled_from(gen.NAMES)),
        "between": [draw(gen.gates(n, 3, **gen.UNIVERSAL)) for _ in range(k + 1)],
        "boxes": boxes,
        "swap": draw(st.booleans()),
        "sampler": draw(sampler_st),
        "err": draw(st.tuples(st.integers(0, k - 1), gen.letters_st(n, 1), st.booleans())),
    }


def build_boxes(case):
    c = Circuit(name="circuit") if case["names"] != "q" else Circuit()
    qs = gen.qubits_of(case["n"], case["names"])
    for q in qs:
        c.add_qubit(q)
    for i, gs in enumerate(case["between"]):
        for g in gs:
            gen.add(c, g, qs)
        if i < len(case["boxes"]):
            b = case["boxes"][i]
            s = Circuit(len(b["qs"]), name=b["name"])
            for j, g in enumerate(b["gates"]):
                gen.add(s, g, s.qubits)
                if j == 0 and b["bar"]:
                    s.add_barrier(s.qubits)
            if b["swap"]:
                s.replace_SWAPs()
            s.add_phase(b["phase"])
            c.add_circbox(CircBox(s), [qs[j] for j in b["qs"]])
    if case["swap"]:
        c.replace_SWAPs()
    return c, qs


def is_box(x):
    return x.op.type == OpType.CircBox and str(x.op.get_circuit().name).startswith(NAME)


def judge(c, s):
    """add checks to c with sampler s; -> checked circuit, ancillas, post bits"""
    keep = c.copy()
    nbox = sum(1 for x in c.get_commands() if is_box(x))
    ch, post = s.add_pauli_checks_to_circbox(circuit=c)
    check(c == keep, "adding checks changed the circuit given")
    check(len(s.log) == nbox, "%d subcircuits sampled for, %d present" % (len(s.log), nbox))
    n = sum(len(l) for _, l in s.log)
    anc = [q for q in ch.qubits if q not in c.qubits]
    check(set(c.qubits) <= set(ch.qubits) and set(c.bits) <= set(ch.bits), "units of the circuit are missing")
    check(len(anc) == n, "%d ancillas for %d checks" % (len(anc), n))
    check(
        len(set(post)) == n and set(post) == set(ch.bits) - set(c.bits),
        "%d checks, postselection on %r, new bits %r" % (n, post, set(ch.bits) - set(c.bits)),
    )
    return ch, anc, sorted(post), n


def strip(ch, post, insert=None):
    """the circuit without the final measurements of ancillas; optional insertion"""
    d = Circuit()
    for q in ch.qubits:
        d.add_qubit(q)
    for b in ch.bits:
        if b not in post:
            d.add_bit(b)
    for i, x in enumerate(ch.get_commands()):
        if insert and insert[0] == i and not insert[2]:
            insert[1](d)
        if x.op.type == OpType.Measure and x.bits[0] in post:
            pass
        elif x.op.type == OpType.Barrier:
            d.add_barrier(x.args)
        else:
            d.add_gate(x.op, x.args)
        if insert and insert[0] == i and insert[2]:
            insert[1](d)
    return d


def nonid(s):
    from pytket.pauli import Pauli

    return any(any(p != Pauli.I for p in t.string.map.values()) for _, l in s.log for t in l)


def has2(c):
    return any(is_box(x) and any(len(y.qubits) > 1 for y in x.op.get_circuit().get_commands()) for x in c.get_commands())


def run_boxes(case):
    c, qs = build_boxes(case)
    s = mk_sampler(case["sampler"])
    ch, anc, post, n = judge(c, s)
    # every ancilla is certain to be 0 and the compute qubits are in the original state
    d = strip(ch, post)
    sv = refsim.statevector(d, qs + anc).reshape(2 ** len(qs), -1)
    check(
        abs(np.linalg.norm(sv[:, 0]) - 1) < 1e-6,
        lambda: "without noise a check fires with probability %.4f: %r" % (1 - np.linalg.norm(sv[:, 0]) ** 2, [str(x) for x in ch.get_commands()]),
    )
    # the implicit permutation is not part of the commands: compare up to it
    perm = {q: r for q, r in ch.implicit_qubit_permutation().items() if q in qs}
    check(perm == c.implicit_qubit_permutation(), "implicit permutation %r became %r" % (c.implicit_qubit_permutation(), perm))
    want = refsim.statevector(strip(c, []), qs)
    check(
        abs(abs(np.vdot(want, sv[:, 0])) - 1) < 1e-6,
        lambda: "the checks changed the state of the compute qubits: %r" % ([str(x) for x in ch.get_commands()],),
    )
    return {"nontrivial": nonid(s) and has2(c), "labels": [case["sampler"][0], "checks%d" % min(n, 3)]}


def run_detect(case):
    c, qs = build_boxes(case)
    s = mk_sampler(case["sampler"])
    ch, anc, post, n = judge(c, s)
    k, letters, after = case["err"]
    pos = [i for i, x in enumerate(ch.get_commands()) if is_box(x)]
    check(len(pos) == len(case["boxes"]), "%d boxes left of %d" % (len(pos), len(case["boxes"])))
    k = sorted(range(len(pos)))[k]
    x = ch.get_commands()[pos[k]]
    e = {q: l for q, l in zip(qs, letters) if q in x.qubits}
    if not any(l != "I" for l in e.values()):
        raise Skip("error elsewhere")

    def ins(d):
        for q, l in e.items():
            if l != "I":
                d.add_gate(OpType.from_name(l), [q])

    d = strip(ch, post, (pos[k], ins, after))
    sv = refsim.statevector(d, qs + anc).reshape(2 ** len(qs), -1)
    pr = (np.abs(sv) ** 2).sum(axis=0)
    j = int(np.argmax(pr))
    check(abs(pr[j] - 1) < 1e-6, lambda: "flags are random (%r) after Pauli error %r" % (pr.tolist(), e))
    fired = bin(j).count("1")
    # expected: one flag per check that anticommutes with the error
    sub = x.op.get_circuit()
    u = refsim.unitary(sub)
    em = refsim.pauli_matrix([e.get(q, "I") for q in x.qubits])
    if after:
        em = u.conj().T @ em @ u
    want = 0
    # boxes on the same qubits keep their order
    same = [ch.get_commands()[i] for i in pos]
    nth = [y.qubits for y in same[: k + 1] if set(y.qubits) == set(x.qubits)]
    logs = [l for l in s.log if set(l[0]) == set(x.qubits)]
    check(len(logs) >= len(nth), "no checks were sampled for the subcircuit on %r" % (x.qubits,))
    lq, ll = logs[len(nth) - 1]
    for t in ll:
        m = refsim.pauli_matrix([t.string.map[q].name if q in t.string.map else "I" for q in x.qubits])
        want += int(not np.allclose(m @ em, em @ m, atol=1e-7))
    check(
        fired == want,
        lambda: "error %r %s box %d raises %d flags, %d checks anticommute with it" % (e, "after" if after else "before", k, fired, want),
    )
    return {"nontrivial": want > 0, "labels": ["flags%d" % want, case["sampler"][0]]}


# ---- many checks, many boxes: by tableaux
CL = ["H", "S", "Sdg", "X", "Y", "Z", "V", "Vdg"]
CL2 = ["CX", "CZ", "CY", "SWAP", "ZZMax"]


@st.composite
def many_st(draw):
    n = draw(st.integers(2, 6))
    k = draw(st.integers(1, 6))
    boxes = []
    for _ in range(k):
        m = draw(st.integers(1, n))
        boxes.append(
            {
                "qs": list(draw(st.permutations(range(n))))[:m],
                "gates": draw(gen.gates(m, 10, 1, ones=CL, twos=CL2)),
                "swap": draw(st.booleans()),
                "name": NAME,
                "bar": draw(st.booleans()),
                "phase": 0,
            }
        )
    one = st.tuples(st.lists(st.sampled_from("IXYZ"), min_size=6, max_size=6).map("".join), st.integers(0, 3))
    return {
        "n": n,
        "names": draw(st.sampled_from(gen.NAMES)),
        "between": [draw(gen.gates(n, 4, ones=CL, twos=CL2)) for _ in range(k + 1)],
        "boxes": boxes,
        "swap": draw(st.booleans()),
        "sampler": draw(
            st.one_of(
                st.tuples(st.just("random"), st.integers(0, 8), st.integers(0, 999)),
                st.tuples(st.just("given"), st.lists(st.lists(one, max_size=7), min_size=1, max_size=3)),
            )
        ),
    }


def run_many(case):
    c, qs = build_boxes(case)
    s = mk_sampler(case["sampler"])
    ch, anc, post, n = judge(c, s)
    perm = {q: r for q, r in ch.implicit_qubit_permutation().items() if q in qs}
    check(perm == c.implicit_qubit_permutation(), "implicit permutation %r became %r" % (c.implicit_qubit_permutation(), perm))
    meas = {x.bits[0]: x.qubits[0] for x in ch.commands_of_type(OpType.Measure)}
    check(
        sorted(meas) == sorted(post) and sorted(meas.values()) == sorted(anc),
        lambda: "ancillas %r are measured as %r, postselection on %r" % (anc, meas, post),
    )
    # boxes may have implicit permutations of their own
    d = expanded(strip(ch, post))
    order = qs + anc
    m = len(order)
    X, Z, S = tableau.tableau(d.dagger(), order)
    low = (1 << m) - 1

    def certain(mask):
        """whether the Pauli has value +1"""
        a, sg = tableau.image(X, Z, S, mask)
        return a & low == 0 and sg == 0

    for i, q in enumerate(anc):
        check(
            certain(1 << (m + len(qs) + i)),
            lambda: "without noise, the check of %r (%d of %d) can fire: %r" % (q, i + 1, n, [str(x) for x in ch.get_commands()]),
        )
    X0, Z0, S0 = tableau.tableau(expanded(strip(c, [])), qs)
    for i in range(len(qs)):
        r = len(qs) + i
        a, sg = tableau.image(X, Z, S, sum(int(X0[r, j]) << j | int(Z0[r, j]) << (m + j) for j in range(len(qs))))
        check(
            a & low == 0 and sg == S0[r],
            lambda: "%d checks changed the state of the compute qubits: %r" % (n, [str(x) for x in ch.get_commands()]),
        )
    return {"nontrivial": n > 3, "labels": ["checks%d+" % (5 * (n // 5))]}


def expanded(c):
    d = refsim.flatten(c)
    e = Circuit()
    for q in d.qubits:
        e.add_qubit(q)
    for x in d.get_commands():
        if x.op.type != OpType.Barrier:
            e.add_gate(x.op, x.args)
    # make the permutation which boxes leave behind explicit
    to = d.implicit_qubit_permutation()
    pos = {q: q for q in to}
    for q in list(to):
        # content of wire q has to go to to[q]
        if pos[q] != to[q]:
            a, b = pos[q], to[q]
            e.SWAP(a, b)
            for k in pos:
                pos[k] = b if pos[k] == a else a if pos[k] == b else pos[k]
    return e


prog_case = st.fixed_dictionaries({"prog": prog_st(3, 8), "sampler": sampler_st})


def run_prog(case):
    c, qs, kinds = build(case["prog"])
    BoxClifford().apply(c)
    if sum(is_box(x) for x in c.get_commands()) > 3:
        raise Skip("too many ancillas to simulate")
    s = mk_sampler(case["sampler"])
    ch, anc, post, n = judge(c, s)
    d0 = refsim.distribution(c)
    d1 = refsim.distribution(ch, list(c.bits) + post)
    want = {k + (0,) * n: v for k, v in d0.items()}
    check(refsim.tv(d1, want) < 1e-6, lambda: "outcomes with checks %r, without %r" % (d1, d0))
    return {"nontrivial": nonid(s) and has2(c) and c.n_bits > 0, "labels": sorted(kinds) + [case["sampler"][0]]}


SH = 10**8
mit_case = st.fixed_dictionaries(
    {
        "progs": with_twins(gen.some(prog_st(2, 6), 3)),
        "sampler": sampler_st,
        "noise": st.sampled_from([None, "X", "Y", "Z"]),
        "every": st.integers(0, 4),
        "as_shots": st.just(False),
    }
)


def run_mit(case):
    cs = []
    for p in case["progs"]:
        p = dict(p, final=True)
        c = build(p)[0]
        cs.append(CircuitShots(c, SH))
    keep = [(x.Circuit.copy(), x.Shots) for x in cs]
    s = mk_sampler(case["sampler"])
    noise = None
    if case["noise"]:

        def noise(circ, cmd):
            if cmd.op.type in (OpType.CX, OpType.H) and str(cmd.qubits[0].reg_name) != "ancilla":
                return [("I" * len(cmd.qubits), 0.75), (case["noise"] + "I" * (len(cmd.qubits) - 1), 0.25)]
            return []

    if sum(sum(is_box(x) for x in _boxed(c).get_commands()) for c, _ in keep) > 4:
        raise Skip("too many ancillas to simulate")
    if noise and sum(sum(x.op.type in (OpType.CX, OpType.H) for x in refsim.flatten(c).get_commands()) for c, _ in keep) > 4:
        raise Skip("too many noisy gates")
    be = RecordingBackend(noise=noise, compile_kind="none")
    res = gen_coherent_pauli_check_mitres(be, s).run(list(cs))
    check([(x.Circuit, x.Shots) for x in cs] == keep, "the caller's circuits were changed")
    check(len(res) == len(cs), "%d results for %d circuits" % (len(res), len(cs)))
    check(len(be.jobs) == len(cs), "%d jobs for %d circuits" % (len(be.jobs), len(cs)))
    lost = False
    for (c, _), r, (jc, js) in zip(keep, res, be.jobs):
        check(js == SH, "%d shots requested, %d run" % (SH, js))
        bits = list(c.bits)
        post = [b for b in jc.bits if b not in bits]
        d = be.dist(jc)
        want = {}
        for k, v in d.items():
            v_ = dict(zip(jc.bits, k))
            if not any(v_[b] for b in post):
                kk = tuple(v_[b] for b in bits)
                want[kk] = want.get(kk, 0) + v
        tot = sum(want.values())
        lost |= tot < 0.999
        if not case["noise"]:
            check(abs(tot - 1) < 1e-6, "without noise checks reject a fraction %f" % (1 - tot))
            check(refsim.tv(want, refsim.distribution(c)) < 1e-6, "checked circuit computes something else")
        if tot < 1e-6:
            continue
        got = {k: v / SH for k, v in r.get_counts(bits).items()}
        check(refsim.tv(got, want) < 1e-5, lambda: "results %r, accepted outcomes are %r" % (got, want))
        check(set(r.c_bits) == set(bits), "result over %r, circuit has %r" % (r.c_bits, bits))
    return {"nontrivial": nonid(s) and (lost or not case["noise"]), "labels": [str(case["noise"]), "lost" if lost else "kept"]}


def _boxed(c):
    d = c.copy()
    BoxClifford().apply(d)
    return d


PARTS = [
    Part("boxes", boxes_st(), run_boxes, quick=600, thorough=16000, shards=8),
    Part("detect", boxes_st(), run_detect, quick=600, thorough=16000, shards=8),
    Part("many", many_st(), run_many, quick=400, thorough=10000, shards=8),
    Part("programs", prog_case, run_prog, quick=240, thorough=6000, shards=8),
    Part("mitres", mit_case, run_mit, quick=160, thorough=4000, shards=8),
]
