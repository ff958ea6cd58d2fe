"""SPAM correction."""

import numpy as np
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket import Bit, Circuit, OpType
from pytket.architecture import Architecture
from pytket.backends.backendinfo import BackendInfo
from pytket.circuit import Node
from pytket.passes import AutoRebase, CustomPass, DecomposeBoxes, RemoveRedundancies, SequencePass
from qermit import CircuitShots, MitRes
from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes

PROPERTY = "C20"
RULE = (
    "A case is a device of 2-4, rarely 6 (part large: 5-7; uncorrelated: 11, part wide: 11-12) nodes with readout noise correlated within the sets of an arbitrary partition of the nodes (sizes and order arbitrary), 1-3 "
    "circuits on 1-3 qubits, placed by the device's compiler on arbitrary nodes, with final and mid-circuit measurements of arbitrary qubits into arbitrary bits, and a "
    "correction method. Non-trivial: the noise changes the outcomes by more than 1% and a set of two or more nodes is involved."
)
SH = 10**9
BITS = [Bit("x", 10), Bit("x", 2), Bit("w", 0), Bit("y", 3)] + [Bit("x", 20 - i) for i in range(9)]


class SpamDevice(RecordingBackend):
    """Places circuits on nodes; readout noise given by one matrix per set of nodes."""

    def __init__(self, m, groups, place, strict=False):
        nodes = [Node(i) for i in range(m)]
        info = BackendInfo("rec", "rec", "0", Architecture([(nodes[i], nodes[i + 1]) for i in range(m - 1)]), set())
        super().__init__(backend_info=info, compile_kind="none", strict=strict)
        self.nodes, self.groups, self.place = nodes, groups, place

    def wrong(self, circ):
        if not set(circ.qubits) <= set(self.nodes):
            return "it acts on %r" % circ.qubits
        return super().wrong(circ)

    def default_compilation_pass(self, optimisation_level=1):
        def tr(c):
            d = c.copy()
            free = [n for n in self.place if n not in d.qubits]
            m = {}
            for q in d.qubits:
                if q not in self.nodes:
                    m[q] = free.pop(0)
            d.rename_units(m)
            return d

        seq = [DecomposeBoxes(), CustomPass(tr), AutoRebase({OpType.CX, OpType.Rz, OpType.Rx, OpType.X, OpType.H})]
        if optimisation_level:
            seq.append(RemoveRedundancies())
        return SequencePass(seq)

    def dist(self, circ):
        d = self.readout(circ, refsim.distribution(circ))
        # outcomes which no readout noise explains
        if self.twist is not None and any(b.reg_name != "c" for b in circ.bits):
            t, seed = self.twist
            rng = np.random.default_rng(seed)
            n = len(circ.bits)
            w = rng.random(2**n) ** 4
            w /= w.sum()
            d = {k: (1 - t) * v for k, v in d.items()}
            for i in range(2**n):
                k = tuple(map(int, format(i, "0%db" % n)))
                d[k] = d.get(k, 0) + t * w[i]
        return d

    twist = None

    def undone(self, circ, d):
        """the outcomes d with the noise inverted, and what is negative then left out"""
        n = len(circ.bits)
        keys = [tuple(map(int, format(i, "0%db" % n))) for i in range(2**n)]
        cols = [self.readout(circ, {k: 1.0}) for k in keys]
        mat = np.array([[c.get(k, 0.0) for c in cols] for k in keys])
        v = np.linalg.solve(mat, [d.get(k, 0.0) for k in keys])
        v = np.where(v < 0, 0, v)
        return {k: x for k, x in zip(keys, v / v.sum())}

    def readout(self, circ, d):
        bits = list(circ.bits)
        pos = {b: i for i, b in enumerate(bits)}
        fin = circ.qubit_to_bit_map
        for nodes, mat, singles in self.groups:
            meas = [n for n in nodes if n in fin]
            if len(meas) == len(nodes):
                d = confuse(d, mat, [pos[fin[n]] for n in nodes])
            else:
                # partly measured sets only occur with independent noise
                for n in meas:
                    d = confuse(d, singles[n], [pos[fin[n]]])
        done = set(fin.values())
        # the last measurement into a bit counts
        for cmd in list(circ.commands_of_type(OpType.Measure))[::-1]:
            b = cmd.bits[0]
            if b in done:
                continue
            done.add(b)
            for nodes, mat, singles in self.groups:
                if cmd.qubits[0] in nodes:
                    d = confuse(d, singles[cmd.qubits[0]], [pos[b]])
        return d


def confuse(d, mat, idx):
    out = {}
    k = len(idx)
    for key, v in d.items():
        j = int("".join(str(key[i]) for i in idx), 2)
        for i in range(2**k):
            if mat[i, j] > 0:
                kk = list(key)
                for p, b in zip(idx, format(i, "0%db" % k)):
                    kk[p] = int(b)
                out[tuple(kk)] = out.get(tuple(kk), 0) + v * mat[i, j]
    return out


def partition(draw, m):
    nodes = list(draw(st.permutations(range(m))))
    out = []
    while nodes:
        k = draw(st.integers(1, min(3 if m < 5 else 5, len(nodes))))
        out.append(nodes[:k])
        nodes = nodes[k:]
    return out


@st.composite
def case_st(draw, single=False, large=None):
    m = draw(st.integers(*large) if large else gen.size(2, 4, 11 if single else 6))
    part = [[i] for i in range(m)] if single else partition(draw, m)
    indep = draw(st.booleans()) or bool(large)
    cs = []
    for _ in range(draw(gen.size(1, 3, 12)) if m < 5 else 1):
        n = draw(st.integers(1, min(3, m)))
        if m > 4 and draw(st.booleans()):
            n = m
        if indep or single:
            k = draw(st.integers(1, n))
            mid = draw(st.booleans())
        else:
            n = m
            k, mid = n, False
        nb = k + int(mid)
        cs.append(
            {
                "n": n,
                "names": draw(st.sampled_from(["q", "named", "gap"])),
                "gates": draw(gen.gates(n, 6, 1, ones=["H", "X", "S", "T"], twos=["CX", "CZ"], rots=["Rx"])),
                "meas": [list(t) for t in zip(list(draw(st.permutations(range(n))))[:k], list(draw(st.permutations(range(nb))))[:k])],
                "mid": draw(st.integers(0, n - 1)) if mid else None,
                # the bit is written before, from this qubit
                "pre": draw(st.one_of(st.none(), st.integers(0, n - 1))) if mid else None,
                # a bit with a final measurement is written in between, from this qubit
                "over": draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1))) if indep or single else None,
            }
        )
    if m < 5 and draw(st.integers(0, 3)) == 0:
        # circuits much like the first
        d = cs[0]
        k = len(d["meas"])
        r = draw(st.integers(0, 3))
        cs.append(dict(d, meas=[[q, d["meas"][(i + r) % k][1]] for i, (q, _) in enumerate(d["meas"])]))
        cs.append(dict(d, impl=True))
    return {
        "m": m,
        "part": part,
        "indep": indep or single,
        "noise": draw(st.integers(0, 10**6)),
        "strength": draw(st.sampled_from([0.0, 0.05, 0.2])),
        "place": list(draw(st.permutations(range(m)))),
        "cs": cs,
        "method": draw(st.sampled_from(["Invert", "Invert", "Bayesian"])),
        "level": draw(st.integers(0, 1)),
        "twice": draw(st.booleans()),
        "given": draw(st.booleans()),
        # the characterisation of the device for another partition is at hand
        "twist": draw(st.sampled_from([None, None, 0.03, 0.3])) if m < 5 else None,
        "other": partition(draw, m) if not single and draw(st.integers(0, 3)) == 0 else None,
    }


def mk(d):
    c = Circuit(name="circuit") if d["names"] != "q" else Circuit()
    qs = gen.qubits_of(d["n"], d["names"])
    for q in qs:
        c.add_qubit(q)
    nb = len(d["meas"]) + (d["mid"] is not None)
    for b in BITS[:nb]:
        c.add_bit(b)
    half = len(d["gates"]) // 2
    free = [b for b in BITS[:nb] if b not in [BITS[b] for _, b in d["meas"]]]
    for i, g in enumerate(d["gates"]):
        if i == half:
            for k, b in [("pre", free), ("mid", free), ("over", [BITS[b] for _, b in d["meas"]])]:
                if d.get(k) is not None:
                    q = qs[d[k]]
                    c.Measure(q, b[0])
                    # make sure that it is not the final operation on that qubit
                    c.add_barrier([q])
                    c.H(q)
        gen.add(c, g, qs)
    for q, b in d["meas"]:
        c.Measure(qs[q], BITS[b])
    if d.get("impl") and len(qs) > 1:
        # only the implicit permutation differs
        c.SWAP(qs[0], qs[-1])
        c.replace_SWAPs()
    return c


def matrices(case):
    rng = np.random.default_rng(case["noise"])
    groups = []
    e = case["strength"]

    def stoch(k):
        a = rng.random((k, k)) + 1e-3
        return (1 - e) * np.eye(k) + e * a / a.sum(axis=0)

    for g in case["part"]:
        singles = {Node(i): stoch(2) for i in g}
        if case["indep"]:
            mat = np.array([[1.0]])
            for i in g:
                mat = np.kron(mat, singles[Node(i)])
        else:
            mat = stoch(2 ** len(g))
        groups.append(([Node(i) for i in g], mat, singles))
    return groups


def run(case, single=False):
    groups = matrices(case)
    be = SpamDevice(case["m"], groups, [Node(i) for i in case["place"]], strict=True)
    if case.get("twist") and case["method"] == "Invert":
        be.twist = (case["twist"], case["noise"])
    cs = [CircuitShots(mk(d), SH) for d in case["cs"]]
    keep = [(c.Circuit.copy(), c.Shots) for c in cs]
    method = getattr(CorrectionMethod, case["method"])
    kw = dict(correction_method=method, optimisation_level=case["level"])
    given = None
    if case["given"]:
        given = {"calibration_mitres": MitRes(be, _label="a"), "correction_mitres": MitRes(be, _label="b")}
        kw.update(given)
    if single:
        mr = gen_UnCorrelated_SPAM_MitRes(be, SH, **kw)
    else:
        corr = [[Node(i) for i in g] for g in case["part"]]
        mr = gen_FullyCorrelated_SPAM_MitRes(be, SH, corr, **kw)
        check(corr == [[Node(i) for i in g] for g in case["part"]], "the correlations given were changed")
    char, jobs = {}, 0
    if case.get("other"):
        oth = gen_FullyCorrelated_SPAM_MitRes(be, SH, [[Node(i) for i in g] for g in case["other"]], correction_method=method)
        oth.run(list(cs))
        char = oth.get_characterisation()
        jobs = len(be.jobs)
    diff = 0.0
    for rnd in range(2 if case["twice"] else 1):
        n0 = len(be.jobs)
        res = mr.run(list(cs), characterisation=char) if char and not rnd else mr.run(list(cs))
        check([(c.Circuit, c.Shots) for c in cs] == keep, "the caller's circuits were changed")
        check(len(res) == len(cs), "%d results for %d circuits" % (len(res), len(cs)))
        if rnd:
            check(
                len(be.jobs) - n0 == len(cs),
                "the device is characterised again: %d jobs for %d circuits" % (len(be.jobs) - n0, len(cs)),
            )
        else:
            ncal = len(be.jobs) - jobs - len(cs)
            same = char and sorted(case["other"]) == sorted(case["part"])
            check((same and ncal == 0) or ncal == 2 ** max(map(len, case["part"])), "%d calibration circuits for sets %r" % (ncal, case["part"]))
        for (c, s), r in zip(keep, res):
            bits = list(c.bits)
            check(set(r.c_bits) == set(bits), "result over %r, circuit has %r" % (r.c_bits, bits))
            want = refsim.distribution(c)
            cn = r.get_counts(bits)
            tot = sum(cn.values())
            check(abs(tot - s) <= 2 ** len(bits) + 1e-6 * s, "%d counts for %d shots" % (tot, s))
            got = {k: v / tot for k, v in cn.items()}
            run_on = compiled(be, c, case["level"])
            noisy = be.dist(run_on)
            if be.twist is not None:
                want = be.undone(run_on, noisy)
                bits = list(run_on.bits)
                got = {k: v / tot for k, v in r.get_counts(bits).items()}
            diff = max(diff, refsim.tv(noisy, want))
            tol = (1e-5 if len(bits) < 7 else 1e-3) if case["method"] == "Invert" else (0.03 if case["strength"] > 0.1 else 0.01)
            check(
                refsim.tv(got, want) < tol,
                lambda: "corrected outcomes %r, without noise %r, uncorrected %r (sets %r)" % (got, want, noisy, case["part"]),
            )
    if given:
        for m in given.values():
            r = m.run([CircuitShots(be.get_compiled_circuit(keep[0][0], 0), 100)])
            check(len(r) == 1, "a MitRes given was changed")
    return {
        "nontrivial": diff > 0.01 and (single or any(len(g) > 1 for g in case["part"])),
        "labels": [case["method"], "indep" if case["indep"] else "correlated", "sets%d" % len(case["part"])],
    }


def compiled(be, c, level):
    return be.get_compiled_circuit(c, level)


PARTS = [
    Part("correlated", case_st(), run, quick=600, thorough=8000, shards=8),
    Part("large", case_st(large=(5, 7)), run, quick=80, thorough=1000, shards=8),
    Part("wide", case_st(True, large=(11, 12)), lambda c: run(c, True), quick=32, thorough=400, shards=8),
    Part("uncorrelated", case_st(True), lambda c: run(c, True), quick=400, thorough=5000, shards=8),
]
