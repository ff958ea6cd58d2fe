"""Frame randomisation."""

from collections import Counter
from math import ceil

from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend, result_from_counts
from lib.pbt import Part, Skip, check
from pytket import Bit
from qermit import CircuitShots, MitRes
from qermit.frame_randomisation.frame_randomisation import (
    FrameRandomisation,
    frame_randomisation_result_task_gen,
    gen_Frame_Randomisation_MitRes,
)
from qermit.taskgraph import gen_compiled_MitRes

from lib import tketguard

tketguard.install()
PROPERTY = "C21"
RULE = (
    "instances: a 1-3 qubit circuit over Clifford and rotation gates (several register names, measured into permuted bits), randomised "
    "with the Pauli or universal scheme with 1-6 samples; e2e: 1-3 such circuits through the generated MitRes on an exact backend; "
    "merge: hand-made results with arbitrary bit order. Non-trivial: circuit has a two-qubit gate / several circuits / several results per circuit."
)

TYPES = {
    "pauli": FrameRandomisation.PauliFrameRandomisation,
    "universal": FrameRandomisation.UniversalFrameRandomisation,
}


def circ_strategy():
    return gen.circuit_st(
        1,
        3,
        9,
        2,
        naming=("q", "q", "named"),
        ones=["H", "S", "X", "Z", "Sdg", "T", "V"],
        twos=["CX", "CX", "CZ"],
        rots=["Rz", "Rx", "Ry"],
    )


def measured(d, rot, name=None):
    c = gen.build(d, name)
    n = d["n"]
    bits = [Bit("m", i + 8) for i in range(n)]
    for b in bits:
        c.add_bit(b)
    for i, q in enumerate(list(c.qubits)):
        c.Measure(q, bits[(i + rot) % n])
    return c


inst_st = st.fixed_dictionaries(
    {
        "circ": circ_strategy(),
        "rot": st.integers(0, 2),
        "kind": st.sampled_from(["pauli", "universal"]),
        "samples": st.integers(0, 9).flatmap(lambda k: st.integers(7, 40) if k == 9 else st.integers(1, 6)),
        "shots": gen.size(1, 50, 5000),
        # shots which are a multiple of the samples, or nearly
        "near": st.sampled_from([None, None, -1, 0, 1]),
    }
)


def sample(kind, c, shots, samples):
    try:
        return TYPES[kind](c, shots, samples)
    except RuntimeError as e:
        if "Cycle OpTypes" in str(e):
            raise Skip("circuit without any gate of the cycle")
        raise


def run_purity(case):
    c = measured(case["circ"], case["rot"])
    orig = c.copy()
    sample(case["kind"], c, case["shots"], case["samples"])
    if c != orig:
        same = c.qubits == orig.qubits and c.bits == orig.bits
        same = same and refsim.tv(refsim.distribution(c), refsim.distribution(orig)) < 1e-7
        check(
            False,
            "the caller's circuit was modified: %r became %r"
            % (orig.get_commands(), c.get_commands()),
            key="rebased-in-place" if same else "caller-circuit-damaged",
        )
    return {}


def run_inst(case):
    c = measured(case["circ"], case["rot"])
    orig = c.copy()
    shots = case["shots"]
    if case.get("near") is not None:
        shots = max(1, shots * case["samples"] + case["near"])
    out = sample(case["kind"], c, shots, case["samples"])
    check(len(out) == case["samples"], "%d instances, %d asked" % (len(out), case["samples"]))
    want = refsim.distribution(orig)
    for cs in out:
        check(
            cs.Shots == -(-shots // case["samples"]),
            "%r shots per instance for %d shots over %d samples"
            % (cs.Shots, shots, case["samples"]),
        )
        check(
            list(cs.Circuit.bits) == list(orig.bits), "bits changed: %r" % (cs.Circuit.bits,)
        )
        got = refsim.distribution(cs.Circuit)
        check(
            refsim.tv(got, want) < 1e-7,
            "instance has outcome distribution %r, original has %r" % (got, want),
        )
    two = any(len(g[1]) == 2 for g in case["circ"]["gates"])
    return {"nontrivial": two, "labels": [case["kind"]]}


e2e_st = st.fixed_dictionaries(
    {
        "circs": gen.some(st.tuples(circ_strategy(), st.integers(0, 2), st.integers(1, 4)), 3),
        "kind": st.sampled_from(["pauli", "universal", "default"]),
        "samples": st.integers(1, 4),
        "mitres": st.sampled_from(["none", "plain", "compiled"]),
    }
)


def run_e2e(case):
    be = RecordingBackend()
    kw = {}
    if case["kind"] != "default":
        kw["frame_randomisation"] = TYPES[case["kind"]]
    user = None
    if case["mitres"] == "plain":
        user = kw["mitres"] = MitRes(be)
    elif case["mitres"] == "compiled":
        user = kw["mitres"] = gen_compiled_MitRes(be, 1)
    mr = gen_Frame_Randomisation_MitRes(be, case["samples"], **kw)
    cs = [
        CircuitShots(measured(d, r, "c%d" % i), 10000 * m + 3 * i)
        for i, (d, r, m) in enumerate(case["circs"])
    ]
    keep = [(x.Circuit.copy(), x.Shots) for x in cs]
    try:
        res = mr.run(cs)
    except RuntimeError as e:
        if "Cycle OpTypes" in str(e):
            raise Skip("circuit without any gate of the cycle")
        raise
    check(len(res) == len(cs), "%d results for %d circuits" % (len(res), len(cs)))
    njobs = len(be.jobs)
    check(
        njobs == case["samples"] * len(cs),
        "%d jobs run for %d samples of %d circuits" % (njobs, case["samples"], len(cs)),
    )
    for (c, shots), r in zip(keep, res):
        bits = list(c.bits)
        counts = r.get_counts(bits)
        tot = sum(counts.values())
        check(
            tot == case["samples"] * ceil(shots / case["samples"]),
            "%d shots in the result of %d requested with %d samples"
            % (tot, shots, case["samples"]),
        )
        got = {k: v / tot for k, v in counts.items()}
        want = refsim.distribution(c)
        check(
            refsim.tv(got, want) < 5e-3,
            "merged result %r, noise-free circuit %r" % (got, want),
        )
    # a scheme supplied by the user still behaves as before
    if user is not None:
        c = measured({"n": 1, "names": "q", "gates": [["X", [0], []]]}, 0)
        n0 = len(be.jobs)
        r = user.run([CircuitShots(c, 7)])
        check(
            len(be.jobs) == n0 + 1 and dict(r[0].get_counts()) == {(1,): 7},
            "the MitRes passed in was changed by building a frame randomisation around it",
        )
    return {"nontrivial": len(cs) > 1 and case["samples"] > 1, "labels": [case["kind"], case["mitres"]]}


merge_st = st.integers(1, 3).flatmap(
    lambda nb: st.fixed_dictionaries(
        {
            "nb": st.just(nb),
            "perm": st.permutations(list(range(nb))),
            "samples": st.integers(1, 4),
            "as_shots": st.booleans(),
            "data": st.lists(
                st.lists(
                    st.tuples(
                        st.lists(st.integers(0, 1), min_size=nb, max_size=nb),
                        st.integers(1, 9),
                    ),
                    min_size=1,
                    max_size=4,
                ),
                min_size=1,
                max_size=9,
            ),
        }
    )
)


def run_merge(case):
    bits = [Bit("r", i + 8) for i in range(case["nb"])]
    order = [bits[i] for i in case["perm"]]
    s = case["samples"]
    data = case["data"]
    data = data[: max(1, len(data) // s) * s]
    while len(data) % s:
        data = data + data[:1]
    results, truth = [], []
    for d in data:
        cnt = Counter()
        for k, v in d:
            cnt[tuple(k)] += v
        truth.append(cnt)
        raw = {tuple(k[bits.index(b)] for b in order): v for k, v in cnt.items()}
        results.append(result_from_counts(raw, order, case["as_shots"]))
    (out,) = frame_randomisation_result_task_gen(s)([results])
    check(len(out) == len(data) // s, "%d results from %d of %d samples" % (len(out), len(data), s))
    for i, r in enumerate(out):
        want = Counter()
        for t in truth[i * s : (i + 1) * s]:
            want += t
        got = Counter(dict(r.get_counts(bits)))
        check(
            got == want,
            "merged counts %r (bits given in order %r), sum of the instances is %r"
            % (dict(got), order, dict(want)),
        )
    return {
        "nontrivial": s > 1 and len(data) > s,
        "labels": ["sorted" if list(case["perm"]) == sorted(case["perm"]) else "unsorted"],
    }


# the existing tests pin the in-place rebase, so it is recorded, not repaired
KNOWN = {
    "C21-rebased-in-place": lambda part, case, msg, key: part == "purity"
    and key == "rebased-in-place"
}

PARTS = [
    Part("purity", inst_st, run_purity, quick=120, thorough=600),
    Part("instances", inst_st, run_inst, quick=800, thorough=8000),
    Part("e2e", e2e_st, run_e2e, quick=320, thorough=3000),
    Part("merge", merge_st, run_merge, quick=1200, thorough=8000),
]
