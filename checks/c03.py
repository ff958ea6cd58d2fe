"""Mitigation methods combined with each other."""

from checks import c19, c20, c23
from checks.exps import exact_values
from hypothesis import strategies as st
from lib import gen, refsim
from lib.pbt import Part, Skip, check
from pytket import OpType
from pytket.circuit import Node
from pytket.passes import AutoRebase, CustomPassMap, DecomposeBoxes, RemoveRedundancies, SequencePass
from qermit import CircuitShots, MitEx, MitRes
from qermit.clifford_noise_characterisation import gen_DFSC_MitEx
from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.spam import gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes
from qermit.spectral_filtering import gen_spectral_filtering_MitEx
from qermit.spectral_filtering.signal_filter import SmallCoefficientSignalFilter
from qermit.taskgraph import (
    gen_compiled_MitRes,
    gen_compiled_shot_split_MitRes,
    gen_MeasurementReduction_MitEx,
    gen_shot_split_MitRes,
)
from qermit.zero_noise_extrapolation import Folding, gen_ZNE_MitEx

from lib import tketguard

tketguard.install()
PROPERTY = "C03"
RULE = (
    "A case is a stack of mitigation methods - a basic MitRes (plain, compiling, shot splitting), up to two of SPAM correction, frame randomisation and leakage detection over it, and for "
    "experiments up to three of ZNE, measurement reduction, DFSC and spectral filtering over that - with 1-2 circuits or experiments, run twice; the innermost methods are used on their own before and "
    "afterwards. Devices without noise, and with readout noise where SPAM correction is applied last. Non-trivial: two or more mitigation methods are stacked."
)
TECHNIQUE = "property-based testing (Hypothesis): random stacks of mitigation methods on an exact device, differential against exact simulation"
SH = 10**8
NODES = 6


class Device(c20.SpamDevice):
    """Compilation places qubits on nodes and says where it put them."""

    def default_compilation_pass(self, optimisation_level=1):
        def tr(c):
            d = c.copy()
            free = [n for n in self.place if n not in d.qubits]
            m = {q: q if q in self.nodes else free.pop(0) for q in d.qubits}
            d.rename_units(m)
            return d, (m, m)

        seq = [
            DecomposeBoxes(),
            CustomPassMap(tr),
            AutoRebase({OpType.CX, OpType.Rz, OpType.Rx, OpType.X, OpType.H}),
        ]
        if optimisation_level:
            seq.append(RemoveRedundancies())
        return SequencePass(seq)


def device(case):
    groups = [([Node(i)], m, {Node(i): m}) for i, m in enumerate(mats(case["readout"]))]
    # where every circuit is compiled, the device takes no other
    return Device(NODES, groups, [Node(i) for i in case["place"]], strict=case["base"] in ("comp0", "comp1", "csplit"))


def mats(kind):
    import numpy as np

    if not kind:
        return [np.eye(2) for _ in range(NODES)]
    return [np.array([[1 - 0.02 * i, 0.03 + 0.01 * i], [0.02 * i, 0.97 - 0.01 * i]]) for i in range(NODES)]


@st.composite
def mitres_st(draw):
    layers = draw(st.lists(st.sampled_from(["spam", "spam", "fr", "leak"]), max_size=2, unique=True))
    return {
        "base": draw(st.sampled_from(["plain", "comp0", "comp1", "split", "csplit"])),
        "layers": layers,
        "samples": draw(st.integers(1, 3)),
        "fr": draw(st.sampled_from(["pauli", "universal"])),
        "corr": draw(st.sampled_from([None, [[0, 1], [2], [3, 4, 5]], [[5, 2], [0], [1], [4, 3]]])),
        "place": list(draw(st.permutations(range(NODES)))),
        # readout noise only if SPAM correction is the only method of results
        "readout": draw(st.booleans()) and layers == ["spam"],
        "calib": draw(st.booleans()),
    }


def build_mitres(case, be):
    """-> MitRes, list of every MitRes on the way, their labels when made"""
    b = case["base"]
    if b == "plain":
        mr = MitRes(be)
    elif b == "split":
        mr = gen_shot_split_MitRes(be, SH // 2 - 7)
    elif b == "csplit":
        mr = gen_compiled_shot_split_MitRes(be, SH // 2 - 7, 0)
    else:
        mr = gen_compiled_MitRes(be, int(b[-1]))
    built = [mr]
    names = [mr.label]
    for lay in case["layers"]:
        if lay == "fr":
            f = {"pauli": FrameRandomisation.PauliFrameRandomisation, "universal": FrameRandomisation.UniversalFrameRandomisation}[case["fr"]]
            mr = gen_Frame_Randomisation_MitRes(be, case["samples"], mitres=mr, frame_randomisation=f)
        elif lay == "leak":
            mr = get_leakage_detection_mitres(be, mitres=mr)
        else:
            kw = {"correction_mitres": mr}
            if case["calib"]:
                kw["calibration_mitres"] = mr
            if case["corr"] is None:
                mr = gen_UnCorrelated_SPAM_MitRes(be, SH, **kw)
            else:
                mr = gen_FullyCorrelated_SPAM_MitRes(be, SH, [[Node(i) for i in g] for g in case["corr"]], **kw)
        built.append(mr)
        names.append(mr.label)
    return mr, built, names


GATES = dict(ones=["H", "X", "S", "T", "Sdg"], twos=["CX", "CZ"], rots=["Rz", "Rx"])


@st.composite
def circ_st(draw):
    n = draw(st.integers(1, 3))
    k = draw(st.integers(1, n))
    return {
        "n": n,
        "names": draw(st.sampled_from(["q", "named", "mixed", "gap"])),
        "gates": draw(gen.gates(n, 6, 1, **GATES)),
        "meas": [list(t) for t in zip(list(draw(st.permutations(range(n))))[:k], list(draw(st.permutations(range(k)))))],
        "nb": k,
        "mid": False,
    }


def no_cycles(e):
    return isinstance(e, RuntimeError) and "Cycle OpTypes" in str(e)


def run_mitres(case):
    be = device(case["mr"])
    mr, built, names = build_mitres(case["mr"], be)
    cs = [CircuitShots(c19.mk(d), SH + i) for i, d in enumerate(case["cs"])]
    keep = [(c.Circuit.copy(), c.Shots) for c in cs]

    def results(m, what, tol=1e-4):
        try:
            given = [CircuitShots(c.Circuit.copy(), c.Shots) for c in cs]
            res = m.run(given)
        except RuntimeError as e:
            if no_cycles(e):
                raise Skip("frame randomisation of a circuit without any gate of the cycle")
            raise
        check(len(res) == len(cs), "%s: %d results for %d circuits" % (what, len(res), len(cs)))
        # frame randomisation rebases the circuits given to it (known finding of C21)
        if "fr" not in case["mr"]["layers"]:
            check([(c.Circuit, c.Shots) for c in given] == keep, "%s: the circuits given were changed" % what)
        for i, ((c, s), r) in enumerate(zip(keep, res)):
            bits = list(c.bits)
            check(set(bits) <= set(r.c_bits), "%s: result %d over %r, circuit has %r" % (what, i, r.c_bits, bits))
            cn = r.get_counts(bits)
            tot = sum(cn.values())
            want = refsim.distribution(c)
            got = {k: v / tot for k, v in cn.items()}
            check(abs(tot - s) < 1e-4 * s, "%s: %d shots in result %d, %d requested" % (what, tot, i, s))
            check(
                refsim.tv(got, want) < tol,
                lambda: "%s: result %d is %r, exact outcomes %r" % (what, i, got, want),
            )

    label = "%s over %s" % ("+".join(case["mr"]["layers"]) or "nothing", case["mr"]["base"])
    for rep in range(2):
        results(mr, "run %d of %s" % (rep, label))
    if not case["mr"]["readout"]:
        for m, name in zip(built, names):
            check(m.label == name, "the label %r of a MitRes was changed to %r" % (name, m.label))
            if m is built[0] and case["mr"]["layers"][-1:] == ["spam"] and case["mr"]["base"] in ("plain", "split"):
                continue
            results(m, "%s used on its own" % name)
    return {"nontrivial": len(case["mr"]["layers"]) > 1 or (bool(case["mr"]["layers"]) and case["mr"]["base"] != "plain"), "labels": [case["mr"]["base"]] + case["mr"]["layers"]}


def no_boxes(o):
    return o[0] in ("c", "s")


@st.composite
def mitex_st(draw):
    mids = draw(st.lists(st.sampled_from(["zne", "mr", "dfsc"]), max_size=3, unique=True))
    sf = draw(st.booleans())
    mr = draw(mitres_st())
    if "fr" in mr["layers"] and len(mids) + sf > 2:
        mids = mids[:1]
    es = draw(gen.some(c23.exp_st(2 if len(mids) > 1 else 3, 6), 2))
    if len(mids) + sf + len(mr["layers"]) > 1:
        es = es[:2]
    n_vals = draw(st.integers(2, 3))
    for e in es:
        e["ops"] = [o for o in e["ops"] if no_boxes(o)]
        # rotations take the place of symbols beyond the first
        e["ops"] = [list(o[:3]) + [0, o[4]] if o[0] == "s" else o for o in e["ops"]]
        if sf:
            if not any(o[0] == "s" for o in e["ops"]):
                e["ops"].append(["s", "Ry", [0], 0, 1])
            e["at"] = draw(st.integers(0, n_vals - 1))
            e["values"] = [2.0 * e["at"] / n_vals] * 4
    return {
        "mr": mr,
        "mids": mids,
        "sf": sf,
        "n_vals": n_vals,
        "exps": es,
        "fold": draw(st.sampled_from(["circuit", "gate", "odd_gate", "two_qubit_gate"])),
        "level": draw(st.integers(0, 1)),
        "char": draw(st.booleans()) or (mr["readout"] and "dfsc" in mids),
        "dup": draw(st.integers(0, 3)) == 0,
    }


def build_mitex(case, be):
    mr, built, names = build_mitres(case["mr"], be)
    me = MitEx(be, _label="Base", mitres=mr)
    mx = [me]
    ex_names = [me.label]
    for lay in case["mids"]:
        if lay == "mr":
            me = gen_MeasurementReduction_MitEx(be, mitex=me)
        elif lay == "zne":
            me = gen_ZNE_MitEx(be, [1, 3], experiment_mitex=me, folding_type=getattr(Folding, case["fold"]), optimisation_level=case["level"])
        else:
            kw = {"characterisation_mitex": me} if case["char"] else {}
            me = gen_DFSC_MitEx(be, experiment_mitex=me, **kw)
        mx.append(me)
        ex_names.append(me.label)
    if case["sf"]:
        me = gen_spectral_filtering_MitEx(be, case["n_vals"], experiment_mitex=me, signal_filter=SmallCoefficientSignalFilter(tol=0))
        mx.append(me)
        ex_names.append(me.label)
    return me, mx, built, ex_names + names


def run_mitex(case):
    be = device(case["mr"])
    me, mx, built, names = build_mitex(case, be)
    es = [c23.build(e, SH + i)[0] for i, e in enumerate(case["exps"])]
    if case["dup"] and es:
        es.append(es[0])
    before = [c23.snapshot(e) for e in es]
    want = [exact_values(e) for e in es]
    what = "+".join(case["mids"] + ["sf"] * case["sf"]) + " over " + "+".join(case["mr"]["layers"] + [case["mr"]["base"]])

    def results(m, what):
        try:
            res = m.run(list(es))
        except RuntimeError as e:
            if no_cycles(e):
                raise Skip("frame randomisation of a circuit without any gate of the cycle")
            if "There are no valid" in str(e) and case["fold"] == "two_qubit_gate":
                raise Skip("two-qubit gate folding of a circuit without two-qubit gates")
            raise
        check(len(res) == len(es), "%s: %d results for %d experiments" % (what, len(res), len(es)))
        check([c23.snapshot(e) for e in es] == before, "%s: the experiments given were changed" % what)
        for i, (r, w) in enumerate(zip(res, want)):
            got = {s: complex(v) for s, v in r._dict.items()}
            check(set(got) == set(w), "%s: result %d has strings %r, operator %r" % (what, i, set(got), set(w)))
            for s in w:
                check(abs(got[s] - w[s]) < 2e-4, lambda: "%s: %s of experiment %d is %r, exact value %r" % (what, s, i, got[s], w[s]))

    for rep in range(2):
        results(me, "run %d of %s" % (rep, what))
    for m in mx[:-1]:
        results(m, "%s, used on its own after building %s" % (m.label, what))
    check([m.label for m in mx] + [m.label for m in built] == names, "labels %r were changed" % names)
    return {"nontrivial": len(case["mids"]) + case["sf"] + len(case["mr"]["layers"]) > 1, "labels": case["mids"] + ["sf"] * case["sf"] + case["mr"]["layers"]}


mitres_case = st.fixed_dictionaries({"mr": mitres_st(), "cs": gen.some(circ_st(), 2)})

PARTS = [
    Part("mitres", mitres_case, run_mitres, quick=480, thorough=10000, shards=8),
    Part("mitex", mitex_st(), run_mitex, quick=480, thorough=10000, shards=8),
]
