"""Leakage detection."""

from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket import Bit, Circuit, OpType
from pytket.architecture import Architecture
from pytket.backends.backendinfo import BackendInfo
from pytket.circuit import Node
from qermit import CircuitShots, MitRes
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.leakage_detection.leakage_detection import gen_add_leakage_gadget_circuit_task

PROPERTY = "C19"
RULE = (
    "A case is 1-3 circuits, at times much alike (1-3, rarely 5 qubits and up to 10 bits, each measuring an arbitrary non-empty set of qubits into arbitrary bits, some bits unused, mid-circuit "
    "measurement allowed) and a device with 0-3 spare qubits; run without leakage and with outcomes in which arbitrary gadgets report leakage. "
    "Non-trivial: a circuit with at least two measured qubits in a superposition / some shots kept and some rejected."
)
SH = 10**8
LB = "leakage_detection_bit"


@st.composite
def circ_st(draw):
    n = draw(gen.size(1, 3, 5))
    k = draw(st.integers(1, n))
    nb = draw(st.integers(k, max(4, 2 * n)))
    return {
        "n": n,
        "names": draw(st.sampled_from(["q", "named", "mixed", "gap"])),
        "gates": draw(gen.gates(n, 6, 1, **gen.UNIVERSAL)),
        "meas": [list(t) for t in zip(list(draw(st.permutations(range(n))))[:k], list(draw(st.permutations(range(nb))))[:k])],
        "nb": nb,
        "mid": draw(st.booleans()),
        "shots": draw(st.integers(1, 50)),
    }


def twin(d, how, k):
    """a circuit that is much like another, most often with the same commands"""
    d = dict(d, shots=d["shots"] + 1)
    if how == "idle":
        d["n"] += 1
    elif how == "bit":
        d["nb"] = min(len(BITS), d["nb"] + 1)
    elif how == "impl":
        d["impl"] = not d.get("impl")
    elif how == "phase":
        d["phase"] = 0.5
    elif how == "meas" and len(d["meas"]) > 1:
        (q, b), (r, c) = d["meas"][:2]
        d["meas"] = [[q, c], [r, b]] + d["meas"][2:]
    elif how == "fewer" and len(d["meas"]) > 1:
        d["meas"] = d["meas"][:-1]
    elif how == "names":
        d["names"] = "named" if d["names"] == "q" else "q"
    elif how == "gate":
        i = k % len(d["gates"])
        d["gates"] = d["gates"][:i] + [["X", [k % d["n"]], []]] + d["gates"][i:]
    return d


def with_twins(lists):
    hows = ["idle", "bit", "impl", "phase", "meas", "fewer", "names", "gate"]
    return st.tuples(lists, st.integers(0, 3), st.lists(st.tuples(st.sampled_from(hows), st.integers(0, 9)), min_size=1, max_size=3)).map(
        lambda t: t[0][:1] + [twin(t[0][0], h, k) for h, k in t[2]] + t[0][1:] if t[1] == 0 and t[0] else t[0]
    )


case_st = st.fixed_dictionaries(
    {
        "cs": with_twins(gen.some(circ_st(), 3)),
        "spare": st.integers(0, 3),
        "given": st.booleans(),
        "leak": st.lists(st.tuples(st.integers(0, 4), st.integers(1, 4)), max_size=2),
    }
)

BITS = [Bit("x", 10), Bit("x", 2), Bit("w", 0), Bit("y", 3)] + [Bit("w", 17 - i) for i in range(6)]


def mk(d, big=True):
    c = Circuit(name="circuit") if d["names"] != "q" else Circuit()
    qs = gen.qubits_of(d["n"], d["names"])
    for q in qs:
        c.add_qubit(q)
    for b in BITS[: d["nb"]]:
        c.add_bit(b)
    half = len(d["gates"]) // 2
    for i, g in enumerate(d["gates"]):
        if d["mid"] and i == half:
            # measured again at the end
            q, b = d["meas"][0]
            c.Measure(qs[q], BITS[b])
            c.H(qs[q])
        gen.add(c, g, qs)
    for q, b in d["meas"]:
        c.Measure(qs[q], BITS[b])
    if d.get("impl") and len(qs) > 1:
        c.SWAP(qs[0], qs[-1])
        c.replace_SWAPs()
    c.add_phase(d.get("phase", 0))
    return c


def backend(case, hook=None):
    m = max([d["n"] for d in case["cs"]], default=1) + case["spare"]
    info = BackendInfo(
        name="rec", device_name="rec", version="0", architecture=Architecture([(Node(i), Node(i + 1)) for i in range(max(m - 1, 1))]) if m > 1 else Architecture([(Node(0), Node(1))]), gate_set=set()
    )
    return RecordingBackend(backend_info=info, compile_kind="none", dist_hook=hook)


def run_case(case, leaky):
    def hook(circ, d):
        lb = [i for i, b in enumerate(circ.bits) if b.reg_name == LB]
        if not leaky or not lb:
            return d
        out = {}
        rest = 1.0
        for i, w in case["leak"]:
            p = 0.1 * w
            rest -= p
            j = lb[i % len(lb)]
            for k, v in d.items():
                kk = k[:j] + (1,) + k[j + 1 :]
                out[kk] = out.get(kk, 0) + p * v
        for k, v in d.items():
            out[k] = out.get(k, 0) + max(rest, 0) * v
        return out

    be = backend(case, hook)
    cs = [CircuitShots(mk(d), SH) for d in case["cs"]]
    keep = [(c.Circuit.copy(), c.Shots) for c in cs]
    kw = {"mitres": MitRes(be)} if case["given"] else {}
    res = get_leakage_detection_mitres(be, **kw).run(list(cs))
    check([(c.Circuit, c.Shots) for c in cs] == keep, "the caller's circuits were changed")
    check(len(res) == len(cs) == len(be.jobs), "%d results, %d jobs for %d circuits" % (len(res), len(be.jobs), len(cs)))
    rej = False
    for d, (c, s), r, (jc, js) in zip(case["cs"], keep, res, be.jobs):
        check(js == s, "%d shots requested, %d run" % (s, js))
        check(
            jc.n_qubits <= max(be.backend_info.n_nodes, c.n_qubits),
            "%d qubits used on a device with %d" % (jc.n_qubits, be.backend_info.n_nodes),
        )
        lb = [b for b in jc.bits if b.reg_name == LB]
        spare = be.backend_info.n_nodes - c.n_qubits
        want_n = len({q for q, _ in d["meas"]}) - (spare == 0)
        check(len(lb) == want_n, "%d gadgets for %d measured qubits and %d spare qubits" % (len(lb), len(d["meas"]), spare))
        want = refsim.distribution(c)
        if leaky and lb:
            keepw = 1 - sum(0.1 * w for _, w in case["leak"])
            rej |= keepw < 1
        else:
            keepw = 1.0
        bits = list(c.bits)
        got = {k: v / SH for k, v in r.get_counts(bits).items()}
        w = {k: keepw * v for k, v in want.items()}
        check(
            refsim.tv(got, w) < 1e-5,
            lambda: "results %r, expected %r (%d gadgets, accepted fraction %.2f)" % (got, w, len(lb), keepw),
        )
        check(set(r.c_bits) == set(bits), "result over %r, circuit has bits %r" % (r.c_bits, bits))
    big = any(len(d["meas"]) > 1 and len(refsim.distribution(c)) > 1 for d, (c, _) in zip(case["cs"], keep))
    return {"nontrivial": rej if leaky else big, "labels": ["spare%d" % case["spare"]]}


def run_task(case):
    be = backend(case)
    cs = [CircuitShots(mk(d), d["shots"]) for d in case["cs"]]
    out, ms = gen_add_leakage_gadget_circuit_task(be)((list(cs),))
    check(len(out) == len(ms) == len(cs), "%d circuits, %d managers for %d circuits" % (len(out), len(ms), len(cs)))
    for c, o, m in zip(cs, out, ms):
        check(o.Shots == c.Shots, "%d shots became %d" % (c.Shots, o.Shots))
        check(list(m.compute_cbits) == list(c.Circuit.bits) or set(m.compute_cbits) == set(c.Circuit.bits), "compute bits %r of %r" % (m.compute_cbits, c.Circuit.bits))
        check(set(m.postselect_cbits) == set(o.Circuit.bits) - set(c.Circuit.bits), "postselection on %r, new bits %r" % (m.postselect_cbits, set(o.Circuit.bits) - set(c.Circuit.bits)))
        # the gadgets come before the measurement of their qubit
        d = refsim.distribution(o.Circuit, list(c.Circuit.bits) + list(m.postselect_cbits))
        k = len(m.postselect_cbits)
        w = {x + (0,) * k: v for x, v in refsim.distribution(c.Circuit).items()}
        check(refsim.tv(d, w) < 1e-6, lambda: "without leakage %r became %r" % (w, d))
    return {"nontrivial": len(cs) > 1}


PARTS = [
    Part("ideal", case_st, lambda c: run_case(c, False), quick=900, thorough=8000, shards=8),
    Part("leaky", case_st, lambda c: run_case(c, True), quick=900, thorough=8000, shards=8),
    Part("task", case_st, run_task, quick=600, thorough=4000, shards=8),
]
__all__ = ["OpType"]
