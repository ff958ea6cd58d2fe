"""Simulator backends: one noisy instance per shot, stated noise, results kept apart and in order."""

import json
import os
import signal
import subprocess
import sys
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from lib import boot, gen, refsim
from lib.pbt import Part, check, judge
from pytket import Bit, Circuit, OpType, Qubit
from pytket.circuit import Node
from pytket.passes import CustomPass
from qermit.noise_model import MockQuantinuumBackend, TranspilerBackend
from qermit.noise_model.noisy_aer_backend import NoisyAerBackend
from scipy.stats import chi2

PROPERTY = "C27"
RULE = (
    "transpiler: 1-3 classical circuits (X, CX, CCX, SWAP, measurements of any bits, resets, conditionals, any names) run with batch sizes 1-5, 0-13 shots, one or two "
    "cores and a pass adding a different known error to every instance; counts must be exactly those of the instances. noisy: circuits of H, Rz, CX on a noisy backend, 3000 "
    "shots against the exact distribution under the stated noise (alarm below p = 1e-11). mock: circuits compiled for and run on the mock backend. Non-trivial: two or more "
    "different instances; a distribution of two or more outcomes; bits not in qubit order."
)
TECHNIQUE = "property-based testing (Hypothesis) against an exact per-instance model, and goodness of fit of noisy samples with an exact density matrix model"
ASSUMPTIONS = ["qiskit Aer's generator is good enough for the test statistics; alarms need p < 1e-11"]
P_MIN = 1e-11


@st.composite
def classical_st(draw):
    n = draw(st.integers(1, 4))
    nb = draw(st.integers(0, 4))
    ops = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.sampled_from(["X", "X", "CX", "CCX", "SWAP", "M", "M", "R", "IF"]))
        qs = draw(st.permutations(range(n)))
        need = {"CX": 2, "SWAP": 2, "CCX": 3}.get(k, 1)
        if len(qs) < need or (k in ("M", "IF") and nb == 0):
            continue
        ops.append([k, list(qs[:need]), draw(st.integers(0, nb - 1)) if nb else 0, draw(st.integers(0, 1))])
    if nb and not any(o[0] == "M" for o in ops):
        ops.append(["M", [0], draw(st.integers(0, nb - 1)), 0])
    return {"n": n, "nb": nb, "ops": ops, "names": draw(st.sampled_from(["q", "named", "gap"])), "split": draw(st.booleans())}


def build(d):
    n, nb = d["n"], d["nb"]
    qs = {
        "q": [Qubit(i) for i in range(n)],
        "named": [Qubit("b" if i % 2 else "a", i) for i in range(n)],
        "gap": [Qubit("q", [2, 10, 11, 100][i]) for i in range(n)],
    }[d["names"]]
    bs = [Bit("z", i // 2) if d["split"] and i % 2 else Bit("c", (i + 1) // 2 if d["split"] else i) for i in range(nb)]
    c = Circuit(name="circuit") if d["names"] != "q" else Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bs:
        c.add_bit(b)
    for k, q, b, v in d["ops"]:
        a = [qs[i] for i in q]
        if k == "M":
            c.Measure(a[0], bs[b])
        elif k == "R":
            c.add_gate(OpType.Reset, a)
        elif k == "IF":
            c.X(a[0], condition_bits=[bs[b]], condition_value=v)
        else:
            c.add_gate(getattr(OpType, k), a)
    return c


def tr_st(cores):
    return st.fixed_dictionaries(
    {
        "circs": gen.some(classical_st(), 3),
        "shots": st.lists(gen.size(0, 13, 60), min_size=3, max_size=3),
        "masks": st.lists(st.integers(0, 15), min_size=1, max_size=8),
        "batch": st.sampled_from([1, 2, 3, 4, 5, 17, 1000]),
        "cores": st.sampled_from(cores),
        "api": st.sampled_from(["run", "process", "list", "counts"]),
        "sel": st.permutations(range(4)),
        "nsel": st.integers(0, 4),
        "shared": st.booleans(),
    }
)


def run_transpiler(case):
    calls = []

    def noisy(c):
        mask = case["masks"][len(calls) % len(case["masks"])]
        out = Circuit.from_dict({**c.to_dict(), "commands": []})
        for i, q in enumerate(out.qubits):
            if mask >> i & 1:
                out.X(q)
        for cmd in c.get_commands():
            out.add_gate(cmd.op, cmd.args)
        calls.append(out)
        return out

    store = {"kept": "other"} if case["shared"] else None
    kw = {"result_dict": store} if case["shared"] else {}
    b = TranspilerBackend(transpiler=CustomPass(noisy), max_batch_size=case["batch"], n_cores=case["cores"], **kw)
    other = TranspilerBackend(transpiler=CustomPass(lambda c: c))
    circs = [build(d) for d in case["circs"]]
    keep = [c.copy() for c in circs]
    shots = [case["shots"][i % 3] for i in range(len(circs))]
    sizes = []
    diff = False

    def expected(instances, bits):
        cnt = Counter()
        for c in instances:
            d = refsim.distribution(c, bits=bits)
            assert len(d) == 1
            cnt[next(iter(d))] += 1
        return cnt

    if case["api"] == "list":
        handles = b.process_circuits(circs, shots)
        check(len(handles) == len(circs) and len(set(handles)) == len(circs), "handles %r" % handles)
        check(len(calls) == sum(shots), "%d instances for %d shots" % (len(calls), sum(shots)))
        res = b.get_results(handles[::-1])[::-1]
    else:
        res, handles = [], []
        for c, n in zip(circs, shots):
            a = len(calls)
            if case["api"] == "run":
                res.append(b.run_circuit(c, n))
            elif case["api"] == "process":
                handles.append(b.process_circuit(c, n))
            else:
                bits = [c.bits[i] for i in case["sel"] if i < len(c.bits)][: case["nsel"]]
                got = b.get_counts(c, n, cbits=bits) if case["nsel"] < 4 else b.get_counts(c, n)
                exp = expected(calls[a:], bits if case["nsel"] < 4 else list(c.bits))
                check(+got == exp, lambda: "counts %r over %r, expected %r" % (got, bits, exp))
            check(len(calls) - a == n, "%d instances for %d shots" % (len(calls) - a, n))
        if case["api"] == "process":
            res = [b.get_result(h) for h in handles]
    check(circs == keep, "a circuit given was changed")
    k = 0
    for i, (c, n) in enumerate(zip(circs, shots)):
        inst = calls[k : k + n]
        k += n
        exp = expected(inst, list(c.bits))
        diff = diff or len(exp) > 1
        sizes.append(len(exp))
        if case["api"] == "counts":
            continue
        r = res[i]
        check(set(r.c_bits) == set(c.bits), lambda: "bits %r of the result, circuit has %r" % (r.c_bits, c.bits))
        got = r.get_counts(cbits=list(c.bits)) if n else Counter()
        check(got == exp, lambda: "circuit %d: counts %r, expected %r from its instances" % (i, got, exp))
    check(not other.result_dict, "results appear in another backend object")
    if case["shared"]:
        check(store["kept"] == "other" and all(h in store for h in handles), "the dictionary given was not used for the results")
    return {"nontrivial": diff, "labels": [case["api"], "cores%d" % case["cores"], "differ%d" % diff]}


# In a process of its own: worker processes are forked from it, which only works
# in a process that has not simulated anything before (see known_findings.json).


def run_parallel(case):
    p = subprocess.Popen(
        [sys.executable, "-c", "from lib import boot; from checks import c27; c27.child()"],
        cwd=boot.VERIF,
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        text=True,
        start_new_session=True,
    )
    try:
        out, err = p.communicate(json.dumps(case), timeout=LIMIT_BEFORE if case.get("before") else LIMIT)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        check(False, "no result from parallel simulation" + (" after simulating in the same process" if case.get("before") else ""), key="hang")
    lines = [l for l in out.split("\n") if l.startswith("RESULT ")]
    if not lines:
        raise RuntimeError("no result from the child: " + err[-2000:])
    r = json.loads(lines[-1][7:])
    check(r[0] != "viol", lambda: r[1])
    return r[1]


LIMIT, LIMIT_BEFORE = 120, 25


def child():
    case = json.loads(sys.stdin.read())
    if case.get("before"):
        TranspilerBackend(transpiler=CustomPass(lambda c: c)).run_circuit(Circuit(1, 1).X(0).Measure(0, 0), 2)
    r = judge(Part("parallel", None, run_transpiler), case)
    print("RESULT " + json.dumps([r[0], r[1]]), flush=True)


KNOWN = {"C27-parallel-after-serial": lambda part, case, msg, key: part == "parallel" and key == "hang" and bool(case.get("before"))}


# --- noisy aer ---------------------------------------------------------------


@st.composite
def noisy_st(draw):
    n = draw(gen.size(1, 3, 6))
    ops = []
    for _ in range(draw(st.integers(1, 9 if n < 4 else 16))):
        k = draw(st.sampled_from(["H", "H", "Rz", "CX", "CX"]))
        qs = draw(st.permutations(range(n)))
        if k == "CX" and n == 1:
            k = "H"
        ops.append([k, list(qs[: 2 if k == "CX" else 1]), draw(st.sampled_from([0.25, 0.5, 0.3, 1.0, 1.37]))])
    return {
        "n": n,
        "extra": draw(st.integers(0, 2)),
        "ops": ops,
        "perm": draw(st.permutations(range(n))),
        "p1": draw(st.sampled_from([0, 0.1, 0.3, 1.0])),
        "p2": draw(st.sampled_from([0, 0.1, 0.3, 1.0])),
        "ro": draw(st.sampled_from([0, 0.05, 0.2, 0.5, 0.8, 1.0])),
    }


def depolarise(rho, n, idx, p):
    """(1-p) rho + p (trace over idx) x maximally mixed"""
    t = rho.reshape((2,) * (2 * n))
    red = t
    for q in sorted(idx, reverse=True):
        red = np.trace(red, axis1=q, axis2=q + red.ndim // 2)
    k = len(idx)
    # put identities back
    out = red
    m = n - k
    eye = np.eye(2) / 2
    for _ in range(k):
        out = np.multiply.outer(out, eye)
    # axes now: rows of rest (m), cols of rest (m), then (row, col) pairs of idx
    rest = [q for q in range(n) if q not in idx]
    src = {}
    for j, q in enumerate(rest):
        src[("r", q)] = j
        src[("c", q)] = m + j
    for j, q in enumerate(idx):
        src[("r", q)] = 2 * m + 2 * j
        src[("c", q)] = 2 * m + 2 * j + 1
    out = np.transpose(out, [src[("r", q)] for q in range(n)] + [src[("c", q)] for q in range(n)])
    return (1 - p) * rho + p * out.reshape(2**n, 2**n)


def run_noisy(case):
    n = case["n"]
    nodes = [Node("node", i) for i in range(n)]
    c = Circuit()
    for q in nodes:
        c.add_qubit(q)
    for i in range(n):
        c.add_bit(Bit(i))
    rho = np.zeros((2**n, 2**n), complex)
    rho[0, 0] = 1
    for k, qs, a in case["ops"]:
        args = [nodes[q] for q in qs]
        one = Circuit(n)
        if k == "Rz":
            c.Rz(a, *args)
            one.Rz(a, qs[0])
        else:
            c.add_gate(getattr(OpType, k), args)
            one.add_gate(getattr(OpType, k), qs)
        u = refsim.unitary(one)
        rho = u @ rho @ u.conj().T
        rho = depolarise(rho, n, qs, case["p2"] if k == "CX" else case["p1"])
    for i in range(n):
        c.Measure(nodes[case["perm"][i]], Bit(i))
    probs = np.real(np.diag(rho)).reshape((2,) * n)
    probs = np.transpose(probs, case["perm"])
    for q in range(n):
        f = np.array([[1 - case["ro"], case["ro"]], [case["ro"], 1 - case["ro"]]])
        probs = np.moveaxis(np.tensordot(f, probs, axes=(1, q)), 0, q)
    probs = probs.reshape(-1)
    b = NoisyAerBackend(n + case["extra"], case["p1"], case["p2"], case["ro"])
    shots = 3000
    got = b.run_circuit(c, shots).get_counts(cbits=[Bit(i) for i in range(n)])
    obs = np.zeros(2**n)
    for k, v in got.items():
        obs[int("".join(map(str, k)), 2)] += v
    check(obs.sum() == shots, "%r shots returned, asked for %d" % (obs.sum(), shots))
    goodness(obs, probs * shots, "outcomes %r, expected probabilities %r" % (dict(got), np.round(probs, 4).tolist()))
    return {"nontrivial": int((probs > 0.01).sum()) > 1, "labels": ["n%d" % n, "ro%s" % case["ro"]]}


def goodness(obs, exp, what):
    small = exp < 5
    check(not (obs[exp < 1e-7] > 0).any(), lambda: "impossible outcome: " + what)
    o = list(obs[~small]) + ([obs[small].sum()] if small.any() else [])
    e = list(exp[~small]) + ([exp[small].sum()] if small.any() else [])
    if small.any() and e[-1] < 5 and len(e) > 1:
        # Poisson-like remainder: join it to the smallest large bin
        j = int(np.argmin(e[:-1]))
        o[j] += o[-1]
        e[j] += e[-1]
        o, e = o[:-1], e[:-1]
    if len(e) > 1:
        s = float(sum((a - b) ** 2 / b for a, b in zip(o, e)))
        pv = float(chi2.sf(s, len(e) - 1))
        check(pv > P_MIN, lambda: "p=%.3g: %s" % (pv, what))


# --- mock quantinuum ---------------------------------------------------------

_MOCK = []


def mock():
    if not _MOCK:
        _MOCK.append(MockQuantinuumBackend())
    return _MOCK[0]


@st.composite
def mock_st(draw):
    n = draw(st.integers(1, 4))
    cs = []
    for _ in range(draw(st.integers(1, 3))):
        cs.append(
            {
                "g": draw(gen.gates(n, max_size=6, rots=["Rz", "Rx"], tworots=["ZZPhase"])),
                "meas": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n)).map(list), min_size=1, max_size=n, unique_by=(lambda t: t[0], lambda t: t[1]))),
            }
        )
    return {
        "n": n,
        "circs": cs,
        "shots": draw(st.lists(st.sampled_from([1, 50, 1500]), min_size=3, max_size=3)),
        "int": draw(st.booleans()),
        "kw": draw(st.booleans()),
        "back": draw(st.booleans()),
    }


def run_mock(case):
    b = mock()
    n = case["n"]
    circs = []
    for d in case["circs"]:
        c = Circuit(n, n + 1)
        for name, qs, ps in d["g"]:
            c.add_gate(getattr(OpType, name), ps, qs)
        for q, bit in d["meas"]:
            c.Measure(q, bit)
        circs.append(c)
    comp = [b.get_compiled_circuit(c, optimisation_level=1) for c in circs]
    keep = [c.copy() for c in comp]
    shots = [case["shots"][i % 3] for i in range(len(circs))]
    if case["int"]:
        shots = [shots[0]] * len(circs)
    handles = b.process_circuits(comp, shots[0] if case["int"] else shots)
    kw = {"timeout": 60} if case["kw"] else {}
    order = list(range(len(circs)))
    if case["back"]:
        order.reverse()
    res = dict(zip(order, b.get_results([handles[i] for i in order], **kw)))
    check(comp == keep, "a circuit given was changed")
    labels = []
    nt = False
    for i, c in enumerate(circs):
        r = b.get_result(handles[i], **kw) if case["back"] else res[i]
        check(set(r.c_bits) == set(comp[i].bits), lambda: "bits %r, circuit has %r" % (r.c_bits, comp[i].bits))
        bits = [Bit(x) for _, x in case["circs"][i]["meas"]]
        cnt = r.get_counts(cbits=bits)
        check(sum(cnt.values()) == shots[i], lambda: "%d shots, asked for %d" % (sum(cnt.values()), shots[i]))
        exact = refsim.distribution(c, bits=bits)
        nt = nt or len(exact) > 1 or bits != sorted(bits)
        if shots[i] >= 1500:
            emp = {k: v / shots[i] for k, v in cnt.items()}
            two = comp[i].n_2qb_gates()
            # stated noise: 1e-4 per one qubit gate (few tens), 1e-3 per two qubit gate (up to two CX each), 1e-2 readout
            bound = 0.01 * n + 0.003 * two + 0.0005 * (comp[i].n_gates + 4 * two) + np.sqrt((2**len(bits) * np.log(2) + 26) / (2 * shots[i]))
            tv = refsim.tv(emp, exact)
            check(tv <= bound, lambda: "circuit %d: outcomes %r, expected %r (distance %.3f, bound %.3f)" % (i, emp, exact, tv, bound))
            labels.append("compared")
    return {"nontrivial": nt, "labels": labels or ["few shots"]}


PARTS = [
    Part("transpiler", tr_st([1]), run_transpiler, quick=500, thorough=12000, shards=8),
    Part("parallel", tr_st([2, 3]), run_parallel, quick=24, thorough=600, shards=8),
    Part("noisy", noisy_st(), run_noisy, quick=240, thorough=6000, shards=8),
    Part("mock", mock_st(), run_mock, quick=120, thorough=3000, shards=8),
]
