"""Typed task graphs: MitRes and MitEx."""

from collections import Counter
from copy import copy
from typing import List, Tuple

from hypothesis import strategies as st
from lib.backends import RecordingBackend, result_from_counts
from lib.pbt import Part, check
from pytket import Bit, Circuit, Qubit
from pytket.backends.backendresult import BackendResult
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, CircuitShots, MitEx, MitRes, MitTask, ObservableExperiment, ObservableTracker, SymbolsDict, TaskGraph
from qermit.taskgraph import gen_compiled_MitRes

PROPERTY = "C29"
RULE = (
    "A case is a history of up to 12 calls (append, prepend of tasks with matching or differing annotations and numbers of wires or of whole graphs, parallel, "
    "add_wire, add_n_wires, copy, conversion to and from TaskGraph, flattening, run with and without cache) on up to 5 MitRes, MitEx and TaskGraph objects; tasks apply "
    "non-commuting affine maps to shots, counts, coefficients or values. All objects are run at the end. Non-trivial: at least two additions were "
    "accepted and one refused."
)
B = Bit("z", 2)
Z = QubitPauliString(Qubit("w", 1), Pauli.Z)
TYPES = {"cs": CircuitShots, "br": BackendResult, "oe": ObservableExperiment, "qpo": QubitPauliOperator}


def f_cs(t, xs):
    return [CircuitShots(x.Circuit, t[0] * x.Shots + t[1]) for x in xs]


def f_br(t, xs):
    return [result_from_counts({k: t[0] * v + t[1] for k, v in x.get_counts([B]).items()}, [B]) for x in xs]


def f_oe(t, xs):
    out = []
    for x in xs:
        d = x.ObservableTracker.qubit_pauli_operator._dict
        out.append(ObservableExperiment(x.AnsatzCircuit, ObservableTracker(QubitPauliOperator({s: t[0] * complex(c) + t[1] for s, c in d.items()}))))
    return out


def f_qpo(t, xs):
    return [QubitPauliOperator({s: t[0] * complex(c) + t[1] for s, c in x._dict.items()}) for x in xs]


F = {"cs": f_cs, "br": f_br, "oe": f_oe, "qpo": f_qpo}
NO = object()


def task(kind, t, fault, k=0):
    """a task mapping lists of `kind`; fault says how it differs from what fits"""
    right = List[TYPES[kind]]
    arg, ret, nin, nout = right, Tuple[right], 1, 1
    if fault == "arg":
        arg = List[TYPES["br" if kind != "br" else "cs"]]
    elif fault == "ret":
        ret = Tuple[List[TYPES["qpo" if kind != "qpo" else "oe"]]]
    elif fault == "noarg":
        arg = NO
    elif fault == "noret":
        ret = NO
    elif fault == "bare":
        ret = right
    elif fault == "elem":
        arg = TYPES[kind]
    elif fault == "in2":
        nin = 2
    elif fault == "out2":
        nout = 2

    def one(obj, xs):
        return tuple([F[kind](t, xs)] * nout)

    def two(obj, xs, ys):
        return (F[kind](t, xs),)

    f = two if nin == 2 else one
    f.__annotations__ = {**({} if arg is NO else {"xs": arg}), **({} if ret is NO else {"return": ret})}
    if nin == 2 and arg is not NO:
        f.__annotations__["ys"] = arg
    return MitTask(_label="call%d" % k, _n_in_wires=nin, _n_out_wires=nout, _method=f)


FAULTS = ["arg", "ret", "noarg", "noret", "bare", "elem", "in2", "out2"]
ob = st.integers(0, 4)
aff = st.tuples(st.integers(1, 3), st.integers(0, 3)).map(list)
fault = st.one_of(st.none(), st.none(), st.sampled_from(FAULTS))
op = st.one_of(
    st.tuples(st.sampled_from(["append", "prepend", "append", "prepend"]), ob, aff, fault),
    st.tuples(st.sampled_from(["append", "prepend"]), ob, aff, st.none()),
    st.tuples(st.sampled_from(["add graph", "add graph after"]), ob, ob),
    st.tuples(st.sampled_from(["parallel", "add_wire", "add_n_wires"]), ob, st.integers(0, 2)),
    st.tuples(st.just("wide"), ob, st.sampled_from(["parallel", "two out", "two in", "wire"])),
    st.tuples(st.sampled_from(["copy", "to_tg", "back", "back", "cross", "flatten", "run", "cached"]), ob),
).map(list)
case_st = st.fixed_dictionaries(
    {
        "start": st.lists(st.sampled_from(["res", "ex", "cres", "exres"]), min_size=1, max_size=2),
        "ops": st.lists(op, min_size=2, max_size=12),
        "n": st.integers(0, 3),
    }
)


class Obj:
    def __init__(self, g, kind, pre=(), app=(), mit=True, wires=1, out=True, inn=True):
        self.g, self.kind, self.pre, self.app = g, kind, list(pre), list(app)
        self.mit, self.wires, self.out, self.inn = mit, wires, out, inn

    def clone(self, g, mit=None):
        return Obj(g, self.kind, self.pre, self.app, self.mit if mit is None else mit, self.wires, self.out, self.inn)


def inputs(kind, n):
    if kind == "res":
        out = []
        for i in range(n):
            c = Circuit()
            c.add_qubit(Qubit("w", 1))
            c.add_bit(B)
            if i % 2:
                c.X(Qubit("w", 1))
            c.Measure(Qubit("w", 1), B)
            out.append(CircuitShots(c, 2 + i))
        return out
    out = []
    for i in range(n):
        c = Circuit()
        c.add_qubit(Qubit("w", 1))
        if i % 2:
            c.X(Qubit("w", 1))
        out.append(ObservableExperiment(AnsatzCircuit(c, 10 + i, SymbolsDict()), ObservableTracker(QubitPauliOperator({Z: 2 + i}))))
    return out


def expected(o, n):
    out = []
    for i in range(n):
        v = 2 + i
        for a, b in reversed(o.pre):
            v = a * v + b
        if o.kind == "ex" and i % 2:
            v = -v
        for a, b in o.app:
            v = a * v + b
        out.append(v)
    return out


def run_obj(o, n, what, cache=False):
    xs = inputs(o.kind, n)
    if o.mit:
        res = o.g.run(list(xs), cache=cache)
    else:
        r = o.g.run([list(xs)] + ["extra%d" % i for i in range(o.wires - 1)], cache=cache)
        check(len(r) == o.wires, "%s: %d outputs of a graph with %d wires" % (what, len(r), o.wires))
        check(tuple(r[1:]) == tuple("extra%d" % i for i in range(o.wires - 1)), "%s: other wires returned %r" % (what, r[1:]))
        res = r[0]
    want = expected(o, n)
    got = []
    for i, r in enumerate(res):
        if o.kind == "res":
            c = r.get_counts([B])
            check(set(c) == {(i % 2,)}, "%s: result %d is %r" % (what, i, c))
            got.append(c[(i % 2,)])
        else:
            check(set(r._dict) == {Z}, "%s: result %d is %r" % (what, i, r))
            got.append(complex(r._dict[Z]))
    check(len(got) == len(want) and all(abs(a - b) < 1e-6 * max(1, abs(b)) for a, b in zip(got, want)), "%s gives %r, its tasks compute %r" % (what, got, want))


def refused(f, what):
    try:
        f()
    except (AssertionError, TypeError):
        return
    except Exception as e:
        check(False, "%s raises %s: %s, not a refusal" % (what, type(e).__name__, e))
    check(False, "%s was accepted" % what)


def run(case):
    be = RecordingBackend()
    objs = []
    for s in case["start"]:
        if s == "res":
            objs.append(Obj(MitRes(be, _label="r"), "res"))
        elif s == "cres":
            objs.append(Obj(gen_compiled_MitRes(be, 0), "res"))
        elif s == "ex":
            objs.append(Obj(MitEx(be, _label="e"), "ex"))
        else:
            objs.append(Obj(MitEx(be, mitres=MitRes(be, _label="inner")), "ex"))
    acc = ref = 0
    seen = Counter()
    for k, o in enumerate(case["ops"]):
        me = objs[o[1] % len(objs)]
        what = "%s %s of %s (call %d)" % (type(me.g).__name__, o[0], me.kind, k)
        nb, lab = len(list(me.g.tasks)), me.g.label
        seen[o[0]] += 1
        if o[0] in ("append", "prepend"):
            kind = {("append", "res"): "br", ("prepend", "res"): "cs", ("append", "ex"): "qpo", ("prepend", "ex"): "oe"}[o[0], me.kind]
            t = task(kind, o[2], o[3], k)
            f = getattr(me.g, o[0])
            if me.mit:
                ok = o[3] is None
            else:
                # only the number of wires matters
                ok = me.wires == 1 and (o[3] not in ("in2", "out2"))
            chk = getattr(me.g, "check_%s_wires" % o[0])
            if me.mit or o[3] not in ("in2", "out2"):
                check(bool(chk(t)) == ok, "%s: check_%s_wires is %r for a task with %r" % (what, o[0], chk(t), o[3]))
            if ok:
                f(t)
                (me.app if o[0] == "append" else me.pre).append(o[2])
                if o[0] == "append":
                    me.out = o[3] not in ("ret", "noret", "bare")
                else:
                    me.inn = o[3] not in ("arg", "noarg", "elem")
                acc += 1
                check(len(list(me.g.tasks)) == nb + 1, "%s: %d tasks became %d" % (what, nb, len(list(me.g.tasks))))
            elif me.mit or me.wires > 1:
                refused(lambda: f(t), what)
                ref += 1
        elif o[0] in ("add graph", "add graph after"):
            other = objs[o[2] % len(objs)]
            if me.mit:
                # a graph takes more arguments than its wires
                refused(lambda: (me.g.append if "after" in o[0] else me.g.prepend)(other.g), what)
                ref += 1
        elif o[0] in ("parallel", "add_wire", "add_n_wires"):
            if me.mit:
                refused({"parallel": lambda: me.g.parallel(task("cs", [1, 0], None)), "add_wire": me.g.add_wire, "add_n_wires": lambda: me.g.add_n_wires(o[2])}[o[0]], what)
                ref += 1
            elif o[0] == "add_wire" and me.wires < 3:
                me.g.add_wire()
                me.wires += 1
            elif o[0] == "add_n_wires" and me.wires < 3:
                me.g.add_n_wires(o[2])
                me.wires += o[2]
        elif o[0] == "copy" and len(objs) < 5:
            objs.append(me.clone(copy(me.g)))
        elif o[0] == "to_tg" and len(objs) < 5:
            objs.append(me.clone(TaskGraph().from_TaskGraph(me.g), mit=False))
        elif o[0] == "back" and len(objs) < 5 and me.inn:
            cls = MitRes if me.kind == "res" else MitEx
            if me.wires == 1 and me.out:
                g = cls(be).from_TaskGraph(me.g)
                check(isinstance(g, cls) and g.label == lab, "%s gives %r labelled %r" % (what, type(g), g.label))
                objs.append(me.clone(g, mit=True))
            else:
                refused(lambda: cls(be).from_TaskGraph(me.g), what)
                ref += 1
        elif o[0] == "cross":
            # results of the other kind
            cls = MitEx if me.kind == "res" else MitRes
            refused(lambda: cls(be).from_TaskGraph(me.g), what)
            ref += 1
        elif o[0] == "wide" and me.inn and me.out and me.wires == 1:
            # a copy with more wires, the first of them of the right types
            cls = MitRes if me.kind == "res" else MitEx
            w = TaskGraph().from_TaskGraph(me.g)
            if o[2] == "parallel":
                w.parallel(me.g)
            elif o[2] == "wire":
                w.add_wire()
            elif o[2] == "two out":
                w.append(task("br" if me.kind == "res" else "qpo", [1, 0], "out2"))
            else:
                w.prepend(task("cs" if me.kind == "res" else "oe", [1, 0], "in2"))
            refused(lambda: cls(be).from_TaskGraph(w), what + " with " + o[2])
            ref += 1
        elif o[0] == "flatten":
            me.g.decompose_TaskGraph_nodes()
            nb = len(list(me.g.tasks))
            check(not any(isinstance(t, TaskGraph) for t in me.g.tasks), "%s: a graph is left" % what)
        elif o[0] in ("run", "cached"):
            run_obj(me, case["n"], what, cache=o[0] == "cached")
        check(me.g.label == lab, "%s: the label %r became %r" % (what, lab, me.g.label))
        check((me.g.n_in_wires, me.g.n_out_wires) == (me.wires, me.wires), "%s: %r wires, expected %d" % (what, (me.g.n_in_wires, me.g.n_out_wires), me.wires))
        if o[0] not in ("append", "prepend", "flatten"):
            check(len(list(me.g.tasks)) == nb, "%s: %d tasks became %d" % (what, nb, len(list(me.g.tasks))))
    for i, me in enumerate(objs):
        run_obj(me, case["n"], "object %d (%s of %s)" % (i, type(me.g).__name__, me.kind))
    return {"nontrivial": acc > 1 and ref > 0, "labels": sorted(seen)}


PARTS = [Part("histories", case_st, run, quick=6000, thorough=200000, shards=8)]
