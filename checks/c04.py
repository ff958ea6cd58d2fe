"""Cache and characterisation data of a run."""

from copy import copy
from typing import List, Tuple

from checks.tgmodel import identity, leaf, m_append, m_parallel, m_prepend, m_wires
from hypothesis import strategies as st
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket.backends.backendresult import BackendResult
from pytket.utils import QubitPauliOperator
from qermit import CircuitShots, ObservableExperiment
from qermit.taskgraph import MitEx, MitRes, MitTask, TaskGraph

PROPERTY = "C04"
RULE = (
    "A case is a graph built from up to 8 layers (append/prepend/parallel/add_wire; plain or nested tasks; optionally "
    "a repeated label), decomposed or extended between runs, characterisation given at construction and/or at run, run with the cache once or twice with different inputs. "
    "Every task writes its own characterisation entry, overwrites a common one and reports the entries it saw. Non-trivial: >=3 tasks with a data dependence. "
    "In part given, data are set or added to any graphs of a tree of nested graphs, which are then copied, converted (also to MitRes and MitEx) and flattened; "
    "every task reports what it saw. Non-trivial: data were given, and there are several tasks."
)


def rec_task(label, n_in, n_out, seen):
    def method(obj, *args):
        seen[label] = dict(obj.characterisation)
        obj.characterisation["from_" + label] = label
        # an entry that all tasks overwrite
        obj.characterisation["last"] = label
        return tuple((label, j, tuple(args)) for j in range(n_out))

    return MitTask(_label=label, _n_in_wires=n_in, _n_out_wires=n_out, _method=method)


def ancestors(term, acc):
    """labels occurring in a term"""
    if isinstance(term, tuple):
        if len(term) == 3 and isinstance(term[0], str) and term[0].startswith("t"):
            acc.add(term[0])
            for x in term[2]:
                ancestors(x, acc)
        else:
            for x in term:
                ancestors(x, acc)
    return acc


case_st = st.fixed_dictionaries(
    {
        "ops": st.lists(
            st.one_of(
                st.tuples(st.just("wire")),
                st.tuples(st.just("append"), st.integers(1, 3), st.booleans()),
                st.tuples(st.just("prepend"), st.integers(1, 3), st.booleans()),
                st.tuples(st.just("append"), st.integers(1, 3), st.booleans()),
                st.tuples(
                    st.just("parallel"),
                    st.integers(1, 2),
                    st.integers(1, 2),
                    st.booleans(),
                ),
            ),
            min_size=1,
            max_size=8,
        ),
        "dup": st.one_of(st.none(), st.none(), st.integers(0, 7)),
        "char0": st.sampled_from(["none", "set", "update"]),
        "runs": st.lists(st.booleans(), min_size=1, max_size=3),
        "runchar": st.booleans(),
        "over": st.booleans(),
        "decomp": st.sampled_from([None, None, 0, 1, 2]),
        "grow": st.sampled_from([None, None, 1, 2]),
        "other": st.sampled_from([None, "copy", "part", "converted"]),
    }
)


def run(case):
    seen = {}
    g, m = TaskGraph("G"), identity(1)
    k = 0
    labels = []
    members = {}  # label of a nested graph -> label its task gets on decomposition

    def src(n_in, n_out, nested):
        nonlocal k
        lab = "t%d" % k
        k += 1
        t, tm = rec_task(lab, n_in, n_out, seen), leaf(lab, n_in, n_out)
        name = lab
        if nested:
            h, hm = TaskGraph("n%d" % k), identity(1)
            if n_in > 1:
                h.add_n_wires(n_in - 1)
                hm = m_wires(hm, n_in - 1)
            h.append(t)
            t, tm, name = h, m_append(hm, tm, False), "n%d" % k
            members[name] = name + lab
        labels.append(name)
        return t, tm

    for op in case["ops"]:
        if op[0] == "wire":
            if max(m.n_in, m.n_out) < 5:
                g.add_wire()
                m = m_wires(m, 1)
        elif op[0] == "append":
            t, tm = src(m.n_out, op[1], op[2])
            g.append(t)
            m = m_append(m, tm, False)
        elif op[0] == "prepend":
            t, tm = src(op[1], m.n_in, op[2])
            g.prepend(t)
            m = m_prepend(m, tm, False)
        else:
            if max(m.n_in + op[1], m.n_out + op[2]) <= 5:
                t, tm = src(op[1], op[2], op[3])
                g.parallel(t)
                m = m_parallel(m, tm, False)
    if case["dup"] is not None and labels:
        lab = labels[case["dup"] % len(labels)]
        g.append(
            MitTask(
                _label=lab,
                _n_in_wires=m.n_out,
                _n_out_wires=m.n_out,
                _method=lambda obj, *a: a,
            )
        )
        labels.append(lab)
    base = {}
    if case["char0"] == "set":
        g.set_characterisation({"base": 1})
        base = {"base": 1}
    elif case["char0"] == "update":
        g.update_characterisation({"base": 2})
        base = {"base": 2}
    if base:
        check(
            {k: v for k, v in g.get_characterisation().items()} == base,
            "characterisation set to %r reads back %r" % (base, g.get_characterisation()),
        )
    dep = False
    last = None
    for r, use_cache in enumerate(case["runs"]):
        if case.get("decomp") == r and len(set(labels)) == len(labels):
            g.decompose_TaskGraph_nodes()
            labels = [members.get(x, x) for x in labels]
        if case.get("grow") == r:
            t, tm = src(m.n_out, m.n_out, False)
            g.append(t)
            m = m_append(m, tm, False)
        dup = len(set(labels)) < len(labels)
        rc = {"run%d" % r: [r]} if case["runchar"] else {}
        if case.get("over"):
            # entries of the graph given anew to the run
            rc["last"] = last = "given%d" % r
            if base:
                rc["base"] = base["base"] = 10 + r
        xs = [("in", r, i) for i in range(m.n_in)]
        seen.clear()
        if dup and use_cache:
            try:
                g.run(xs, cache=True, characterisation=rc)
            except ValueError:
                continue
            check(False, "caching a graph with a repeated label did not raise ValueError")
        got = g.run(xs, cache=use_cache, characterisation=rc)
        want = tuple(m(xs))
        check(got == want, "run returned %r, expected %r" % (got, want))
        want_keys = dict(base)
        want_keys.update(rc)
        # each task ran, saw what was supplied and what its ancestors produced
        final = g.get_characterisation()
        want_keys.pop("last", None)
        for kk, v in want_keys.items():
            check(final.get(kk) == v, "characterisation %r lost after run" % kk)
        # `seen` is in the order in which the tasks ran
        for lab, entries in seen.items():
            check(
                entries.get("last") == last,
                "task %s, run after %s, sees the entry of %s" % (lab, last, entries.get("last")),
            )
            last = lab
        check(final.get("last") == last, "%s ran last, the graph has the entry of %s" % (last, final.get("last")))
        for i in range(k):
            check("t%d" % i in seen, "task t%d did not run" % i)
            check(
                final.get("from_t%d" % i) == "t%d" % i,
                "entry written by t%d is not in the graph's characterisation" % i,
            )
        # collect every task's inputs by walking the final terms + cache
        terms = list(got)
        if use_cache:
            cache = g.get_cache()
            check(
                sorted(cache) == sorted(labels),
                "cache keys %r, task labels %r" % (sorted(cache), sorted(labels)),
            )
            order = {lab: i for i, lab in enumerate(cache)}
            owner = {}
            for lab, (task, outs) in cache.items():
                check(
                    task.label == lab and isinstance(task, (MitTask, TaskGraph)),
                    "cache entry %r holds task %r" % (lab, task),
                )
                owner[outs[0][0]] = lab
                terms += list(outs)
                check(
                    all(o[0] == outs[0][0] and o[1] == j for j, o in enumerate(outs))
                    and len(outs) == task.n_out_wires,
                    "cache entry %r holds outputs %r" % (lab, outs),
                )
            for lab, (task, outs) in cache.items():
                anc = set()
                for x in outs[0][2]:
                    ancestors(x, anc)
                for a in anc:
                    dep = True
                    check(
                        order[owner[a]] < order[lab],
                        "cache order: %s precedes its input %s" % (lab, owner[a]),
                    )
            # cached outputs are those of *this* run
            for t in terms:
                check(
                    "('in', %d," % r in str(t),
                    "cached/returned data %r is not of run %d" % (t, r),
                )
            if case["other"]:
                # what is cached for this graph is not touched by another one made from it
                keep = list(cache.items())
                if case["other"] == "part":
                    h = TaskGraph("H")
                    h.add_n_wires(g.n_in_wires - 1)
                    h.append(g)
                else:
                    h = copy(g) if case["other"] == "copy" else TaskGraph("H").from_TaskGraph(g)
                h.run([("in", 99, i) for i in range(m.n_in)], cache=True)
                check(list(g.get_cache().items()) == keep, "running a graph made from another (%s) changes what is cached for that one" % case["other"])
            fin = {str(o) for lab in cache for o in cache[lab][1]}
            for o in got:
                if not (o[0] == "in"):
                    check(str(o) in fin, "output %r missing from cache" % (o,))
        stack = list(terms)
        while stack:
            t = stack.pop()
            if isinstance(t, tuple) and len(t) == 3 and str(t[0]).startswith("t"):
                anc = set()
                for x in t[2]:
                    ancestors(x, anc)
                    stack.append(x)
                for a in anc:
                    dep = True
                    check(
                        "from_" + a in seen[t[0]],
                        "task %s did not see the characterisation produced upstream by %s"
                        % (t[0], a),
                    )
                for kk, v in want_keys.items():
                    check(
                        seen[t[0]].get(kk) == v,
                        "task %s did not see supplied characterisation %r" % (t[0], kk),
                    )
    return {
        "nontrivial": k >= 3 and dep,
        "labels": ["dup"] if dup else ["unique"] + (["dep"] if dep else []),
    }


# --- data given to graphs which are then nested, copied, converted or flattened -------------------

node_st = st.recursive(
    st.just(None),  # a task
    lambda kid: st.fixed_dictionaries(
        {
            "given": st.sampled_from(["none", "set", "update", "twice"]),
            # the data are given before or after the graph has got its tasks
            "early": st.booleans(),
            "made": st.sampled_from(["none", "none", "copy", "converted"]),
            "kids": st.lists(st.tuples(st.booleans(), kid), min_size=1, max_size=4),
        }
    ),
    max_leaves=8,
)

given_st = st.fixed_dictionaries(
    {
        "top": node_st.filter(lambda d: d is not None),
        "kind": st.sampled_from(["graph", "graph", "mitres", "mitex"]),
        "flat": st.booleans(),
        "runs": st.lists(st.booleans(), min_size=1, max_size=2),
    }
)


def run_given(case):
    seen = {}
    wants = {}  # task -> entries given to the graphs around it
    count = [0]

    def member(kind):
        lab = "t%d" % count[0]
        count[0] += 1

        if kind == "mitres":

            def method(obj, x: List[CircuitShots]) -> Tuple[List[BackendResult]]:
                seen[lab] = dict(obj.characterisation)
                return (x,)

        elif kind == "mitex":

            def method(obj, x: List[ObservableExperiment]) -> Tuple[List[QubitPauliOperator]]:
                seen[lab] = dict(obj.characterisation)
                return (x,)

        else:

            def method(obj, x):
                seen[lab] = dict(obj.characterisation)
                return (x,)

        return lab, MitTask(_label=lab, _n_in_wires=1, _n_out_wires=1, _method=method)

    depth = [0]
    everything = {}

    def make(d, kind, around):
        name = "g%d" % count[0]
        count[0] += 1
        mine = {}
        if d["given"] != "none":
            mine[name] = [name]
        if d["given"] == "twice":
            mine[name + "x"] = name
        everything.update(mine)

        def give(g):
            if d["given"] == "set":
                g.set_characterisation(dict(mine))
            elif d["given"] == "update":
                g.update_characterisation(mine)
            elif d["given"] == "twice":
                g.set_characterisation({name: 0})
                g.update_characterisation(mine)

        around = {**around, **mine}
        g = TaskGraph(name)
        if d["early"]:
            give(g)
        inside = []
        for at_end, kid in d["kids"]:
            if kid is None:
                lab, t = member(kind)
                inside.append(lab)
                wants[lab] = around
            else:
                depth[0] += 1
                t = make(kid, "graph", around)
            g.append(t) if at_end else g.prepend(t)
        if not d["early"]:
            give(g)
        if d["made"] == "copy":
            g = copy(g)
        elif d["made"] == "converted":
            g = TaskGraph("conv" + name).from_TaskGraph(g)
        if kind != "graph":
            # its first and last task have the types of the method
            for add in (g.append, g.prepend):
                lab, t = member(kind)
                wants[lab] = around
                add(t)
            be = RecordingBackend()
            g = (MitRes(be) if kind == "mitres" else MitEx(be)).from_TaskGraph(g)
        return g

    g = make(case["top"], case["kind"], {})
    top = {k: v for k, v in g.get_characterisation().items()}
    if case["top"]["given"] != "none":
        check(top, "the data given to the graph are lost (%s %s)" % (case["kind"], case["top"]["made"]))
    if case["flat"]:
        g.decompose_TaskGraph_nodes()
    for r, cache in enumerate(case["runs"]):
        seen.clear()
        x = ["x%d" % r]
        extra = {"run%d" % r: r}
        if case["kind"] == "graph":
            got = g.run([x], cache=cache, characterisation=extra)[0]
        else:
            got = g.run(x, cache, extra)
        check(got == x, "the graph returns %r for %r" % (got, x))
        check(set(seen) == set(wants), "tasks %r ran, %r are there" % (sorted(seen), sorted(wants)))
        for lab, want in wants.items():
            for kk, v in {**want, **extra}.items():
                check(
                    seen[lab].get(kk) == v,
                    "task %s does not see %r, given to %s, in a %sgraph" % (lab, kk, "the run" if kk in extra else "a graph around it", "flattened " if case["flat"] else ""),
                )
        final = g.get_characterisation()
        for kk, v in {**top, **extra}.items():
            check(final.get(kk) == v, "entry %r is not in the graph after the run" % kk)
    return {
        "nontrivial": bool(everything) and len(wants) > 1,
        "labels": [case["kind"], "flat" if case["flat"] else "nested%d" % min(depth[0], 3)],
    }


PARTS = [
    Part("programs", case_st, run, quick=2000, thorough=40000, shards=8),
    Part("given", given_st, run_given, quick=1500, thorough=30000, shards=8),
]
