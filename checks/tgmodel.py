"""Functional reference model of task graphs, shared by C01/C02/C04."""

from lib import boot  # noqa: F401

from hypothesis import strategies as st
from lib.pbt import Violation, check
from qermit.taskgraph import MitTask, TaskGraph, duplicate_wire_task_gen


class M:
    """Reference: a task graph *is* a function from input wires to output wires."""

    def __init__(self, n_in, n_out, fn, nodes=(), nested=()):
        self.n_in, self.n_out, self.fn = n_in, n_out, fn
        self.nodes = tuple(nodes)  # labels of direct members
        self.nested = tuple(nested)  # models of direct members that are graphs
        self.nested_names = ()

    def __call__(self, xs):
        out = list(self.fn(list(xs)))
        assert len(out) == self.n_out
        return out

    def has_through_wire(self):
        toks = [("tok", i) for i in range(self.n_in)]
        return any(o in toks for o in self(toks))

    def nested_through(self):
        return any(m.has_through_wire() or m.nested_through() for m in self.nested)

    def leaves(self):
        """labels of the leaf tasks after complete flattening (multiset)"""
        out = []
        nest = dict(zip(self.nested_names, self.nested)) if self.nested_names else {}
        for n in self.nodes:
            if isinstance(n, M):
                out += n.leaves()
            else:
                out.append(n)
        return out


def identity(n):
    return M(n, n, lambda xs: xs)


# in large graphs wires carry a hash of the term instead of the term
LARGE = [False]


def pack(xs):
    return hash(tuple(xs)) if LARGE[0] else tuple(xs)


EMPTY = ((), 0, "", False, frozenset())


def outputs(label, xs, n_out):
    """a term per wire; the tasks called e.. return what is as good as nothing"""
    if label[0] == "e":
        return [EMPTY[(len(label) + j) % 5] if LARGE[0] or (j + len(label)) % 2 else [] for j in range(n_out)]
    # lists stand for themselves in terms
    return [(label, j, pack([() if x == [] else x for x in xs])) for j in range(n_out)]


def leaf(label, n_in, n_out):
    return M(n_in, n_out, lambda xs: outputs(label, xs, n_out), [label])


def _member(b, is_graph):
    return ((b,), (b,)) if is_graph else (b.nodes, ())


def m_append(a, b, g):
    nd, ns = _member(b, g)
    return M(a.n_in, b.n_out, lambda xs: b(a(xs)), a.nodes + nd, a.nested + ns)


def m_prepend(a, b, g):
    nd, ns = _member(b, g)
    return M(b.n_in, a.n_out, lambda xs: a(b(xs)), a.nodes + nd, a.nested + ns)


def m_parallel(a, b, g):
    nd, ns = _member(b, g)
    return M(
        a.n_in + b.n_in,
        a.n_out + b.n_out,
        lambda xs: a(xs[: a.n_in]) + b(xs[a.n_in :]),
        a.nodes + nd,
        a.nested + ns,
    )


def m_wires(a, k):
    return M(
        a.n_in + k,
        a.n_out + k,
        lambda xs: a(xs[: a.n_in]) + xs[a.n_in :],
        a.nodes,
        a.nested,
    )


class Fault(Exception):
    pass


FAULT = [None]


def make_task(label, n_in, n_out):
    def method(obj, *args):
        if FAULT[0] == label:
            raise Fault(label)
        if len(args) != n_in:
            raise Violation(
                "task %s received %d arguments, expects %d" % (label, len(args), n_in)
            )
        return tuple(outputs(label, args, n_out))

    return MitTask(_label=label, _n_in_wires=n_in, _n_out_wires=n_out, _method=method)


MAXW = 5
MAXW_LARGE = 30

_small = st.integers(0, 7)


def op_strategy(with_decompose, large=False):
    g = _small
    arity = st.one_of(st.integers(1, 3), st.integers(9, 14)) if large else st.integers(1, 3)
    src = st.one_of(
        st.tuples(st.just("new"), arity, arity),
        st.tuples(st.just("new"), arity, arity),
        st.tuples(st.just("pool"), _small),
        st.tuples(st.just("graph"), _small),
    )
    ops = [
        st.tuples(st.just("graph")),
        st.tuples(st.just("from"), g),
        st.tuples(st.just("wire"), g, st.one_of(st.integers(1, 2), st.integers(8, 13)) if large else st.integers(1, 2)),
        st.tuples(st.just("parallel"), g, src),
        st.tuples(st.just("append"), g, src),
        st.tuples(st.just("prepend"), g, src),
        st.tuples(st.just("append"), g, src),
        st.tuples(st.just("prepend"), g, src),
        st.tuples(st.just("run"), g, st.integers(0, 99)),
        st.tuples(st.just("fault"), g, _small),
        st.tuples(
            st.just("mismatch"),
            g,
            st.booleans(),
            st.integers(1, 3),
            st.integers(1, 6),
            st.booleans(),
        ),
    ]
    if not with_decompose:
        ops += [st.tuples(st.just("dup"), g, st.booleans(), st.integers(1, 3))]
    if with_decompose:
        nest = st.one_of(
            st.tuples(st.just("graph"), _small),
            st.tuples(
                st.just("sub"),
                arity,
                arity,
                arity,
                st.integers(0, 7),
            ),
            st.tuples(
                st.just("sub"),
                arity,
                arity,
                arity,
                st.integers(0, 7),
            ),
        )
        ops += [
            st.tuples(st.just("decompose"), g),
            st.tuples(st.just("decompose"), g),
            st.tuples(st.just("append"), g, nest),
            st.tuples(st.just("prepend"), g, nest),
            st.tuples(st.just("parallel"), g, nest),
        ]
    return st.one_of(ops)


def program(with_decompose, max_ops=14):
    return st.lists(op_strategy(with_decompose), min_size=1, max_size=max_ops)


def large_program(with_decompose, max_ops=30):
    """many wires and many tasks"""
    return st.tuples(
        st.tuples(st.just("wire"), st.just(0), st.integers(0, 13)),
        st.lists(op_strategy(with_decompose, True), min_size=2, max_size=max_ops),
    ).map(lambda t: [t[0]] + t[1])


def large(run):
    def f(case):
        LARGE[0] = True
        try:
            return run(case)
        finally:
            LARGE[0] = False

    return f


class World:
    """Applies one program to the real graphs and to the model in step."""

    def __init__(self, closed_start=False):
        self.graphs = [TaskGraph("G0")]
        self.models = [identity(1)]
        self.pool = []  # reusable (task, model)
        self.ntask = 0
        self.stats = {}
        self.refused = 0

    def bump(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def _task(self, n_in, n_out):
        label = "%s%d" % ("e" if self.ntask % 7 == 5 else "t", self.ntask)
        self.ntask += 1
        t = make_task(label, n_in, n_out)
        m = leaf(label, n_in, n_out)
        self.pool.append((t, m))
        return t, m

    def _source(self, src, need_in=None, need_out=None, forbid=None):
        kind = src[0]
        if kind == "new":
            t, m = self._task(need_in or src[1], need_out or src[2])
            return t, m, False
        if kind == "pool":
            cands = [
                (t, m)
                for t, m in self.pool
                if (need_in is None or m.n_in == need_in)
                and (need_out is None or m.n_out == need_out)
            ]
            if not cands:
                return None
            t, m = cands[src[1] % len(cands)]
            self.bump("reused_task")
            return t, m, False
        if kind == "sub":
            # a fresh graph of the required arity, without through-wires
            n_in, n_out, mid, how = need_in or src[1], need_out or src[2], src[3], src[4]
            g, m = TaskGraph("S%d" % self.ntask), identity(1)
            if n_in > 1:
                g.add_n_wires(n_in - 1)
                m = m_wires(m, n_in - 1)
            t, tm = self._task(n_in, mid)
            g.append(t)
            m = m_append(m, tm, False)
            if how & 1:  # one level deeper
                h, hm = TaskGraph("D%d" % self.ntask), identity(1)
                if mid > 1:
                    h.add_n_wires(mid - 1)
                    hm = m_wires(hm, mid - 1)
                t, tm = self._task(mid, n_out)
                h.append(t)
                hm = m_append(hm, tm, False)
                g.append(h)
                m = m_append(m, hm, True)
            else:
                t, tm = self._task(mid, n_out)
                g.append(t)
                m = m_append(m, tm, False)
            if how & 2:
                t, tm = self._task(n_in, n_in)
                g.prepend(t)
                m = m_prepend(m, tm, False)
            if how & 4 and len(self.graphs) < 6:
                self.graphs.append(g)
                self.models.append(m)
            self.bump("nested_graph")
            return g, m, True
        cands = [
            i
            for i in range(len(self.graphs))
            if i != forbid
            and (need_in is None or self.models[i].n_in == need_in)
            and (need_out is None or self.models[i].n_out == need_out)
        ]
        if not cands:
            return None
        i = cands[src[1] % len(cands)]
        if len(self.models[i].leaves()) > (25 if LARGE[0] else 12):
            return None
        self.bump("nested_graph")
        return self.graphs[i], self.models[i], True

    def run(self, i, salt):
        g, m = self.graphs[i], self.models[i]
        xs = [("in", salt, k) for k in range(m.n_in)]
        check(
            g.n_in_wires == m.n_in and g.n_out_wires == m.n_out,
            "graph %d has %d/%d wires, reference has %d/%d"
            % (i, g.n_in_wires, g.n_out_wires, m.n_in, m.n_out),
        )
        got = g.run(list(xs))
        want = tuple(m(xs))
        check(
            isinstance(got, tuple) and got == want,
            "graph %d run%r\n returned %r\n reference %r" % (i, xs, got, want),
        )

    def step(self, op):
        kind = op[0]
        if kind == "graph":
            if len(self.graphs) < 5:
                self.graphs.append(TaskGraph("G%d" % len(self.graphs)))
                self.models.append(identity(1))
            return
        i = op[1] % len(self.graphs)
        g, m = self.graphs[i], self.models[i]
        if kind == "from":
            if len(self.graphs) < 5:
                self.graphs.append(TaskGraph().from_TaskGraph(g))
                self.models.append(m)
                self.bump("copied")
        elif kind == "wire":
            k = op[2]
            if m.n_in + k <= (MAXW_LARGE if LARGE[0] else MAXW) and m.n_out + k <= (MAXW_LARGE if LARGE[0] else MAXW):
                if k == 0:
                    return
                if k == 1:
                    g.add_wire()
                else:
                    g.add_n_wires(k)
                self.models[i] = m_wires(m, k)
                self.bump("wire")
        elif kind == "dup":
            # all wires of the graph, one or more times; or those of a new input duplicated into it
            n, k = (m.n_in, op[3]) if op[2] else (m.n_out, op[3])
            if op[2] and n % k:
                return
            n = n // k if op[2] else n
            if n * k > (MAXW_LARGE if LARGE[0] else MAXW):
                return
            t = duplicate_wire_task_gen(n, k)
            check(t.n_in_wires == n and t.n_out_wires == n * k, "duplicating %d wires %d times has %d and %d wires" % (n, k, t.n_in_wires, t.n_out_wires))
            (g.prepend if op[2] else g.append)(t)
            d = M(n, n * k, lambda xs: xs * k, [t.label])
            self.models[i] = (m_prepend if op[2] else m_append)(m, d, False)
            self.bump("duplicated")
        elif kind == "parallel":
            s = self._source(op[2], forbid=i)
            if s and m.n_in + s[1].n_in <= (MAXW_LARGE if LARGE[0] else MAXW) and m.n_out + s[1].n_out <= (MAXW_LARGE if LARGE[0] else MAXW):
                g.parallel(s[0])
                self.models[i] = m_parallel(m, s[1], s[2])
                self.bump("parallel")
        elif kind == "append":
            s = self._source(op[2], need_in=m.n_out, forbid=i)
            if s:
                g.append(s[0])
                self.models[i] = m_append(m, s[1], s[2])
                self.bump("append")
        elif kind == "prepend":
            s = self._source(op[2], need_out=m.n_in, forbid=i)
            if s:
                g.prepend(s[0])
                self.models[i] = m_prepend(m, s[1], s[2])
                self.bump("prepend")
        elif kind == "run":
            self.run(i, op[2])
            self.bump("run")
        elif kind == "fault":
            # a task that raises ends the run with its exception; later runs are as before
            labels = sorted(x for x in set(m.leaves()) if x[0] == "t")
            if labels:
                FAULT[0] = labels[op[2] % len(labels)]
                try:
                    g.run([("in", 77, k) for k in range(m.n_in)])
                except Fault as e:
                    check(str(e) == FAULT[0], "raised by %s instead of %s" % (e, FAULT[0]))
                else:
                    raise Violation("run returned although task %s raised" % FAULT[0])
                finally:
                    FAULT[0] = None
                self.run(i, 78)
                self.bump("fault")
        elif kind == "mismatch":
            pre, other, w, nested = op[2], op[3], op[4], op[5]
            need = m.n_in if pre else m.n_out
            if w == need:
                return
            label = "x%d" % self.ntask
            self.ntask += 1
            a, b = (other, w) if pre else (w, other)
            t = make_task(label, a, b)
            if nested:
                h = TaskGraph("H" + label)
                h.add_n_wires(a - 1)
                h.append(t)
                t = h
            before = len(g.tasks)
            try:
                (g.prepend if pre else g.append)(t)
            except Exception:
                pass
            else:
                raise Violation(
                    "%s of %d/%d wires to a graph of %d/%d wires was accepted"
                    % ("prepend" if pre else "append", a, b, m.n_in, m.n_out)
                )
            check(len(g.tasks) == before, "a refused composition added a task")
            self.run(i, 79)
            self.bump("mismatch")
        elif kind == "decompose":
            may_refuse = m.nested_through()
            try:
                g.decompose_TaskGraph_nodes()
            except ValueError as e:
                check(
                    may_refuse,
                    "flattening graph %d refused (%s) although no nested graph has an input wired straight to an output"
                    % (i, e),
                )
                self.refused += 1
                self.bump("refused")
                return
            if m.nested:
                self.bump("flattened")
            left = [t for t in g.tasks if isinstance(t, TaskGraph)]
            check(not left, "nested graphs %r remain after flattening" % (left,))
            want = sorted(m.leaves())
            self.models[i] = M(m.n_in, m.n_out, m.fn, want, ())
            check(
                len(g.tasks) == len(want),
                "flattened graph has %d tasks, %d expected" % (len(g.tasks), len(want)),
            )
        else:
            raise AssertionError(kind)
