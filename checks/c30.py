"""Drawings of task graphs, read back and evaluated."""

import re
import shutil
import subprocess
from html.parser import HTMLParser

from checks.tgmodel import identity, leaf, m_append, m_parallel, m_prepend, m_wires, make_task
from hypothesis import strategies as st
from lib.pbt import Part, check
from qermit.taskgraph import TaskGraph

PROPERTY = "C30"
RULE = (
    "A case is a program of graph-building calls over up to 4 graphs (with up to 6, in part wide up to 25 wires) with labels from a small set (so that tasks share labels), each drawn several times. A drawing is "
    "read back from its DOT source (nodes, shown text, ports, edges) and evaluated as a function of symbolic wires, which must be the function that the program built. "
    "Non-trivial: a drawing with at least two tasks of the same label or with a nested or flattened graph."
)
TECHNIQUE = "property-based testing (Hypothesis): model-based program generation, the drawing is parsed and evaluated against a functional reference model"


class _Cells(HTMLParser):
    """text outside and names of the cells with a port of an HTML-like label"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.ports, self.text = [], [], ""

    def handle_starttag(self, tag, attrs):
        port = {k.lower(): v for k, v in attrs}.get("port")
        self.stack.append((tag, port))
        if port is not None:
            self.ports.append(port)

    def handle_endtag(self, tag):
        while self.stack and self.stack.pop()[0] != tag:
            pass

    def handle_data(self, data):
        if not any(p is not None for _, p in self.stack):
            self.text += data.strip()


def _tokens(src):
    """tokens of DOT source: ids (quoted, plain or HTML) and punctuation"""
    out, i = [], 0
    while i < len(src):
        ch = src[i]
        if ch.isspace():
            i += 1
        elif ch == '"':
            j, s = i + 1, ""
            while src[j] != '"':
                if src[j] == "\\" and src[j + 1] == '"':
                    j += 1
                s += src[j]
                j += 1
            out.append(("id", s))
            i = j + 1
        elif ch == "<":
            d, j = 0, i
            while True:
                d += {"<": 1, ">": -1}.get(src[j], 0)
                j += 1
                if d == 0:
                    break
            out.append(("html", src[i + 1 : j - 1]))
            i = j
        elif src.startswith("->", i):
            out.append(("->", "->"))
            i += 2
        elif ch in "{}[]=;,:":
            out.append((ch, ch))
            i += 1
        elif src.startswith("//", i):
            i = src.index("\n", i)
        else:
            m = re.match(r"[^\s{}\[\]=;,:\"<>]+", src[i:])
            s = m.group(0)
            if "->" in s:
                s = s[: s.index("->")]
            out.append(("id", s))
            i += len(s)
    return out


def read(src):
    """nodes {id: (text, set of ports)} and edges [((id, port), (id, port))] of a drawing"""
    t = _tokens(src)
    nodes, edges, i = {}, [], t.index(("{", "{")) + 1
    strict = ("id", "strict") == t[0]

    def endpoint(i):
        name, port = t[i][1], None
        i += 1
        if t[i][0] == ":":
            port, i = t[i + 1][1], i + 2
        return (name, port), i

    while t[i][0] != "}":
        if t[i][0] == ";":
            i += 1
            continue
        a, i = endpoint(i)
        b = None
        if t[i][0] == "->":
            b, i = endpoint(i + 1)
        attrs = {}
        if t[i][0] == "=":
            i += 2
            continue
        if t[i][0] == "[":
            i += 1
            while t[i][0] != "]":
                if t[i][0] in ",;":
                    i += 1
                    continue
                attrs[t[i][1]] = t[i + 2]
                i += 3
            i += 1
        if b is not None:
            check(not (strict and any(x[0] == a[0] and y[0] == b[0] for x, y in edges)), lambda: "wires between the same tasks are drawn as one")
            edges.append((a, b))
        elif a[0] not in ("graph", "node", "edge"):
            kind, label = attrs.get("label", ("id", a[0]))
            cells = _Cells()
            if kind == "html":
                cells.feed(label)
            else:
                cells.text = label
            check(a[0] not in nodes, lambda: "node %r is drawn twice: tasks of the same label are drawn as one" % a[0])
            check(len(set(cells.ports)) == len(cells.ports), lambda: "node %r repeats a port" % a[0])
            nodes[a[0]] = (cells.text, set(cells.ports))
    return nodes, edges


def shown(s):
    """what a drawing has to show of a label"""
    return re.sub(r"[^A-Za-z0-9_.&]", "", s)


def number(port, what):
    check(port is not None and port.startswith(what), lambda: "edge at port %r" % (port,))
    return int(re.sub(r"[^0-9]", "", port))


def evaluate(src, n_in, n_out):
    nodes, edges = read(src)
    into = {}
    for (a, pa), (b, pb) in edges:
        check(a in nodes and b in nodes, lambda: "edge between %r and %r which are not drawn" % (a, b))
        check(pa in nodes[a][1] and pb in nodes[b][1], lambda: "edge %r:%r -> %r:%r at ports which are not drawn" % (a, pa, b, pb))
        k = (b, number(pb, "in"))
        check(k not in into, lambda: "two edges into port %d of %s" % (k[1], nodes[b][0]))
        into[k] = (a, number(pa, "out"))
    starts = [x for x in nodes if not any(b == x for b, _ in into)]
    ends = [x for x in nodes if not any(a == x for a, _ in into.values())]
    check(len(starts) == 1 and shown(nodes[starts[0]][0]).startswith("Input"), lambda: "nodes without inputs: %r" % [nodes[x][0] for x in starts])
    check(len(ends) == 1 and shown(nodes[ends[0]][0]).startswith("Output"), lambda: "nodes without outputs: %r" % [nodes[x][0] for x in ends])
    arity = {x: 0 for x in nodes}
    for b, p in into:
        arity[b] += 1
    used = {x: set() for x in nodes}
    for a, p in into.values():
        check(p not in used[a], lambda: "two edges from port %d of %s" % (p, nodes[a][0]))
        used[a].add(p)
    for x, (text, ports) in nodes.items():
        check(len(ports) == arity[x] + len(used[x]), lambda: "%s has ports %r, %d edges in and %d out" % (text, sorted(ports), arity[x], len(used[x])))
        check(sorted(p for b, p in into if b == x) == list(range(arity[x])), lambda: "ports of %s" % text)
    memo = {}

    def value(x, p):
        if x == starts[0]:
            return ("in", p)
        if x not in memo:
            memo[x] = tuple(value(*into[(x, k)]) for k in range(arity[x]))
        return (nodes[x][0], p, memo[x])

    check(arity[ends[0]] == n_out and len(used[starts[0]]) == n_in, "number of wires drawn")
    labels = sorted(shown(t) for x, (t, _) in nodes.items() if x not in (starts[0], ends[0]))
    return [value(*into[(ends[0], k)]) for k in range(n_out)], labels


def same(got, want, flat, memo):
    if want[0] == "in" and len(want) == 2:
        return got == want
    if len(got) != 3 or got[1] != want[1] or len(got[2]) != len(want[2]):
        return False
    a, b = shown(got[0]), shown(want[0])
    if not (a.endswith(b) if flat else a == b):
        return False
    # the inputs of a task are shared by its outputs
    k = id(got[2]), id(want[2])
    if k not in memo:
        memo[k] = all(same(x, y, flat, memo) for x, y in zip(got[2], want[2]))
    return memo[k]


def brief(t, d=4):
    if t[0] == "in" and len(t) == 2:
        return "in%d" % t[1]
    return "%s[%d](%s)" % (t[0], t[1], ", ".join(brief(x, d - 1) for x in t[2]) if d else "...")


LABELS = ["Run", "Run", "Fold", "Merge & Fit", "A::B", "Comp:ile", 'Say "x"', "Inputs", "<Loop>", "Run2", "a.b", "x;y"]
_i = st.integers(0, 7)


def ops_st(labels, wide=False):
    lab = st.sampled_from(labels)
    arity = st.one_of(st.integers(1, 3), st.integers(9, 14)) if wide else st.integers(1, 3)
    src = st.one_of(
        st.tuples(st.just("new"), lab, arity),
        st.tuples(st.just("new"), lab, arity),
        st.tuples(st.just("graph"), _i, st.just(1)),
    )
    return st.lists(
        st.one_of(
            st.tuples(st.just("start"), lab),
            st.tuples(st.just("wire"), _i),
            st.tuples(st.just("append"), _i, src),
            st.tuples(st.just("append"), _i, src),
            st.tuples(st.just("prepend"), _i, src),
            st.tuples(st.just("parallel"), _i, src),
            st.tuples(st.just("parallel"), _i, src),
            st.tuples(st.just("copy"), _i),
            st.tuples(st.just("flatten"), _i),
            st.tuples(st.just("draw"), _i),
            st.tuples(st.just("run"), _i),
        ),
        min_size=1,
        max_size=12,
    )


class World:
    def __init__(self, most=6):
        self.most = most  # wires
        # graph, model in which a nested graph is a task of its own, completely flattened model, flattened?
        self.gs = [[TaskGraph("First"), identity(1), identity(1), False]]
        self.nontrivial, self.kinds = False, set()

    def draw(self, k):
        g, opaque, deep, flat = self.gs[k]
        m = deep if flat else opaque
        src = g.get_task_graph().source
        got, labels = evaluate(src, m.n_in, m.n_out)
        want = m([("in", i) for i in range(m.n_in)])
        names = [shown(t._label) for t in g.tasks]
        check(labels == sorted(names), lambda: "tasks %r are drawn as %r" % (sorted(names), labels))
        check(len(names) == len(m.nodes), lambda: "%d tasks drawn, %d added" % (len(names), len(m.nodes)))
        memo = {}
        for p, (a, b) in enumerate(zip(got, want)):
            check(same(a, b, flat, memo), lambda: "output %d is drawn as\n%.2000s\nbuilt as\n%.2000s" % (p, brief(a), brief(b)))
        check(g.get_task_graph().source == src, "drawing again gives another drawing")
        self.nontrivial |= len(set(names)) < len(names) or any(isinstance(t, TaskGraph) for t in g.tasks) or flat
        return src

    def step(self, op):
        kind = op[0]
        self.kinds.add(kind)
        if kind == "start":
            if len(self.gs) < 4:
                self.gs.append([TaskGraph(op[1]), identity(1), identity(1), False])
            return
        k = op[1] % len(self.gs)
        g, opaque, deep, flat = self.gs[k]
        if kind == "wire":
            if opaque.n_in < self.most - 1 and opaque.n_out < self.most - 1:
                g.add_wire()
                self.gs[k] = [g, m_wires(opaque, 1), m_wires(deep, 1), flat]
        elif kind in ("append", "prepend", "parallel"):
            what, arg, other = op[2]
            n_in, n_out = {"append": (opaque.n_out, other), "prepend": (other, opaque.n_in), "parallel": (other, other % 3 + 1)}[kind]
            if what == "new":
                part = make_task(arg, n_in, n_out)
                mo = md = leaf(arg, n_in, n_out)
            else:
                fit = [
                    x
                    for j, x in enumerate(self.gs)
                    if j != k and (kind == "parallel" or (kind == "append" and x[1].n_in == n_in) or (kind == "prepend" and x[1].n_out == n_out))
                ]
                if not fit:
                    return
                part, _, md, _ = fit[arg % len(fit)]
                if len(md.nodes) > 8 or not md.nodes:
                    return
                mo = leaf(part._label, md.n_in, md.n_out)
            if kind == "parallel" and (opaque.n_in + mo.n_in > self.most or opaque.n_out + mo.n_out > self.most):
                return
            f = {"append": m_append, "prepend": m_prepend, "parallel": m_parallel}[kind]
            getattr(g, kind)(part)
            # leaves of a nested graph are compared by the end of their label, exactly otherwise
            self.gs[k] = [g, f(opaque, mo, False), f(deep, md, False), flat]
            if flat and mo is not md:
                self.gs[k][3] = None
        elif kind == "copy":
            if len(self.gs) < 4:
                self.gs.append([TaskGraph().from_TaskGraph(g), opaque, deep, flat])
        elif kind == "flatten":
            try:
                g.decompose_TaskGraph_nodes()
            except ValueError:  # a nested graph with a wire straight through
                del self.gs[k]
                if not self.gs:
                    self.gs.append([TaskGraph("First"), identity(1), identity(1), False])
                return
            self.gs[k][3] = True
        elif kind == "draw" and flat is not None:
            self.draw(k)
        elif kind == "run":
            before = g.get_task_graph().source
            g.run([("in", i) for i in range(opaque.n_in)])
            check(g.get_task_graph().source == before, "a run changes the drawing")


def run_wide(case):
    return run(case, 25)


def run(case, most=6):
    w = World(most)
    for op in case:
        w.step(op)
    for k in range(len(w.gs)):
        if w.gs[k][3] is not None:
            w.draw(k)
    return {"nontrivial": w.nontrivial, "labels": sorted(w.kinds)}


DOT = shutil.which("dot")


def run_dot(case):
    """graphviz accepts the drawing without a complaint"""
    if DOT is None:
        return {"nontrivial": False, "labels": ["nodot"]}
    w = World()
    for op in case:
        w.step(op)
    for k in range(len(w.gs)):
        src = w.gs[k][0].get_task_graph().source
        r = subprocess.run([DOT, "-Tdot"], input=src, capture_output=True, text=True, timeout=60)
        check(r.returncode == 0 and not re.search(r"(?i)error|unrecognized|port", r.stderr), lambda: "graphviz: %s\n%s" % (r.stderr, src))
    return {"nontrivial": len(w.gs[0][1].nodes) > 1, "labels": sorted(w.kinds)}


PARTS = [
    Part("programs", ops_st(LABELS), run, quick=4000, thorough=100000),
    Part("wide", ops_st(LABELS, True), run_wide, quick=800, thorough=20000),
    Part("dot", ops_st(LABELS), run_dot, quick=160, thorough=2000),
]
