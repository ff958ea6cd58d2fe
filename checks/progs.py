"""Circuits with measurements, conditionals, barriers, boxes, groups and permutations."""

from hypothesis import strategies as st
from lib import gen
from pytket import Bit, Circuit
from pytket.circuit import CircBox


def prog_st(
    max_n=5,
    max_ops=14,
    ones=gen.ONE_CLIFF,
    twos=gen.TWO_CLIFF,
    rots=("Rz", "Rx"),
    nonclif=True,
    classical=True,
    boxes=True,
    naming=gen.NAMES,
    min_n=1,
    min_ops=1,
):
    def mk(n):
        pair = st.permutations(range(n)).map(lambda p: list(p[:2]))
        one = st.integers(0, n - 1)
        opts = [st.tuples(st.just("g"), gen.gate(n, ones=ones, twos=twos))] * 4
        if nonclif:
            opts.append(
                st.tuples(
                    st.just("g"),
                    gen.gate(n, ones=["T", "Tdg"], twos=(), rots=rots, tworots=["ZZPhase", "CRz"]),
                )
            )
            opts.append(st.tuples(st.just("g"), gen.gate(n, ones=["T"], twos=(), rots=["Rz"], ang=gen.cliff_angle)))
            ang = st.one_of(gen.cliff_angle, st.sampled_from([0.5, 0.25, 0.3, 1.7]))
            opts.append(st.tuples(st.just("g"), st.tuples(st.just("PhasedX"), one.map(lambda i: [i]), st.tuples(ang, ang).map(list)).map(list)))
        opts.append(st.tuples(st.just("bar"), st.lists(one, min_size=1, max_size=n, unique=True), st.sampled_from(["", "some data"])))
        if classical:
            opts.append(st.tuples(st.just("meas"), one, st.integers(0, 2)))
            opts.append(
                st.tuples(
                    st.just("cond"),
                    st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True),
                    st.integers(0, 3),
                    gen.gate(n, ones=["X", "H", "T"], twos=["CX"]),
                )
            )
            opts.append(st.tuples(st.just("reset"), one))
        if boxes:
            opts.append(st.tuples(st.just("box"), pair if n > 1 else st.just([0]), gen.gates(min(n, 2), 3, 1), st.booleans()))
        return st.fixed_dictionaries(
            {
                "n": st.just(n),
                "names": st.sampled_from(list(naming)),
                "ops": st.lists(st.one_of(opts), min_size=min_ops, max_size=max_ops),
                "swap": st.booleans(),
                "phase": st.sampled_from([0, 0, 0.25, 1.3]),
                "grp": st.integers(0, 3),
                "final": st.booleans() if classical else st.just(False),
            }
        )

    return st.integers(min_n, max_n).flatmap(mk)


def build(case, name=None):
    name = name or ("circuit" if case["names"] != "q" else None)
    c = Circuit(name=name) if name else Circuit()
    qs = gen.qubits_of(case["n"], case["names"])
    for q in qs:
        c.add_qubit(q)
    kinds = set()
    bits = [Bit("mb", 2), Bit("ma", 0), Bit("mb", 10)]
    used = case["final"] or any(o[0] in ("meas", "cond") for o in case["ops"])
    if used:
        for b in bits:
            c.add_bit(b)
    for k, o in enumerate(case["ops"]):
        kinds.add(o[0])
        if o[0] == "g":
            g = o[1]
            par = g[2] if len(g) > 2 else []
            kw = {"opgroup": "grp%d" % (len(g[1]))} if case["grp"] and k % (case["grp"] + 1) == 0 else {}
            c.add_gate(gen._OT[g[0]], list(par), [qs[i] for i in g[1]], **kw)
        elif o[0] == "bar":
            c.add_barrier([qs[i] for i in o[1]], data=o[2])
        elif o[0] == "meas":
            c.Measure(qs[o[1]], bits[o[2]])
        elif o[0] == "cond":
            g = o[3]
            c.add_gate(
                gen._OT[g[0]],
                [],
                [qs[i] for i in g[1]],
                condition_bits=[bits[i] for i in o[1]],
                condition_value=o[2] % (2 ** len(o[1])),
            )
        elif o[0] == "reset":
            c.Reset(qs[o[1]])
        elif o[0] == "box":
            b = Circuit(len(o[1]))
            for g in o[2]:
                gen.add(b, g, b.qubits)
            if o[3]:
                b.replace_SWAPs()
            c.add_circbox(CircBox(b), [qs[i] for i in o[1]])
    if case["swap"]:
        c.replace_SWAPs()
    c.add_phase(case["phase"])
    if case["final"]:
        for q, b in zip(qs, bits):
            c.Measure(q, b)
    return c, qs, kinds


def prog_twin(d, how, k):
    """a circuit that is much like another, most often with the same commands"""
    d = dict(d)
    ops = [list(o) for o in d["ops"]]
    i = k % len(ops) if ops else 0
    if how == "idle":
        d["n"] += 1
    elif how == "impl" and d["n"] > 1 and not d["swap"]:
        ops.append(["g", ["SWAP", [0, 1], []]])
        d["swap"] = True
    elif how == "phase":
        d["phase"] += 0.5
    elif how == "drop" and len(ops) > 1:
        ops = ops[:i] + ops[i + 1 :]
    elif how == "gate":
        ops = ops[:i] + [["g", ["X", [k % d["n"]], []]]] + ops[i:]
    elif how == "names":
        d["names"] = "named" if d["names"] == "q" else "q"
    elif how == "value":
        # another angle, condition or bit
        for j in range(len(ops)):
            o = ops[(i + j) % len(ops)]
            if o[0] == "cond":
                o[2] = (o[2] + 1) % 2 ** len(o[1])
                break
            if o[0] == "meas":
                o[2] = (o[2] + 1) % 3
                break
            if o[0] == "g" and len(o[1]) > 2 and o[1][2]:
                o[1] = [o[1][0], o[1][1], [o[1][2][0] + 0.5] + list(o[1][2][1:])]
                break
    d["ops"] = ops
    return d


def with_twins(lists):
    """lists of circuits; in one of four, circuits follow which are much like the first"""
    hows = ["idle", "impl", "impl", "phase", "drop", "gate", "names", "value", "value"]
    return st.tuples(lists, st.integers(0, 3), st.lists(st.tuples(st.sampled_from(hows), st.integers(0, 20)), min_size=1, max_size=3)).map(
        lambda t: t[0][:1] + [prog_twin(t[0][0], h, k) for h, k in t[2]] + t[0][1:] if t[1] == 0 and t[0] else t[0]
    )
