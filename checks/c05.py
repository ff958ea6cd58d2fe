"""Shot splitting."""

import hashlib
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from lib.gen import some
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket import Bit, Circuit
from pytket.backends.backendresult import BackendResult
from pytket.utils.outcomearray import OutcomeArray
from qermit import CircuitShots
from qermit.taskgraph import gen_compiled_shot_split_MitRes, gen_shot_split_MitRes

PROPERTY = "C05"
RULE = (
    "A case is 0-5 circuits (1-3, sometimes 4-14 bits, several registers, also bits reported in an arbitrary order) with 1-70 shots each and a limit of 1-25 shots per job, "
    "run through the plain or compiling shot-splitting MitRes on a backend that returns a different shot table for every job and records all jobs. "
    "A few cases have 10-45 circuits or a hundred times the shots. Non-trivial: some circuit needs more than one job."
)


class TableBackend(RecordingBackend):
    """Every job gets its own pseudo-random shot table, kept in self.tables."""

    def __init__(self, salt, perm, as_counts):
        super().__init__(compile_kind="none")
        self.salt, self.perm, self.as_counts = salt, perm, as_counts
        self.tables = []  # (circuit name, shots, bits, rows)

    def process_circuits(self, circuits, n_shots=None, valid_check=True, **kw):
        from pytket.backends import Backend, ResultHandle

        shots = Backend._get_n_shots_as_list(n_shots, len(circuits), optional=False)
        self.calls.append(len(circuits))
        hs = []
        for c, s in zip(circuits, shots):
            j = len(self.tables)
            bits = list(c.bits)
            if self.perm:
                bits = bits[::-1] if self.perm == 1 else bits[1:] + bits[:1]
            rows = []
            for r in range(s):
                d = hashlib.sha256(b"%d|%d|%d" % (self.salt, j, r)).digest()
                rows.append([d[k] & 1 for k in range(len(bits))])
            arr = np.array(rows, dtype=int).reshape(s, len(bits))
            self.tables.append((c.name, s, bits, rows))
            self.jobs.append((c.copy(), s))
            h = ResultHandle("t%d" % (j * 7919 % 100003))  # in no order
            if self.as_counts:
                cnt = Counter(tuple(r) for r in rows)
                self._results[h] = BackendResult(
                    counts=Counter({OutcomeArray.from_readouts([k]): v for k, v in cnt.items()}), c_bits=bits
                )
            else:
                self._results[h] = BackendResult(
                    shots=OutcomeArray.from_readouts(arr), c_bits=bits
                )
            hs.append(h)
        return hs


case_st = st.fixed_dictionaries(
    {
        "circs": some(
            st.tuples(
                # bits; a few circuits have many
                st.one_of(*[st.integers(1, 3)] * 4, st.integers(4, 14)),
                st.sampled_from(["c", "ab", "ba", "gap"]),  # register layout
                st.one_of(st.integers(1, 70), st.integers(1, 12)),
            ),
            5,
            top=45,
        ),
        # shots and limit are multiplied with it
        "scale": st.integers(0, 24).map(lambda k: 101 if k == 1 else 1),
        "max": st.one_of(st.integers(1, 25), st.integers(1, 8)),
        "match": st.booleans(),
        "perm": st.sampled_from([0, 0, 1, 2]),
        "salt": st.integers(0, 10**6),
        "compiled": st.booleans(),
        "counts": st.booleans(),
    }
)


def build(i, nb, layout):
    c = Circuit(1, name="circ%d" % i)
    bits = []
    for k in range(nb):
        reg = {"c": "c", "gap": "c", "ab": "ab"[k % 2], "ba": "ba"[k % 2]}[layout]
        b = Bit(reg, [10, 2, 11, 0, 9, 1, 100, 3, 20, 4, 12, 5, 30, 6][k] if layout == "gap" else k)
        c.add_bit(b)
        bits.append(b)
    c.H(0)
    for b in bits:
        c.Measure(c.qubits[0], b)
    return c


def run(case):
    k = case.get("scale", 1)
    mx = case["max"] * k + (k > 1)
    cs = []
    for i, (nb, lay, sh) in enumerate(case["circs"]):
        sh *= k
        if case["match"] and i % 2 == 0:
            sh = mx * max(1, min(4, sh // max(1, mx)))  # exact multiples
        cs.append(CircuitShots(build(i, nb, lay), sh))
    before = [(c.Circuit.copy(), c.Shots) for c in cs]
    be = TableBackend(case["salt"], case["perm"], case.get("counts", False))
    gen = gen_compiled_shot_split_MitRes if case["compiled"] else gen_shot_split_MitRes
    mr = gen(be, mx)
    res = mr.run(list(cs))
    check(len(res) == len(cs), "%d results for %d circuits" % (len(res), len(cs)))
    check(
        [(c.Circuit, c.Shots) for c in cs] == before, "the caller's circuits were changed"
    )
    per = {c.Circuit.name: [] for c in cs}
    for name, s, bits, rows in be.tables:
        check(1 <= s <= mx, "a job of %d shots was submitted, limit is %d" % (s, mx))
        per[name].append((bits, rows))
    split = 0
    for c, r in zip(cs, res):
        tabs = per[c.Circuit.name]
        n = sum(len(rows) for _, rows in tabs)
        check(
            n == c.Shots,
            "%d shots requested for %s, %d run" % (c.Shots, c.Circuit.name, n),
        )
        split += len(tabs) > 1
        cb = list(c.Circuit.bits)
        want = Counter()
        for bits, rows in tabs:
            for row in rows:
                v = dict(zip(bits, row))
                want[tuple(v[b] for b in cb)] += 1
        check(
            set(r.c_bits) == set(cb), "bits of the merged result are %r" % (r.c_bits,)
        )
        got = Counter({k: v for k, v in r.get_counts(cb).items()})
        check(
            got == want,
            "merged counts %r over bits %r differ from the union of the jobs' outcomes %r"
            % (dict(got), cb, dict(want)),
        )
    return {
        "nontrivial": split > 0,
        "labels": ["split%d" % min(split, 3), "perm%d" % case["perm"], "counts" if case.get("counts") else "shots"]
        + (["exact_limit"] if any(c.Shots == mx for c in cs) else [])
        + (["empty"] if not cs else []),
    }


PARTS = [Part("runs", case_st, run, quick=4000, thorough=60000, shards=8)]
