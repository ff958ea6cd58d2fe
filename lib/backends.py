"""Recording / exact backends used as the environment of the code under test."""

from . import boot  # noqa: F401

import itertools
from collections import Counter

import numpy as np
from pytket import Bit, OpType
from pytket.backends import Backend, CircuitStatus, ResultHandle, StatusEnum
from pytket.backends.backendresult import BackendResult
from pytket.architecture import Architecture
from pytket.passes import (
    AutoRebase,
    CustomPass,
    DecomposeBoxes,
    DecomposeSwapsToCXs,
    NaivePlacementPass,
    RoutingPass,
    FlattenRelabelRegistersPass,
    FullPeepholeOptimise,
    RemoveRedundancies,
    SequencePass,
)
from pytket.utils.outcomearray import OutcomeArray

from . import refsim
from .pbt import check

GATESET = {OpType.CX, OpType.Rz, OpType.Rx, OpType.H, OpType.X, OpType.Measure}

LINE = Architecture([(i, i + 1) for i in range(7)])

_ids = itertools.count()


def result_from_dist(dist, bits, n_shots, as_shots=False):
    """BackendResult over `bits` whose counts are exactly apportioned."""
    counts = refsim.total_counts(dist, n_shots)
    return result_from_counts(counts, bits, as_shots)


def result_from_counts(counts, bits, as_shots=False):
    bits = list(bits)
    if as_shots:
        rows = [k for k in sorted(counts) for _ in range(counts[k])]
        arr = np.array(rows, dtype=int).reshape(len(rows), len(bits))
        return BackendResult(shots=OutcomeArray.from_readouts(arr), c_bits=bits)
    c = Counter(
        {OutcomeArray.from_readouts([list(k)]): int(v) for k, v in counts.items()}
    )
    return BackendResult(counts=c, c_bits=bits)


class RecordingBackend(Backend):
    """Executes circuits with the reference simulator; keeps every job it was given.

    noise(circuit, cmd) may give a Pauli mixture; dist_hook(circ, dist) may
    transform the exact distribution (e.g. readout noise).
    """

    _supports_shots = True
    _supports_counts = True
    _supports_contextual_optimisation = False
    _persistent_handles = False

    def __init__(
        self,
        noise=None,
        dist_hook=None,
        as_shots=False,
        compile_kind="plain",
        backend_info=None,
        c_bits_hook=None,
        strict=False,
    ):
        super().__init__()
        self.noise = noise
        self.dist_hook = dist_hook
        self.as_shots = as_shots
        self.compile_kind = compile_kind
        self.jobs = []  # (circuit copy, shots)
        self.calls = []  # number of circuits per process_circuits call
        self._results = {}
        self._info = backend_info
        self.c_bits_hook = c_bits_hook
        # refuse circuits which have not been compiled, as devices do
        self.strict = strict

    @property
    def backend_info(self):
        return self._info

    @property
    def required_predicates(self):
        return []

    def rebase_pass(self):
        return AutoRebase(GATESET)

    def default_compilation_pass(self, optimisation_level=1):
        seq = [DecomposeBoxes()]
        if self.compile_kind == "none":
            return SequencePass(seq)
        if self.compile_kind == "flatten":
            seq.append(FlattenRelabelRegistersPass("node"))
        if optimisation_level == 2:
            seq.append(FullPeepholeOptimise())
        seq.append(self.rebase_pass())
        if self.compile_kind == "routed":
            # a device whose qubits are connected in a line, with swaps where needed
            seq += [NaivePlacementPass(LINE), RoutingPass(LINE), DecomposeSwapsToCXs(LINE), self.rebase_pass()]
        if optimisation_level >= 1:
            seq.append(RemoveRedundancies())
        return SequencePass(seq)

    @property
    def _result_id_type(self):
        return (str,)

    def wrong(self, circ):
        """what keeps this device from running the circuit"""
        for cmd in circ.get_commands():
            op = cmd.op
            while op.type == OpType.Conditional:
                op = op.op
            if op.type not in GATESET | {OpType.Barrier, OpType.Reset}:
                return "%s is not a gate of the device" % op
            qs = cmd.qubits
            if self.compile_kind == "routed" and op.type == OpType.CX and abs(qs[0].index[0] - qs[1].index[0]) != 1:
                return "%s acts on qubits that are not connected" % cmd
        for q in circ.qubits:
            if self.compile_kind == "routed" and q not in LINE.nodes:
                return "%s is not a qubit of the device" % q
            if self.compile_kind == "flatten" and q.reg_name != "node":
                return "%s is not a qubit of the device" % q
        return None

    def dist(self, circ):
        nz = None
        if self.noise is not None:
            nz = lambda cmd: self.noise(circ, cmd)  # noqa: E731
        d = refsim.distribution(circ, noise=nz)
        if self.dist_hook is not None:
            d = self.dist_hook(circ, d)
        return d

    def process_circuits(self, circuits, n_shots=None, valid_check=True, **kwargs):
        circuits = list(circuits)
        shots = Backend._get_n_shots_as_list(n_shots, len(circuits), optional=False)
        self.calls.append(len(circuits))
        handles = []
        if self.strict:
            for i, c in enumerate(circuits):
                w = self.wrong(c)
                check(w is None, lambda: "circuit %d of a job is not compiled for the device: %s" % (i, w))
        for c, s in zip(circuits, shots):
            self.jobs.append((c.copy(), s))
            h = ResultHandle("job%08x" % (next(_ids) * 2654435761 % 2**32))  # in no order
            bits = list(c.bits)
            self._results[h] = result_from_dist(self.dist(c), bits, s, self.as_shots)
            handles.append(h)
        return handles

    def circuit_status(self, handle):
        return CircuitStatus(StatusEnum.COMPLETED)

    def get_result(self, handle, **kwargs):
        return self._results[handle]

    def get_results(self, handles, **kwargs):
        return [self._results[h] for h in handles]


__all__ = ["RecordingBackend", "CustomPass", "Bit"]
