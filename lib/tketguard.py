"""pytket's frame randomisation aborts the process (assertion "slice is empty")
on some ordinary circuits, for instance CX(2,1) Rz(2) H(2) CX(0,2) CX(2,1).
It refuses others with "Cycle has a larger frame than Circuit has qubits".
That is a defect of pytket, not of the code under test: such circuits are out of
the domain of every check.  The guard tries each circuit in a forked child first
and skips the case if the child is ended by a signal."""

import os

from pytket.tailoring import PauliFrameRandomisation, UniversalFrameRandomisation

from .pbt import Skip

_seen = {}


def _aborts(orig, self, circuit):
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            orig(self, circuit, 1)
        except BaseException:
            pass
        os._exit(0)
    return os.WIFSIGNALED(os.waitpid(pid, 0)[1])


def install():
    for cls in (PauliFrameRandomisation, UniversalFrameRandomisation):
        if getattr(cls, "_guarded", False):
            continue
        orig = cls.sample_circuits

        def guarded(self, circuit, *a, _orig=orig, **k):
            if circuit.n_2qb_gates() > 2 and _aborts(_orig, self, circuit):
                raise Skip("pytket aborts when randomising this circuit")
            try:
                return _orig(self, circuit, *a, **k)
            except RuntimeError as e:
                if "Cycle has a larger frame" in str(e):
                    raise Skip("pytket cannot randomise this circuit")
                raise

        cls.sample_circuits = guarded
        cls._guarded = True
