"""run.py <ID> [quick|thorough] | run.py <ID> --replay FILE | run.py <ID> quick --only part"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import boot  # noqa: E402,F401
from lib import pbt  # noqa: E402


def _main():
    if sys.argv[1] == "--setup":
        import hypothesis
        import qermit

        print("hypothesis", hypothesis.__version__, "qermit", list(qermit.__path__)[0])
        return 0
    pid = sys.argv[1].lower()
    mod = "checks." + pid
    if "--replay" in sys.argv:
        import importlib

        return pbt.replay(
            importlib.import_module(mod), sys.argv[sys.argv.index("--replay") + 1]
        )
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
    return pbt.main(mod, tier, only)


if __name__ == "__main__":
    try:
        rc = _main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    import atexit

    atexit._run_exitfuncs()
    sys.stdout.flush()
    os._exit(rc)
