"""Entry point: python -m vlib.main <property id>.  Runs checks/<id>.py's main(chk) and maps the outcome
to the exit code (0 held, 1 violated, 2 inconclusive)."""
import importlib
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)


def main():
    pid = sys.argv[1]
    from vlib.core import Check
    import titus
    where = os.path.dirname(os.path.abspath(titus.__file__))
    if where != os.path.join(os.path.abspath(REPO), "titus"):
        print("ERROR: titus imported from {0}, not {1}".format(where, REPO))
        sys.exit(2)
    chk = Check(pid)
    try:
        importlib.import_module("checks." + pid).main(chk)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if chk.new_violations():
            sys.exit(chk.finish())
        print("INCONCLUSIVE property={0} harness error".format(pid))
        sys.exit(2)
    sys.exit(chk.finish())


main()
