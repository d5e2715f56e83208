"""The command line tools of /repo/scripts, run in this process."""
import contextlib
import gc
import io
import os
import runpy
import sys

DIR = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "scripts")


def run(name, argv):
    """What it printed; SystemExit of a refused command line is passed on."""
    save, out = sys.argv, io.StringIO()
    sys.argv = [name] + list(argv)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(DIR, name), run_name="__main__")
    finally:
        sys.argv = save
        gc.collect()        # closes the files it left open, as the end of its process would
    return out.getvalue()
