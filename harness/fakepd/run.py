"""Runs the script several times in one interpreter: one run per line of the
file given, fields separated by tabs: the directory to work in and the arguments.
Writes a line "@status message" per run."""
import os, runpy, sys, traceback

script, jobs = sys.argv[1:3]
home = os.getcwd()
for l in open(jobs).read().splitlines():
    a = l.split("\t")
    os.chdir(os.path.join(home, a[0]))
    sys.argv = [script] + a[1:]
    rc, why = 0, ""
    try:
        runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else int(e.code is not None)
    except BaseException:
        rc, why = 1, traceback.format_exc().replace("\n", " / ")
    os.chdir(home)
    print("\n@%d %s" % (rc, why), flush=True)
