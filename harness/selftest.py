"""setup_cmd: the tools the checks need are there and work (nothing is left behind)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc
d = tempfile.mkdtemp(prefix="xv-setup-")
try:
    t = tlc.Tlc(d)
    r = t.model("FixTest", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Sane\n")
    print("TLC and Fix work: %d states" % r["states"])
finally:
    shutil.rmtree(d, ignore_errors=True)
