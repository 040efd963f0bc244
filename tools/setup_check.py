"""Setup: confirms that the installed interpreter and libraries are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
for path in (run.PYTHON, os.path.join(run.HYPOTHESIS, "hypothesis")):
    if not os.path.exists(path):
        sys.exit(f"missing: {path}")
subprocess.run([run.PYTHON, "-c", "import numpy, scipy, pandas, Cython"], check=True)
print("ok")
