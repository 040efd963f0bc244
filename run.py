#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--tier T] [--replay FILE]

Copies /repo's current sources into a scratch directory, builds the Cython
extension there (nothing in /repo is written), and runs vlib.main against that
copy with the interpreter that has the library's dependencies.
"""
import argparse
import os
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
DEPS = (
    "hypothesis",
    "sortedcontainers",
    "attr",
    "attrs",
    "_hypothesis_globals.py",
    "_hypothesis_ftz_detector.py",
    "_hypothesis_pytestplugin.py",
)


def build(scratch):
    """Copy the sources to ``scratch/src`` and build the extension there."""
    src = os.path.join(scratch, "src")
    os.mkdir(src)
    ignore = shutil.ignore_patterns(
        "*.so", "*.c", "*.html", "__pycache__", "build", "*.egg-info"
    )
    for name in ("tt_sketch", "scripts"):
        shutil.copytree(
            os.path.join(REPO, name), os.path.join(src, name), ignore=ignore
        )
    for name in ("setup.py", "pyproject.toml", "setup.cfg", "README.md"):
        path = os.path.join(REPO, name)
        if os.path.isfile(path):
            shutil.copy(path, src)
    env = dict(os.environ, HOME=scratch, TMPDIR=scratch)
    env.pop("PYTHONPATH", None)
    proc = subprocess.run(
        [PYTHON, "setup.py", "build_ext", "--inplace"],
        cwd=src,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if proc.returncode != 0:
        sys.stderr.write(proc.stdout[-4000:])
        sys.stderr.write("\nbuild of /repo's sources failed\n")
        return None
    deps = os.path.join(scratch, "deps")
    os.mkdir(deps)
    for name in DEPS:
        if os.path.exists(os.path.join(HYPOTHESIS, name)):
            os.symlink(os.path.join(HYPOTHESIS, name), os.path.join(deps, name))
    return src, deps


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument(
        "--tier", default=os.environ.get("VERIF_TIER") or "quick"
    )
    parser.add_argument("--replay")
    parser.add_argument("--only", help="run only this sub-check (development)")
    parser.add_argument("--scale", help="multiply case counts (development)")
    parser.add_argument("--jobs", default="8")
    args = parser.parse_args()

    scratch = tempfile.mkdtemp(prefix="ttv-")
    child = None

    def stop(signum, frame):
        if child is not None:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(3)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        built = build(scratch)
        if built is None:
            return 2
        src, deps = built
        env = dict(os.environ)
        env.update(
            PYTHONPATH=os.pathsep.join([src, deps, VERIF]),
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            MKL_NUM_THREADS="1",
            MPLBACKEND="Agg",
            MPLCONFIGDIR=scratch,
            HOME=scratch,
            TMPDIR=scratch,
            VERIF_SCRATCH=scratch,
            VERIF_SRC=src,
            VERIF_DIR=VERIF,
            VERIF_TIER=args.tier,
        )
        cmd = [PYTHON, "-m", "vlib.main", args.property, "--jobs", args.jobs]
        for opt in ("replay", "only", "scale"):
            value = getattr(args, opt)
            if value:
                if opt == "replay":
                    value = os.path.abspath(value)
                cmd += ["--" + opt, value]
        child = subprocess.Popen(cmd, cwd=scratch, env=env, process_group=0)
        code = child.wait()
        return code if code >= 0 else 2
    finally:
        if child is not None:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
