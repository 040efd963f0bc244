#!/usr/bin/env python3
"""Development: turn bug specifications into /verif/seeded/<id>/ and test the checks on them.

tools/plant.py SPEC.py [ID...]   SPEC.py defines BUGS, a list of dicts with
id, property, edits [(file, old, new)], needs, what_it_breaks, demo (Python).
Every bug is confirmed in a scratch copy: it applies to lines of the original
repository, builds, the baseline's tests pass, the demonstration fails with it
and passes without it.  Then the property's check is run on the scratch copy.
tools/plant.py --recheck [ID...] runs only the checks, for the kept bugs;
--blame shows which change only lines of later commits; --table writes
the table in DESIGN.md.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys

REPO = pathlib.Path("/repo")
SEEDED = pathlib.Path("/verif/seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
DEMO_SH = """#!/bin/bash
# run in the repository's folder, after the build
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg \\
    exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch(name):
    d = pathlib.Path("/tmp/plant") / name
    if d.exists():
        shutil.rmtree(d)
    d.parent.mkdir(exist_ok=True)
    run(["cp", "-a", "/repo", str(d)], "/")
    return d


def build(d, pyx):
    if not pyx:
        return True
    for f in d.glob("tt_sketch/drm/fast_lazy_gaussian*"):
        if f.suffix in (".so", ".c"):
            f.unlink()
    rc, out = run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], d)
    if rc:
        print(out[-1500:])
    return rc == 0


def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(ENV, PYTHONHASHSEED="0", PYTHONPATH=str(d))
    rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8",
                   "--timeout=300", "--randomly-seed=1",
                   "--randomly-dont-reorganize", "tests"], d, env)
    tail = [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
    return rc == 0 or not tail, tail[:5] + out.splitlines()[-1:]


def demo(folder, d):
    return run(["bash", str(folder / "demo.sh")], d, timeout=300)


def check(d, prop):
    env = dict(os.environ, VERIF_REPO=str(d), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    rc, out = run([sys.executable, "/verif/run.py", prop], "/verif", env, 900)
    hit = [l for l in out.splitlines() if l.startswith(f"VIOLATION property={prop} ")]
    return rc == 1 and bool(hit), rc, out


BASE = "2538695"
RESULTS = pathlib.Path("/verif/tools/planted.json")


def original(folder):
    """Removed lines that come from the original repository, and all of them"""
    total = mine = 0
    name = None
    for line in (folder / "patch.diff").read_text().splitlines():
        if line.startswith("--- a/"):
            name = line[6:]
            blame = run(["git", "blame", "-s", "HEAD", "--", name], REPO)[1].splitlines()
        elif line.startswith("@@"):
            number = int(line.split()[1].split(",")[0][1:])
        elif name and line[:1] in ("-", " "):
            if line[0] == "-" and not line.startswith("---") and line[1:].strip():
                total += 1
                mine += not blame[number - 1].startswith("^" + BASE)
            number += 1
    return total - mine, total


def record(i, prop, caught):
    data = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
    old = data.get(i, {})
    first = old.get("first", "caught" if caught else "missed")
    data[i] = {"property": prop, "first": first, "now": "caught" if caught else "missed"}
    data = {k: v for k, v in data.items() if (SEEDED / k).exists() or k == i}
    RESULTS.write_text(json.dumps(data, indent=0, sort_keys=True) + "\n")


def table():
    data = json.loads(RESULTS.read_text())
    rows = ["", "| planted bug | what it needs | property's quick check |", "|---|---|---|"]
    for i, r in sorted(data.items()):
        if not (SEEDED / i).exists():
            continue
        needs = json.load(open(SEEDED / i / "meta.json"))["needs"].replace("|", "/")
        now = r["now"] + (" (missed at first)" if r["first"] == "missed" else "")
        rows.append(f"| {i} | {needs} | {r['property']}: {now} |")
    p = pathlib.Path("/verif/DESIGN.md")
    head, rest = p.read_text().split("<!-- planted -->")
    tail = rest.split("<!-- end -->")[1]
    p.write_text(head + "<!-- planted -->" + "\n".join(rows) + "\n<!-- end -->" + tail)


def main():
    if sys.argv[1] == "--table":
        return table()
    if sys.argv[1] == "--blame":
        for f in sorted(SEEDED.iterdir()):
            print(f.name, "%d of %d removed lines are original" % original(f))
        return
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir())
        for i in ids:
            f = SEEDED / i
            meta = json.load(open(f / "meta.json"))
            d = scratch(i)
            rc, out = run(["git", "apply", str(f / "patch.diff")], d)
            if rc:
                print(i, "DOES NOT APPLY", out); continue
            ok, rc, out = check(d, meta["property"])
            print(i, meta["property"], "caught" if ok else f"MISSED rc={rc}", flush=True)
            record(i, meta["property"], ok)
            shutil.rmtree(d)
        return
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = scratch(b["id"])
        bad = None
        for f, old, new in b["edits"]:
            p = d / f
            t = p.read_text()
            if t.count(old) != 1:
                bad = f"{f}: text found {t.count(old)} times: {old[:50]!r}"
                break
            p.write_text(t.replace(old, new))
        if bad:
            print(b["id"], "BAD SPEC", bad, flush=True); continue
        patch = run(["git", "diff"], d)[1]
        folder = pathlib.Path("/tmp/plant-out") / b["id"]
        folder.mkdir(parents=True, exist_ok=True)
        (folder / "patch.diff").write_text(patch)
        (folder / "demo.sh").write_text(DEMO_SH)
        (folder / "demo.py").write_text(b["demo"].lstrip("\n"))
        (folder / "meta.json").write_text(json.dumps(
            {k: b[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
        pyx = any(f.endswith(".pyx") for f, _, _ in b["edits"])
        if not build(d, pyx):
            print(b["id"], "BUILD FAILS", flush=True); continue
        rc0, out0 = demo(folder, REPO)
        rc1, out1 = demo(folder, d)
        if rc0 != 0 or rc1 == 0:
            print(b["id"], f"DEMO clean={rc0} patched={rc1}\n", out0[-800:], out1[-800:], flush=True)
            continue
        ok, tail = tests(d)
        if not ok:
            print(b["id"], "TESTS FAIL", tail, flush=True); continue
        ok, rc, out = check(d, b["property"])
        print(b["id"], b["property"], "caught" if ok else f"MISSED rc={rc}", "|", tail[-1], flush=True)
        if not ok:
            print("\n".join(out.splitlines()[-6:]), flush=True)
        dst = SEEDED / b["id"]
        if dst.exists():
            shutil.rmtree(dst)
        shutil.copytree(folder, dst)
        record(b["id"], b["property"], ok)
        shutil.rmtree(d)


main()
