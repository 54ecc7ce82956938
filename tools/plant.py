#!/usr/bin/env python
"""plant.py SPECS.py [id ...]: make planted bugs from specs, keep them in /verif/seeded.

SPECS.py defines BUGS, a list of dicts: id, property, needs, what, edits = [(file, old, new)] with file under
src/wulfric and old occurring once, demo = text of demo.py (asserts; uses the installed wulfric on
PYTHONPATH). A bug is kept if every edited line is an original one, the demonstration passes on /repo and
fails with the bug, and the stable tests pass with the bug. Afterwards the property's quick check is run on
the copy (WULFRIC_REPO) and its verdict is written to /tmp/plant/results.txt.
"""

import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
BASE = "9b2c7e4"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/plant"
ENV = dict(
    os.environ,
    PYTHONDONTWRITEBYTECODE="1",
    OPENBLAS_NUM_THREADS="1",
    OMP_NUM_THREADS="1",
    CI="true",
    PYTHONHASHSEED="0",
)
DEMO_SH = """#!/bin/bash
# cwd: the repository. Exit 0: the behaviour is right.
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(args, cwd=None, timeout=900, **env):
    return subprocess.run(
        args, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout
    )


def tests(copy):
    rep = os.path.join(copy + "-reports")
    os.makedirs(rep, exist_ok=True)
    common = ["-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o",
              "junit_family=xunit2", "-o",
              "doctest_optionflags=ELLIPSIS IGNORE_EXCEPTION_DETAIL DONT_ACCEPT_TRUE_FOR_1"]
    pp = {"PYTHONPATH": os.path.join(copy, "src")}
    sh([PY, "-m", "pytest", *common, "-n", "4", "--doctest-modules", f"--junitxml={rep}/unit.xml", "src/wulfric"],
       copy, **pp)
    sh([PY, "-m", "pytest", *common, "--doctest-glob=*.rst", "--ignore-glob=*.py", f"--junitxml={rep}/docs.xml",
        "docs/source"], copy, **pp)
    sh([PY, "/opt/vp/results.py", f"{rep}/out.json", f"junit:{rep}/*.xml"])
    res = json.load(open(f"{rep}/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    shutil.rmtree(rep)
    return sorted(set(stable) - set(res["passed"]))


def original_lines(copy, diff):
    """Complaints about edited lines that are not of the original repository."""
    bad = []
    for hunk_file in re.findall(r"^--- a/(.*)$", diff, re.M):
        blame = sh(["git", "blame", "-s", "HEAD", "--", hunk_file], copy).stdout.splitlines()
        own = set(sh(["git", "log", "--format=%H", f"{BASE}..HEAD"], copy).stdout.split())
        part = diff.split(f"--- a/{hunk_file}\n")[1].split("diff --git")[0]
        n = None
        for line in part.splitlines():
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
            elif n is not None and line[:1] in (" ", "-"):
                if line[0] == "-" and any(o.startswith(blame[n - 1].split()[0].lstrip("^")) for o in own):
                    bad.append(f"{hunk_file}:{n}")
                n += 1
    if not re.search(r"^-(?!--)", diff, re.M):
        bad.append("no line changed, only added")
    return bad


def one(bug):
    copy = os.path.join(WORK, bug["id"])
    if os.path.isdir(copy):
        shutil.rmtree(copy)
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        for file, old, new in bug["edits"]:
            p = os.path.join(copy, "src", "wulfric", file)
            text = open(p).read()
            if text.count(old) != 1:
                return f"SPEC {file}: {text.count(old)} times: {old[:60]!r}"
            open(p, "w").write(text.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        bad = original_lines(copy, diff)
        if bad:
            return f"NOT ORIGINAL {bad}"
        out = os.path.join(copy + "-seed")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/demo.py", "w").write(bug["demo"].strip() + "\n")
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        clean = sh(["bash", f"{out}/demo.sh"], "/repo", 290)
        if clean.returncode != 0:
            return "DEMO FAILS ON CLEAN " + clean.stderr[-500:]
        broken = sh(["bash", f"{out}/demo.sh"], copy, 290)
        if broken.returncode == 0:
            return "DEMO PASSES WITH BUG"
        if "AssertionError" not in broken.stderr:
            print(bug["id"], "note: demo ends with", broken.stderr.strip().splitlines()[-1:], flush=True)
        failed = tests(copy)
        if failed:
            return f"TESTS FAIL {len(failed)} {failed[:4]}"
        if os.path.exists(f"{HERE}/seeded/{bug['id']}"):
            shutil.rmtree(f"{HERE}/seeded/{bug['id']}")
        shutil.copytree(out, f"{HERE}/seeded/{bug['id']}")
        dest = f"{HERE}/seeded/{bug['id']}"
        open(f"{dest}/patch.diff", "w").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(f"{dest}/meta.json", "w"), indent=1)
        shutil.rmtree(out)
        if "--no-check" in sys.argv:
            return "KEPT"
        return "KEPT " + check(bug, copy)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(copy + "-seed", ignore_errors=True)


def check(bug, copy):
    """Run the quick check of the property on the copy, from a copy of /verif."""
    v = copy + "-verif"
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    res = []
    for prop in [bug["property"], *bug.get("also", [])]:
        t = time.time()
        out = sh([PY, "-W", "ignore", "check.py", prop, "--tier", "quick"], v, 1000, WULFRIC_REPO=copy)
        lines = [x for x in out.stdout.splitlines() if x.startswith("VIOLATION")]
        first = ""
        for x in out.stdout.splitlines():
            if x.strip() and not x.startswith("VIOLATION"):
                first = x.strip()[:150]
        res.append(f"{prop}:{'CAUGHT' if out.returncode == 1 and lines else 'MISSED rc=' + str(out.returncode)}"
                   f" {time.time() - t:.0f}s {first}")
    shutil.rmtree(v)
    return " | ".join(res)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for bug in bugs:
        if only and bug["id"] not in only:
            continue
        res = one(bug)
        print(bug["id"], res, flush=True)
        with open(f"{WORK}/results.txt", "a") as f:
            f.write(f"{bug['id']} {res}\n")


if __name__ == "__main__":
    main()
