#!/usr/bin/env python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current working tree. Exit 0: held on everything explored;
exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
"""

import os
import sys

# one BLAS thread per worker, no files written next to the sources of /repo, no user site
os.environ.update(
    OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"
)
sys.dont_write_bytecode = True
import warnings  # noqa: E402

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WULFRIC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))


def main():
    import importlib
    import shutil
    import tempfile
    import traceback

    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    try:
        import wulfric

        assert os.path.realpath(wulfric.__file__).startswith(os.path.realpath(REPO)), (
            wulfric.__file__
        )
        module = importlib.import_module(f"mc.props.{prop.lower()}")
        from mc import core

        # files of jobs that are stopped half-way go with it
        scratch = tempfile.mkdtemp(prefix="check-")
        tempfile.tempdir = os.environ["TMPDIR"] = scratch
        try:
            return core.run_check(prop, module, module.INFO, replay)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    except Exception:
        # an import error of the package, or of the machinery itself
        traceback.print_exc()
        path = os.path.join(HERE, "replay", f"{prop}-crash.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write('{"job": {}, "crash": true}\n')
        print(f"VIOLATION property={prop} replay={path}")
        return 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
