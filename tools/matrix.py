#!/usr/bin/env python
"""matrix.py [--tests] [id ...]: run the quick check of its property on a copy with each planted bug of /verif/seeded
applied; with --tests also the stable tests and the demonstration."""
import json, os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plant

def main():
    ids = [a for a in sys.argv[1:] if a != "--tests"] or sorted(os.listdir(f"{HERE}/seeded"))
    for i in ids:
        copy = f"/tmp/plant/m-{i}"
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, symlinks=True)
        meta = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
        r = plant.sh(["git", "apply", f"{HERE}/seeded/{i}/patch.diff"], copy)
        print(i, plant.check({"property": meta["property"]}, copy) if r.returncode == 0 else "DOES NOT APPLY", flush=True)
        if "--tests" in sys.argv and r.returncode == 0:
            demo = f"{HERE}/seeded/{i}/demo.sh"
            good = plant.sh(["bash", demo], "/repo", 300).returncode == 0
            bad = plant.sh(["bash", demo], copy, 300).returncode != 0
            failed = plant.tests(copy)
            print("   ", "valid" if good and bad and not failed else f"INVALID {good} {bad} {failed[:3]}", flush=True)
        shutil.rmtree(copy)

if __name__ == "__main__":
    main()
