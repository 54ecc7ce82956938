"""C20: a rejected request to write a file leaves an existing file as it was."""

import io
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="every one of 31 faults of the arguments and every pair and triple of them that touches different arguments, "
        "in both modes, against 4 initial contents (absent, empty, shorter, longer) and 4 kinds of target (path, "
        "default name in the working directory, open file, stream); every history of up to 4 dumps out of 4 "
        "good and 8 bad ones",
        thorough="every four faults, every history of up to 5 dumps",
    ),
    assumptions=["the file system does not fail", "comments can be encoded"],
)

CELL = [[3.0, 0.1, 0], [0, 4.0, 0.2], [0.3, 0, 5.0]]
BASE = dict(
    cell=CELL,
    positions=[[0.1, 0.2, 0.3], [0.4, 0.5, 0.6], [0.7, 0.8, 0.9]],
    names=["Fe1", "O1", "Fe2"],
    species=None,
    mode="Direct",
    decimals=8,
    comment="a comment",
)
MISSING = "missing"
# fault -> what it changes
FAULTS = {
    **{f"mode-{m!r}": dict(mode=m) for m in ("direct", "D", "", "CARTESIAN", "Direct ", None, 1)},
    "name-first": dict(names=["??", "O1", "Fe2"]),
    "name-last": dict(names=["Fe1", "O1", "123"]),
    "names-short": dict(names=["Fe1", "O1"]),
    "names-empty": dict(names=[]),
    "names-missing": dict(names=MISSING),
    "names-number": dict(names=["Fe1", "O1", 3]),
    "species-short": dict(names=MISSING, species=["Fe", "O"]),
    "species-mixed": dict(names=MISSING, species=["Fe", "O", 3]),
    "positions-missing": dict(positions=MISSING),
    "positions-none": dict(positions=None),
    "positions-two": dict(positions=[[0.1, 0.2, 0.3], [0.4, 0.5, 0.6], [0.7, 0.8]]),
    "positions-two-first": dict(positions=[[0.1, 0.2], [0.4, 0.5, 0.6], [0.7, 0.8, 0.4]]),
    "positions-text": dict(positions=[[0.1, 0.2, 0.3], [0.4, 0.5, "x"], [0.7, 0.8, 0.9]]),
    "cell-ragged": dict(cell=[[3.0, 0, 0], [0, 4.0], [0, 0, 5.0]]),
    "cell-short": dict(cell=[[3.0, 0, 0], [0, 4.0, 0]]),
    "cell-narrow": dict(cell=[[3.0, 0], [0, 4.0], [0, 5.0]]),
    "cell-text": dict(cell=[[3.0, 0, 0], [0, "four", 0], [0, 0, 5.0]]),
    "cell-none": dict(cell=None),
    "cell-flat": dict(cell=[3.0, 4.0, 5.0]),
    "decimals-text": dict(decimals="eight"),
    "decimals-negative": dict(decimals=-20),
    "decimals-none": dict(decimals=None),
    "decimals-float": dict(decimals=2.5),
    "comment-number": dict(comment=17),
}
GOOD = {
    "good": {},
    "good-cartesian": dict(mode="Cartesian", comment="another"),
    "good-short": dict(names=["Fe"], positions=[[0.5, 0.5, 0.5]], decimals=2, comment=""),
    "good-species": dict(names=MISSING, species=["O", "Cr", "O"], decimals=12, comment="x" * 400),
}
BAD_IN_HISTORIES = (
    "mode-'direct'", "name-last", "names-short", "positions-two", "positions-text", "cell-narrow",
    "decimals-text", "comment-number",
)  # fmt: skip
CONTENT = {"absent": None, "empty": "", "short": "x\n", "long": "line of the old file\n" * 200}
TARGETS = ("path", "cwd", "file", "stream")


def jobs(tier):
    out = []
    names = list(FAULTS)
    for i in range(len(names)):
        out.append(dict(kind="faults", first=i, n=3 if tier == "quick" else 4))
    for first in list(GOOD) + list(BAD_IN_HISTORIES):
        out.append(dict(kind="history", first=first, depth=4 if tier == "quick" else 5))
    return out


def arguments(changes):
    a = {**BASE, **changes}
    atoms = {
        k: (list(a[k]) if isinstance(a[k], list) else a[k])
        for k in ("names", "species", "positions")
        if a[k] is not MISSING and not (k == "species" and a[k] is None)
    }
    cell = a["cell"]
    return cell, atoms, {k: a[k] for k in ("mode", "decimals", "comment")}


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, content):
    if os.path.exists(path):
        os.remove(path)
    if content is not None:
        with open(path, "w", encoding="utf-8") as f:
            f.write(content)


def dump(wulf, target, folder, changes):
    """(error or None); the file is folder/POSCAR. Traceback references are dropped before reading."""
    cell, atoms, kw = arguments(changes)
    path = os.path.join(folder, "POSCAR")
    here = os.getcwd()
    opened = None
    error = None
    try:
        os.chdir(folder)
        if target == "path":
            wulf.io.dump_poscar(cell, atoms, path, **kw)
        elif target == "cwd":
            wulf.io.dump_poscar(cell, atoms, **kw)
        else:
            opened = open(path, "a", encoding="utf-8")
            wulf.io.dump_poscar(cell, atoms, opened, **kw)
    except Exception as e:  # noqa: BLE001
        error = type(e).__name__
    finally:
        os.chdir(here)
        if opened is not None:
            opened.close()
    return error


def good_text(wulf, changes):
    cell, atoms, kw = arguments(changes)
    s = io.StringIO()
    wulf.io.dump_poscar(cell, atoms, s, **kw)
    return s.getvalue()


def run_faults(wulf, job, res, folder):
    names = list(FAULTS)
    path = os.path.join(folder, "POSCAR")
    combos = [(job["first"],)]
    for n in range(2, job["n"] + 1):
        combos += [
            (job["first"], *rest) for rest in itertools.combinations(range(job["first"] + 1, len(names)), n - 1)
        ]
    i = 0
    for combo in combos:
        keys = [set(FAULTS[names[k]]) for k in combo]
        if any(a & b for a, b in itertools.combinations(keys, 2)):
            continue
        changes = {}
        for k in combo:
            changes.update(FAULTS[names[k]])
        label = "+".join(names[k] for k in combo)
        cases = list(itertools.product(CONTENT, TARGETS, (False, True)))
        if len(combo) > 1:
            i += 1
            cases = [c for k, c in enumerate(cases) if k % 8 == i % 8]
        for content, target, cartesian in cases:
            ch = dict(changes)
            if "mode" not in ch and cartesian:
                ch["mode"] = "Cartesian"
            elif cartesian:
                continue
            res.states += 1
            res.transitions += 1
            res.traces += 1
            if target == "stream":
                s = io.StringIO("before")
                s.seek(0, 2)
                cell, atoms, kw = arguments(ch)
                error = None
                try:
                    wulf.io.dump_poscar(cell, atoms, s, **kw)
                except Exception as e:  # noqa: BLE001
                    error = type(e).__name__
                before, after = "before", s.getvalue()
            else:
                before = CONTENT[content]
                write(path, before)
                error = dump(wulf, target, folder, ch)
                after = read(path)
                if target == "file" and before is None:
                    before = ""
            key = f"{label}/{content}/{target}/{ch.get('mode', 'Direct')}"
            if error is None:
                res.violation(key, f"a dump with {label} is accepted, the file holds {after[:200]!r}")
            elif before != after:
                res.violation(
                    key,
                    f"a dump with {label} fails with {error}, but the file ({content}, {target}) changed to "
                    f"{None if after is None else after[:200]!r}",
                )
            left = sorted(os.listdir(folder))
            res.check(
                left in ([], ["POSCAR"]), key + "/left", f"a failed dump left files behind: {left}"
            )
            res.see("errors", error)
    res.sample(faults=label, error=error)


def run_history(wulf, job, res, folder):
    path = os.path.join(folder, "POSCAR")
    ops = {**GOOD, **{b: FAULTS[b] for b in BAD_IN_HISTORIES}}
    texts = {g: good_text(wulf, GOOD[g]) for g in GOOD}
    i = 0
    for n in range(job["depth"]):
        for rest in itertools.product(ops, repeat=n):
            trace = (job["first"], *rest)
            i += 1
            content = list(CONTENT)[i % 4]
            target = TARGETS[i % 2]
            write(path, CONTENT[content])
            model = CONTENT[content]
            res.states += 1
            for op in trace:
                error = dump(wulf, target, folder, ops[op])
                res.transitions += 1
                if op in texts:
                    model = texts[op]
                after = read(path)
                if (error is None) != (op in texts) or after != model:
                    res.violation(
                        f"history/{content}/{'+'.join(trace)}",
                        f"dumps {' then '.join(trace)} over a file that was {content}: after {op} (error {error}) "
                        f"the file is {None if after is None else after[:120]!r}, expected {None if model is None else model[:120]!r}",
                    )
                    break
                model = after
            res.traces += 1
    # the stream that is given gets the text at its position, once
    s = io.StringIO("old ")
    s.seek(0, 2)
    for g in GOOD:
        cell, atoms, kw = arguments(GOOD[g])
        wulf.io.dump_poscar(cell, atoms, s, **kw)
    res.check(s.getvalue() == "old " + "".join(texts.values()), "stream", "dumps to one stream do not follow")
    # what was written is what was asked for
    for g in GOOD:
        cell, atoms, kw = arguments(GOOD[g])
        c, a, comment = wulf.io.load_poscar(io.StringIO(texts[g]))
        ok = np.abs(c - np.array(cell)).max() < 1e-2 and len(a["names"]) == len(atoms["positions"])
        res.check(ok and comment == kw["comment"].strip(), f"good/{g}", f"{g}: {texts[g]!r}")


def run(job):
    import wulfric as wulf
    import warnings

    warnings.simplefilter("ignore")
    res = Result()
    folder = tempfile.mkdtemp(prefix="c20-")
    try:
        (run_faults if job["kind"] == "faults" else run_history)(wulf, job, res, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return res
