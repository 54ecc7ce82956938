"""C19: POSCAR files."""

import io
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="reading: all combinations of 6 scale-factor lines, 4 cells, 5 element/count lines, 4 forms of the "
        "selective dynamics, 8 mode lines, 3 tails and 3 number styles, sources rotating over 6 (path, directory, "
        "working directory, open file, in-memory stream, CRLF file); every line prefix of 1 in 16 of these files; "
        "writing and reading back: all sequences of up to 5 atoms of 3 species x 2 modes x 4 cells, 4 ways to "
        "name the atoms, 3 numbers of decimals, 7 comments, 3 targets",
        thorough="sequences of up to 7 atoms, every line prefix of every file",
    ),
    assumptions=["lines are not cut in the middle", "mode lines do not start with a space"],
)

CELLS = [
    [[3.0, 0, 0], [0, 4.0, 0], [0, 0, 5.0]],
    [[3.1, 0.2, -0.4], [-1.5, 2.2, 0.1], [0.3, 0.7, 4.5]],
    [[0, 1.5, 1.5], [1.5, 0, 1.5], [1.5, 1.5, 0.25]],
    [[0.4, 2.2, -0.3], [3.3, 0.1, 0.6], [-0.2, 0.5, 4.1]],  # left-handed
]
SCALES = ["1.0", "2.5", "-60.0", "1.0 2.0 0.5", "-7.25", "  3"]
COUNTS = [
    (None, (2,)), (("Fe",), (1,)), (("Fe", "O"), (1, 2)), (("O", "Cr", "O"), (1, 1, 2)), (None, (1, 1, 1)),
]  # fmt: skip
SELECTIVE = [None, "Selective dynamics", "s", "S flags"]
MODES = ["Direct", "direct", "d", "Cartesian", "cartesian", "C", "K", "kartesian coordinates"]
TAILS = ["", "\n", "\n0.1 0.2 0.3\n0.0 0.0 0.0\n"]
VALUES = [(0.1, 0.25, 0.7), (0, 0, 0), (-0.35, 1.2, 0.5), (0.9, -0.05, 2.25)]


def number(x, style):
    if style == 0:
        return f"{x:.10f}"
    if style == 1:
        return f"{x:+.8e}"
    return f"   {x:.9f}\t"


def make(scale, cell, counts, selective, mode, tail, style):
    """Text of the file and what it means by the definition of the format."""
    names, numbers = counts
    lines = ["  a comment: 1 2 3  ", scale]
    lines += [" ".join(number(x, style) for x in row) for row in cell]
    if names is not None:
        lines.append("  ".join(names))
    lines.append(" ".join(map(str, numbers)))
    if selective is not None:
        lines.append(selective)
    lines.append(mode)
    A = np.array(cell, float)
    s = np.array([float(x) for x in scale.split()])
    if len(s) == 1 and s[0] < 0:
        s = np.array([(-s[0] / abs(np.linalg.det(A))) ** (1.0 / 3.0)])
    A = A * s  # one factor, or one for each of x, y, z
    cart = mode[0].lower() in "ck"
    positions, labels = [], []
    for k, n in enumerate(numbers):
        for _ in range(n):
            v = VALUES[len(positions) % len(VALUES)]
            text = " ".join(number(x, style) for x in v)
            if selective is not None:
                text += (" T T F", " F F F")[len(positions) % 2]
            elif len(positions) % 2:
                text += " Fe7"
            lines.append(text)
            v = np.array(v, float)
            positions.append((v * s) @ np.linalg.inv(A) if cart else v)
            labels.append(f"X{k + 1}" if names is None else names[k])
    needed = len(lines)
    text = "\n".join(lines) + "\n" + tail
    return text, needed, A, np.array(positions), labels


def agree(out, A, positions, labels, comment="a comment: 1 2 3"):
    if not isinstance(out, tuple) or len(out) != 3:
        return f"returned {out!r}"
    cell, atoms, c = out
    cell = np.asarray(cell, float)
    if cell.shape != (3, 3) or np.abs(cell - A).max() > 1e-7:
        return f"cell {cell.tolist()}, expected {A.tolist()}"
    if list(atoms["names"]) != labels:
        return f"names {atoms['names']}, expected {labels}"
    pos = np.array(atoms["positions"], float).reshape(-1, 3)
    if pos.shape != positions.shape or np.abs(pos - positions).max() > 1e-6:
        return f"relative positions {pos.tolist()}, expected {positions.tolist()}"
    if c != comment:
        return f"comment {c!r}"
    return None


SOURCES = ("path", "directory", "cwd", "file", "stream", "crlf")


def load(wulf, source, text, scratch):
    f = wulf.io.load_poscar
    if source == "stream":
        return f(io.StringIO(text))
    folder = os.path.join(scratch, "folder")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "POSCAR" if source in ("directory", "cwd") else f"{source}.vasp")
    with open(path, "w", encoding="utf-8", newline="\r\n" if source == "crlf" else "\n") as out:
        out.write(text)
    try:
        if source == "directory":
            return f(folder)
        if source == "cwd":
            here = os.getcwd()
            os.chdir(folder)
            try:
                return f()
            finally:
                os.chdir(here)
        if source == "file":
            with open(path, encoding="utf-8") as opened:
                return f(opened)
        return f(path)
    finally:
        os.remove(path)


def combos():
    return itertools.product(range(len(CELLS)), COUNTS, SELECTIVE, MODES, TAILS, range(3))


def jobs(tier):
    out = []
    for s in range(len(SCALES)):
        for c in range(len(COUNTS)):
            out.append(dict(kind="load", scale=s, counts=c, cut=16 if tier == "quick" else 1))
    n = 5 if tier == "quick" else 7
    for alphabet, m in ((SPECIES, n), (SIMILAR, n - 1)):
        for first in alphabet:
            for second in (*alphabet, None):
                out.append(dict(kind="trip", alphabet=alphabet, first=first, second=second, length=m))
    out.append(dict(kind="reject"))
    return out


def run_load(wulf, job, res, scratch):
    i = 0
    scale, counts = SCALES[job["scale"]], COUNTS[job["counts"]]
    for c, sel, mode, tail, style in itertools.product(
        range(len(CELLS)), SELECTIVE, MODES, TAILS, range(3)
    ):
        i += 1
        text, needed, A, positions, labels = make(scale, CELLS[c], counts, sel, mode, tail, style)
        source = SOURCES[i % len(SOURCES)]
        key = f"load/{scale}/{c}/{counts}/{sel}/{mode}/{TAILS.index(tail)}/{style}/{source}"
        res.states += 1
        res.traces += 1
        try:
            out = load(wulf, source, text, scratch)
        except Exception as e:  # noqa: BLE001
            res.violation(key, f"reading fails with {type(e).__name__}: {e}", content=text)
            continue
        error = agree(out, A, positions, labels)
        if error:
            res.violation(key, f"read from {source}: {error}", content=text)
        res.see("sources", source)
        if i % job["cut"]:
            continue
        lines = text.splitlines(keepends=True)
        for n in range(len(lines)):
            res.transitions += 1
            res.traces += 1
            try:
                out = wulf.io.load_poscar(io.StringIO("".join(lines[:n])))
            except Exception:  # noqa: BLE001
                res.count("cut files rejected")
                res.check(n < needed, key + f"/cut{n}", "a file that lost optional lines is rejected", content=text)
                continue
            if n < needed:
                res.violation(
                    key + f"/cut{n}",
                    f"a file cut after line {n} of {needed} is read without an error: {out}",
                    content=text,
                )
            elif agree(out, A, positions, labels):
                res.violation(key + f"/cut{n}", f"optional lines matter: {agree(out, A, positions, labels)}")
            else:
                res.count("cut files read")
    res.sample(scale=scale, content=text)


# ------------------------------------------------------------------------------------------
SPECIES = ("Fe", "O", "Cr")
SIMILAR = ("Co", "C", "Cr", "Cl")  # the same first letter, one is the beginning of the others
OUT_CELLS = [
    CELLS[0],
    [[-3.123456789, 0.000123456, 12.5], [100.25, -250.5, 0.1], [0.3, 0.7, 1024.0625]],
    [[0, 2.0, 0], [3.0, 0, 0], [0, 0, 4.123456789012]],
    [[2.5, 0, 0], [-1.25, 2.165063509461, 0], [0, 0, 6.7]],
]
OUT_POS = [
    (0.1, 0.2, 0.3), (-0.123456789, 0.5, 12.75), (1 / 3, 2 / 3, 0.999999999), (0, 0, 0), (0.5, 0.25, -3.2),
    (0.7, 0.1, 0.45), (0.05, 0.95, 0.55),
]  # fmt: skip
COMMENTS = [None, "", "one two", "  padded  ", "two\nlines", "a\r\nb\rc", "ünï ⟨código⟩"]


def parse(text):
    """A reader written from the definition of the format."""
    lines = text.split("\n")
    scale = float(lines[1])
    cell = np.array([[float(x) for x in ln.split()] for ln in lines[2:5]])
    names, numbers = lines[5].split(), [int(x) for x in lines[6].split()]
    mode = lines[7][0].lower()
    rows = [[float(x) for x in ln.split()] for ln in lines[8 : 8 + sum(numbers)]]
    rest = "".join(lines[8 + sum(numbers) :]).strip()
    if scale != 1 or len(names) != len(numbers) or rest or cell.shape != (3, 3) or 0 in numbers:
        raise ValueError("not the format")
    labels = [a for a, n in zip(names, numbers) for _ in range(n)]
    rows = np.array(rows, float).reshape(-1, 3)
    if mode in "ck":
        rows = rows @ np.linalg.inv(cell)
    return lines[0], cell, labels, rows, len(names) == len(set(names))


def match(labels, rows, species, positions, cell, tol):
    """Both are the same list of typed points, in any order."""
    if sorted(labels) != sorted(species):
        return f"atoms are {labels}, expected those of {species}"
    left = list(range(len(species)))
    for name, r in zip(labels, rows):
        for k in left:
            if species[k] == name and np.abs((r - positions[k]) @ cell).max() < tol:
                left.remove(k)
                break
        else:
            return f"{name} at {r.tolist()} is not an atom that was written"
    return None


def named(species, i):
    n = len(species)
    how = i % 4
    if how == 0:
        return dict(species=list(species))
    if how == 1:
        return dict(names=[f"{s}{k + 1}" for k, s in enumerate(species)])
    if how == 2:
        # species are what counts, names say something else
        return dict(names=["Br1"] * n, species=list(species))
    return dict(names=[s.lower() for s in species], charges=[0.5] * n)


def run_trip(wulf, job, res, scratch):
    i = 0
    heads = [(job["first"],)] if job["second"] is None else None
    if heads is None:
        heads = [
            (job["first"], job["second"], *rest)
            for n in range(job["length"] - 1)
            for rest in itertools.product(job["alphabet"], repeat=n)
        ]
    for species in heads:
        for c, cell in enumerate(OUT_CELLS):
            for mode in ("Direct", "Cartesian", None):
                i += 1
                n = len(species)
                positions = np.array([OUT_POS[(i + k) % len(OUT_POS)] for k in range(n)], float)
                given = (positions.tolist(), positions.copy(), [p.copy() for p in positions])[i % 3]
                atoms = dict(positions=given, **named(species, i))
                decimals = (None, 3, 12)[(i // 3) % 3]
                comment = COMMENTS[(i // 2) % len(COMMENTS)]
                kw = {}
                if mode is not None:
                    kw["mode"] = mode
                if decimals is not None:
                    kw["decimals"] = decimals
                if comment is not None:
                    kw["comment"] = comment
                before = repr((cell, atoms))
                target = ("stream", "path", "cwd")[(i // 5) % 3]
                cell_arg = cell if i % 2 else np.array(cell)
                key = f"trip/{','.join(species)}/{c}/{mode}/{i}"
                if target == "stream":
                    s = io.StringIO()
                    wulf.io.dump_poscar(cell_arg, atoms, s, **kw)
                    text = s.getvalue()
                elif target == "path":
                    path = os.path.join(scratch, "out.vasp")
                    wulf.io.dump_poscar(cell_arg, atoms, path, **kw)
                    text = open(path, encoding="utf-8").read()
                else:
                    here = os.getcwd()
                    os.chdir(scratch)
                    try:
                        wulf.io.dump_poscar(cell_arg, atoms, **kw)
                        text = open("POSCAR", encoding="utf-8").read()
                    finally:
                        os.chdir(here)
                res.states += 1
                res.traces += 2
                A = np.array(cell, float)
                unit = 10.0 ** -(8 if decimals is None else decimals)
                tol_cell = 0.51 * unit + 1e-9
                # rounding of the coordinates, and of the cell they are multiplied with
                size = np.abs(A).sum() if mode != "Cartesian" else 1
                big = np.abs(positions).max() * 3 + 1
                tol = unit * (size + big * 60) + 1e-6
                try:
                    first, cell_t, labels, rows, distinct = parse(text)
                except Exception as e:  # noqa: BLE001
                    res.violation(key, f"the written file is not a file of the format ({e})", content=text)
                    continue
                error = None
                if np.abs(cell_t - A).max() > tol_cell:
                    error = f"cell {cell_t.tolist()} was written for {cell}"
                if error is None and comment is not None:
                    want = comment.replace("\r\n", " ").replace("\n", " ").replace("\r", " ").split()
                    if first.split() != want:
                        error = f"comment {comment!r} was written as {first!r}"
                if error is None and not distinct:
                    error = f"atoms of one species are in several blocks: {labels}"
                error = error or match(labels, rows, list(species), positions, A, tol)
                if error is None:
                    cell_r, atoms_r, comment_r = wulf.io.load_poscar(io.StringIO(text))
                    if np.abs(np.asarray(cell_r) - A).max() > tol_cell:
                        error = f"cell {cell} is read back as {np.asarray(cell_r).tolist()}"
                    elif comment_r != first.strip():
                        error = f"comment {first!r} is read back as {comment_r!r}"
                    else:
                        error = match(
                            list(atoms_r["names"]), np.array(atoms_r["positions"], float), list(species),
                            positions, A, tol,
                        )  # fmt: skip
                if error:
                    res.violation(key, f"{error} ({kw}, {target})", content=text, species=species)
                if repr((cell, atoms)) != before:
                    res.violation(key + "/input", "writing changed the given cell or atoms")
                res.see("decimals", decimals)
                res.see("modes", mode)
                res.see("targets", target)
    res.sample(species=species, content=text)


def run_reject(wulf, res, scratch):
    for scale in ("1 2", "1 2 3 4", "1 -1 1", "-1 -1 -1", "1 0 1", "", "a"):
        text = make("1.0", CELLS[0], COUNTS[1], None, "Direct", "", 0)[0].replace("\n1.0\n", f"\n{scale}\n", 1)
        res.states += 1
        try:
            out = wulf.io.load_poscar(io.StringIO(text))
            res.violation(f"scale/{scale}", f"scale factors {scale!r} are accepted: {out}")
        except Exception:  # noqa: BLE001
            res.count("scale factors rejected")
    empty = os.path.join(scratch, "empty")
    os.makedirs(empty)
    here = os.getcwd()
    for source in (os.path.join(scratch, "nothing"), empty, None):
        os.chdir(empty)
        try:
            wulf.io.load_poscar(source)
            res.violation("missing", f"no file at {source!r}, something is read")
        except FileNotFoundError:
            res.count("missing files reported")
        finally:
            os.chdir(here)


def run(job):
    import wulfric as wulf

    res = Result()
    scratch = tempfile.mkdtemp(prefix="c19-")
    try:
        if job["kind"] == "load":
            run_load(wulf, job, res, scratch)
        elif job["kind"] == "trip":
            run_trip(wulf, job, res, scratch)
        else:
            run_reject(wulf, res, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def final(tier, labels, counters, r):
    r.check(labels.get("sources", set()) == set(SOURCES), "coverage", "a source was not reached")
    r.check(counters.get("cut files rejected", 0) > 100, "coverage", "too few cut files")
