"""C18: moving atoms and vectors between atoms."""

import copy
import itertools
import math

import numpy as np

from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all ordered sets of up to 3 atoms at 14 positions (inside, outside of the cell, negative, on its "
        "faces) and 30 larger ones (4 to 12 atoms) from each in 5 input forms; all sequences of 2 of the moving operations (15 of them: 6 gravity points x "
        "relative / Cartesian in 2 cells, cure_negative, ensure_000) on these; vectors and distances of all "
        "pairs with all cell indices from {-2, 0, 1} in 4 cells",
        thorough="sets of up to 3 atoms at 24 positions, sequences of 3 operations on sets of 2 atoms",
    ),
    assumptions=["positions of atoms of ensure_000 are stored in rows that can be changed"],
)

POS = [
    (0, 0, 0), (0.5, 0.5, 0.5), (0.1, 0.7, 0.25), (-0.25, 0.5, 0), (0.9, -0.3, -1.75), (1, 0, 1),
    (-1, -1, -1), (2.375, 1.25, -0.001), (0.999, 0, -3), (1.5, 1.5, 1.5), (-0.5, 1e-9, 0.3),
    (0.1, 0.2, -0.1), (5, -7, 0.125), (-2.5, 3.75, 1),
]  # fmt: skip
DEEP = POS + [
    (0.3, 0.3, 0.3), (-0.75, -0.25, -0.5), (0, -1e-9, 0), (1, 1, 1), (0.25, 0, 0), (0, 0, -0.25),
    (12.25, 0.5, -8), (-0.1, -0.1, 4), (3, 2, 1), (0.75, 0.75, -0.125),
]  # fmt: skip
CELLS = {
    "cubic": [[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]],
    "oblique": [[3.1, 0.2, -0.4], [1.5, 2.2, 0.1], [-0.3, 0.7, 4.5]],
    "left": [[0, 1.5, 0], [2.5, 0, 0], [0, 0, 3.5]],
    "hex": [[2.0, 0, 0], [-1.0, math.sqrt(3), 0], [0, 0, 5.0]],
}
FORMS = {
    "lists": lambda p: [[float(x) for x in r] for r in p],
    "mixed": lambda p: [list(r) for r in p],
    "array": lambda p: np.array(p, float),
    "rows": lambda p: [np.array(r, float) for r in p],
    "tuples": lambda p: tuple(tuple(r) for r in p),
}
POINTS = [(0.5, 0.5, 0.5), (0, 0, 0), (-1.25, 0.75, 2)]


def operations():
    ops = {"shift-default": ("shift", {})}
    for i, g in enumerate(POINTS):
        for form in (tuple, list, np.array):
            if (i + len(form.__name__)) % 2:
                ops[f"shift-{i}-{form.__name__}"] = ("shift", dict(gravity_point=form(g)))
        for cell in ("oblique", "left"):
            ops[f"shift-{i}-{cell}"] = (
                "shift",
                dict(gravity_point=(list, tuple)[i % 2](g), cell=CELLS[cell], gp_is_relative=False),
            )
    ops["shift-relative-with-cell"] = ("shift", dict(gravity_point=(0.1, 0.2, 0.3), cell=CELLS["hex"]))
    ops["cure"] = ("cure", {})
    ops["ensure"] = ("ensure", {})
    return ops


OPS = operations()


def jobs(tier):
    pos = POS if tier == "quick" else DEEP
    out = []
    for i in range(len(pos)):
        out.append(dict(kind="move", pos="POS" if tier == "quick" else "DEEP", first=i, depth=2, atoms=3))
        if tier == "thorough":
            out.append(dict(kind="move", pos="POS", first=i % len(POS), depth=3, atoms=2))
        out.append(dict(kind="vector", pos="POS" if tier == "quick" else "DEEP", first=i))
    out.append(dict(kind="reject"))
    return out


def apply(wulf, res, atoms, name):
    """One operation on ``atoms``; what it has to do is checked against the positions before it."""
    kind, kw = OPS[name]
    before = np.array(atoms["positions"], float)
    others = {k: copy.deepcopy(v) for k, v in atoms.items() if k != "positions"}
    kw_before = repr(kw)
    f = dict(
        shift=wulf.crystal.shift_atoms, cure=wulf.crystal.cure_negative, ensure=wulf.crystal.ensure_000
    )[kind]
    ret = f(atoms, **kw)
    res.traces += 1
    after = np.array(atoms["positions"], float)
    if after.shape != before.shape:
        return f"{name}: positions have shape {after.shape}"
    if repr(kw) != kw_before:
        return f"{name}: arguments were changed"
    if ret is not None:
        return f"{name}: returned {ret!r}"
    if set(atoms) != set(others) | {"positions"} or any(repr(atoms[k]) != repr(others[k]) for k in others):
        return f"{name}: other keys were changed: {atoms}"
    if kind == "ensure":
        d = after - before
        if np.abs(d - np.round(d)).max() > 1e-9:
            return f"{name}: atoms moved by a fraction of a lattice vector {d.tolist()}"
        if after.min() < 0 or after.max() > 1:
            return f"{name}: coordinates outside of [0, 1]: {after.tolist()}"
        return None
    shift = after - before
    if np.abs(shift - shift[0]).max() > 1e-9:
        return f"{name}: atoms are not moved by one common vector: {shift.tolist()}"
    if kind == "cure":
        if after.min() < -1e-12:
            return f"{name}: negative coordinates are left: {after.tolist()}"
        want = np.maximum(-before.min(axis=0), 0)
        if np.abs(shift[0] - want).max() > 1e-9:
            return f"{name}: moved by {shift[0]}, {want} is what removes the negative coordinates"
        return None
    point = np.array(kw.get("gravity_point", (0.5, 0.5, 0.5)), float)
    middle = (after.min(axis=0) + after.max(axis=0)) / 2
    if not kw.get("gp_is_relative", True):
        middle = middle @ np.array(kw["cell"], float)
    if np.abs(middle - point).max() > 1e-9:
        return f"{name}: the middle is {middle}, {point} was asked for"
    return None


def run_move(wulf, job, res):
    pos = POS if job["pos"] == "POS" else DEEP
    forms = list(FORMS)
    i = 0
    for n in range(1, job["atoms"] + 1):
        for rest in itertools.product(pos, repeat=n - 1):
            i += 1
            points = (pos[job["first"]], *rest)
            form = forms[i % 5]
            if n == 3 or job["depth"] > 2:
                starts = (form,)
            else:
                starts = forms
            for form in starts:
                walk(wulf, res, points, form, job["depth"] if n < 3 else 1, i)
            if n == 3 and i % 7 == 0:
                walk(wulf, res, points, form, 2, i)
    # more atoms: windows of the list of positions, with strides, and atoms at the same place
    for n in (4, 5, 6, 8, 12) if job["depth"] < 3 else ():
        for stride in (1, 3, 5):
            i += 1
            points = tuple(pos[(job["first"] + k * stride) % len(pos)] for k in range(n))
            walk(wulf, res, points, forms[i % 5], 1, i)
            walk(wulf, res, points[: n - 1] + points[:1], forms[i % 5], 1, i)
    res.sample(first=pos[job["first"]], form=form, last=points)


def fresh(points, form, i):
    n = len(points)
    atoms = dict(positions=FORMS[form](points))
    if i % 3 == 0:
        atoms["names"] = [f"A{k}" for k in range(n)]
    if i % 3 == 1:
        atoms.update(species=["Fe", "O", "Cr"][:n], moments=[[0, 0, k] for k in range(n)])
        atoms = dict(reversed(atoms.items()))
    return atoms


def walk(wulf, res, points, form, depth, i):
    """Every sequence of operations of the given length; prefixes are shared."""

    def go(prefix, atoms):
        res.states += 1
        if len(prefix) == depth:
            return
        for name in OPS:
            # rows that are tuples can not be changed in place
            if name == "ensure" and form == "tuples" and not prefix:
                continue
            nxt = copy.deepcopy(atoms)
            error = apply(wulf, res, nxt, name)
            res.transitions += 1
            if error:
                res.violation(
                    f"{points}/{form}/{'+'.join(prefix + (name,))}",
                    f"positions {points} as {form}, {' then '.join(prefix + (name,))}: {error}",
                )
                continue
            go(prefix + (name,), nxt)

    go((), fresh(points, form, i))


def run_vector(wulf, job, res):
    pos = POS if job["pos"] == "POS" else DEEP
    first = pos[job["first"]]
    forms = list(FORMS)
    i = 0
    for j, second in enumerate(pos):
        for cname, cell in CELLS.items():
            C = np.array(cell, float)
            for R in itertools.product((-2, 0, 1), repeat=3):
                i += 1
                form = forms[i % 5]
                points = (first, pos[(j + 3) % len(pos)], second)
                atoms = dict(positions=FORMS[form](points))
                given = cell if i % 2 else C.copy()
                RR = (tuple, list, np.array)[i % 3](R)
                before = repr((atoms, given, RR))
                rel = np.array(second, float) + np.array(R) - np.array(first, float)
                want = rel @ C
                kw = {} if R == (0, 0, 0) and i % 2 else dict(R=RR)
                v = wulf.crystal.get_vector(given, atoms, 0, 2, **kw)
                vr = wulf.crystal.get_vector(given, atoms, atom1=0, atom2=2, return_relative=True, **kw)
                d = wulf.crystal.get_distance(given, atoms, 0, 2, **kw)
                back = wulf.crystal.get_vector(given, atoms, 2, 0, tuple(-x for x in R))
                res.states += 1
                res.traces += 4
                ok = np.abs(np.asarray(v) - want).max() < 1e-9
                ok = ok and np.abs(np.asarray(vr) - rel).max() < 1e-9
                ok = ok and abs(d - math.sqrt(float(want @ want))) < 1e-9
                ok = ok and np.abs(np.asarray(back) + want).max() < 1e-9
                key = f"vector/{first}/{second}/{cname}/{R}"
                if not ok:
                    res.violation(
                        key,
                        f"vector from {first} to {second} in cell {R} of {cname}: {v} relative {vr} length {d}, "
                        f"back {back}, expected {want} relative {rel}",
                    )
                if repr((atoms, given, RR)) != before:
                    res.violation(key + "/input", "arguments were changed")
                # all ordered pairs, an atom with itself in another cell included
                if i % 9 == 0 or R == (0, 0, 0):
                    P = np.array(points, float)
                    for a, b in itertools.product(range(3), repeat=2):
                        want = (P[b] + np.array(R) - P[a]) @ C
                        t = wulf.crystal.get_vector(given, atoms, a, b, RR)
                        d = wulf.crystal.get_distance(cell=given, atoms=atoms, atom1=a, atom2=b, R=RR)
                        res.traces += 2
                        res.check(
                            np.abs(np.asarray(t) - want).max() < 1e-9
                            and abs(d - math.sqrt(float(want @ want))) < 1e-9,
                            f"{key}/{a}-{b}",
                            f"from atom {a} to atom {b} of {points}, cell {R} of {cname}: vector {t}, "
                            f"distance {d}, expected {want}",
                        )
            # all orders of the indices of the cell
            for R in ((0, 0, 3), (-1, 4, 0), (7, 0, 0)):
                P = np.array(points, float)
                for a, b in itertools.product(range(3), repeat=2):
                    want = (P[b] + np.array(R) - P[a]) @ C
                    d = wulf.crystal.get_distance(cell, atoms, a, b, R)
                    res.traces += 1
                    res.check(
                        abs(d - math.sqrt(float(want @ want))) < 1e-9,
                        f"distance/{first}/{second}/{cname}/{R}/{a}-{b}",
                        f"distance of atoms {a} and {b} of {points}, cell {R} of {cname}: {d}",
                    )


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "move":
        run_move(wulf, job, res)
    elif job["kind"] == "vector":
        run_vector(wulf, job, res)
    else:
        atoms = dict(positions=[[0.1, 0.2, 0.3]])
        try:
            wulf.crystal.shift_atoms(atoms, gravity_point=(1, 1, 1), gp_is_relative=False)
            res.violation("shift/no-cell", "a Cartesian point without a cell is accepted")
        except ValueError:
            res.count("rejected")
        res.states += 1
        res.check(atoms == dict(positions=[[0.1, 0.2, 0.3]]), "shift/no-cell/atoms", "atoms were changed")
    return res
