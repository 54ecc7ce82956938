"""C01: the conventional cell describes the same crystal."""

import numpy as np

from mc import cellcheck, zoo
from mc import crystals as cr
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all 530 Hall settings x every distinct compatible metric of the 48 base metrics (direct "
        "description, input form rotating) + every description reachable by 1 re-description operation "
        "from one metric of each setting + depth 2 from the one-atom Bravais lattices + crystals of every setting "
        "with atoms 1e-3 to 0.2 Angstrom from each other, x 3 conventions",
        thorough="as quick with 96 base metrics, depth 1 from four metrics per setting, depth 2 for one "
        "setting per space group and depth 3 for the Bravais lattices",
    ),
    assumptions=[
        "spglib's database of symmetry operations is correct (it makes the crystals)",
        "cells of a few Angstrom, default spglib tolerances unless stated",
    ],
)

GETTER = "get_conventional"


def jobs(tier):
    out = []
    halls = list(range(1, 531))
    for part in zoo.split(halls, 64):
        out.append(dict(kind="direct", halls=part, level=2 if tier == "quick" else 3))
    for part in zoo.split(halls, 64):
        out.append(dict(kind="walk", halls=part, level=0 if tier == "quick" else 1, depth=1))
    for part in zoo.split(halls, 24):
        out.append(dict(kind="close", halls=part, deep=tier != "quick"))
    n = 14
    for i in range(n):
        out.append(dict(kind="bravais", index=i, depth=2 if tier == "quick" else 3))
    if tier == "thorough":
        from mc.crystals import standard_halls

        for part in zoo.split(standard_halls().values(), 115):
            out.append(dict(kind="walk", halls=part, level=0, depth=2))
    return out


# distances between atoms: all are far above the tolerance of symmetry (1e-5), and far below a bond
DISTANCES = (1e-3, 4e-3, 2e-2, 0.2)


def close_atoms(hall, deep):
    """Crystals in which every atom has another one, of another or of the same kind, very close."""
    rots, trans = cr.db_operations(hall)
    out = []
    for G in zoo.grams(hall, 0):
        cell = cr.symmetrised_cell(rots, G)
        x = cr.GENERIC_SITES[0][0]
        for k, d in enumerate(DISTANCES):
            if not deep and k % 2 != hall % 2:
                continue
            u = np.array([0.6, -0.48, 0.64]) * d
            y = x + u @ np.linalg.inv(cell)
            for same in (False, True):
                a, b = cr.orbit(rots, trans, x), cr.orbit(rots, trans, y)
                third = cr.orbit(rots, trans, cr.GENERIC_SITES[1][0])
                types = [1] * len(a) + [1 if same else 2] * len(b) + [3] * len(third)
                label = f"hall{hall}/close{d}{'same' if same else ''}"
                out.append((d, zoo.Crystal(cell, np.concatenate([a, b, third]), types, label)))
    return out


def visit(wulf, res, c, trace, form, case, letter, getter=GETTER, conventions=None, **tolerance):
    tolerance.setdefault("tol", 3e-7)
    atoms = zoo.with_keys(c, form)
    key = f"{c.label}/{'+'.join(trace) or 'direct'}/{form}"
    types_map = cellcheck.expected_types(wulf, atoms, c, res, key, c.label)
    if types_map is None:
        return
    npts = cellcheck.n_points(c)
    vol = abs(np.linalg.det(c.cell)) / npts
    for conv in conventions or zoo.CONVENTIONS:
        name = getattr(conv, case)() if case else conv
        out_cell, out_atoms = getattr(wulf.crystal, getter)(c.cell, atoms, convention=name)
        detail = dict(convention=name, trace=list(trace), form=form, **c.describe())
        ok = cellcheck.check_returned(
            wulf, res, f"{key}/{conv}", f"{getter} {conv} {c.label} {'+'.join(trace)}",
            c, atoms, types_map, out_cell, out_atoms, detail, **tolerance,
        )  # fmt: skip
        res.traces += 1
        if not ok:
            continue
        got = abs(np.linalg.det(out_cell)) / vol
        want = 1 if getter == "get_primitive" else cellcheck.conv_points(letter, conv)
        if getter == "get_primitive" and conv == "spglib":
            want = 1
        res.check(
            abs(got - want) < 1e-6,
            f"{key}/{conv}/points",
            f"{getter} {conv} {c.label}: {got:.4f} lattice points in the cell, expected {want}",
            **detail,
        )
        res.see("conventions", conv)
    res.see("forms", form)
    res.see("centring", letter)
    for op in trace:
        res.see("operations", op)


def run(job, getter=GETTER):
    import wulfric as wulf

    res = Result()
    entries = zoo.entries()
    cases = ("upper", "lower", None, "title")
    if job["kind"] == "direct":
        for hall in job["halls"]:
            for i, c in enumerate(zoo.crystals(hall, job["level"])):
                k = i + hall
                res.states += 1
                visit(
                    wulf, res, c, (), zoo.FORMS[k % len(zoo.FORMS)], cases[k % 4],
                    entries[hall][3], getter,
                )  # fmt: skip
    elif job["kind"] == "walk":
        for hall in job["halls"]:
            for c0 in zoo.crystals(hall, job["level"]):
                states, tr = zoo.reachable(c0, job["depth"], zoo.ops(max_atoms=200))
                res.transitions += tr
                for i, (trace, c) in enumerate(states):
                    res.states += 1
                    form = zoo.FORMS[(i + hall) % len(zoo.FORMS)]
                    visit(wulf, res, c, trace, form, None, entries[hall][3], getter)
    elif job["kind"] == "close":
        for hall in job["halls"]:
            for i, (d, c) in enumerate(close_atoms(hall, job["deep"])):
                res.states += 1
                visit(wulf, res, c, (), zoo.FORMS[(i + hall) % len(zoo.FORMS)], None, entries[hall][3], getter, tol=d / 20)
            res.count("settings with close atoms")
    else:
        cs = zoo.bravais_crystals(1)
        names = list(zoo.BRAVAIS_SG)
        bl = names[job["index"]]
        for c0 in [c for c in cs if c.label.startswith(bl + "/")]:
            states, tr = zoo.reachable(c0, job["depth"], zoo.ops(max_atoms=40))
            res.transitions += tr
            for i, (trace, c) in enumerate(states):
                res.states += 1
                visit(wulf, res, c, trace, zoo.FORMS[i % len(zoo.FORMS)], None, bl[1], getter)
    if res.states:
        res.sample(job=dict(job), states=res.states)
    return res


def final(tier, labels, counters, r):
    r.check(
        labels.get("centring", set()) >= set("PACIFR"), "coverage", "not every centring was reached"
    )
    r.check(
        labels.get("forms", set()) >= set(zoo.FORMS), "coverage", "not every input form was reached"
    )
    r.check(
        labels.get("operations", set()) >= set(zoo.ops()),
        "coverage",
        "not every re-description operation was taken",
    )
