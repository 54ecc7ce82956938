"""C03: conventional and primitive cells follow the rules of the chosen convention."""

from math import pi

import numpy as np

from mc import model, zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all 530 Hall settings x every distinct compatible metric of 48 base metrics; every "
        "description reachable by 1 operation from one metric of each setting; near-boundary "
        "orthorhombic / monoclinic / triclinic metrics with every order of the lengths",
        thorough="96 base metrics, 1 operation from four metrics, 2 operations for one setting per "
        "space group",
    ),
    assumptions=["metrics have no accidental symmetry except where stated in the ladder part"],
)

# lengths squared / off-diagonal elements of ladders, with equal lengths included
LADDER_A2 = [9.0, 9.0009, 12.0, 12.0, 20.0, 20.002]


def jobs(tier):
    halls = list(range(1, 531))
    out = [dict(kind="direct", halls=p, level=2 if tier == "quick" else 3) for p in zoo.split(halls, 64)]
    out += [
        dict(kind="walk", halls=p, level=0 if tier == "quick" else 1, depth=1)
        for p in zoo.split(halls, 64)
    ]
    out += [dict(kind="ladder", index=i) for i in range(8)]
    if tier == "thorough":
        from mc.crystals import standard_halls

        for part in zoo.split(standard_halls().values(), 115):
            out.append(dict(kind="walk", halls=part, level=0, depth=2))
    return out


TOL = 1e-6


def right(x):
    return abs(x - pi / 2) < 2e-7


def lattice_rules(conv, lt, cell):
    """What is wrong with the conventional cell, or None. Independent of the atoms."""
    a, b, c, al, be, ga = model.params(cell)
    fam = lt[0]

    def eq(x, y):
        return abs(x - y) < TOL

    if np.linalg.det(cell) <= 0:
        return "not right-handed"
    if fam == "c":
        if not (eq(a, b) and eq(b, c) and right(al) and right(be) and right(ga)):
            return "cubic: a = b = c, right angles"
    elif fam == "t":
        if not (eq(a, b) and right(al) and right(be) and right(ga)):
            return "tetragonal: a = b, right angles"
    elif fam == "h":
        if conv == "SC" and lt == "hR":
            if not (eq(a, b) and eq(b, c) and abs(al - be) < 1e-6 and abs(be - ga) < 1e-6):
                return "rhombohedral (SC): a = b = c, alpha = beta = gamma"
            if not al < 2 * pi / 3 - 1e-6:
                return "rhombohedral (SC): alpha below 120 degrees"
        elif not (eq(a, b) and right(al) and right(be) and abs(ga - 2 * pi / 3) < 2e-5):
            return "hexagonal axes: a = b, gamma = 120"
    elif fam == "o":
        if not (right(al) and right(be) and right(ga)):
            return "orthorhombic: right angles"
        if conv == "SC":
            if lt in ("oC", "oA"):
                if not a <= b + 1e-6:
                    return "C-centred orthorhombic (SC): a <= b"
            elif not (a <= b + 1e-6 and b <= c + 1e-6):
                return "orthorhombic (SC): a <= b <= c"
    elif fam == "m":
        if conv == "SC":
            if not (right(be) and right(ga)):
                return "monoclinic (SC): beta = gamma = 90, alpha is the free angle"
            if not al < pi / 2 + 2e-6:
                return "monoclinic (SC): alpha < 90"
            if lt == "mP" and not b <= c + 1e-6:
                return "monoclinic (SC): b <= c"
        elif not (right(al) and right(ga)):
            return "monoclinic: alpha = gamma = 90, b is the unique axis"
    elif fam == "a" and conv != "spglib":
        k = model.params(model.reciprocal(cell))
        ka, kb, kg = k[3:]
        obtuse = min(ka, kb, kg) > pi / 2 - 2e-6
        acute = max(ka, kb, kg) < pi / 2 + 2e-6
        if not (obtuse or acute):
            return "triclinic: reciprocal angles are all acute or all obtuse"
        if conv == "SC":
            if obtuse and not acute and kg > min(ka, kb) + 1e-6:
                return "triclinic (SC): k_gamma is the smallest of the obtuse reciprocal angles"
            if acute and not obtuse and kg < max(ka, kb) - 1e-6:
                return "triclinic (SC): k_gamma is the largest of the acute reciprocal angles"
        else:
            r = model.reciprocal(cell)
            d = [abs(r[1] @ r[2]), abs(r[0] @ r[2]), abs(r[0] @ r[1])]
            if d[2] > min(d) * (1 + 1e-6) + 1e-9:
                return "triclinic (HPKOT): |k_a k_b cos(k_gamma)| is the smallest of the three"
            if not reduced(r):
                return "triclinic (HPKOT): the reciprocal cell is reduced"
    return None


def reduced(r):
    """The three vectors are the shortest possible basis (Minkowski-reduced up to order)."""
    r = np.asarray(r)
    n = sorted(float(v @ v) for v in r)
    grid = np.array([(i, j, k) for i in range(-2, 3) for j in range(-2, 3) for k in range(-2, 3)])
    vec = grid @ r
    len2 = (vec**2).sum(axis=1)
    order = np.argsort(len2, kind="stable")
    chosen = []
    for i in order:
        if len2[i] < 1e-12:
            continue
        m = np.array([grid[j] for j in chosen] + [grid[i]])
        if np.linalg.matrix_rank(m) == len(chosen) + 1:
            chosen.append(i)
        if len(chosen) == 3:
            break
    best = sorted(float(len2[i]) for i in chosen)
    return all(abs(x - y) < 1e-6 * max(1e-3, y) for x, y in zip(n, best))


def centring_of(conv, lt):
    """centring translations the conventional cell has to have"""
    c = lt[1]
    if conv == "SC" and lt == "oA":
        c = "C"
    if conv == "SC" and lt == "hR":
        c = "P"
    h = 0.5
    return {
        "P": [],
        "I": [(h, h, h)],
        "F": [(0, h, h), (h, 0, h), (h, h, 0)],
        "C": [(h, h, 0)],
        "A": [(0, h, h)],
        "R": [(2 / 3, 1 / 3, 1 / 3), (1 / 3, 2 / 3, 2 / 3)],
    }[c]


def visit(wulf, res, c, number, letter, key, deep=True):
    from mc.crystals import Lookup

    atoms = c.atoms()
    lt = model.lattice_type(number, letter)
    data = wulf.get_spglib_data(c.cell, atoms)
    for conv in zoo.CONVENTIONS:
        conv_cell, conv_atoms = wulf.crystal.get_conventional(
            c.cell, atoms, convention=zoo.spell(conv, key), **zoo.own(data, key)
        )
        res.traces += 1
        problem = lattice_rules(conv, lt, conv_cell)
        if problem:
            res.violation(
                f"{key}/{conv}/rules",
                f"{conv} conventional cell of {c.label} ({lt}): {problem}",
                conventional=conv_cell, parameters=model.params(conv_cell), **c.describe(),
            )  # fmt: skip
            continue
        look = Lookup(c.cell, c.pos, c.types, 1e-4)
        for v in centring_of(conv, lt):
            ok = look.all_present(c.pos @ c.cell + np.array(v) @ conv_cell, c.types)
            res.check(
                ok,
                f"{key}/{conv}/centring",
                f"{conv} conventional cell of {c.label} ({lt}): {v} is not a lattice translation",
                conventional=conv_cell,
            )
        if conv == "spglib":
            continue
        prim_cell, _ = wulf.crystal.get_primitive(c.cell, atoms, convention=zoo.spell(conv, key, 1), **zoo.own(data, key, 1))
        want = model.primitive_matrix(conv, lt).T @ conv_cell
        res.check(
            np.abs(prim_cell - want).max() < 1e-8,
            f"{key}/{conv}/matrix",
            f"{conv} primitive cell of {c.label} ({lt}) is not related to the conventional one by the "
            "published matrix",
            conventional=conv_cell, primitive=prim_cell,
        )  # fmt: skip
    res.see("lattice types", lt)


def ladder(index):
    """Small one-atom crystals whose lengths come in every order, with ties."""
    import itertools

    from mc import crystals as cr

    out = []
    first = cr.standard_halls()
    vals = sorted(set(LADDER_A2))
    if index < 4:
        lt = ("oP", "oC", "oI", "oF")[index]
        hall = first[zoo.BRAVAIS_SG[lt]]
        for d in itertools.product(vals, repeat=3):
            if abs(d[0] - d[1]) < 1e-6 or abs(d[1] - d[2]) < 1e-6 or abs(d[0] - d[2]) < 1e-6:
                continue
            out.append((hall, np.diag(d)))
    elif index == 4:
        for d in itertools.permutations(vals, 3):
            out.append((first[38], np.diag(d)))
    elif index in (5, 6):
        lt = ("mP", "mC")[index - 5]
        hall = first[zoo.BRAVAIS_SG[lt]]
        for d in itertools.permutations(vals, 3):
            for o in (-3.1, 2.3, 0.4):
                G = np.diag(d).astype(float)
                rots, _ = cr.db_operations(hall)
                full = G + o * (np.ones((3, 3)) - np.eye(3))
                out.append((hall, sum(R.T @ full @ R for R in rots) / len(rots)))
    else:
        for o in itertools.product((-2.7, -0.6, 0.9, 3.3), repeat=3):
            G = np.diag([9.0, 12.1, 20.3])
            G[0, 1] = G[1, 0] = o[0]
            G[0, 2] = G[2, 0] = o[1]
            G[1, 2] = G[2, 1] = o[2]
            if np.linalg.eigvalsh(G).min() > 0.5:
                out.append((2, G))
                out.append((1, G))
    return out


def run(job):
    import wulfric as wulf

    from mc import crystals as cr

    res = Result()
    entries = zoo.entries()
    if job["kind"] == "direct":
        for hall in job["halls"]:
            for c in zoo.crystals(hall, job["level"]):
                res.states += 1
                visit(wulf, res, c, entries[hall][0], entries[hall][3], c.label)
    elif job["kind"] == "walk":
        operations = zoo.ops(max_atoms=200)
        for hall in job["halls"]:
            for c0 in zoo.crystals(hall, job["level"]):
                states, tr = zoo.reachable(c0, job["depth"], operations)
                res.transitions += tr
                for trace, c in states[1:]:
                    res.states += 1
                    visit(
                        wulf, res, c, entries[hall][0], entries[hall][3],
                        f"{c.label}/{'+'.join(trace)}",
                    )  # fmt: skip
    else:
        for i, (hall, G) in enumerate(ladder(job["index"])):
            cell, pos, typ = cr.crystal_from_hall(hall, G)
            c = zoo.Crystal(cell, pos, typ, f"ladder{job['index']}/{i}")
            res.states += 1
            visit(wulf, res, c, entries[hall][0], entries[hall][3], c.label)
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    from mc.model import SC_NAMES

    r.check(
        labels.get("lattice types", set()) >= set(SC_NAMES), "coverage", "a lattice type was not reached"
    )
