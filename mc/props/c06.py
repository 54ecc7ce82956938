"""C06: high-symmetry points and recommended path are those of the published convention."""

import itertools

import numpy as np

from mc import model, tables, zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all 530 Hall settings x every distinct compatible metric of 48 base metrics x 2 conventions; "
        "1-operation re-descriptions of one metric of each setting",
        thorough="96 base metrics, 1-operation re-descriptions of four metrics of each setting, 2-operation "
        "ones for one setting per space group",
    ),
    assumptions=[
        "published tables are transcribed in mc/tables.py; every transcribed point is itself checked to lie "
        "on the boundary of the first Brillouin zone of every explored lattice",
    ],
)

# As published, these points lie outside of the first Brillouin zone (equivalent to one inside)
OUTSIDE_AS_PUBLISHED = {("SC", "MCLC1"): {"F3"}, ("SC", "MCLC2"): {"F3"}, ("SC", "TRI1b"): {"N"}, ("SC", "TRI2b"): {"N"}}  # fmt: skip


def jobs(tier):
    halls = list(range(1, 531))
    out = [dict(kind="direct", halls=p, level=2 if tier == "quick" else 3) for p in zoo.split(halls, 64)]
    out += [
        dict(kind="walk", halls=p, level=0 if tier == "quick" else 1, depth=1)
        for p in zoo.split(halls, 64)
    ]
    if tier == "thorough":
        from mc.crystals import standard_halls

        for part in zoo.split(standard_halls().values(), 115):
            out.append(dict(kind="walk", halls=part, level=0, depth=2))
    return out


GRID = np.array(list(itertools.product(range(-3, 4), repeat=3)))


def lll(B):
    """Shortest-vector reduction of a reciprocal cell: pairwise until nothing gets shorter."""
    B = np.array(B, float)
    small = np.array([g for g in itertools.product((-1, 0, 1), repeat=3) if any(g)])
    changed = True
    n = 0
    while changed and n < 200:
        changed = False
        n += 1
        for i in range(3):
            for g in small:
                if abs(g[i]) != 1:
                    continue
                v = g @ B
                if v @ v < B[i] @ B[i] * (1 - 1e-9):
                    B[i] = v
                    changed = True
    return B


def zone_status(lattice_points, k):
    """(distance by which k is outside of the zone, number of closest reciprocal lattice points)"""
    d = np.linalg.norm(lattice_points - k, axis=1)
    m = d.min()
    return np.linalg.norm(k) - m, int((d < m + 1e-5).sum())


def visit(wulf, res, c, number, letter, key):
    atoms = c.atoms()
    lt = model.lattice_type(number, letter)
    data = wulf.get_spglib_data(c.cell, atoms)
    for conv in ("HPKOT", "SC"):
        conv_cell, _ = wulf.crystal.get_conventional(
            c.cell, atoms, convention=zoo.spell(conv, key, 1), **zoo.own(data, key, 1)
        )
        prim_cell, _ = wulf.crystal.get_primitive(c.cell, atoms, convention=zoo.spell(conv, key), **zoo.own(data, key))
        symbol = (
            model.hpkot_symbol(number, lt, conv_cell)
            if conv == "HPKOT"
            else model.sc_variation(lt, conv_cell)
        )
        if symbol is None or symbol.startswith("neither"):
            res.count("on a boundary between symbols")
            continue
        path, pts = wulf.kpoints.get_path_and_points(
            c.cell, atoms, convention=zoo.spell(conv, key, 2), relative=False, **zoo.own(data, key + conv)
        )
        res.traces += 1
        where = f"{conv} {symbol} {c.label}"
        want_path = model.path(conv, symbol)
        res.check(
            path == want_path,
            f"{key}/{conv}/path",
            f"{where}: path {path!r}, published {want_path!r}",
            **c.describe(),
        )
        want = model.points(conv, lt, symbol, conv_cell)
        if set(pts) != set(want):
            res.violation(
                f"{key}/{conv}/names",
                f"{where}: points {sorted(pts)}, published {sorted(want)}",
                **c.describe(),
            )
            continue
        rprim = model.reciprocal(prim_cell)
        for n in want:
            k = want[n] @ rprim
            if np.abs(np.asarray(pts[n]) - k).max() > 1e-6:
                res.violation(
                    f"{key}/{conv}/point/{n}",
                    f"{where}: point {n} at {np.asarray(pts[n])}, published {want[n]} x reciprocal "
                    f"primitive cell = {k}",
                    **c.describe(),
                )
        # the path is well formed
        for sub in path.split("|"):
            names = sub.split("-")
            ok = len(names) > 1 and all(n in pts for n in names)
            ok = ok and all(
                np.linalg.norm(np.asarray(pts[i]) - np.asarray(pts[j])) > 1e-4
                for i, j in zip(names, names[1:])
            )
            res.check(
                ok,
                f"{key}/{conv}/subpath/{sub}",
                f"{where}: subpath {sub!r} has undefined or repeated points",
            )
        # geometry, independent of the tables
        lattice = GRID @ lll(rprim)
        for n, k in pts.items():
            out_by, closest = zone_status(lattice, np.asarray(k, float))
            if n == "GAMMA":
                res.check(
                    np.linalg.norm(k) < 1e-8, f"{key}/{conv}/gamma", f"{where}: GAMMA is at {k}"
                )
                continue
            if n in OUTSIDE_AS_PUBLISHED.get((conv, symbol), ()):
                continue
            res.check(
                out_by < 1e-6,
                f"{key}/{conv}/zone/{n}",
                f"{where}: {n} is outside of the first Brillouin zone by {out_by:.4g}",
                **c.describe(),
            )
            res.check(
                closest >= 2,
                f"{key}/{conv}/boundary/{n}",
                f"{where}: {n} is inside of the first Brillouin zone, not on its boundary",
                **c.describe(),
            )
        res.see(f"{conv} symbols", symbol)


def run(job):
    import wulfric as wulf

    res = Result()
    entries = zoo.entries()
    operations = zoo.ops(max_atoms=200)
    for hall in job["halls"]:
        number, _, _, letter, _ = entries[hall]
        for c0 in zoo.crystals(hall, job["level"]):
            if job["kind"] == "direct":
                res.states += 1
                visit(wulf, res, c0, number, letter, c0.label)
            else:
                states, tr = zoo.reachable(c0, job["depth"], operations)
                res.transitions += tr
                for trace, c in states[1:]:
                    res.states += 1
                    visit(wulf, res, c, number, letter, f"{c.label}/{'+'.join(trace)}")
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    missing = set(tables.HPKOT_PATHS) - labels.get("HPKOT symbols", set())
    r.check(not missing, "coverage", f"HPKOT symbols not reached: {missing}")
    # measure-zero variations are the subject of C11
    rare = {"ORCF3", "MCLC2", "MCLC4", "TRI2a", "TRI2b"}
    missing = set(tables.SC_PATHS) - labels.get("SC symbols", set()) - rare
    r.check(not missing, "coverage", f"SC variations not reached: {missing}")
