"""C08: coordinates of high-symmetry points are given in the basis that is asked for."""

import numpy as np

from mc import model, tables, zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="every description reachable by 1 operation from one metric of each of the 530 Hall "
        "settings, by 2 operations from the one-atom Bravais lattices, x {HPKOT, SC} x {with, without "
        "time reversal} x {relative, absolute}",
        thorough="four metrics per setting, 2 operations for one setting per space group, 3 operations for "
        "the Bravais lattices",
    ),
    assumptions=[],
)

NAMES = {"HPKOT": ("HPKOT", "hpkot", "HpKoT"), "SC": ("SC", "sc", "Sc")}


def jobs(tier):
    halls = list(range(1, 531))
    out = [
        dict(kind="walk", halls=p, level=0 if tier == "quick" else 1, depth=1)
        for p in zoo.split(halls, 64)
    ]
    out += [dict(kind="bravais", index=i, depth=2 if tier == "quick" else 3) for i in range(14)]
    if tier == "thorough":
        from mc.crystals import standard_halls

        for part in zoo.split(standard_halls().values(), 115):
            out.append(dict(kind="walk", halls=part, level=0, depth=2))
    out.append(dict(kind="rejected"))
    return out


def visit(wulf, res, c, key, i):
    atoms = c.atoms()
    data = wulf.get_spglib_data(c.cell, atoms)
    rcell = model.reciprocal(c.cell)
    for conv in ("HPKOT", "SC"):
        for tr in (True, False):
            name = NAMES[conv][i % 3]
            kw = dict(convention=name, with_time_reversal=tr, **zoo.own(data, key, tr))
            cell = c.cell if i % 2 else c.cell.tolist()
            get = wulf.kpoints.get_path_and_points
            path_r, rel = get(cell, atoms, relative=True, **kw)
            path_d, default = get(cell, atoms, **kw)
            path_a, ab = get(cell, atoms, relative=False, **kw)
            res.traces += 3
            where = f"{conv} {c.label} time reversal {tr}"
            res.check(
                path_r == path_a == path_d and list(rel) == list(ab) == list(default),
                f"{key}/{conv}/path",
                f"{where}: path or names depend on the basis of the coordinates",
                **c.describe(),
            )
            for n in rel:
                r, a = np.asarray(rel[n], float), np.asarray(ab.get(n), float)
                if r.shape != (3,) or a.shape != (3,) or np.abs(r @ rcell - a).max() > 1e-6:
                    res.violation(
                        f"{key}/{conv}/{n}",
                        f"{where}: {n} relative {r} x reciprocal cell = {r @ rcell}, absolute {a}",
                        **c.describe(),
                    )
                    break
                if np.abs(r - default[n]).max() > 1e-9:
                    res.violation(f"{key}/{conv}/default", f"{where}: relative is not the default")
                    break
            kp = wulf.Kpoints.from_crystal(cell, atoms, n=3 + i % 4, **kw)
            res.traces += 1
            ok = (
                np.abs(np.asarray(kp.rcell) - rcell).max() < 1e-9 * np.abs(rcell).max() + 1e-12
                and sorted(kp.hs_names) == sorted(rel)
                and all(np.abs(kp.hs_coordinates[n] - rel[n]).max() < 1e-9 for n in rel)
                and kp.path_string == path_r
                and kp.n == 3 + i % 4
            )
            res.check(
                ok, f"{key}/{conv}/kpoints", f"{where}: Kpoints.from_crystal differs from the function"
            )
            for n in kp.hs_names:
                res.check(
                    kp.hs_labels[n] == tables.plot_label(n),
                    f"label/{n}",
                    f"label of {n} is {kp.hs_labels[n]!r}, expected {tables.plot_label(n)!r}",
                )
                res.see("labels", n)


def rejected(wulf, res):
    cell = np.diag([3.0, 4.0, 5.0])
    atoms = dict(positions=[[0, 0, 0]], spglib_types=[1])
    for conv in ("", "HPKOT ", "hpkot1", "S", "seekpath", "spglib2", "sc-"):
        for f in (
            wulf.kpoints.get_path_and_points,
            wulf.crystal.get_conventional,
            wulf.crystal.get_primitive,
            wulf.Kpoints.from_crystal,
        ):
            res.states += 1
            try:
                out = f(cell, atoms, convention=conv)
                res.violation(f"rejected/{conv}", f"convention {conv!r} accepted: {out}"[:200])
            except wulf.ConventionNotSupported if hasattr(wulf, "ConventionNotSupported") else Exception:
                res.count("unknown conventions rejected")


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "rejected":
        rejected(wulf, res)
        return res
    if job["kind"] == "walk":
        starts = [c for hall in job["halls"] for c in zoo.crystals(hall, job["level"])]
        operations = zoo.ops(max_atoms=200)
    else:
        bl = list(zoo.BRAVAIS_SG)[job["index"]]
        starts = [c for c in zoo.bravais_crystals(1) if c.label.startswith(bl + "/")]
        operations = zoo.ops(max_atoms=40)
    i = 0
    for c0 in starts:
        states, tr = zoo.reachable(c0, job["depth"], operations)
        res.transitions += tr
        for trace, c in states:
            res.states += 1
            i += 1
            visit(wulf, res, c, f"{c.label}/{'+'.join(trace)}", i)
    res.sample(job=job, states=res.states)
    return res
