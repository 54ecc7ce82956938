"""C07: what happens to the path and points without time-reversal symmetry."""

import numpy as np

from mc import model, zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="{530 Hall settings} x {up to four metrics} x {HPKOT, SC} x {relative, absolute} x "
        "{function, Kpoints.from_crystal}, both values of the time-reversal flag",
        thorough="every distinct metric of the 48 base metrics, and 1-operation re-descriptions",
    ),
    assumptions=["inversion symmetry is read off the operations of spglib's database"],
)


def jobs(tier):
    halls = list(range(1, 531))
    out = [dict(halls=p, level=1 if tier == "quick" else 2, depth=0) for p in zoo.split(halls, 64)]
    if tier == "thorough":
        out += [dict(halls=p, level=0, depth=1) for p in zoo.split(halls, 64)]
    return out


def visit(wulf, res, c, number, inversion, key):
    atoms = c.atoms()
    data = wulf.get_spglib_data(c.cell, atoms)
    for conv in ("HPKOT", "SC"):
        for relative in (True, False):
            kw = dict(convention=zoo.spell(conv, key, relative), relative=relative, **zoo.own(data, key, relative))
            get = wulf.kpoints.get_path_and_points
            path, pts = get(c.cell, atoms, with_time_reversal=True, **kw)
            dpath, dpts = get(c.cell, atoms, **kw)
            npath, npts = get(c.cell, atoms, with_time_reversal=False, **kw)
            res.transitions += 2
            res.traces += 3
            where = f"{conv} {c.label} (group {number})"

            def same(a, b):
                return set(a) == set(b) and all(np.abs(np.asarray(a[n]) - b[n]).max() < 1e-8 for n in a)

            res.check(
                dpath == path and same(dpts, pts),
                f"{key}/{conv}/default",
                f"{where}: time-reversal symmetry is not the default",
            )
            res.check(
                not any(n.endswith("_P") for n in pts) and "_P" not in path,
                f"{key}/{conv}/plain",
                f"{where}: primed points although there is time-reversal symmetry",
            )
            if inversion:
                want_path, want = path, dict(pts)
            else:
                want_path, names = model.extended(path, pts)
                want = {n: pts[n] if n in pts else -np.asarray(pts[n[:-2]]) for n in names}
            res.check(
                npath == want_path,
                f"{key}/{conv}/path",
                f"{where}: inversion={inversion}, no time reversal: path {npath!r}, expected "
                f"{want_path!r}",
                **c.describe(),
            )
            res.check(
                same(npts, want),
                f"{key}/{conv}/points",
                f"{where}: inversion={inversion}, no time reversal: points {npts}, expected {want}",
                **c.describe(),
            )
            res.see("inversion", inversion)
        for tr in (True, False):
            kp = wulf.Kpoints.from_crystal(
                c.cell, atoms, convention=zoo.spell(conv, key, tr), with_time_reversal=tr, **zoo.own(data, key, tr)
            )
            path, pts = wulf.kpoints.get_path_and_points(
                c.cell, atoms, convention=zoo.spell(conv, key, tr), with_time_reversal=tr, **zoo.own(data, key, tr)
            )
            res.traces += 1
            res.check(
                kp.path_string == path and set(kp.hs_names) == set(pts),
                f"{key}/{conv}/kpoints",
                f"{conv} {c.label}: Kpoints.from_crystal(with_time_reversal={tr}) has path "
                f"{kp.path_string!r} and points {sorted(kp.hs_names)}, the function {path!r}",
            )


def run(job):
    import wulfric as wulf

    res = Result()
    entries = zoo.entries()
    for hall in job["halls"]:
        number, _, _, _, inv = entries[hall]
        for c0 in zoo.crystals(hall, job["level"]):
            states, tr = zoo.reachable(c0, job["depth"], zoo.ops(max_atoms=200))
            res.transitions += tr
            for trace, c in states:
                res.states += 1
                visit(wulf, res, c, number, inv, f"{c.label}/{'+'.join(trace)}")
    res.sample(job=job, states=res.states)
    return res
