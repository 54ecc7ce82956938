"""C04: results are properties of the crystal, not of its description."""

import numpy as np

from mc import zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="graph of descriptions: every description reachable by 1 of 16 re-description operations "
        "(unimodular changes of the basis of both determinants, supercells, permutations of atoms, "
        "positions outside of the cell, shifts of the origin, relabelling, rotations) from one metric of "
        "each of the 530 Hall settings, by 2 operations from the one-atom Bravais lattices; and the "
        "edges made of wulfric's own get_conventional / get_primitive (3 conventions each)",
        thorough="four metrics per setting, depth 2 for one setting per space group, depth 3 for the "
        "Bravais lattices",
    ),
    assumptions=[
        "metrics of the universe are generic: no two lattice parameters or angles of the conventional "
        "cell coincide unless the symmetry requires it",
    ],
)


def jobs(tier):
    out = []
    halls = list(range(1, 531))
    for part in zoo.split(halls, 64):
        out.append(dict(kind="walk", halls=part, level=0 if tier == "quick" else 1, depth=1))
    for i in range(14):
        out.append(dict(kind="bravais", index=i, depth=2 if tier == "quick" else 3))
    if tier == "thorough":
        from mc.crystals import standard_halls

        for part in zoo.split(standard_halls().values(), 115):
            out.append(dict(kind="walk", halls=part, level=0, depth=2))
    return out


def gram(vectors):
    v = np.asarray(vectors, float).reshape(-1, 3)
    return v @ v.T


def observe(wulf, cell, atoms, convention, data=None):
    """What has to be the same for every description of one crystal."""
    obs = {}
    kw = dict(spglib_data=data)
    conv_cell, conv_atoms = wulf.crystal.get_conventional(cell, atoms, convention=convention, **kw)
    prim_cell, prim_atoms = wulf.crystal.get_primitive(cell, atoms, convention=convention.lower(), **kw)
    obs["metric of the conventional cell"] = gram(conv_cell)
    obs["metric of the primitive cell"] = gram(prim_cell)
    obs["handedness"] = [bool(np.linalg.det(x) > 0) for x in (conv_cell, prim_cell)]
    obs["atoms in the conventional cell"] = len(conv_atoms["positions"])
    obs["atoms in the primitive cell"] = len(prim_atoms["positions"])
    if convention == "spglib":
        return obs, {}
    if convention == "HPKOT":
        obs["extended Bravais lattice symbol"] = wulf.crystal.hpkot_get_extended_bl_symbol(
            cell, atoms, **kw
        )
    else:
        obs["variation"] = wulf.crystal.sc_get_variation(cell, atoms, **kw)
    path, points = wulf.kpoints.get_path_and_points(
        cell, atoms, convention=convention.capitalize(), relative=False, **kw
    )
    obs["path"] = path
    obs["names of the points"] = sorted(points)
    obs["lengths and angles of the points"] = gram([points[n] for n in sorted(points)])
    return obs, points


def differs(a, b):
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape:
                return k
            if np.abs(a[k] - b[k]).max() > 1e-6 * max(1.0, np.abs(a[k]).max()):
                return k
        elif a[k] != b[k]:
            return k
    return None


def group_of(wulf, cell, atoms):
    d = wulf.get_spglib_data(cell, atoms)
    return (d.space_group_number, d.crystal_family, d.centring_type)


def compare(wulf, res, ref, trace, c, atoms, sg, what):
    cell = c.cell if c is not None else what[0]
    d = wulf.get_spglib_data(cell, atoms)
    got = (d.space_group_number, d.crystal_family, d.centring_type)
    res.check(
        got == sg,
        f"{what[1]}/{'+'.join(trace)}/group",
        f"{what[1]}: {sg} became {got} after {'+'.join(trace)}",
        cell=cell,
    )
    for conv in zoo.CONVENTIONS:
        obs, _ = observe(wulf, cell, atoms, conv, d)
        k = differs(ref[conv], obs)
        res.traces += 1
        if k is not None:
            res.violation(
                f"{what[1]}/{'+'.join(trace)}/{conv}/{k}",
                f"{conv} {what[1]}: {k} depends on the description ({'+'.join(trace)}): "
                f"{ref[conv][k]} vs {obs[k]}",
                cell=cell,
                trace=list(trace),
                atoms=atoms if len(atoms["positions"]) < 24 else None,
            )


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "walk":
        starts = [c for hall in job["halls"] for c in zoo.crystals(hall, job["level"])]
        operations = zoo.ops(max_atoms=200)
    else:
        bl = list(zoo.BRAVAIS_SG)[job["index"]]
        starts = [c for c in zoo.bravais_crystals(1) if c.label.startswith(bl + "/")]
        operations = zoo.ops(max_atoms=40)
    for c0 in starts:
        atoms0 = c0.atoms()
        ref = {conv: observe(wulf, c0.cell, atoms0, conv)[0] for conv in zoo.CONVENTIONS}
        sg0 = group_of(wulf, c0.cell, atoms0)
        res.states += 1
        states, tr = zoo.reachable(c0, job["depth"], operations)
        res.transitions += tr
        for trace, c in states[1:]:
            res.states += 1
            atoms = c.atoms()
            compare(wulf, res, ref, trace, c, atoms, sg0, (None, c0.label))
        # the package's own descriptions are descriptions of the same crystal
        for name in ("get_conventional", "get_primitive"):
            for conv in zoo.CONVENTIONS:
                cell, atoms = getattr(wulf.crystal, name)(c0.cell, atoms0, convention=conv)
                res.transitions += 1
                res.states += 1
                compare(wulf, res, ref, (f"{name}[{conv}]",), None, atoms, sg0, (cell, c0.label))
    if starts:
        res.sample(start=starts[0].describe(), descriptions=res.states)
    return res
