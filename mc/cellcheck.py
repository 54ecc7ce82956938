"""Oracle for a returned cell + atoms, used by C01 and C02."""

import numpy as np

from mc import crystals as cr
from mc import zoo


def expected_types(wulf, atoms, c, res, key, prefix):
    """{type number used by the package: kind of atom in the description}"""
    used = wulf.get_spglib_types(atoms)
    pairs = set(zip([int(t) for t in used], c.types))
    ok = len(pairs) == len({p[0] for p in pairs}) == len({p[1] for p in pairs})
    res.check(ok, f"{key}/types", f"{prefix}: atoms are not grouped by kind: {sorted(pairs)}")
    return dict(pairs) if ok else None


def check_returned(wulf, res, key, prefix, c, atoms, types_map, out_cell, out_atoms, detail, **tolerance):
    """True if (out_cell, out_atoms) describes the crystal ``c`` and carries the keys of ``atoms``."""
    n0 = len(res.violations)

    def bad(what, text, **kw):
        res.violation(f"{key}/{what}", f"{prefix}: {text}", **detail, **kw)

    out_cell = np.asarray(out_cell)
    if out_cell.shape != (3, 3):
        bad("shape", f"cell has the shape {out_cell.shape}")
        return False
    # every key of the input, plus spglib_types
    want = set(atoms) | {"spglib_types", "positions"}
    if set(out_atoms) != want:
        bad("keys", f"keys of the atoms are {sorted(out_atoms)}, expected {sorted(want)}")
        return False
    n = len(out_atoms["positions"])
    for k in out_atoms:
        if len(out_atoms[k]) != n:
            bad("keys", f'atoms["{k}"] has {len(out_atoms[k])} elements for {n} atoms')
            return False
    try:
        wulf.crystal.validate_atoms(out_atoms, required_keys=["positions"], raise_errors=True)
    except Exception as e:
        bad("chain", f"returned atoms can not be passed back: {type(e).__name__}: {e}"[:300])
        return False
    out_types = [types_map.get(int(t)) for t in out_atoms["spglib_types"]]
    if None in out_types:
        bad("types", f"unknown type among {sorted(set(out_atoms['spglib_types']))}")
        return False
    reason = cr.same_crystal(
        c.cell, c.pos, c.types, out_cell, np.asarray(out_atoms["positions"], float), out_types,
        **tolerance,
    )
    if reason is not None:
        bad("crystal", reason, returned_cell=out_cell)
        return False
    # values of the other keys: those of the last atom of that type
    last = {}
    for i, t in enumerate(c.types):
        last[t] = i
    for k in atoms:
        if k in ("positions", "spglib_types"):
            continue
        for i, t in enumerate(out_types):
            a, b = out_atoms[k][i], atoms[k][last[t]]
            if type(a) is not type(b) or a != b:
                bad(
                    "values",
                    f'atoms["{k}"][{i}] is {a!r}, the last atom of that type has {b!r}',
                )
                return False
    return len(res.violations) == n0


def n_points(c):
    """Number of lattice points of the description: volume of its cell over the volume of the
    primitive cell of the crystal."""
    return len(cr.pure_translations(c.cell, c.pos, c.types))


def conv_points(number_or_letter, convention):
    letter = number_or_letter
    if convention.upper() == "SC" and letter == "R":
        return 1
    return zoo.CENTRING_POINTS[letter]
