"""The bounded universe of crystal descriptions shared by the checks.

``crystals(hall, level)``  every crystal of the universe with the symmetry of one Hall setting
``OPS``                    re-description operations: the transitions of the explorers. Each one
                           maps a description onto another description of the same crystal (or of a
                           rotated / shifted copy of it), so that every invariant of the crystal has
                           to be the same on both ends of the edge
"""

import itertools

import numpy as np

from mc import crystals as cr

CONVENTIONS = ("spglib", "HPKOT", "SC")
CENTRING_POINTS = {"P": 1, "A": 2, "C": 2, "I": 2, "F": 4, "R": 3}
FAMILY_RANGES = ((2, "a"), (15, "m"), (74, "o"), (142, "t"), (194, "h"), (230, "c"))

DIAGS = sorted(set(itertools.permutations((16.0, 21.0, 30.0)))) + sorted(
    set(itertools.permutations((9.0, 30.0, 55.0)))
)
OFFS = [(1.1, 0.7, -1.3), (-4.0, -3.0, -5.0), (5.0, -4.0, 3.0), (0.1, 7.0, 0.3)]
# additional metrics of the thorough tier
DIAGS_DEEP = sorted(set(itertools.permutations((16.0, 55.0, 110.0)))) + sorted(
    set(itertools.permutations((21.0, 22.0, 23.5)))
)


def family(number):
    for last, fam in FAMILY_RANGES:
        if number <= last:
            return fam


_ENTRIES = None


def entries():
    """{hall: (space group number, hall symbol, choice, centring letter, has inversion)}"""
    global _ENTRIES
    if _ENTRIES is None:
        import spglib

        _ENTRIES = {}
        first = {}
        for hall, number, symbol, choice in cr.hall_entries():
            t = spglib.get_spacegroup_type(hall)
            first.setdefault(number, t.international_short[0])
            rots, _ = cr.db_operations(hall)
            inv = any((r == -np.eye(3, dtype=int)).all() for r in rots)
            _ENTRIES[hall] = (number, symbol, choice, first[number], inv)
    return _ENTRIES


def base_grams(level):
    out = []
    diags = DIAGS if level < 3 else DIAGS + DIAGS_DEEP
    for d in diags:
        for o in OFFS:
            G = np.array([[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]])
            if np.linalg.eigvalsh(G).min() > 1:
                out.append(G)
    return out


def grams(hall, level=2):
    """Distinct metrics compatible with the setting. level 0: one, 1: up to four, 2: all, 3: deep"""
    rots, _ = cr.db_operations(hall)
    uniq = list({r.tobytes(): r for r in rots}.values())
    seen, out = set(), []
    for G in base_grams(level):
        S = sum(R.T @ G @ R for R in uniq) / len(uniq)
        k = tuple(np.round(S, 6).ravel())
        if k not in seen:
            seen.add(k)
            out.append(S)
    if level == 0:
        return out[1:2] or out[:1]
    if level == 1:
        step = max(1, len(out) // 4)
        return out[::step][:4]
    return out


SPECIES = {1: "Cr", 2: "I", 3: "O"}


class Crystal:
    """A description: the state of the explorers."""

    __slots__ = ("cell", "pos", "types", "label", "rot", "origin", "flipped")

    def __init__(self, cell, pos, types, label, rot=None):
        self.cell = np.array(cell, float)
        self.pos = np.array(pos, float)
        self.types = [int(t) for t in types]
        self.label = label
        self.rot = np.eye(3) if rot is None else rot

    def atoms(self):
        return dict(positions=self.pos.copy(), spglib_types=list(self.types))

    def key(self):
        return (
            tuple(np.round(self.cell, 5).ravel()),
            tuple(np.round(self.pos, 5).ravel()),
            tuple(self.types),
        )

    def describe(self):
        return dict(
            label=self.label,
            cell=self.cell,
            positions=self.pos if len(self.pos) <= 24 else f"{len(self.pos)} atoms",
            spglib_types=self.types if len(self.pos) <= 24 else None,
        )


def crystals(hall, level=2):
    out = []
    for i, G in enumerate(grams(hall, level)):
        cell, pos, typ = cr.crystal_from_hall(hall, G)
        out.append(Crystal(cell, pos, typ, f"hall{hall}/metric{i}"))
    return out


# ------------------------------------------------------------------------------------------
# Transitions
# ------------------------------------------------------------------------------------------
MATRICES = {
    "cycle": [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    "swap": [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    "invert": [[-1, 0, 0], [0, -1, 0], [0, 0, -1]],
    "flip-one": [[1, 0, 0], [0, -1, 0], [0, 0, 1]],
    "shear": [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
    "skew": [[1, 0, 0], [-1, 1, 2], [0, 0, 1]],
}
SUPERCELLS = {
    "double-a": [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
    "double-diag": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
    "triple": [[1, 0, 0], [0, 1, 0], [1, -1, 3]],
}
ROT = cr.rotation([1.0, 0.4, -0.7], 1.234)
ROT90 = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
SHIFT = np.array([0.1371, 0.2713, -0.3219])


def op_matrix(M):
    def f(c):
        cell, pos, typ = cr.change_basis(c.cell, c.pos, c.types, M)
        return Crystal(cell, pos, typ, c.label, c.rot)

    return f


def op_supercell(P, max_atoms):
    n = abs(round(np.linalg.det(np.array(P))))

    def f(c):
        if len(c.pos) * n > max_atoms:
            return None
        cell, pos, typ = cr.supercell(c.cell, c.pos, c.types, P)
        return Crystal(cell, pos, typ, c.label, c.rot)

    return f


def op_reverse(c):
    return Crystal(c.cell, c.pos[::-1], c.types[::-1], c.label, c.rot)


def op_interleave(c):
    """atoms of different types alternate as far as possible"""
    n = len(c.pos)
    idx = sorted(range(n), key=lambda i: ((i * 7919) % (2 * n + 1), i))
    return Crystal(c.cell, c.pos[idx], [c.types[i] for i in idx], c.label, c.rot)


def op_wrap(c):
    """positions outside of the cell: a different lattice vector for every atom"""
    k = np.array([[(i % 3) - 1, ((i // 3) % 3) - 1, (i % 2) * 2] for i in range(len(c.pos))])
    return Crystal(c.cell, c.pos + k, c.types, c.label, c.rot)


def op_unwrap(c):
    return Crystal(c.cell, c.pos - np.floor(c.pos), c.types, c.label, c.rot)


def op_shift(c):
    return Crystal(c.cell, c.pos + SHIFT, c.types, c.label, c.rot)


def op_relabel(c):
    """other integers for the same kinds of atoms, the order of the kinds is reversed"""
    return Crystal(c.cell, c.pos, [9 - t for t in c.types], c.label, c.rot)


def op_rotate(Q):
    def f(c):
        return Crystal(c.cell @ Q.T, c.pos, c.types, c.label, Q @ c.rot)

    return f


def ops(max_atoms=200, rotations=True, relabel=True):
    out = {name: op_matrix(M) for name, M in MATRICES.items()}
    for name, P in SUPERCELLS.items():
        out[name] = op_supercell(P, max_atoms)
    out["reverse"] = op_reverse
    out["interleave"] = op_interleave
    out["wrap"] = op_wrap
    out["unwrap"] = op_unwrap
    out["shift"] = op_shift
    if relabel:
        out["relabel"] = op_relabel
    if rotations:
        out["rotate"] = op_rotate(ROT)
        out["rotate90"] = op_rotate(ROT90)
    return out


def reachable(crystal, depth, operations):
    """[(trace, description)] of every description reachable by at most ``depth`` operations, and
    the number of transitions taken. Descriptions that coincide are merged."""
    seen = {crystal.key()}
    out = [((), crystal)]
    frontier = [((), crystal)]
    transitions = 0
    for _ in range(depth):
        nxt = []
        for trace, c in frontier:
            for name, op in operations.items():
                d = op(c)
                if d is None:
                    continue
                transitions += 1
                k = d.key()
                if k in seen:
                    continue
                seen.add(k)
                nxt.append((trace + (name,), d))
        out += nxt
        frontier = nxt
    return out, transitions


# Bravais lattices with one atom: the smallest description of every lattice type. The universe of
# "interpret the cell alone" (documented hint), explored deeper than the generic crystals.
BRAVAIS_SG = {
    "cP": 221, "cF": 225, "cI": 229, "tP": 123, "tI": 139, "oP": 47, "oF": 69, "oI": 71,
    "oC": 65, "hP": 191, "hR": 166, "mP": 10, "mC": 12, "aP": 2,
}  # fmt: skip


def bravais_crystals(level=2):
    import spglib

    first = cr.standard_halls()
    out = []
    for bl, number in BRAVAIS_SG.items():
        hall = first[number]
        _, trans = cr.db_operations(hall)
        rots, trans = cr.db_operations(hall)
        centr = cr.orbit(rots, trans, np.zeros(3))
        for i, G in enumerate(grams(hall, level)):
            cell = cr.cell_from_gram(G)
            c = Crystal(cell, centr, [1] * len(centr), f"{bl}/metric{i}")
            # one atom per lattice point: a primitive basis
            pc, pp, pt = spglib.find_primitive((c.cell, c.pos, c.types))
            # keep the orientation of the parent: integer combination of the centring vectors
            out.append(Crystal(pc, pp, pt, c.label))
    return out


def with_keys(c, form):
    """atoms dictionary of description ``c`` in one of the documented input forms"""
    n = len(c.pos)
    pos = c.pos.copy()
    letters = {t: SPECIES.get(t, SPECIES.get(9 - t, "O")) for t in set(c.types)}
    if form == "types":
        return dict(positions=pos, spglib_types=list(c.types))
    if form == "types-list":
        return dict(positions=pos.tolist(), spglib_types=list(c.types))
    if form == "species":
        return dict(positions=pos.tolist(), species=[letters[t] for t in c.types])
    if form == "names":
        count = {}
        names = []
        for t in c.types:
            count[t] = count.get(t, 0) + 1
            names.append(f"{letters[t]}{count[t]}")
        return dict(names=names, positions=pos)
    if form == "names-x":
        # species can not be deduced from these names: the name itself is the identifier
        return dict(names=[f"Qq{t}" for t in c.types], positions=tuple(map(tuple, pos)))
    if form == "all":
        return dict(
            names=[f"{letters[t]}{i + 1}" for i, t in enumerate(c.types)],
            charges=[float(i) for i in range(n)],
            species=[letters[t] for t in c.types],
            positions=pos,
            spglib_types=list(c.types),
            moment=[[0, i, t] for i, t in enumerate(c.types)],
            note=tuple(f"#{i}" for i in range(n)),
        )
    if form == "species+extra":
        return dict(
            positions=pos,
            species=[letters[t] for t in c.types],
            index=np.arange(n),
            names=[f"at{i}" for i in range(n)],
        )
    raise KeyError(form)


FORMS = ("types", "types-list", "species", "names", "names-x", "all", "species+extra")


def split(items, n):
    items = list(items)
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


def own(data, key, k=0):
    """One call in five finds the symmetry data on its own, the others get them."""
    return {} if (sum(map(ord, key)) + k) % 5 == 0 else dict(spglib_data=data)


def spell(convention, key, k=0):
    """Names of the conventions are not case-sensitive: one of the spellings."""
    forms = (
        convention, convention.lower(), convention, convention.title(), convention.upper(), convention,
        convention.swapcase(),
    )  # fmt: skip
    return forms[(sum(map(ord, key)) + k) % 7]
