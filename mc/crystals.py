"""Crystal descriptions used as states by the explorers.

Everything here is independent of wulfric: crystals are made from the symmetry operations of
spglib's *database* (one entry per Hall setting), and two descriptions are compared by an oracle
written from the definition of a crystal (a set of typed points invariant under a lattice).
"""

import itertools

import numpy as np


# ------------------------------------------------------------------------------------------
# Making crystals with a prescribed space group
# ------------------------------------------------------------------------------------------
def hall_entries():
    """[(hall_number, international number, hall symbol, choice)] for all 530 settings."""
    import spglib

    out = []
    for hall in range(1, 531):
        t = spglib.get_spacegroup_type(hall)
        out.append((hall, t.number, t.hall_symbol, t.choice))
    return out


def standard_halls():
    """One Hall number per space group: the first one listed by the database."""
    first = {}
    for hall, number, _, _ in hall_entries():
        first.setdefault(number, hall)
    return first


def db_operations(hall):
    import spglib

    ops = spglib.get_symmetry_from_database(hall)
    return np.array(ops["rotations"], dtype=int), np.array(ops["translations"], dtype=float)


def symmetrised_cell(rotations, gram):
    """A cell (rows) whose metric is invariant under ``rotations``.

    Rotations act on column vectors of relative coordinates, the metric G of rows transforms as
    R^T G R.
    """
    G = np.zeros((3, 3))
    seen = {r.tobytes(): r for r in rotations}
    for R in seen.values():
        G += R.T @ gram @ R
    G /= len(seen)
    return cell_from_gram(G)


def cell_from_gram(G):
    L = np.linalg.cholesky(G)  # G = L L^T, rows of L are the vectors, L lower-triangular
    return L


def orbit(rotations, translations, x):
    pts = []
    for R, t in zip(rotations, translations):
        p = (R @ x + t) % 1.0
        p = np.where(np.abs(p - 1) < 1e-9, 0.0, p)
        for q in pts:
            d = p - q
            d -= np.round(d)
            if np.abs(d).max() < 1e-6:
                break
        else:
            pts.append(p)
    return np.array(pts)


GENERIC_SITES = [
    (np.array([0.11273194, 0.23407261, 0.37184653]), 1),
    (np.array([0.03708137, 0.42192846, 0.19341759]), 2),
]


def crystal_from_hall(hall, gram, sites=GENERIC_SITES):
    """cell, positions, types with exactly the space group of the Hall setting."""
    rots, trans = db_operations(hall)
    cell = symmetrised_cell(rots, gram)
    pos, typ = [], []
    for x, t in sites:
        o = orbit(rots, trans, x)
        pos.append(o)
        typ += [t] * len(o)
    return cell, np.concatenate(pos), typ


# ------------------------------------------------------------------------------------------
# Oracle: are two descriptions the same crystal?
# ------------------------------------------------------------------------------------------
class Lookup:
    """Nearest-atom lookup in a periodic crystal."""

    def __init__(self, cell, positions, types, tol):
        self.cell = np.asarray(cell, dtype=float)
        self.inv = np.linalg.inv(self.cell)
        self.pos = np.asarray(positions, dtype=float).reshape(-1, 3)
        self.types = list(types)
        self.tol = tol
        self.by_type = {}
        for i, t in enumerate(self.types):
            self.by_type.setdefault(t, []).append(i)
        self.by_type = {t: self.pos[idx] for t, idx in self.by_type.items()}

    def all_present(self, cart, types):
        """True if every (cartesian point, type) is an atom of the crystal."""
        cart = np.asarray(cart).reshape(-1, 3)
        types = list(types)
        for t in set(types):
            if t not in self.by_type:
                return False
            idx = [i for i, u in enumerate(types) if u == t]
            rel = cart[idx] @ self.inv
            d = rel[:, None, :] - self.by_type[t][None, :, :]
            d -= np.round(d)
            dist = np.linalg.norm(d @ self.cell, axis=2).min(axis=1)
            if dist.max() > self.tol:
                return False
        return True


def rarest_type(types):
    types = list(types)
    return min(sorted(set(types), key=str), key=lambda t: (types.count(t), str(t)))


def pure_translations(cell, positions, types, tol=1e-4):
    """All translations (relative, in [0,1)) that map the crystal onto itself: the lattice points
    of the given cell."""
    look = Lookup(cell, positions, types, tol)
    t = rarest_type(types)
    pts = look.by_type[t]
    cart = look.pos @ look.cell
    found = []
    for q in pts:
        v = (q - pts[0]) @ look.cell
        if look.all_present(cart + v, look.types):
            found.append((q - pts[0]) % 1.0)
    return np.array(found)


def same_crystal(cell1, pos1, typ1, cell2, pos2, typ2, tol=1e-4, allow_translation=True):
    """None if description 2 is the same crystal, in the same orientation, as description 1,
    otherwise a text that says what differs."""
    cell1 = np.asarray(cell1, float)
    cell2 = np.asarray(cell2, float)
    pos1 = np.asarray(pos1, float).reshape(-1, 3)
    pos2 = np.asarray(pos2, float).reshape(-1, 3)
    typ1, typ2 = list(typ1), list(typ2)
    v1, v2 = abs(np.linalg.det(cell1)), abs(np.linalg.det(cell2))
    if not np.isfinite(cell2).all() or not np.isfinite(pos2).all():
        return "non-finite numbers in the description"
    if v2 < 1e-8:
        return "degenerate cell"
    if len(pos2) != len(typ2):
        return f"{len(pos2)} positions but {len(typ2)} types"
    if set(map(str, typ1)) != set(map(str, typ2)):
        return f"set of atom kinds differs: {sorted(set(map(str, typ1)))} vs {sorted(set(map(str, typ2)))}"
    for t in set(typ1):
        d1, d2 = typ1.count(t) / v1, typ2.count(t) / v2
        if abs(d1 - d2) > 1e-6 * d1:
            return f"number density of kind {t!r} differs: {d1:.6g} vs {d2:.6g}"
    look = Lookup(cell1, pos1, typ1, tol)
    cart1 = pos1 @ cell1
    for i in range(3):
        if not look.all_present(cart1 + cell2[i], typ1):
            return f"lattice vector {i} of the result is not a translation of the crystal"
    # distinct atoms in 2
    look2 = Lookup(cell2, pos2, typ2, tol)
    d = pos2[:, None, :] - pos2[None, :, :]
    d -= np.round(d)
    dist = np.linalg.norm(d @ cell2, axis=2) + 1e3 * np.eye(len(pos2))
    if len(pos2) > 1 and dist.min() < min(max(10 * tol, 1e-4), 0.02):
        i, j = np.unravel_index(dist.argmin(), dist.shape)
        return f"atoms {i} and {j} of the result coincide"
    cart2 = pos2 @ cell2
    if not allow_translation:
        return None if look.all_present(cart2, typ2) else "atoms are not at the positions of the original"
    t = rarest_type(typ1)
    src = look2.by_type[t][0] @ cell2
    for q in look.by_type[t]:
        v = q @ cell1 - src
        if look.all_present(cart2 + v, typ2):
            return None
    return "no common translation maps the atoms of the result onto the original crystal (in the same orientation)"


# ------------------------------------------------------------------------------------------
# Re-descriptions of a crystal
# ------------------------------------------------------------------------------------------
def change_basis(cell, positions, types, M):
    """New basis rows = M @ cell, M unimodular."""
    M = np.asarray(M)
    new = M @ cell
    pos = positions @ np.linalg.inv(M)
    return new, pos, list(types)


def supercell(cell, positions, types, P):
    """New basis rows = P @ cell, P integer with |det| >= 1."""
    P = np.asarray(P, dtype=int)
    n = abs(int(round(np.linalg.det(P))))
    invP = np.linalg.inv(P)
    # coset representatives of Z^3 / (Z^3 P)
    reps = []
    r = np.abs(P).sum(axis=0).max() + 1
    for c in itertools.product(range(0, r + 1), repeat=3):
        x = np.array(c) @ invP
        x = x - np.floor(x + 1e-9)
        if not any(np.abs((x - y) - np.round(x - y)).max() < 1e-6 for y in reps):
            reps.append(x)
        if len(reps) == n:
            break
    if len(reps) != n:
        for c in itertools.product(range(-r, r + 1), repeat=3):
            x = np.array(c) @ invP
            x = x - np.floor(x + 1e-9)
            if not any(np.abs((x - y) - np.round(x - y)).max() < 1e-6 for y in reps):
                reps.append(x)
            if len(reps) == n:
                break
    assert len(reps) == n, (P, len(reps), n)
    pos, typ = [], []
    for p, t in zip(positions, types):
        for x in reps:
            pos.append(p @ invP + x)
            typ.append(t)
    return P @ cell, np.array(pos), typ


def rotation(axis, angle):
    axis = np.asarray(axis, float)
    axis = axis / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K @ K
