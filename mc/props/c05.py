"""C05: the symmetry data are those of the crystal: group, family, centring, faithful copies."""

import dataclasses
import itertools

import numpy as np

from mc import crystals as cr
from mc import zoo
from mc.core import Result
from mc.props.c11 import gram_of
from mc.props.c17 import species_model

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all 530 Hall settings x (up to four metrics direct, one metric x every 1-operation "
        "re-description, 5 displacement amplitudes x 4 tolerances); 36 nearly symmetric lattices x 27 sets of "
        "angles x 7 pairs of tolerances on lengths and angles; 2 arrangements of 3 atoms x every list of "
        "8 names, 5 species, 4 kinds and every combination of two conflicting keys",
        thorough="all metrics direct, four metrics x 1 operation, the same displacement lattice",
    ),
    assumptions=["spglib finds the space group of a crystal made from its own database"],
)

AMPLITUDES = (0.0, 4e-5, 4e-4, 5e-3, 0.025)
TOLERANCES = (1e-5, 1e-3, 1e-2, 0.12)


def jobs(tier):
    halls = list(range(1, 531))
    out = []
    for p in zoo.split(halls, 48):
        out.append(dict(kind="direct", halls=p, level=1 if tier == "quick" else 2))
        out.append(dict(kind="walk", halls=p, level=0 if tier == "quick" else 1))
    for p in zoo.split(cr.standard_halls().values(), 48):
        out.append(dict(kind="blur", halls=p))
    for i in range(len(CENTRINGS)):
        for lengths in itertools.product(NEAR_LENGTHS, repeat=2):
            out.append(dict(kind="tolerances", centring=i, lengths=[4.0, *lengths]))
    for i in range(len(ARRANGEMENTS)):
        for key in ("names", "species", "spglib_types", "two"):
            out.append(dict(kind="kinds", arrangement=i, key=key))
    return out


# cells that are symmetric only within a tolerance
CENTRINGS = (
    [[0, 0, 0]],
    [[0, 0, 0], [0.5, 0.5, 0.502]],
    [[0, 0, 0], [0.5, 0.502, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]],
    [[0, 0, 0], [0.5, 0.5, 0], [0.25, 0.25, 0.26]],
)
NEAR_LENGTHS = (4.0, 4.03, 4.3)
NEAR_ANGLES = (90.0, 90.2, 91.5)
GIVEN = ((1e-5, -1), (0.05, -1), (0.05, 0.05), (0.05, 0.8), (0.3, -1), (0.3, 0.8), (0.3, 5.0))


def run_tolerances(wulf, res, job):
    """Both tolerances decide, and they are those that are recorded"""
    import spglib

    pos = np.array(CENTRINGS[job["centring"]], float)
    for angles in itertools.product(NEAR_ANGLES, repeat=3):
        cell = np.asarray(cr.cell_from_gram(gram_of(*job["lengths"], *angles)))
        numbers = set()
        for symprec, angle in GIVEN:
            key = f"tolerances/{job['centring']}/{job['lengths']}/{angles}/{symprec}/{angle}"
            given = (cell, pos, [1] * len(pos))
            ref = spglib.get_symmetry_dataset(given, symprec=symprec, angle_tolerance=angle)
            prim = spglib.find_primitive(given, symprec=symprec, angle_tolerance=angle)
            atoms = dict(positions=pos.tolist(), names=["Fe"] * len(pos))
            res.states += 1
            if ref is None or prim is None:
                res.count("spglib finds no symmetry")
                continue
            data = wulf.get_spglib_data(cell, atoms, spglib_symprec=symprec, spglib_angle_tolerance=angle)
            res.traces += 1
            numbers.add(ref.number)
            res.check(
                data.space_group_number == ref.number
                and data.symprec == symprec
                and data.angle_tolerance == angle,
                key,
                f"tolerances {symprec}, {angle}: group {data.space_group_number}, spglib {ref.number}; recorded "
                f"tolerances {data.symprec}, {data.angle_tolerance}",
                cell=cell,
            )
            for name, got, want in (
                ("conventional", data.conventional_cell, ref.std_lattice),
                ("primitive", data.primitive_cell, prim[0]),
            ):
                got = np.asarray(got)
                res.check(
                    np.abs(got @ got.T - want @ want.T).max() < 1e-6,
                    f"{key}/{name}",
                    f"tolerances {symprec}, {angle}: {name} cell {got.tolist()}, spglib {want.tolist()}",
                    cell=cell,
                )
        res.count("groups depend on the tolerances", len(numbers) > 1)


# no two of the three sites are equivalent by translation unless two of them are of one kind
ARRANGEMENTS = (
    (np.diag([3.0, 3.0, 3.0]), [[0, 0, 0], [0.5, 0.5, 0.5], [0.5, 0.5, 0]]),
    (np.diag([3.0, 4.0, 5.0]), [[0.1, 0, 0], [0.6, 0.5, 0.5], [0.1, 0.5, 0.2]]),
)
WORDS = dict(
    names=("Fe1", "fe_2", "O", "o2", "Q1", "q1", "Q2", "12"),
    species=("Fe", "O", "X", "Cr", "F"),
    spglib_types=(1, 2, 7, 118),
)


def identifier(key, word):
    """What tells the kind of an atom, documented in get_spglib_types"""
    if key != "names":
        return word
    want = species_model(word)
    return word if want == {"X"} else next(iter(want))


def run_kinds(wulf, res, job):
    cell, pos = ARRANGEMENTS[job["arrangement"]]
    if job["key"] == "two":
        lists = []
        for s in itertools.product(("Fe", "O"), repeat=3):
            for a in itertools.product(("O1", "Fe", "Zq"), repeat=3):
                lists.append((dict(names=list(a), species=list(s)), "species"))
                lists.append((dict(species=list(s), names=list(a)), "species"))
                for t in ((1, 1, 1), (1, 2, 1), (3, 3, 2), (2, 1, 3)):
                    lists.append((dict(names=list(a), spglib_types=list(t)), "spglib_types"))
                    lists.append(
                        (dict(species=list(s), spglib_types=list(t), names=list(a)), "spglib_types")
                    )
    else:
        words = WORDS[job["key"]]
        lists = [
            (dict([(job["key"], list(x))]), job["key"]) for x in itertools.product(words, repeat=3)
        ]
    for extra, key in lists:
        ids = [identifier(key, x) for x in extra[key]]
        kinds = {}
        types = [kinds.setdefault(x, len(kinds) + 1) for x in ids]
        atoms = dict(extra, positions=np.array(pos))
        c = zoo.Crystal(cell, np.array(pos), types, f"{extra}")
        res.states += 1
        res.transitions += 1
        res.traces += 1
        data = wulf.get_spglib_data(cell, atoms)
        got = list(data.original_types)
        same = [[a == b for b in ids] for a in ids] == [[a == b for b in got] for a in got]
        if res.check(same, f"kinds/{extra}", f"kinds of {extra} are {got}, expected those of {ids}"):
            check_data(wulf, res, c, atoms, data, f"kinds/{extra}")


def check_data(wulf, res, c, atoms, data, key, symprec=1e-5, angle=-1):
    """The record agrees with spglib itself and with the input it was made from."""
    import spglib

    def ok(cond, what, text, **kw):
        return res.check(cond, f"{key}/{what}", f"{c.label}: {text}", **kw)

    ok(np.array_equal(np.asarray(data.original_cell), c.cell), "original", "original_cell differs")
    ok(
        np.array_equal(np.asarray(data.original_positions), np.array(atoms["positions"], float)),
        "original",
        "original_positions differ",
    )
    ok(
        list(data.original_types) == list(wulf.get_spglib_types(atoms)),
        "original",
        "original_types differ",
    )
    ok(data.symprec == symprec and data.angle_tolerance == angle, "tolerances", "not recorded")
    ref = spglib.get_symmetry_dataset(
        (c.cell, c.pos, c.types), symprec=symprec, angle_tolerance=angle
    )
    number = int(ref.number)
    entry = _by_number()[number]
    ok(data.space_group_number == number, "number", f"{data.space_group_number}, spglib {number}")
    ok(
        data.crystal_family == zoo.family(number),
        "family",
        f"group {number}: family {data.crystal_family!r}",
    )
    ok(
        data.centring_type == entry[0],
        "centring",
        f"group {number}: centring {data.centring_type!r}, symbol says {entry[0]!r}",
    )
    # same shape as spglib's own cells, in the orientation of the input
    for name, cell in (("conventional", ref.std_lattice),):
        got = np.asarray(getattr(data, f"{name}_cell"))
        ok(
            np.abs(got @ got.T - cell @ cell.T).max() < (1e-6 if symprec < 2e-5 else 1e-3),
            name,
            f"{name} cell has another shape than spglib's",
        )
    used = {}
    for a, b in zip(data.original_types, c.types):
        used[int(a)] = b
    for name in ("conventional", "primitive"):
        cell = np.asarray(getattr(data, f"{name}_cell"))
        pos = np.asarray(getattr(data, f"{name}_positions"))
        types = [used.get(int(t)) for t in getattr(data, f"{name}_types")]
        tol = 2e-6 if symprec < 2e-5 else 3 * symprec
        reason = cr.same_crystal(c.cell, c.pos, c.types, cell, pos, types, tol=tol)
        ok(reason is None, name, f"{name} cell and atoms: {reason}")
    n = len(cr.pure_translations(c.cell, c.pos, c.types, tol=2e-6 if symprec < 2e-5 else 2 * symprec))
    ratio = abs(np.linalg.det(data.primitive_cell)) * n / abs(np.linalg.det(c.cell))
    ok(abs(ratio - 1) < (1e-6 if symprec < 2e-5 else 1e-3), "primitive", f"{ratio:.4f} lattice points in the primitive cell")
    for name in ("space_group_number", "crystal_family", "conventional_cell", "symprec"):
        try:
            setattr(data, name, None)
            ok(False, "frozen", f"{name} can be overwritten")
        except (dataclasses.FrozenInstanceError, AttributeError):
            pass
    return number


_NUM = None


def _by_number():
    """number -> (centring letter of the international symbol, has inversion)"""
    global _NUM
    if _NUM is None:
        _NUM = {}
        for number, _, _, letter, inv in zoo.entries().values():
            _NUM.setdefault(number, (letter, inv))
    return _NUM


def run(job):
    import wulfric as wulf

    res = Result()
    entries = zoo.entries()
    if job["kind"] == "tolerances":
        run_tolerances(wulf, res, job)
    elif job["kind"] == "kinds":
        run_kinds(wulf, res, job)
    elif job["kind"] == "blur":
        import spglib

        for hall in job["halls"]:
            number = entries[hall][0]
            c0 = zoo.crystals(hall, 0)[0]
            if len(c0.pos) > 130:
                continue
            phase = np.arange(len(c0.pos))[:, None] * np.array([1.0, 1.7, 2.3])
            disp = np.sin(phase * 3.1) @ np.linalg.inv(c0.cell)
            for amp in AMPLITUDES:
                c = zoo.Crystal(c0.cell, c0.pos + amp * disp, c0.types, f"{c0.label}/blur{amp}")
                atoms = c.atoms()
                for tol in TOLERANCES:
                    # spglib itself with this tolerance
                    ref = spglib.get_symmetry_dataset((c.cell, c.pos, c.types), symprec=tol)
                    prim = spglib.find_primitive((c.cell, c.pos, c.types), symprec=tol)
                    if ref is None or prim is None:
                        res.count("spglib finds no symmetry")
                        continue
                    data = wulf.get_spglib_data(c.cell, atoms, spglib_symprec=tol)
                    res.states += 1
                    res.traces += 1
                    key = f"{c.label}/{tol}"
                    res.check(
                        data.space_group_number == ref.number,
                        f"{key}/number",
                        f"{c.label} with tolerance {tol}: {data.space_group_number} vs {ref.number}",
                    )
                    got, want = np.linalg.det(data.primitive_cell), np.linalg.det(prim[0])
                    res.check(
                        abs(abs(got / want) - 1) < 1e-6 and len(data.primitive_types) == len(prim[2]),
                        f"{key}/primitive volume",
                        f"{c.label} with tolerance {tol}: volume of the primitive cell {got}, spglib {want}; "
                        f"{len(data.primitive_types)} atoms, spglib {len(prim[2])}",
                    )
                    if tol > 0.1 or amp > 0.01:
                        # not small against the distances of the crystal any more
                        res.count("large tolerance")
                        continue
                    # tolerance far above the amplitude: the group of the ideal crystal;
                    # far below: that of the distorted one. The record agrees with spglib in between
                    if amp < tol / 20 or amp > tol * 3:
                        got = check_data(wulf, res, c, atoms, data, f"{c.label}/{tol}", tol)
                        if amp < tol / 20:
                            res.check(
                                got == number,
                                f"{c.label}/{tol}/ideal",
                                f"{c.label} with tolerance {tol}: group {got}, made with {number}",
                            )
                            res.count("ideal group found through the tolerance")
                        else:
                            res.count("distorted")
    else:
        for hall in job["halls"]:
            number = entries[hall][0]
            for i, c0 in enumerate(zoo.crystals(hall, job["level"])):
                depth = 1 if job["kind"] == "walk" else 0
                states, tr = zoo.reachable(c0, depth, zoo.ops(max_atoms=200))
                res.transitions += tr
                for j, (trace, c) in enumerate(states):
                    if depth and not trace:
                        continue
                    res.states += 1
                    res.traces += 1
                    atoms = zoo.with_keys(c, zoo.FORMS[(hall + i + j) % len(zoo.FORMS)])
                    data = wulf.get_spglib_data(c.cell, atoms)
                    got = check_data(
                        wulf, res, c, atoms, data, f"{c.label}/{'+'.join(trace) or 'direct'}"
                    )
                    res.check(
                        got == number,
                        f"{c.label}/{'+'.join(trace)}/group",
                        f"{c.label}: made with group {number}, found {got}",
                        trace=list(trace),
                    )
                    res.see("groups", got)
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    n = len(labels.get("groups", ()))
    r.check(n == 230, "coverage", f"{n} of 230 space groups reached")
