"""C11: variation / extended Bravais lattice symbol on both sides of, and on, every boundary."""

import itertools
from math import cos, pi, radians, sin, sqrt

import numpy as np

from mc import crystals as cr
from mc import model, tables, zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="ladders of metrics that cross every boundary between variations of every lattice type with "
        "more than one (steps 0, +-0.003%, +-0.05%, +-3%, +-20%) x space groups with and without inversion x 4 "
        "descriptions x both conventions; every metric of the 530 Hall settings; every documented name of sc_get_example and hpkot_get_example; "
        "grids of parameters of the 14 constructors of SC cells",
        thorough="15 steps, 17 descriptions, finer grids of parameters",
    ),
    assumptions=["on a boundary where the published definition leaves the choice open nothing is required"],
)

STEPS = (0.0, 3e-5, -3e-5, 5e-4, -5e-4, 0.03, -0.03, 0.2, -0.2)
STEPS_DEEP = STEPS + (6e-6, -6e-6, 2e-3, -2e-3, 0.4, -0.35)
GROUPS = {
    "tI": (139, 79, 82, 141),
    "oF": (69, 22, 43, 70),
    "oI": (71, 44, 23, 74),
    "oC": (65, 35, 20, 63),
    "oA": (38, 41),
    "hR": (166, 146, 155, 160, 167),
    "mC": (12, 5, 9, 15),
    "aP": (1, 2),
}


def gram_of(a, b, c, al, be, ga):
    al, be, ga = radians(al), radians(be), radians(ga)
    return np.array(
        [
            [a * a, a * b * cos(ga), a * c * cos(be)],
            [a * b * cos(ga), b * b, b * c * cos(al)],
            [a * c * cos(be), b * c * cos(al), c * c],
        ]
    )


def ladder(lt, steps):
    """Metrics of the conventional cell (database setting)"""
    out = []
    if lt == "tI":
        for a, d in itertools.product((3.1, 5.7), steps):
            out.append((a, a, a * (1 + d), 90, 90, 90))
    elif lt == "oF":
        for (y, z), d, axis in itertools.product(((4.0, 6.5), (5.0, 5.3), (7.7, 4.2)), steps, range(3)):
            x = 1 / sqrt((1 / y**2 + 1 / z**2) * (1 + d))
            p = [y, z]
            p.insert(axis, x)
            out.append((*p, 90, 90, 90))
    elif lt == "oI":
        for d, z, perm in itertools.product(steps, (2.2, 7.9), itertools.permutations(range(3))):
            p = (4.0, 4.0 * (1 + d), z)
            out.append((*(p[i] for i in perm), 90, 90, 90))
    elif lt in ("oC", "oA"):
        for d, z, perm in itertools.product(steps, (2.2, 7.9), itertools.permutations(range(3))):
            p = (4.0, 4.0 * (1 + d), z)
            out.append((*(p[i] for i in perm), 90, 90, 90))
    elif lt == "hR":
        for a, d in itertools.product((3.3, 6.1), steps):
            out.append((a, a, a * sqrt(1.5) * (1 + d), 90, 90, 120))
    elif lt == "mC":
        for be, c, d in itertools.product((97.0, 113.0, 125.0), (4.0, 7.5), steps):
            a = 6.0
            b = a * sin(radians(be)) * (1 + d)
            out.append((a, b, c, 90, be, 90))
            arg = 1 + a * cos(radians(be)) / c
            if arg > 0.05:
                b = a * sin(radians(be)) / sqrt(arg * (1 + d))
                out.append((a, b, c, 90, be, 90))
    elif lt == "aP":
        angles = (68.0, 84.0, 89.9, 90.0, 90.1, 96.0, 111.0)
        for ang in itertools.product(angles, repeat=3):
            for k in ((1.0, 1.3, 1.7), (2.0, 1.1, 1.05)):
                G = gram_of(*k, *ang)
                if np.linalg.eigvalsh(G).min() > 0.05:
                    out.append(np.linalg.inv(G) * (2 * pi) ** 2)
    return [p if isinstance(p, np.ndarray) else gram_of(*p) for p in out]


def positive(G):
    return np.linalg.eigvalsh(G).min() > 0.05


def jobs(tier):
    out = []
    deep = tier != "quick"
    for lt, groups in GROUPS.items():
        for number in groups:
            parts = 12 if lt == "aP" else 4 if lt == "mC" else 2
            for part in range(parts):
                out.append(dict(kind="ladder", lt=lt, number=number, part=part, parts=parts, deep=deep))
    for part in zoo.split(range(1, 531), 48):
        out.append(dict(kind="universe", halls=part, level=2 if not deep else 3))
    out += [dict(kind="sc-example"), dict(kind="hpkot-example")]
    out += [dict(kind="constructor", name=n, deep=deep) for n in CONSTRUCTORS]
    return out


def judge(wulf, res, c, number, lt, key):
    atoms = c.atoms()
    data = wulf.get_spglib_data(c.cell, atoms)
    if data.space_group_number != number:
        res.count("accidental symmetry")
        return
    conv, _ = wulf.crystal.get_conventional(c.cell, atoms, convention=zoo.spell("HPKOT", key), **zoo.own(data, key))
    want = model.hpkot_symbol(number, lt, conv)
    if want is not None:
        got = wulf.crystal.hpkot_get_extended_bl_symbol(c.cell, atoms, **zoo.own(data, key, 1))
        path, pts = wulf.kpoints.get_path_and_points(c.cell, atoms, convention="HPKOT", spglib_data=data)
        res.traces += 2
        res.see("HPKOT", want)
        res.check(
            got == want,
            f"{key}/HPKOT",
            f"{c.label}: extended symbol {got!r}, the definition gives {want!r}",
            conventional=conv, parameters=model.params(conv), **c.describe(),
        )  # fmt: skip
        if want in tables.HPKOT_PATHS:
            res.check(
                path == model.path("HPKOT", want),
                f"{key}/HPKOT/path",
                f"{c.label} ({want}): path {path!r}",
                **c.describe(),
            )
    else:
        res.count("HPKOT boundary")
    conv, _ = wulf.crystal.get_conventional(c.cell, atoms, convention="SC", spglib_data=data)
    want = model.sc_variation(lt, conv)
    if want is not None:
        got = wulf.crystal.sc_get_variation(c.cell, atoms, **zoo.own(data, key))
        res.traces += 2
        res.see("SC", want)
        res.check(
            got == want,
            f"{key}/SC",
            f"{c.label}: variation {got!r}, the definition gives {want!r}",
            conventional=conv, parameters=model.params(conv), **c.describe(),
        )  # fmt: skip
        if want in tables.SC_PATHS:
            path, pts = wulf.kpoints.get_path_and_points(
                c.cell, atoms, convention=zoo.spell("SC", key, 1), **zoo.own(data, key, 1)
            )
            res.check(
                path == model.path("SC", want),
                f"{key}/SC/path",
                f"{c.label} ({want}): path {path!r}",
                **c.describe(),
            )
    else:
        res.count("SC boundary")


# ------------------------------------------------------------------------------------------
# Constructors: documented matrices, and what they are for
# ------------------------------------------------------------------------------------------
def R(x):
    return radians(x)


CONSTRUCTORS = {
    # name: (lattice type, parameters, documented matrix, obeys the convention)
    "CUB": ("cP", "a", lambda a: [[a, 0, 0], [0, a, 0], [0, 0, a]], lambda a: True),
    "FCC": ("cF", "a", lambda a: [[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]], lambda a: True),
    "BCC": (
        "cI", "a",
        lambda a: [[-a / 2, a / 2, a / 2], [a / 2, -a / 2, a / 2], [a / 2, a / 2, -a / 2]],
        lambda a: True,
    ),
    "TET": ("tP", "ac", lambda a, c: [[a, 0, 0], [0, a, 0], [0, 0, c]], lambda a, c: a != c),
    "BCT": (
        "tI", "ac",
        lambda a, c: [[-a / 2, a / 2, c / 2], [a / 2, -a / 2, c / 2], [a / 2, a / 2, -c / 2]],
        lambda a, c: a != c,
    ),
    "ORC": ("oP", "abc", lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]], lambda a, b, c: a < b < c),
    "ORCF": (
        "oF", "abc",
        lambda a, b, c: [[0, b / 2, c / 2], [a / 2, 0, c / 2], [a / 2, b / 2, 0]],
        lambda a, b, c: a < b < c,
    ),
    "ORCI": (
        "oI", "abc",
        lambda a, b, c: [[-a / 2, b / 2, c / 2], [a / 2, -b / 2, c / 2], [a / 2, b / 2, -c / 2]],
        lambda a, b, c: a < b < c,
    ),
    "ORCC": (
        "oC", "abc",
        lambda a, b, c: [[a / 2, -b / 2, 0], [a / 2, b / 2, 0], [0, 0, c]],
        lambda a, b, c: a < b and c not in (a, b),
    ),
    "HEX": (
        "hP", "ac",
        lambda a, c: [[a / 2, -a * sqrt(3) / 2, 0], [a / 2, a * sqrt(3) / 2, 0], [0, 0, c]],
        lambda a, c: True,
    ),
    "RHL": (
        "hR", "ar",
        lambda a, al: [
            [a * cos(R(al) / 2), -a * sin(R(al) / 2), 0],
            [a * cos(R(al) / 2), a * sin(R(al) / 2), 0],
            [
                a * cos(R(al)) / cos(R(al) / 2), 0,
                a * sqrt(1 - cos(R(al)) ** 2 / cos(R(al) / 2) ** 2),
            ],
        ],
        lambda a, al: True,
    ),
    "MCL": (
        "mP", "abcm",
        lambda a, b, c, al: [[a, 0, 0], [0, b, 0], [0, c * cos(R(al)), c * sin(R(al))]],
        # b and c are the two shortest vectors of the plane
        lambda a, b, c, al: b < c and c * cos(R(al)) < b / 2 - 1e-6,
    ),
    "MCLC": (
        "mC", "abcm",
        lambda a, b, c, al: [[a / 2, b / 2, 0], [-a / 2, b / 2, 0], [0, c * cos(R(al)), c * sin(R(al))]],
        lambda a, b, c, al: None,
    ),
    "TRI": (
        "aP", "abcttt",
        lambda a, b, c, al, be, ga: [
            [a, 0, 0],
            [b * cos(R(ga)), b * sin(R(ga)), 0],
            [
                c * cos(R(be)),
                c * (cos(R(al)) - cos(R(be)) * cos(R(ga))) / sin(R(ga)),
                c / sin(R(ga)) * sqrt(
                    sin(R(ga)) ** 2 - cos(R(al)) ** 2 - cos(R(be)) ** 2
                    + 2 * cos(R(al)) * cos(R(be)) * cos(R(ga))
                ),
            ],
        ],
        lambda *p: None,
    ),
}  # fmt: skip

VALUES = dict(
    a=(2.3, 3.0, 4.1, 6.5), b=(2.3, 3.3, 4.1, 5.2, 6.5), c=(2.3, 3.7, 4.1, 6.5, 8.0),
    r=(35.0, 55.0, 72.0, 95.0, 111.0), m=(52.0, 68.0, 79.0, 88.0), t=(55.0, 80.0, 93.0, 104.0),
)  # fmt: skip
VALUES_DEEP = dict(
    a=(1.7, 2.3, 3.0, 4.1, 5.0, 6.5), b=(1.9, 2.3, 3.3, 4.1, 5.2, 6.5, 9.0),
    c=(1.5, 2.3, 3.7, 4.1, 6.5, 8.0, 11.0),
    r=(20.0, 35.0, 55.0, 72.0, 85.0, 95.0, 103.0, 111.0, 116.0), m=(41.0, 52.0, 60.0, 68.0, 79.0, 84.0, 88.0),
    t=(48.0, 55.0, 71.0, 80.0, 93.0, 104.0, 115.0),
)  # fmt: skip


def constructor(wulf, res, name, deep):
    lt, pars, matrix, obeys = CONSTRUCTORS[name]
    f = getattr(wulf.cell, "SC_" + name)
    values = VALUES_DEEP if deep and name != "TRI" else VALUES
    lone = dict(positions=[[0, 0, 0]], spglib_types=[1])
    for i, p in enumerate(itertools.product(*(values[x] for x in pars))):
        res.states += 1
        if name == "TRI":
            al, be, ga = p[3:]
            ok = 1 + 2 * cos(R(al)) * cos(R(be)) * cos(R(ga)) - sum(cos(R(x)) ** 2 for x in p[3:])
            if ok < 1e-3 or i % 3:
                continue
        want = np.array(matrix(*p), float)
        got = np.asarray(f(*p))
        res.traces += 1
        if not res.check(
            np.abs(got - want).max() < 1e-8,
            f"SC_{name}{p}",
            f"SC_{name}{p} is {got.tolist()}, documented {want.tolist()}",
        ):
            return
        if name == "TRI":
            r = np.asarray(f(*p, input_reciprocal=True))
            res.check(
                np.abs(r - 2 * pi * np.linalg.inv(want).T).max() < 1e-8,
                f"SC_TRI{p}/reciprocal",
                f"SC_TRI{p}: input_reciprocal=True is not the reciprocal cell",
            )
        rule = obeys(*p)
        if rule is False:
            continue
        data = wulf.get_spglib_data(got, lone)
        if data.crystal_family + data.centring_type != lt:
            res.count("accidental symmetry")
            continue
        prim, _ = wulf.crystal.get_primitive(got, lone, convention="SC", spglib_data=data)
        same = np.abs(prim @ prim.T - got @ got.T).max() < 1e-5
        if rule is True:
            res.check(
                same,
                f"SC_{name}{p}/primitive",
                f"SC_{name}{p} obeys the convention but it is not the SC primitive cell of its lattice",
                primitive=prim,
            )
            res.count(f"SC_{name} primitive")
        if same:
            conv, _ = wulf.crystal.get_conventional(got, lone, convention="SC", spglib_data=data)
            v = model.sc_variation(lt, conv)
            if v is not None:
                g = wulf.crystal.sc_get_variation(got, lone, spglib_data=data)
                res.see("SC", v)
                res.check(g == v, f"SC_{name}{p}/variation", f"SC_{name}{p}: variation {g!r}, expected {v!r}")


def sc_examples(wulf, res):
    names = [n for n in tables.SC_PATHS]
    lone = dict(positions=[[0, 0, 0]], spglib_types=[1])
    for n in names:
        cells = []
        for text in (n, n.lower(), n.upper(), n.swapcase()):
            res.states += 1
            cells.append(np.asarray(wulf.cell.sc_get_example(text)))
        res.check(
            all(np.array_equal(x, cells[0]) for x in cells), f"{n}/case", f"{n}: depends on the case"
        )
        ex = cells[0]
        for trace, c in zoo.reachable(zoo.Crystal(ex, [[0, 0, 0]], [1], n), 1, zoo.ops(8))[0]:
            got = wulf.crystal.sc_get_variation(c.cell, c.atoms())
            path, _ = wulf.kpoints.get_path_and_points(c.cell, c.atoms(), convention="SC")
            res.traces += 2
            res.states += 1
            res.see("SC", got)
            # k_gamma = 90: inverting one vector exchanges TRI2a and TRI2b, both settings are standard
            either = ("TRI2a", "TRI2b") if trace and n in ("TRI2a", "TRI2b") else (n,)
            res.check(
                got in either,
                f"{n}/variation/{'+'.join(trace)}",
                f"the example of {n} is classified as {got} after {trace}",
                cell=c.cell,
            )
            res.check(
                path == model.path("SC", got), f"{n}/path/{'+'.join(trace)}", f"{n}: path {path!r}"
            )
    short = {}
    for n in names:
        short.setdefault(n.rstrip("ab").rstrip("12345"), []).append(n)
    for s, full in short.items():
        for text in (s, s.lower()):
            res.states += 1
            c = wulf.cell.sc_get_example(text)
            got = wulf.crystal.sc_get_variation(c, lone)
            res.check(got in full, f"{s}/short", f"the example of {text!r} is a {got}")
    for bad in ("", "cubic", "BCT3", "TRI3a", None, 5, "ORCF4", " CUB"):
        res.states += 1
        try:
            wulf.cell.sc_get_example(bad)
            res.violation(f"accepted/{bad}", f"there is an example of {bad!r}")
        except ValueError:
            res.traces += 1


def hpkot_examples(wulf, res):
    import spglib

    names = list(tables.HPKOT_PATHS)
    for n in names:
        for inv in (False, True):
            res.states += 1
            if inv and n in ("oF2", "oI2", "oA1", "oA2"):
                try:
                    wulf.crystal.hpkot_get_example(n, with_inversion=True)
                    res.violation(f"{n}/inversion", f"{n} with inversion accepted")
                except ValueError:
                    res.traces += 1
                continue
            cell, atoms = wulf.crystal.hpkot_get_example(n, with_inversion=inv)
            data = wulf.get_spglib_data(cell, atoms)
            got = wulf.crystal.hpkot_get_extended_bl_symbol(cell, atoms, spglib_data=data)
            res.traces += 1
            res.see("HPKOT", got)
            res.check(got == n, f"{n}/{inv}", f"the example of {n} is classified as {got}")
            rots = spglib.get_symmetry(
                (cell, atoms["positions"], [int(t) for t in wulf.get_spglib_types(atoms)])
            )["rotations"]
            has = any((r == -np.eye(3, dtype=int)).all() for r in rots)
            res.check(has == inv, f"{n}/{inv}/has", f"the example of {n}: inversion {has}, asked {inv}")
            path, pts = wulf.kpoints.get_path_and_points(
                cell, atoms, convention="HPKOT", with_time_reversal=False, spglib_data=data
            )
            want = model.path("HPKOT", n)
            if not inv:
                want = model.extended(want, [])[0]
            res.check(path == want, f"{n}/{inv}/path", f"the example of {n}: path {path!r}")
    for s in sorted({n[:2] for n in names}):
        cell, atoms = wulf.crystal.hpkot_get_example(s)
        got = wulf.crystal.hpkot_get_extended_bl_symbol(cell, atoms)
        res.states += 1
        res.check(got.startswith(s), f"{s}/short", f"the example of {s} is classified as {got}")
    for bad in ("", "cP3", "CP1", "xx", "aP1", "oA3", "c"):
        res.states += 1
        try:
            wulf.crystal.hpkot_get_example(bad)
            res.violation(f"accepted/{bad}", f"there is an example of {bad!r}")
        except ValueError:
            res.traces += 1


WALK = ("cycle", "skew", "rotate", "interleave")


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "sc-example":
        sc_examples(wulf, res)
        return res
    if job["kind"] == "hpkot-example":
        hpkot_examples(wulf, res)
        return res
    if job["kind"] == "constructor":
        constructor(wulf, res, job["name"], job["deep"])
        return res
    if job["kind"] == "universe":
        for hall in job["halls"]:
            number, letter = zoo.entries()[hall][0], zoo.entries()[hall][3]
            lt = model.lattice_type(number, letter)
            for i, c in enumerate(zoo.crystals(hall, job["level"])):
                res.states += 1
                judge(wulf, res, c, number, lt, f"universe/{hall}/{i}")
        return res
    hall = cr.standard_halls()[job["number"]]
    lt = job["lt"]
    ops = zoo.ops(60)
    ops = [ops[n] for n in (ops if job["deep"] else WALK[:3])]
    for i, G in enumerate(ladder(lt, STEPS_DEEP if job["deep"] else STEPS)):
        if i % job["parts"] != job["part"]:
            continue
        cell, pos, typ = cr.crystal_from_hall(hall, G)
        if not positive(cell @ cell.T):
            continue
        c0 = zoo.Crystal(cell, pos, typ, f"{lt} group {job['number']} ladder {i}")
        for k, op in enumerate([lambda c: c] + ops):
            c = op(c0)
            if c is None:
                continue
            res.states += 1
            res.transitions += 1
            judge(wulf, res, c, job["number"], lt, f"{lt}/{job['number']}/{i}/{k}")
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    for conv, table in (("HPKOT", tables.HPKOT_PATHS), ("SC", tables.SC_PATHS)):
        fixed = {"cP1", "cP2", "cF1", "cF2", "cI1", "tP1", "oP1", "hP1", "hP2", "mP1"}
        missing = set(table) - fixed - labels.get(conv, set())
        r.check(not missing, f"coverage/{conv}", f"{conv}: not reached {sorted(missing)}")
