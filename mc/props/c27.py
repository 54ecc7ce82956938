"""C27: nothing depends on the unit of length.

The states are crystals, cells and vectors together with the unit in which they are written; the
transitions change the unit. Every answer in the new unit has to be the answer in the old one,
converted. Tolerances that are lengths are converted as well.
"""

import itertools

import numpy as np

from mc import crystals as cr
from mc import tables, zoo
from mc.core import NotTerminated, Result
from mc.props.c04 import differs, observe

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all 530 settings (one metric, the given and one other description) x 3 conventions and all Bravais "
        "lattices and SC examples (4 metrics), each in 7 units (factors from 0.03 to 16, with the tolerance converted; 4 of "
        "them also with the default tolerance); cells of the universe and vectors of a grid with factors 1e-10 to 1e10 for "
        "the functions without tolerances",
        thorough="four metrics of every setting, six descriptions, 11 units",
    ),
    assumptions=[
        "lengths of crystals between 0.01 and 1000; beyond, spglib itself and the reduction tolerance of the Niggli cell decide"
    ],
)

UNITS = (0.1, 1 / 0.529177, 0.125, 8.0, 0.05, 16.0, 0.03)
MORE = (10.0, 0.0625, 3.0, 32.0)
DEFAULT = (0.1, 1 / 0.529177, 8.0, 0.125)
FACTORS = (1e-6, 1e-3, 0.1, 1 / 0.529177, 10.0, 1e3, 1e6, 0.5, 64.0)
# angstroms in metres; for the functions that have no tolerance of lengths
EXTREME = (1e-10, 1e10)


def jobs(tier):
    deep = tier != "quick"
    out = []
    for p in zoo.split(range(1, 531), 48 if not deep else 140):
        out.append(dict(kind="crystals", halls=p, deep=deep))
    for i in range(len(zoo.BRAVAIS_SG)):
        out.append(dict(kind="bravais", index=i, deep=deep))
    out.append(dict(kind="examples", deep=deep))
    for i in range(len(zoo.BRAVAIS_SG)):
        out.append(dict(kind="cells", index=i, deep=deep))
        out.append(dict(kind="zones", index=i, deep=deep))
    out.append(dict(kind="vectors", deep=deep))
    return sorted(out, key=lambda j: j["kind"] != "zones")


def converted(obs, s):
    out = dict(obs)
    for k, v in obs.items():
        if k.startswith("metric"):
            out[k] = v / s**2
        if k.startswith("lengths and angles"):
            out[k] = v * s**2
    return out


def compare(w, res, cell, atoms, label, units, conventions=zoo.CONVENTIONS):
    for conv in conventions:
        ref, _ = observe(w, cell, atoms, conv)
        for s in units:
            for tolerance in ("converted",) + (("default",) if s in DEFAULT else ()):
                res.states += 1
                res.transitions += 1
                res.traces += 1
                big = np.array(cell) * s
                key = f"{label}/{conv}/{s:.6g}/{tolerance}"
                if tolerance == "converted":
                    data = w.get_spglib_data(big, atoms, spglib_symprec=1e-5 * s)
                else:
                    data = None
                try:
                    k = differs(ref, got := converted(observe(w, big, atoms, conv, data)[0], s))
                except NotTerminated:
                    raise
                except Exception as e:
                    res.violation(key, f"{conv} of {label} in another unit (x {s:.6g}): {type(e).__name__}: {str(e)[:200]}")
                    continue
                if k:
                    res.violation(
                        key, f"{conv} of {label} in another unit (x {s:.6g}): {k} is {got[k]}, expected {ref[k]}"
                    )
        res.count(conv)


def run_crystals(w, res, job):
    units = UNITS + (MORE if job["deep"] else ())
    operations = zoo.ops(max_atoms=100)
    names = list(operations)
    for hall in job["halls"]:
        for c in zoo.crystals(hall, 1 if job["deep"] else 0):
            # the unit is changed in the given description and in another one
            others = names[hall % 4 :: 4] if job["deep"] else [names[hall % len(names)]]
            states = [("", c)] + [(n, operations[n](c)) for n in others]
            for name, d in states:
                if d is not None:
                    here = units if not name else units[hall % 2 :: 2] if job["deep"] else units[hall % 3 :: 3]
                    compare(w, res, d.cell, d.atoms(), f"{c.label}/{name}", here)


def scaled_metric(cell, s):
    return np.array(cell) @ np.array(cell).T / s**2


def close(a, b, scale):
    return np.abs(np.array(a) - np.array(b)).max() <= 1e-9 * scale


def run_cells(w, res, job):
    """Functions that work on a cell alone"""
    bl = list(zoo.BRAVAIS_SG)[job["index"]]
    for c in zoo.bravais_crystals(1):
        if not c.label.startswith(bl + "/"):
            continue
        states, tr = zoo.reachable(c, 1, {n: f for n, f in zoo.ops(max_atoms=1).items()})
        res.transitions += tr
        for trace, d in states:
            cell, n = d.cell, np.linalg.norm(d.cell)
            pos = np.array([[0.1, 0.2, 0.3], [-0.4, 1.7, 0.0]])
            atoms = dict(names=["A", "B"], positions=pos)
            params = w.cell.get_params(cell)
            rec = w.cell.get_reciprocal(cell)
            niggli = w.cell.get_niggli(cell)
            for s in FACTORS + EXTREME:
                big = cell * s
                res.states += 1
                res.transitions += 1
                key = f"cell/{c.label}/{'+'.join(trace)}/{s:.6g}"

                def same(name, got, want, size):
                    res.traces += 1
                    if not (np.shape(got) == np.shape(want) and close(got, want, size)):
                        res.violation(f"{key}/{name}", f"{name} of {big.tolist()}: {got}, in the unit x {s:.6g} smaller: {want}")

                p = w.cell.get_params(big)
                same("get_params (lengths)", np.array(p[:3]) / s, params[:3], n)
                same("get_params (angles)", p[3:], params[3:], 180)
                same("get_scalar_products", np.array(w.cell.get_scalar_products(big)) / s**2, w.cell.get_scalar_products(cell), n * n)
                same("get_reciprocal", w.cell.get_reciprocal(big) * s, rec, np.linalg.norm(rec))
                same("get_volume", w.geometry.get_volume(big) / s**3, w.geometry.get_volume(cell), n**3)
                same("get_volume (parameters)", w.geometry.get_volume(*p) / s**3, w.geometry.get_volume(*params), n**3)
                if s not in EXTREME:
                    same("from_params", w.cell.from_params(*p) / s, w.cell.from_params(*params), n)
                same("get_transformation_matrix", w.cell.get_transformation_matrix(big, niggli * s), w.cell.get_transformation_matrix(cell, niggli), 20)
                same("get_lattice_points", w.cell.get_lattice_points(big) / s, w.cell.get_lattice_points(cell), n)
                same("get_vector", w.crystal.get_vector(big, atoms, 0, 1, R=(1, 0, -2)) / s, w.crystal.get_vector(cell, atoms, 0, 1, R=(1, 0, -2)), n)
                same("get_distance", w.crystal.get_distance(big, atoms, 0, 1) / s, w.crystal.get_distance(cell, atoms, 0, 1), n)
                res.check(
                    s in EXTREME
                    or w.geometry.parallelepiped_check(*p) is w.geometry.parallelepiped_check(*params),
                    f"{key}/parallelepiped_check",
                    f"parallelepiped_check of {p} differs from the one of {params}",
                )
                kps = [
                    w.Kpoints(r, coordinates=[[0, 0, 0], [0.5, 0, 0], [0.5, 0.25, 0]], names=["G", "X", "M"], path="G-X-M|G-M", n=3)
                    for r in (rec * s, rec)
                ]
                size = np.linalg.norm(rec)
                for name, f in (
                    ("Kpoints.ticks", lambda k: k.ticks()),
                    ("Kpoints.points", lambda k: k.points()),
                    ("Kpoints.flat_points", lambda k: k.flat_points()),
                ):
                    same(name, f(kps[0]) / s, f(kps[1]), 9 * size)
                if 0.05 < s < 100:
                    for implementation in ("wulfric", "spglib"):
                        g = w.cell.get_niggli(big, implementation=implementation)
                        same(f"get_niggli ({implementation})", scaled_metric(g, s), scaled_metric(niggli, 1), 1e3 * n * n)


def run_zones(w, res, job):
    """Vertices and edges of the two zones, as sets"""
    bl = list(zoo.BRAVAIS_SG)[job["index"]]
    cs = [c for c in zoo.bravais_crystals(1) if c.label.startswith(bl + "/")]
    factors = FACTORS + EXTREME if job["deep"] else (1e-6, 1 / 0.529177, 1e10)
    for n, c in enumerate(cs):
        if n and not job["deep"]:
            factors = (1e-6, 1e6)
        for name in ("get_wigner_seitz_cell", "get_brillouin_zone"):
            f = getattr(w.cell, name)
            v0, e0 = (np.array(x) for x in f(c.cell))
            for s in factors:
                res.states += 1
                res.transitions += 1
                res.traces += 1
                t = s if name == "get_wigner_seitz_cell" else 1 / s
                v1, e1 = (np.array(x) for x in f(c.cell * s))
                v1 = v1 / t
                key = f"zones/{c.label}/{name}/{s:.6g}"
                size = np.abs(v0).max()
                ok = len(v0) == len(v1) and len(e0) == len(e1)
                if ok:
                    d = np.linalg.norm(v0[:, None] - v1[None], axis=2)
                    m = d.argmin(axis=1)
                    ok = d.min(axis=1).max() < 1e-6 * size and len(set(m)) == len(m)
                    ok = ok and {frozenset((int(m[i]), int(m[j]))) for i, j in e0} == {
                        frozenset((int(i), int(j))) for i, j in e1
                    }
                res.check(ok, key, f"{name} of {c.label} x {s:.6g} is not that of {c.label}: {len(v1)} vertices, {len(e1)} edges")


def run_vectors(w, res):
    grid = [np.array(v, float) for v in itertools.product((-2, -1, 0, 1, 3), repeat=3) if any(v)]
    axes = ([0, 0, 1], [1, 1, 0], [1, -2, 3])
    for v in grid:
        for s in FACTORS + EXTREME:
            res.states += 1
            res.transitions += 1
            for u in grid[:: 13]:
                for t in (1.0, s, 1 / s):
                    res.traces += 1
                    a, b = w.geometry.get_angle(v * s, u * t), w.geometry.get_angle(v, u)
                    if not abs(a - b) < 1e-5 or not (abs(a - b) < 1e-9 or min(b, 180 - b) < 1e-3):
                        res.violation(f"vectors/angle/{v}/{u}/{s:.6g}", f"angle of {v * s} and {u * t} is {a}, of {v} and {u} it is {b}")
            for axis in axes:
                zero = np.cross(axis, [0.3, 1, 0.2])
                if np.linalg.norm(np.cross(v, axis)) < 1e-9:
                    continue
                a = w.geometry.get_spherical(v * s, polar_axis=axis, radial_line_zero=zero)
                b = w.geometry.get_spherical(v, polar_axis=axis, radial_line_zero=zero)
                d = w.geometry.get_spherical(v * s, polar_axis=np.array(axis) * s, radial_line_zero=zero / s)
                res.traces += 2
                for x in (a, d):
                    turn = abs(x[2] - b[2]) % 360
                    if not (abs(x[0] / s - b[0]) < 1e-9 * b[0] and abs(x[1] - b[1]) < 1e-6 and min(turn, 360 - turn) < 1e-5):
                        res.violation(f"vectors/spherical/{v}/{axis}/{s:.6g}", f"spherical angles of {v * s}: {x}, of {v}: {b}")


def run(job):
    import warnings

    import wulfric as w

    warnings.simplefilter("ignore")
    res = Result()
    kind = job["kind"]
    units = UNITS + (MORE if job["deep"] else ())
    if kind == "crystals":
        run_crystals(w, res, job)
    elif kind == "bravais":
        bl = list(zoo.BRAVAIS_SG)[job["index"]]
        for c in zoo.bravais_crystals(2 if job["deep"] else 1):
            if c.label.startswith(bl + "/"):
                compare(w, res, c.cell, c.atoms(), c.label, units)
    elif kind == "examples":
        for name in tables.SC_VARIATIONS if hasattr(tables, "SC_VARIATIONS") else w.constants.SC_BRAVAIS_LATTICE_VARIATIONS:
            cell = w.cell.sc_get_example(name)
            # ORCF3 is on a border of the other convention
            compare(w, res, cell, dict(positions=[[0, 0, 0]], spglib_types=[1]), name, units, ("SC", "spglib"))
        for name in w.constants.HPKOT_EXTENDED_BL_SYMBOLS:
            cell, atoms = w.crystal.hpkot_get_example(name)
            compare(w, res, cell, atoms, name, units, ("HPKOT", "spglib"))
        # half a percent from a border of the variations
        one = dict(positions=[[0, 0, 0]], spglib_types=[1])
        for b, c in ((4.0, 4.3), (4.0, 9.0), (5.5, 6.0)):
            for f in (0.995, 1.005):
                a = f / np.sqrt(1 / b**2 + 1 / c**2)
                compare(w, res, w.cell.SC_ORCF(a, b, c), one, f"ORCF {f} {b} {c}", units)
        for f in (0.995, 1.005):
            compare(w, res, w.cell.SC_BCT(4.0, 4.0 * f), one, f"BCT {f}", units)
            compare(w, res, w.cell.SC_RHL(4.0, 90 * f), one, f"RHL {f}", units)
            compare(w, res, w.cell.SC_MCLC(4.0, 5.0, 6.0, 89 * f), one, f"MCLC {f}", units)
    elif kind == "cells":
        run_cells(w, res, job)
    elif kind == "zones":
        run_zones(w, res, job)
    else:
        run_vectors(w, res)
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    for conv in zoo.CONVENTIONS:
        r.check(counters.get(conv, 0) > 500, "coverage", f"too few crystals were converted with {conv}")
