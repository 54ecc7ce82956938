"""C22: reused symmetry data give the same answers; foreign data are rejected."""

import numpy as np

from mc import crystals as cr
from mc import zoo
from mc.core import Result
from mc.props import c04

INFO = dict(
    level="model_checking",
    space=dict(
        quick="reuse: 230 standard settings x (direct + 2 re-descriptions) x every function x every "
        "convention; tolerance: 230 settings distorted, 2 amplitudes; foreign: 14 lattices with "
        "1 to 4 atoms x every single-entry change of cell, positions and kinds, both directions, "
        "x every function x every convention; the same changes made in place after the data were made",
        thorough="reuse: every operation once; foreign: two further magnitudes",
    ),
    assumptions=["spglib finds the ideal group when its tolerance is far above the distortion"],
)

CONVENTIONS = zoo.CONVENTIONS


class Spoiled:
    """A thing that is not a SpglibData object"""


def functions(w):
    """every function that accepts the data: name -> call(cell, atoms, data)"""
    out = {}
    for conv in CONVENTIONS:
        out[f"get_conventional[{conv}]"] = lambda c, a, d, conv=conv: w.crystal.get_conventional(
            c, a, convention=conv.upper(), spglib_data=d
        )
        out[f"get_primitive[{conv}]"] = lambda c, a, d, conv=conv: w.crystal.get_primitive(
            c, a, convention=conv, spglib_data=d
        )
    for conv in ("HPKOT", "SC"):
        for tr in (True, False):
            out[f"get_path_and_points[{conv},{tr}]"] = (
                lambda c, a, d, conv=conv, tr=tr: w.kpoints.get_path_and_points(
                    c, a, spglib_data=d, convention=conv, with_time_reversal=tr
                )
            )
            out[f"Kpoints.from_crystal[{conv},{tr}]"] = (
                lambda c, a, d, conv=conv, tr=tr: kp(
                    w.Kpoints.from_crystal(
                        c, a, convention=conv.lower(), with_time_reversal=tr, spglib_data=d
                    )
                )
            )
    out["get_path_and_points[absolute]"] = lambda c, a, d: w.kpoints.get_path_and_points(
        c, a, spglib_data=d, relative=False
    )
    out["hpkot_get_extended_bl_symbol"] = (
        lambda c, a, d: w.crystal.hpkot_get_extended_bl_symbol(c, a, spglib_data=d)
    )
    out["sc_get_variation"] = lambda c, a, d: w.crystal.sc_get_variation(c, a, spglib_data=d)
    return out


def kp(k):
    return dict(
        rcell=k.rcell,
        names=k.hs_names,
        coordinates=k.hs_coordinates,
        labels=k.hs_labels,
        path=k.path_string,
        n=k.n,
    )


def answer(f, *args):
    try:
        return f(*args)
    except ValueError as e:
        return ("ValueError", str(e)[:60])


def equal(a, b, tol=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "if" and y.dtype.kind in "if":
        return bool(np.abs(x - y).max() <= tol) if x.size else True
    return bool(np.all(x == y))


def jobs(tier):
    out = []
    halls = list(cr.standard_halls().values())
    for p in zoo.split(halls, 46):
        out.append(dict(kind="reuse", halls=p, depth=0 if tier == "quick" else 1))
        out.append(dict(kind="tolerance", halls=p))
    for family in ("oF", "mC-angle", "mC-lengths", "aP"):
        for m in range(2 if tier == "quick" else 6):
            out.append(dict(kind="boundary", family=family, metric=m))
    for i in range(len(zoo.BRAVAIS_SG)):
        for n in (1, 2, 4):
            out.append(dict(kind="foreign", index=i, extra=n, deep=tier != "quick"))
    return out


def run_reuse(w, res, job):
    fs = functions(w)
    for hall in job["halls"]:
        c0 = zoo.crystals(hall, 0)[0]
        if job["depth"]:
            states, tr = zoo.reachable(c0, 1, zoo.ops(max_atoms=100))
        else:
            ops = zoo.ops(max_atoms=100)
            states, tr = [((), c0)], 2
            for name in ("double-a" if hall % 2 else "skew", "interleave" if hall % 3 else "wrap"):
                d = ops[name](c0)
                if d is not None:
                    states.append(((name,), d))
        res.transitions += tr
        for j, (trace, c) in enumerate(states):
            res.states += 1
            # data made from one form of the atoms, reused with another form of the same atoms
            made = zoo.with_keys(c, zoo.FORMS[(hall + j) % len(zoo.FORMS)])
            used = c.atoms()
            used["spglib_types"] = list(w.get_spglib_types(made))
            used["note"] = [f"#{i}" for i in range(len(c.pos))]
            data = w.get_spglib_data(c.cell, made)
            for name, f in fs.items():
                res.transitions += 1
                want = answer(f, c.cell, used, None)
                for what, got in (
                    ("first use", answer(f, c.cell, used, data)),
                    ("second use", answer(f, c.cell, used, data)),
                    ("cell as a list", answer(f, c.cell.tolist(), used, data)),
                ):
                    res.traces += 1
                    if not equal(want, got):
                        res.violation(
                            f"{c.label}/{'+'.join(trace)}/{name}/{what}",
                            f"{name} of {c.label} ({'+'.join(trace) or 'direct'}) with its own data, "
                            f"{what}: {got}, without {want}",
                            **c.describe(),
                        )
            res.traces += 1
            res.check(
                w.validate_spglib_data(c.cell, used, data) is None,
                f"{c.label}/{'+'.join(trace)}/validate",
                f"{c.label}: own data are not accepted",
            )


STRAIN = np.array([[0.7, 0.3, -0.5], [0.3, -0.4, 0.2], [-0.5, 0.2, 0.6]])


def run_tolerance(w, res, job):
    for hall in job["halls"]:
        c0 = zoo.crystals(hall, 0)[0]
        if len(c0.pos) > 100:
            continue
        phase = np.arange(len(c0.pos))[:, None] * np.array([1.0, 1.7, 2.3])
        disp = np.sin(phase * 3.1) @ np.linalg.inv(c0.cell)
        atoms0 = c0.atoms()
        for amp, tol in ((2e-4, 1e-2), (1e-3, 3e-2)):
            # conditions that are compared with the tolerance (ORCF3) depend on it by design
            same = w.get_spglib_data(c0.cell, atoms0, spglib_symprec=tol)
            ideal = {c: c04.observe(w, c0.cell, atoms0, c, same)[0] for c in CONVENTIONS}
            cell = c0.cell @ (np.eye(3) + 0.1 * amp * STRAIN)
            c = zoo.Crystal(cell, c0.pos + amp * disp, c0.types, f"{c0.label}/distorted{amp}")
            atoms = c.atoms()
            number = w.get_spglib_data(c0.cell, atoms0).space_group_number
            data = w.get_spglib_data(c.cell, atoms, spglib_symprec=tol)
            fine = w.get_spglib_data(c.cell, atoms)
            if fine.space_group_number != number:
                res.count("data of the default tolerance see another group")
            for conv in CONVENTIONS:
                res.states += 1
                res.transitions += 1
                got = c04.observe(w, c.cell, atoms, conv, data)[0]
                k = loose(ideal[conv], got, 20 * amp)
                res.traces += 1
                if k is not None:
                    res.violation(
                        f"{c.label}/{conv}/{k}",
                        f"{conv} {c.label} with data of tolerance {tol}: {k} is {got[k]}, that of "
                        f"the ideal crystal {ideal[conv][k]}",
                        **c.describe(),
                    )
                # and data of the default tolerance are what is used when none are given
                a = c04.observe(w, c.cell, atoms, conv, fine)[0]
                b = c04.observe(w, c.cell, atoms, conv, None)[0]
                res.traces += 1
                k = loose(a, b, 1e-9)
                res.check(
                    k is None,
                    f"{c.label}/{conv}/default/{k}",
                    f"{conv} {c.label}: data of the default tolerance change {k}",
                )
            for tr in (True, False):
                for conv in ("HPKOT", "SC"):
                    kw = dict(convention=conv, with_time_reversal=tr, spglib_data=data)
                    path, points = w.kpoints.get_path_and_points(c.cell, atoms, **kw)
                    k = w.Kpoints.from_crystal(c.cell, atoms, **kw)
                    res.traces += 1
                    res.check(
                        k.path_string == path and set(k.hs_names) == set(points),
                        f"{c.label}/{conv}/{tr}/kpoints",
                        f"{conv} {c.label}: Kpoints.from_crystal does not use the given data",
                    )


def loose(a, b, tol):
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape:
                return k
            if np.abs(a[k] - b[k]).max() > tol * max(1.0, np.abs(a[k]).max()):
                return k
        elif a[k] != b[k]:
            return k
    return None


def decorated(index, n, metric=0):
    """One of the fourteen lattices with ``n`` atoms at general positions, kinds 1, 1, 2, 1"""
    bl = list(zoo.BRAVAIS_SG)[index]
    c = [x for x in zoo.bravais_crystals(0) if x.label.startswith(bl + "/")][0]
    extra = np.array([[0, 0, 0], [0.31, 0.17, 0.43], [0.55, 0.71, 0.12], [0.82, 0.36, 0.64]])[:n]
    pos = np.concatenate([c.pos[:1] + x for x in extra])
    return zoo.Crystal(c.cell, pos, [1, 1, 2, 1][:n], f"{bl}/{n} atoms")


def changes(c, deep):
    """(name, cell, positions, types): everything that differs in one entry, and other crystals"""
    n = len(c.pos)
    size = np.abs(c.cell).max()
    for d in (1e-3 * size, 1.0, -1e-3 * size) + ((2e-4 * size, 1e-2) if deep else ()):
        for i in range(3):
            for j in range(3):
                cell = c.cell.copy()
                cell[i, j] += d
                yield f"cell[{i}][{j}]{d:+.1e}", cell, c.pos, c.types
    yield "cell scaled", c.cell * 1.001, c.pos, c.types
    yield "cell inverted", -c.cell, c.pos, c.types
    yield "cell rotated", c.cell @ cr.rotation([1.0, 2.0, -0.5], 0.4).T, c.pos, c.types
    turned = c.cell[:, [1, 2, 0]]
    if abs(turned - c.cell).max() > 1e-2:
        yield "cell turned", turned, c.pos, c.types
    yield "one vector inverted", c.cell * np.array([[1], [1], [-1]]), c.pos, c.types
    yield "another basis", c.cell + np.array([[0, 0, 0], c.cell[0], [0, 0, 0]]), c.pos, c.types
    if abs(c.pos).max() > 1e-3:
        yield "all positions inverted", c.cell, -c.pos, c.types
    yield "all positions wrapped", c.cell, c.pos + [[1, -1, 2]], c.types
    if abs(c.cell[0] - c.cell[1]).max() > 1e-2:
        yield "rows swapped", c.cell[[1, 0, 2]], c.pos, c.types
    if abs(c.cell - c.cell.T).max() > 1e-2:
        yield "transposed", c.cell.T.copy(), c.pos, c.types
    for d in (1e-3, 0.25, 1.0, -1.0) + ((2e-4, -0.5) if deep else ()):
        for k in range(n):
            for j in range(3):
                pos = c.pos.copy()
                pos[k, j] += d
                yield f"position[{k}][{j}]{d:+.1e}", c.cell, pos, c.types
        yield f"all positions{d:+.1e}", c.cell, c.pos + d, c.types
    for k in range(n):
        for t in (1, 2, 7):
            if t != c.types[k]:
                types = list(c.types)
                types[k] = t
                yield f"kind[{k}]={t}", c.cell, c.pos, types
        if n > 1:
            keep = [i for i in range(n) if i != k]
            yield f"without atom {k}", c.cell, c.pos[keep], [c.types[i] for i in keep]
        for l in range(k):
            idx = list(range(n))
            idx[k], idx[l] = l, k
            yield f"atoms {l} {k} exchanged", c.cell, c.pos[idx], [c.types[i] for i in idx]
            yield f"positions {l} {k} exchanged", c.cell, c.pos[idx], c.types
            if c.types[l] != c.types[k]:
                yield f"kind of {l} {k} exchanged", c.cell, c.pos, [c.types[i] for i in idx]
            for j in range(3):
                pos = c.pos.copy()
                pos[k, j] += 0.125
                pos[l, j] -= 0.125
                yield f"positions[{k}][{j}]+[{l}][{j}]-", c.cell, pos, c.types
                pos = c.pos.copy()
                pos[k, j], pos[l, j] = pos[l, j], pos[k, j]
                if abs(pos - c.pos).max() > 1e-3:
                    yield f"coordinates {j} of {l} {k} exchanged", c.cell, pos, c.types
    yield "all kinds other", c.cell, c.pos, [t + 1 for t in c.types]
    yield "one more atom", c.cell, np.vstack([c.pos, [[0.4, 0.44, 0.91]]]), list(c.types) + [1]
    yield "one more atom first", c.cell, np.vstack([[[0.4, 0.44, 0.91]], c.pos]), [1] + list(c.types)


def run_foreign(w, res, job):
    fs = functions(w)
    fs["validate_spglib_data"] = lambda c, a, d: w.validate_spglib_data(c, a, d)
    c = decorated(job["index"], job["extra"])
    atoms = c.atoms()
    data = w.get_spglib_data(c.cell, atoms)
    for name, cell, pos, types in changes(c, job["deep"]):
        if abs(np.linalg.det(cell)) < 1:
            continue
        if len(types) > 1 and len(set(map(tuple, np.round(pos % 1, 4)))) < len(types):
            continue
        res.states += 1
        other = dict(positions=pos.tolist(), spglib_types=list(types))
        # both directions: data of the crystal with the other one, and the reverse. A kind of
        # atoms is known by which atoms share it, the labels themselves are compared as given
        try:
            back = w.get_spglib_data(cell, other)
        except Exception:
            back = None
        for direction, x, a, d in (("new", cell, other, data), ("old", c.cell, atoms, back)):
            if d is None:
                continue
            for fname, f in fs.items():
                res.transitions += 1
                res.traces += 1
                try:
                    f(x, a, d)
                    res.violation(
                        f"{c.label}/{name}/{direction}/{fname}",
                        f"{fname} accepted the data of another crystal: {c.label}, {name} "
                        f"({direction} crystal with the data of the other)",
                        cell=x,
                        atoms=a,
                    )
                except ValueError:
                    pass
    # data made before the user's own objects are changed in place
    for name, cell, pos, types in changes(c, False):
        if len(types) != len(c.types) or not ("+" in name or "kind" in name):
            continue
        if abs(np.linalg.det(cell)) < 1:
            continue
        mine = c.cell.copy()
        own = c.atoms()
        kept = w.get_spglib_data(mine, own)
        mine[:] = cell
        own["positions"][:] = pos
        own["spglib_types"][:] = types
        res.states += 1
        for fname, f in fs.items():
            res.transitions += 1
            res.traces += 1
            try:
                f(mine, own, kept)
                res.violation(
                    f"{c.label}/{name}/in place/{fname}",
                    f"{fname} accepted the data of {c.label} made before {name} was changed in place",
                )
            except ValueError:
                pass
    # changes below what counts as a change
    for d in (1e-12, -1e-12):
        for fname, f in fs.items():
            want = answer(f, c.cell, atoms, data)
            for i in range(3):
                for j in range(3):
                    cell, pos = c.cell.copy(), c.pos.copy()
                    cell[i, j] += d
                    pos[j % len(pos), i] += d
                    res.states += 1
                    res.transitions += 1
                    res.traces += 1
                    got = answer(f, cell, dict(positions=pos, spglib_types=list(c.types)), data)
                    res.check(
                        equal(want, got, 1e-8),
                        f"{c.label}/noise/{fname}/{i}{j}",
                        f"{fname} of {c.label} with rounding noise {d}: {got}, expected {want}",
                    )
    # things that are not symmetry data
    fields = {k: getattr(data, k) for k in ("original_cell", "original_positions", "original_types")}
    wrong = dict(
        dict=dict(data.__dict__),
        sugar=w.add_sugar(dict(data.__dict__)),
        tuple=tuple(data.__dict__.values()),
        object=Spoiled(),
        number=1,
        false=False,
        true=True,
        string="spglib",
        empty={},
        cls=w.SpglibData,
    )
    obj = Spoiled()
    obj.__dict__.update(data.__dict__)
    wrong["look-alike"] = obj
    del fields
    for what, d in wrong.items():
        for fname, f in fs.items():
            if fname == "validate_spglib_data":
                continue
            res.states += 1
            res.traces += 1
            try:
                f(c.cell, atoms, d)
                res.violation(
                    f"wrong type/{what}/{fname}", f"{fname} accepted {what} as symmetry data"
                )
            except TypeError:
                pass


def boundary_cell(family, metric, d):
    """Primitive cell of a lattice that is ``d`` away from the boundary between two variations"""
    cos, sin = (lambda x: np.cos(np.radians(x))), (lambda x: np.sin(np.radians(x)))
    if family == "oF":
        b, c = ((1.4, 1.9), (1.6, 1.75), (1.3, 2.6), (1.5, 1.6), (1.8, 2.2), (1.45, 3.1))[metric]
        a = (1 / b**2 + 1 / c**2) ** -0.5 * (1 + d)
        return np.array([[0, b, c], [a, 0, c], [a, b, 0]]) / 2
    if family == "aP":
        # reciprocal lattice: gamma next to 90 degrees, the two others on one side of it
        alpha, beta = ((70, 76), (104, 111), (65, 82), (97, 116), (80, 72), (99, 107))[metric]
        x, y, z = (1.0, 1.13, 1.29) if metric % 2 else (1.21, 1.0, 1.4)
        gamma = 90 + (d if metric % 2 else -d)
        r = [[x, 0, 0], [y * cos(gamma), y * sin(gamma), 0]]
        u = cos(beta)
        v = (cos(alpha) - cos(beta) * cos(gamma)) / sin(gamma)
        r.append([z * u, z * v, z * np.sqrt(1 - u * u - v * v)])
        return 3 * np.linalg.inv(np.array(r)).T
    alpha = (75, 66, 81, 70, 78, 84)[metric]
    b, c = ((1.3, 1.9), (1.5, 1.6), (1.2, 2.3), (1.4, 1.75), (1.6, 2.0), (1.1, 1.7))[metric]
    if family == "mC-angle":  # b sin(alpha) = a: k_gamma is 90 degrees
        a = b * sin(alpha) * (1 + np.radians(d))
    else:  # b cos(alpha) / c + b^2 sin(alpha)^2 / a^2 = 1
        a = b * sin(alpha) / np.sqrt(1 - b * cos(alpha) / c + d)
    return np.array(
        [[a / 2, b / 2, 0], [-a / 2, b / 2, 0], [0, c * cos(alpha), c * sin(alpha)]]
    )


def reading(family, conv):
    """How far the lattice of this SC conventional cell is from the boundary, as (every quantity
    that may be compared with the tolerance), with a common sign"""
    (a, b, c), g = np.linalg.norm(conv, axis=1), conv @ conv.T
    if family == "oF":
        x = 1 / a**2 - 1 / b**2 - 1 / c**2
        return np.array([x, (1 / b**2 + 1 / c**2) ** -0.5 - a])
    alpha = np.arccos(g[1, 2] / b / c)
    if family == "aP":
        k = np.linalg.inv(conv)
        k = k.T @ k
        return np.array([np.degrees(np.arccos(k[0, 1] / np.sqrt(k[0, 0] * k[1, 1]))) - 90])
    prim = np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]]) @ conv
    k = np.linalg.inv(prim)
    k = k.T @ k
    angle = np.degrees(np.arccos(k[0, 1] / np.sqrt(k[0, 0] * k[1, 1]))) - 90
    if family == "mC-angle":
        return np.array([angle])
    x = b * np.cos(alpha) / c + b**2 * np.sin(alpha) ** 2 / a**2 - 1
    return np.array([x, a * x / 2]), angle


NAMES = {
    "oF": ("ORCF1", "ORCF3", "ORCF2"),
    "mC-angle": ("MCLC1", "MCLC2", None),
    "mC-lengths": ("MCLC5", "MCLC4", "MCLC3"),
}
AMPLITUDES = (0.0, 2e-8, 3e-7, 2e-5, 4e-4, 6e-3, 8e-2)
TOLERANCES = (1e-9, 1e-6, 1e-5, 1e-3, 2e-2)
ANGLES = (-1, 1e-7, 1e-3, 5e-2, 1.0)


def run_boundary(w, res, job):
    """The tolerance that the data were made with decides what counts as equal."""
    family, metric = job["family"], job["metric"]
    atoms = dict(positions=[[0.0, 0.0, 0.0]], spglib_types=[1])
    paths = {}
    for d in sorted({s * x for x in AMPLITUDES for s in (1, -1)}, key=abs):
        cell = boundary_cell(family, metric, d)
        for symprec in TOLERANCES:
            for angle in ANGLES:
                # two tolerances do not matter together: vary one, keep the other
                if symprec != 1e-5 and angle != -1:
                    continue
                res.states += 1
                res.transitions += 1
                label = f"boundary/{family}{metric}/{d:+.0e}/symprec{symprec:.0e}/angle{angle:g}"
                try:
                    data = w.get_spglib_data(
                        cell, atoms, spglib_symprec=symprec, spglib_angle_tolerance=angle
                    )
                except Exception:
                    res.count("no data")
                    continue
                bl = data.crystal_family + data.centring_type
                if bl.replace("S", "C").replace("A", "C") != family[:2]:
                    res.count("another lattice at this tolerance")
                    continue
                conv = np.array(
                    w.crystal.get_conventional(cell, atoms, convention="SC", spglib_data=data)[0]
                )
                eps = symprec if family in ("oF", "mC-lengths") else (1e-4 if angle < 0 else angle)
                x = reading(family, conv)
                if family == "mC-lengths":
                    x, k = x
                    if k > -10 * max(angle, 1e-4):
                        res.count("k_gamma is not clearly below 90")
                        continue
                if family == "aP":
                    k = np.linalg.inv(conv)
                    k = k.T @ k
                    side = "b" if k[0, 2] > 0 else "a"
                if np.all(np.abs(x) < eps / 4):
                    want = f"TRI2{side}" if family == "aP" else NAMES[family][1]
                elif np.all(x > 4 * eps) or np.all(x < -4 * eps):
                    if family == "aP":
                        want = f"TRI1{side}" if (x[0] > 0) == (side == "a") else "TRI"
                    else:
                        want = NAMES[family][0 if x[0] > 0 else 2]
                else:
                    res.count("too close to the tolerance")
                    continue
                if want in (None, "TRI"):
                    continue
                res.see("boundary", want)
                got = answer(w.crystal.sc_get_variation, cell, atoms, data)
                res.traces += 1
                res.check(
                    got == want,
                    f"{label}/variation",
                    f"{label}: {want} is {x} away from the boundary, got {got}",
                    cell=cell,
                )
                path, points = w.kpoints.get_path_and_points(
                    cell, atoms, spglib_data=data, convention="SC"
                )
                first = paths.setdefault(want, (path, tuple(points)))
                res.traces += 1
                res.check(
                    first == (path, tuple(points)),
                    f"{label}/path",
                    f"{label}: {want} has the path {path}, {first[0]} with other data",
                    cell=cell,
                )
                if symprec == 1e-5 and angle == -1:
                    got = answer(w.crystal.sc_get_variation, cell, atoms, None)
                    res.traces += 1
                    res.check(
                        got == want,
                        f"{label}/default",
                        f"{label}: {want} is {x} away from the boundary, got {got} without data",
                        cell=cell,
                    )


def run(job):
    import wulfric as w

    res = Result()
    kinds = dict(
        reuse=run_reuse, tolerance=run_tolerance, foreign=run_foreign, boundary=run_boundary
    )
    kinds[job["kind"]](w, res, job)
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    r.check(
        counters.get("data of the default tolerance see another group", 0) > 100,
        "coverage",
        "the tolerance matters for too few of the distorted crystals",
    )
