"""C14: cell algebra."""

import itertools
import math

import numpy as np

from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="from_params/get_params: all angle triples of a 3 degree grid from -5 to 185 degrees and of the "
        "offsets {0, 5e-5, 1e-3} around every condition of validity, for 5 triples of lengths, all triples of "
        "lengths with one of them not positive, all subsets of default arguments; all non-singular 3x3 "
        "matrices with entries -1, 0, 1, 2 as cells at 3 scales; all pairs and triples of 96 cells",
        thorough="2 degree grid, all non-singular matrices with entries -2 ... 2, 160 cells",
    ),
    assumptions=["angles of valid cells are not smaller than 1 degree"],
)

LENGTHS = [(1, 1, 1), (1, 2, 3), (0.37, 5.0, 11.3), (7.5, 7.5, 0.25), (123.0, 2.0, 41.5)]
BAD_LENGTHS = (0, 0.0, -1, -2.5, 1e-9)
FORMS = {
    "list": lambda c: [[float(x) for x in r] for r in c],
    "tuple": lambda c: tuple(tuple(float(x) for x in r) for r in c),
    "array": lambda c: np.array(c, float),
    "rows": lambda c: [np.array(r, float) for r in c],
    "fortran": lambda c: np.asfortranarray(np.array(c, float)),
}


def jobs(tier):
    step = 3 if tier == "quick" else 2
    out = []
    grid = list(range(-5, 190, step))
    for i in range(0, len(grid), 2):
        out.append(dict(kind="params", alphas=grid[i : i + 2], step=step))
    out.append(dict(kind="edges"))
    out.append(dict(kind="lengths"))
    entries = [-1, 0, 1, 2] if tier == "quick" else [-2, -1, 0, 1, 2]
    for first in itertools.product(entries, repeat=3):
        if any(first):
            out.append(dict(kind="cells", entries=entries, first=first))
    n = 96 if tier == "quick" else 160
    for i in range(0, n, 4):
        out.append(dict(kind="transform", n=n, rows=list(range(i, i + 4))))
    return out


def margin(al, be, ga):
    """Smallest slack of the conditions of validity of three angles, in degrees."""
    return min(
        al, be, ga, 180 - al, 180 - be, 180 - ga,
        al + be - ga, al + ga - be, be + ga - al, 360 - al - be - ga,
    )  # fmt: skip


def expected_cell(a, b, c, al, be, ga):
    """The documented orientation, from its definition: a1 on x, a2 in the xy plane at +gamma, a3 with
    the angles beta to a1 and alpha to a2 and above the plane."""
    al, be, ga = (math.radians(x) for x in (al, be, ga))
    x = math.cos(be)
    y = (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    s = (al + be + ga) / 2
    # product form of 1 + 2 cos cos cos - cos^2 - cos^2 - cos^2
    v2 = 4 * math.sin(s) * math.sin(s - al) * math.sin(s - be) * math.sin(s - ga)
    z = math.sqrt(max(v2, 0.0)) / math.sin(ga)
    return np.array(
        [[a, 0, 0], [b * math.cos(ga), b * math.sin(ga), 0], [c * x, c * y, c * z]], float
    )


def angle(u, v):
    cross = np.array(
        [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    )
    return math.degrees(math.atan2(math.sqrt(float((cross**2).sum())), float(np.dot(u, v))))


def check_params(wulf, res, lengths, angles, valid, key):
    res.states += 1
    res.traces += 1
    args = lengths + angles
    try:
        cell = wulf.cell.from_params(*args)
    except ValueError:
        res.count("rejected")
        res.check(not valid, key, f"from_params{args} rejects parameters that form a cell")
        return
    res.count("accepted")
    if not res.check(valid, key, f"from_params{args} accepts parameters that do not form a cell"):
        return
    cell = np.asarray(cell)
    want = expected_cell(*args)
    scale = max(lengths)
    ok = cell.shape == (3, 3) and np.abs(cell - want).max() < 1e-6 * scale
    if not res.check(ok, key, f"from_params{args} is not the documented cell", got=cell, want=want):
        return
    got = wulf.cell.get_params(cell)
    res.traces += 1
    flat = margin(*angles) < 0.5  # rounding errors of an almost flat cell are larger
    ok = (
        len(got) == 6
        and all(abs(x - y) < (1e-6 if flat else 1e-9) * y for x, y in zip(got[:3], lengths))
        and all(abs(x - y) < 2e-5 for x, y in zip(got[3:], angles))
    )
    res.check(ok, key + "/back", f"get_params(from_params{args}) = {got}")


def run_params(wulf, job, res):
    grid = list(range(-5, 190, job["step"]))
    for al in job["alphas"]:
        for be in grid:
            for ga in grid:
                valid = margin(al, be, ga) > 0
                i = (al + 3 * be + 7 * ga) % len(LENGTHS)
                check_params(wulf, res, LENGTHS[i], (al, be, ga), valid, f"{al},{be},{ga}")
    res.sample(alpha=job["alphas"], lengths=LENGTHS[0], states=res.states)


def run_edges(wulf, res):
    base = [(40, 60, 100), (100, 40, 60), (60, 100, 40), (110, 120, 130), (90, 90, 180), (35, 35, 70)]
    base += [(90, 180, 90), (180, 90, 90), (150, 150, 60), (20, 170, 170), (90, 90, 90), (1, 1, 2)]
    for angles in base:
        for i in range(3):
            for d in (0, 5e-5, -5e-5, 1e-3, -1e-3, 1.0, -1.0):
                new = list(angles)
                new[i] = new[i] + d
                m = margin(*new)
                # the documented tolerance of the conditions is 1e-4 degrees
                valid = m > 1e-4
                for lengths in LENGTHS:
                    check_params(wulf, res, lengths, tuple(new), valid, f"edge {new}")
    # default values
    defaults = dict(a=1.0, b=1.0, c=1.0, alpha=90.0, beta=90.0, gamma=90.0)
    other = dict(a=2, b=3.5, c=0.7, alpha=75, beta=100, gamma=110.5)
    for n in range(7):
        for keys in itertools.combinations(defaults, n):
            kw = {k: other[k] for k in keys}
            full = {**defaults, **kw}
            got = np.asarray(wulf.cell.from_params(**kw))
            res.states += 1
            res.traces += 1
            res.check(
                np.abs(got - expected_cell(*full.values())).max() < 1e-9,
                f"default/{','.join(keys)}",
                f"from_params(**{kw}) = {got}",
            )


def run_lengths(wulf, res):
    good = (1.0, 3.7, 250.0)
    for bad in BAD_LENGTHS:
        for n in (1, 2, 3):
            for pos in itertools.combinations(range(3), n):
                for angles in ((90, 90, 90), (60, 70, 80), (110, 95, 120)):
                    lengths = tuple(bad if i in pos else good[i] for i in range(3))
                    check_params(wulf, res, lengths, angles, False, f"lengths {lengths}")
    for lengths in itertools.product((1e-3, 0.5, 1, 4.25, 1000), repeat=3):
        for angles in ((90, 90, 90), (60, 70, 80), (110, 95, 120), (60, 60, 60)):
            check_params(wulf, res, lengths, angles, True, f"lengths {lengths}")


def same_input(before, given):
    return np.array_equal(np.array(before), np.array(given))


def check_cell(wulf, res, M, scale, form):
    cell = np.array(M, float) * scale
    given = FORMS[form](cell)
    key = f"{M}*{scale}/{form}"
    rec = np.asarray(wulf.cell.get_reciprocal(given))
    res.traces += 1
    ok = rec.shape == (3, 3) and np.abs(cell @ rec.T - 2 * np.pi * np.eye(3)).max() < 1e-9
    res.check(ok, key + "/rec", f"reciprocal vectors are not dual: {key}", got=rec)
    if ok:
        again = np.asarray(wulf.cell.get_reciprocal(rec if form != "list" else rec.tolist()))
        res.traces += 1
        res.check(
            np.abs(again - cell).max() < 1e-9 * scale,
            key + "/rec-rec",
            f"reciprocal of the reciprocal is not the cell: {key}",
            got=again,
        )
    a, b, c = cell
    got = wulf.cell.get_params(given)
    want = [math.sqrt(float(x @ x)) for x in (a, b, c)] + [angle(b, c), angle(a, c), angle(a, b)]
    res.traces += 1
    ok = len(got) == 6 and all(abs(x - y) < 1e-11 * scale for x, y in zip(got[:3], want[:3]))
    ok = ok and all(abs(x - y) < 1e-9 for x, y in zip(got[3:], want[3:]))
    res.check(ok, key + "/params", f"get_params({key}) = {got}, expected {want}")
    sp = wulf.cell.get_scalar_products(given)
    want_sp = (float(b @ c), float(a @ c), float(a @ b))
    res.traces += 1
    res.check(
        len(sp) == 3 and all(abs(x - y) < 1e-10 * scale**2 for x, y in zip(sp, want_sp)),
        key + "/products",
        f"get_scalar_products({key}) = {sp}, expected {want_sp}",
    )
    # through the parameters and back: the same lattice vectors up to the orientation
    back = np.asarray(wulf.cell.from_params(*got))
    res.traces += 1
    res.check(
        np.abs(back @ back.T - cell @ cell.T).max() < 1e-6 * scale**2 and np.linalg.det(back) > 0,
        key + "/through",
        f"cell from the parameters of the cell {key} has other lengths or angles",
        got=back,
    )
    res.check(same_input(FORMS[form](cell), given), key + "/input", f"the given cell was changed: {key}")


def run_cells(wulf, job, res):
    e = job["entries"]
    first = tuple(job["first"])
    forms = list(FORMS)
    i = 0
    for rest in itertools.product(e, repeat=6):
        M = (first, rest[:3], rest[3:])
        (a, b, c), (d, f, g), (h, k, m) = M
        det = a * (f * m - g * k) - b * (d * m - g * h) + c * (d * k - f * h)
        if det == 0:
            continue
        i += 1
        res.states += 1
        check_cell(wulf, res, M, (1.0, 0.013, 137.25)[i % 3], forms[(i // 3) % len(forms)])
        res.see("handedness", "left" if det < 0 else "right")
    res.sample(first=first, cells=i)


def universe(n):
    out = []
    base = [
        [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 3, 0], [0, 0, 5]],
        [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
        [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 0, 0], [-0.5, 0.75, 0], [0.25, 0.1, 2]],
        [[0, 0, 1], [0, 1, 0], [1, 0, 0]], [[3, -1, 2], [0.5, 2, -1], [1, 1, 4]],
    ]  # fmt: skip
    for k in range((n + 7) // 8):
        for j, b in enumerate(base):
            m = np.array(b, float)
            t = 0.3 * k + 0.1 * j
            R = np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]])
            out.append(m @ R * (1 + 0.7 * k) if k else m)
    return out[:n]


def run_transform(wulf, job, res):
    cells = universe(job["n"])
    forms = list(FORMS)
    f = wulf.cell.get_transformation_matrix
    T = {}

    def get(i, j, n):
        if (i, j) not in T:
            A = FORMS[forms[n % 5]](cells[i])
            B = FORMS[forms[(n // 5) % 5]](cells[j])
            T[i, j] = np.asarray(f(A, B))
            res.traces += 1
            res.check(
                T[i, j].shape == (3, 3)
                and np.abs(T[i, j].T @ cells[i] - cells[j]).max() < 1e-9 * (1 + np.abs(cells[j]).max()),
                f"transform/{i},{j}",
                f"the matrix from {cells[i].tolist()} to {cells[j].tolist()} does not transform it",
                got=T[i, j],
            )
            res.check(
                same_input(FORMS[forms[n % 5]](cells[i]), A)
                and same_input(FORMS[forms[(n // 5) % 5]](cells[j]), B),
                f"transform/{i},{j}/input",
                "the given cells were changed",
            )
        return T[i, j]

    for i in job["rows"]:
        res.check(np.abs(get(i, i, i) - np.eye(3)).max() < 1e-9, f"identity/{i}", "matrix to itself")
        for j in range(len(cells)):
            res.states += 1
            P = get(i, j, i + 3 * j)
            res.check(
                np.abs(P @ get(j, i, i + j) - np.eye(3)).max() < 1e-8,
                f"inverse/{i},{j}",
                f"matrices {i}->{j} and back are not inverse",
            )
            for k in range(len(cells)):
                res.transitions += 1
                Q = P @ get(j, k, j + k)
                if np.abs(Q - get(i, k, i + 2 * k)).max() > 1e-7 * (1 + np.abs(Q).max()):
                    res.violation(f"compose/{i},{j},{k}", f"matrices {i}->{j}->{k} do not compose")


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "params":
        run_params(wulf, job, res)
    elif job["kind"] == "edges":
        run_edges(wulf, res)
    elif job["kind"] == "lengths":
        run_lengths(wulf, res)
    elif job["kind"] == "cells":
        run_cells(wulf, job, res)
    else:
        run_transform(wulf, job, res)
    return res


def final(tier, labels, counters, r):
    r.check(counters.get("accepted", 0) > 1000, "coverage", "too few valid parameters were reached")
    r.check(counters.get("rejected", 0) > 1000, "coverage", "too few invalid parameters were reached")
