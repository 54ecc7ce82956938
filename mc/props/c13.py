"""C13: Wigner-Seitz cell and Brillouin zone are the Voronoi cell of the lattice."""

import itertools
from math import pi

import numpy as np

from mc import tables, zoo
from mc.core import Result
from mc.props.c06 import lll

INFO = dict(
    level="model_checking",
    space=dict(
        quick="{primitive cells of the 14 lattice types x up to four metrics, the 25 SC examples} x every "
        "basis / orientation reachable by 1 operation, direct or reciprocal (both for the examples); every range of lattice points "
        "up to 3 x 3 x 3; the 14 lattices in 8 strongly sheared bases and stretched 12 and 60 times",
        thorough="all metrics x 1 operation, 2 operations from one metric; 24 strongly sheared bases",
    ),
    assumptions=[
        "bases whose shortest vectors need integer coefficients up to 1600, lattices whose shortest and longest "
        "reduced vectors differ up to 100 times (rounding of the floating point input decides beyond)"
    ],
)


def voronoi(cell):
    """(vertices, edges) of the Voronoi cell of the origin: intersection of half spaces x.g <= g.g/2 of
    the lattice vectors around the origin."""
    B = lll(cell)
    grid = np.array([g for g in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(g)])
    vec = grid @ B
    scale = np.sqrt((B**2).sum() / 3)
    # relevant vectors: the midpoint is closer to 0 (and g) than to any other lattice point
    relevant = []
    for g in vec:
        d = np.linalg.norm(vec - g / 2, axis=1)
        others = d[np.linalg.norm(vec - g, axis=1) > 1e-9 * scale]
        if others.min() > np.linalg.norm(g) / 2 * (1 + 1e-9):
            relevant.append(g)
    N = np.array(relevant)
    h = (N**2).sum(axis=1) / 2
    verts = []
    for t in itertools.combinations(range(len(N)), 3):
        M = N[list(t)]
        if abs(np.linalg.det(M)) < 1e-9 * scale**3:
            continue
        x = np.linalg.solve(M, h[list(t)])
        if (N @ x <= h * (1 + 1e-8)).all():
            if not any(np.linalg.norm(x - v) < 1e-6 * scale for v in verts):
                verts.append(x)
    verts = np.array(verts)
    on = np.abs(verts @ N.T - h) < 1e-6 * h
    edges = set()
    for i, j in itertools.combinations(range(len(verts)), 2):
        common = N[on[i] & on[j]]
        if len(common) > 1 and np.linalg.matrix_rank(common, tol=1e-7 * scale) == 2:
            edges.add((i, j))
    return verts, edges, len(N), scale


def compare(res, key, what, cell, got):
    """cell: any basis of the lattice (the shorter the vectors the better)"""
    want_v, want_e, faces, scale = voronoi(cell)
    v, e = np.asarray(got[0], float), np.asarray(got[1])
    if v.ndim != 2 or v.shape[1] != 3 or e.ndim != 2 or e.shape[1] != 2 or e.min() < 0 or e.max() >= len(v):
        res.violation(f"{key}/shape", f"{what}: shapes {v.shape}, {e.shape}", cell=cell)
        return
    d = np.linalg.norm(v[:, None] - want_v[None], axis=2)
    tol = 1e-5 * scale
    index = d.argmin(axis=1)
    if d.min(axis=1).max() > tol:
        res.violation(
            f"{key}/extra", f"{what}: a vertex is not a vertex of the Voronoi cell", cell=cell, vertices=v
        )
        return
    if d.min(axis=0).max() > tol:
        res.violation(f"{key}/missing", f"{what}: a vertex of the Voronoi cell is missing", cell=cell)
        return
    got_e = set()
    for i, j in e:
        i, j = int(index[i]), int(index[j])
        if i != j:
            got_e.add((min(i, j), max(i, j)))
    if got_e != want_e:
        res.violation(
            f"{key}/edges",
            f"{what}: {len(want_e - got_e)} edges are missing, {len(got_e - want_e)} are not edges",
            cell=cell,
        )
        return
    if len(v) != len(want_v) or len(e) != len(want_e):
        res.violation(
            f"{key}/repeated",
            f"{what}: {len(v)} vertices and {len(e)} edges are given, there are {len(want_v)} and {len(want_e)}",
            cell=cell,
        )
        return
    # Euler: what the oracle itself returned is a closed polyhedron
    assert len(want_v) - len(want_e) + faces == 2, (cell, len(want_v), len(want_e), faces)
    res.see("vertices-edges-faces", f"{len(want_v)}-{len(want_e)}-{faces}")


def jobs(tier):
    out = []
    deep = tier != "quick"
    for i in range(14):
        parts = 16 if deep else 4
        for part in range(parts):
            out.append(
                dict(kind="bravais", index=i, level=2 if deep else 1, depth=1, part=part, parts=parts)
            )
    for part in range(8):
        out.append(dict(kind="sc", part=part, parts=8, depth=0, level=0))
    if deep:
        for i in range(14):
            for part in range(4):
                out.append(dict(kind="bravais", index=i, level=0, depth=2, part=part, parts=4))
    for i in range(14):
        out.append(dict(kind="skew", index=i, deep=deep))
    for i in range(4):
        out.append(dict(kind="points", index=i))
    return out


OPERATIONS = ("cycle", "swap", "invert", "shear", "skew", "rotate")


def lattice_points(wulf, res, index):
    cells = (
        [[1.0, 0, 0], [0, 2.0, 0], [0, 0, 3.0]],
        [[1.3, 0.2, -0.1], [0.4, 2.1, 0.3], [-0.5, 0.6, 0.9]],
    )
    cell = cells[index % 2]
    M = np.array(cell)
    for r in itertools.product(range(4), repeat=3):
        for relative in (False, True):
            want = np.array(
                [[[[i, j, k] for k in range(-r[2], r[2] + 1)] for j in range(-r[1], r[1] + 1)] for i in range(-r[0], r[0] + 1)],
                float,
            )  # fmt: skip
            if not relative:
                want = want @ M
            c = cell if index < 2 else M
            for flat in (True, False):
                res.states += 1
                res.traces += 1
                got = np.asarray(
                    wulf.cell.get_lattice_points(c, range=r, relative=relative, flat=flat), float
                )
                shape = (want.size // 3, 3) if flat else want.shape
                ok = got.shape == shape
                if ok and flat:
                    a = sorted(map(tuple, np.round(got, 7) + 0.0))
                    b = sorted(map(tuple, np.round(want.reshape(-1, 3), 7) + 0.0))
                    ok = np.abs(np.array(a) - np.array(b)).max() < 1e-6
                elif ok:
                    ok = np.abs(got - want).max() < 1e-9
                res.check(
                    ok, f"points/{r}/{relative}/{flat}", f"lattice points in the range {r}, relative={relative}, flat={flat}"
                )  # fmt: skip
    got = wulf.cell.get_lattice_points(cell)
    want = wulf.cell.get_lattice_points(cell, range=(1, 1, 1), relative=False, flat=True)
    res.check(np.array_equal(got, want), "points/default", "defaults of get_lattice_points")


def skews(deep):
    """Unimodular matrices far from the identity"""
    E = np.eye(3, dtype=int)

    def shear(i, j, k):
        M = E.copy()
        M[i, j] = k
        return M

    out = [
        ("11", shear(1, 0, 11)),
        ("-40", shear(0, 2, -40)),
        ("5x4", shear(2, 1, 4) @ shear(1, 0, 5)),
        ("-13x9", shear(0, 1, 9) @ shear(1, 2, -13)),
        ("40x40", shear(1, 2, 40) @ shear(2, 0, 40)),
        ("7+8+9", shear(2, 0, 7) @ shear(2, 1, 8) @ shear(1, 0, 9)),
        ("mixed", shear(0, 1, 3) @ shear(1, 2, -4) @ shear(2, 0, 5)),
        ("all", np.array([[1, 12, 5], [0, 1, -14], [0, 0, 1]])),
    ]
    if deep:
        for k in (6, -9, 17, -25):
            for i, j in ((0, 1), (1, 2), (2, 0), (1, 0)):
                out.append((f"{i}{j}x{k}", shear(i, j, k) @ shear(j, 3 - i - j, 1 - k)))
    return out


def run_skew(wulf, res, index, deep):
    bl = list(zoo.BRAVAIS_SG)[index]
    c = [x for x in zoo.bravais_crystals(0) if x.label.startswith(bl + "/")][0]
    base = lll(c.cell)
    for i, (name, M) in enumerate(skews(deep)):
        assert abs(round(np.linalg.det(M))) == 1
        cell = M @ base
        for kind in ("WS", "BZ") if deep else (("WS", "BZ")[(i + index) % 2],):
            res.states += 1
            res.transitions += 1
            res.traces += 1
            f = wulf.cell.get_wigner_seitz_cell if kind == "WS" else wulf.cell.get_brillouin_zone
            want = base if kind == "WS" else 2 * pi * np.linalg.inv(base).T
            key = f"{c.label}/skew {name}/{kind}"
            compare(res, key, f"{kind} of {c.label} in the basis {M.tolist()}", want, f(cell))
    # thin and long cells
    for i, scale in enumerate(([1, 1, 12], [12, 1, 1], [1, 60, 1], [60, 60, 1])):
        conv = c.cell * np.array(scale)  # along Cartesian axes
        for kind in ("WS", "BZ") if deep else (("WS", "BZ")[(i + index) % 2],):
            res.states += 1
            res.traces += 1
            f = wulf.cell.get_wigner_seitz_cell if kind == "WS" else wulf.cell.get_brillouin_zone
            cell = lll(conv)
            want = cell if kind == "WS" else 2 * pi * np.linalg.inv(cell).T
            key = f"{c.label}/stretched {scale}/{kind}"
            compare(res, key, f"{kind} of {c.label} stretched {scale}", want, f(conv))


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "points":
        lattice_points(wulf, res, job["index"])
        return res
    if job["kind"] == "skew":
        run_skew(wulf, res, job["index"], job["deep"])
        return res
    ops = {k: v for k, v in zoo.ops(1).items() if k in OPERATIONS}
    if job["kind"] == "bravais":
        bl = list(zoo.BRAVAIS_SG)[job["index"]]
        starts = [c for c in zoo.bravais_crystals(job["level"]) if c.label.startswith(bl + "/")]
    else:
        starts = [
            zoo.Crystal(wulf.cell.sc_get_example(n), [[0, 0, 0]], [1], n) for n in tables.SC_PATHS
        ]
    i = 0
    for c0 in starts:
        states, tr = zoo.reachable(c0, job["depth"], ops)
        for trace, c in states:
            i += 1
            if i % job["parts"] != job["part"]:
                continue
            res.transitions += 1
            key = f"{c.label}/{'+'.join(trace)}"
            given = c.cell if i % 3 else c.cell.tolist()
            for kind in ("WS", "BZ") if job["kind"] == "sc" or job["depth"] == 2 or job["level"] == 2 else (("WS", "BZ")[(i // 4) % 2],):
                res.states += 1
                res.traces += 1
                if kind == "WS":
                    compare(res, f"{key}/WS", f"Wigner-Seitz cell of {key}", c.cell, wulf.cell.get_wigner_seitz_cell(given))
                else:
                    f = wulf.cell.get_brillouin_zone
                    compare(res, f"{key}/BZ", f"Brillouin zone of {key}", 2 * pi * np.linalg.inv(c.cell).T, f(given))
    res.sample(job=job, states=res.states)
    return res


def final(tier, labels, counters, r):
    # the five parallelohedra of Fedorov
    want = {"8-12-6", "12-18-8", "14-24-12", "18-28-12", "24-36-14"}
    r.check(
        labels.get("vertices-edges-faces") == want,
        "coverage",
        f"topologies reached: {sorted(labels.get('vertices-edges-faces', ()))}",
    )
