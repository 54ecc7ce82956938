"""C24: figures contain what was asked for; the ranges cover it.

Explores sequences of plotting calls. The reference is a scene: the set of points, segments, texts
and arrow heads of every subplot, computed from the arguments with numpy. The figure is read back
into the same form, whatever traces it uses to draw them.
"""

import itertools
import os
import tempfile

import numpy as np

from mc import zoo
from mc.core import Result
from mc.props.c21 import digest, lattice

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all sequences of 1 and 2 calls from a menu of ~40 calls that reaches every method and "
        "option, shown and saved, on new and given figures, with 1 to 4 subplots; every method on "
        "the 14 lattices",
        thorough="all sequences of 3 calls of a reduced menu; every method on four metrics of "
        "the 14 lattices",
    ),
    assumptions=["plotly stores what it is given"],
)


# ------------------------------------------------------------------------------------------
# Reading a figure
# ------------------------------------------------------------------------------------------
def pt(p):
    return tuple(float(x) + 0.0 for x in np.round(np.asarray(p, float), 6))


def seg(a, b):
    return tuple(sorted((pt(a), pt(b))))


def listed(x, n):
    if x is None or isinstance(x, (str, int, float)):
        return [x] * n
    return list(x)


class Scene:
    """What is drawn in one subplot"""

    def __init__(self):
        self.points, self.segments, self.texts, self.heads = set(), set(), set(), set()

    def everything(self):
        out = [p for p, _ in self.points] + [p for p, _ in self.texts] + [p[:3] for p, _ in self.heads]
        for (a, b), _ in self.segments:
            out += [a, b]
        return np.array(out).reshape(-1, 3)

    def missing(self, other):
        """first difference to what was drawn"""
        for what in ("points", "segments", "texts", "heads"):
            a, b = getattr(self, what), getattr(other, what)
            if not covered(a, b):
                return f"{what} not drawn: {sorted(a - b, key=str)[:2]}"
            if not covered(b, a):
                return f"{what} that were not asked for: {sorted(b - a, key=str)[:2]}"
        return None


def covered(a, b):
    """every element of a is in b, up to the last digit"""
    rest = a - b
    if not rest:
        return True
    arr = [(np.ravel(np.array(k, float)), c) for k, c in b]
    for k, c in rest:
        v = np.ravel(np.array(k, float))
        if not any(c == d and np.abs(v - u).max() < 3e-6 for u, d in arr):
            # the two ends of a segment may be sorted the other way after rounding
            if len(v) != 6 or not any(
                c == d and np.abs(np.roll(v, 3) - u).max() < 3e-6 for u, d in arr
            ):
                return False
    return True


def read(fig, traces=None):
    """{scene name: Scene}"""
    out = {}
    for t in fig.data if traces is None else traces:
        s = out.setdefault(t.scene or "scene", Scene())
        xyz = np.array([[np.nan if v is None else v for v in c] for c in (t.x, t.y, t.z)], float).T
        if t.type == "cone":
            uvw = np.array([t.u, t.v, t.w], float).T
            for p, d in zip(xyz, uvw):
                n = np.linalg.norm(d)
                s.heads.add((pt(p), pt(d / n if n else d)))
            continue
        mode = t.mode or ""
        n = len(xyz)
        if "markers" in mode:
            for p, c in zip(xyz, listed(t.marker.color, n)):
                s.points.add((pt(p), c))
        if "lines" in mode:
            for a, b in zip(xyz[:-1], xyz[1:]):
                if not np.isnan([a, b]).any() and np.abs(a - b).max() > 1e-9:
                    s.segments.add((seg(a, b), t.line.color))
        if "text" in mode:
            for p, text in zip(xyz, listed(t.text, n)):
                s.texts.add((pt(p), text))
    for s in out.values():  # positions and directions of arrow heads as one key
        s.heads = {(a + b, "") for a, b in s.heads}
    return out


# ------------------------------------------------------------------------------------------
# What a call has to draw
# ------------------------------------------------------------------------------------------
def expect_points(s, points, colors="#000000"):
    points = np.array(points, float)
    for p, c in zip(points, listed(colors, len(points))):
        s.points.add((pt(p), c))


def expect_line(s, a, b, color="#000000"):
    if np.abs(np.subtract(a, b)).max() > 1e-9:
        s.segments.add((seg(a, b), color))


def expect_vector(s, a, b, color="#000000", label=None):
    a, b = np.array(a, float), np.array(b, float)
    expect_line(s, a, b, color)
    s.heads.add((pt(b) + pt((b - a) / np.linalg.norm(b - a)), ""))
    if label is not None:
        s.texts.add((pt(a + 1.2 * (b - a)), label))


def expect_cell(s, cell, color="#000000", vectors=True, label="a", shift=(0, 0, 0)):
    cell, shift = np.array(cell, float), np.array(shift, float)
    if vectors:
        for i in range(3):
            expect_vector(s, shift, shift + cell[i], color, f"{label}{i + 1}")
    for n in itertools.product((0, 1), repeat=3):
        for i in range(3):
            if n[i] == 0:
                a = shift + np.array(n) @ cell
                expect_line(s, a, a + cell[i], color)


def expect_voronoi(s, cell, color, vectors, label, shift, w):
    """edges from the definition: pairs of vertices that share two of the bisecting planes"""
    cell, shift = np.array(cell, float), np.array(shift, float)
    if vectors:
        for i in range(3):
            expect_vector(s, shift, shift + cell[i], color, f"{label}{i + 1}")
    for a, b in voronoi_edges(cell):
        expect_line(s, shift + a, shift + b, color)


_EDGES = {}


def voronoi_edges(cell):
    key = cell.tobytes()
    if key not in _EDGES:
        # the lattice vectors that can bound the cell: of a reduced basis, coefficients up to 1
        best = cell.copy()
        changed = True
        while changed:
            changed = False
            for i, j in itertools.permutations(range(3), 2):
                for k in (-1, 1):
                    v = best[i] + k * best[j]
                    if v @ v < best[i] @ best[i] - 1e-9:
                        best[i], changed = v, True
            for i in range(3):
                for k, l in itertools.product((-1, 1), repeat=2):
                    v = best[i] + k * best[(i + 1) % 3] + l * best[(i + 2) % 3]
                    if v @ v < best[i] @ best[i] - 1e-9:
                        best[i], changed = v, True
        vs = np.array([n for n in itertools.product((-1, 0, 1), repeat=3) if any(n)]) @ best
        h = (vs * vs).sum(1) / 2
        verts, faces = [], []
        for i, j, k in itertools.combinations(range(len(vs)), 3):
            M = vs[[i, j, k]]
            if abs(np.linalg.det(M)) < 1e-9 * np.abs(M).max() ** 3:
                continue
            p = np.linalg.solve(M, h[[i, j, k]])
            if (vs @ p - h < 1e-9 * h.max()).all():
                if not any(np.abs(p - q).max() < 1e-7 for q in verts):
                    verts.append(p)
                    faces.append(set(np.flatnonzero(np.abs(vs @ p - h) < 1e-7 * h.max())))
        out = []
        for (i, a), (j, b) in itertools.combinations(enumerate(verts), 2):
            common = sorted(faces[i] & faces[j])
            if len(common) >= 2 and np.linalg.matrix_rank(vs[common], tol=1e-6) >= 2:
                out.append((a, b))
        _EDGES[key] = out
    return _EDGES[key]


def expect_kpath(s, kp, color="#000000", shift=(0, 0, 0)):
    for sub in kp.path:
        p = [np.array(shift) + np.array(kp.hs_coordinates[n]) @ np.array(kp.rcell) for n in sub]
        for a, b in zip(p[:-1], p[1:]):
            expect_line(s, a, b, color)


def expect_kpoints(s, kp, color="#000000", shift=(0, 0, 0), only=False):
    used = {n for sub in kp.path for n in sub}
    for n in kp.hs_names:
        if not only or n in used:
            p = np.array(shift) + np.array(kp.hs_coordinates[n]) @ np.array(kp.rcell)
            s.points.add((pt(p), color))
            s.texts.add((pt(p), n))


def expect_lattice(s, cell, color="#000000", rng=(1, 1, 1), shift=(0, 0, 0)):
    for n in itertools.product(*[range(-r, r + 1) for r in rng]):
        s.points.add((pt(np.array(n) @ np.array(cell, float) + np.array(shift)), color))


def expect_atoms(s, cell, atoms, colors, shift=(0, 0, 0)):
    names = atoms.get("names", [f"X{i + 1}" for i in range(len(atoms["positions"]))])
    p = np.array(atoms["positions"], float) @ np.array(cell, float) + np.array(shift)
    for x, c, n in zip(p, listed(colors, len(p)), names):
        s.points.add((pt(x), c))
        s.texts.add((pt(x), n))


# ------------------------------------------------------------------------------------------
# The menu
# ------------------------------------------------------------------------------------------
class Args:
    pass


def make_args(w, name="mC", cell=None):
    a = Args()
    a.cell = np.array(lattice(name) if cell is None else cell)
    a.cell_list = a.cell.tolist()
    a.atoms = dict(
        names=["Cr1", "Br", "I2"],
        positions=[[0.1, -0.2, 0.3], [0.5, 0.5, 0.75], [-0.25, 1.5, 0.0]],
    )
    a.atoms_species = dict(
        species=["Br", "Cr"], positions=np.array([[0.4, 0.1, 0.9], [0.0, 0.6, -0.4]]), q=[1, 2]
    )
    a.atoms_both = dict(
        names=["Cr1", "Br2"], species=["I", "O"], positions=[[0.1, 0.1, -0.9], [0.3, -0.6, 0.4]]
    )
    a.rcell = 2 * np.pi * np.linalg.inv(a.cell).T
    a.kp = w.Kpoints(
        a.rcell,
        coordinates=[[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0], [0.25, -0.5, 0.5], [0, 0, 0.9]],
        names=["GAMMA", "X", "M", "L", "FAR"],
        path="GAMMA-X-M|L-GAMMA|X-L",
    )
    a.kp_short = w.Kpoints(
        a.rcell, coordinates=[[0, 0, -0.5], [-0.7, 0, 0]], names=["A", "B"], path="A-B"
    )
    a.points = [[1.5, -2.0, 3.0], [0.25, 0.5, -9.0], [7.0, 0.1, 0.2]]
    a.array = np.array(a.points) * -2
    return a


def menu(w, a, light=False):
    """name -> (call(engine, subplot options), expected(scene), options of the legend)"""
    col = w.constants.ATOM_COLORS
    m = {}

    def add(name, method, args, expect, **kw):
        m[name] = (method, args, kw, expect)

    G, R = "#112233", "red"
    add("points", "plot_points", (a.points,), lambda s: expect_points(s, a.points))
    add("points array", "plot_points", (a.array,), lambda s: expect_points(s, a.array, G), colors=G,
        legend_label="P", scale=3)  # fmt: skip
    add("points colors", "plot_points", (a.points,),
        lambda s: expect_points(s, a.points, ["#AA0000", "#00BB00", "#0000CC"]),
        colors=["#AA0000", "#00BB00", "#0000CC"], legend_group="g1")  # fmt: skip
    add("one point", "plot_points", ([[-20.0, 4, 5]],), lambda s: expect_points(s, [[-20.0, 4, 5]]))
    add("line", "plot_line", ([1, 2, 3], (-4, 5.5, 16)), lambda s: expect_line(s, [1, 2, 3], [-4, 5.5, 16]))
    add("line legend", "plot_line", (np.array([0, 0, 0.0]), [0, -30, 0]),
        lambda s: expect_line(s, [0, 0, 0], [0, -30, 0], R), color=R, legend_label="L",
        legend_group="g2")  # fmt: skip
    add("vector", "plot_vector", ([1, 1, 1], [2, -1, 5]), lambda s: expect_vector(s, [1, 1, 1], [2, -1, 5]))
    add("vector label", "plot_vector", ([0, 0, 0], [-11, 0, 12]),
        lambda s: expect_vector(s, [0, 0, 0], [-11, 0, 12], G, "v"), color=G, vector_label="v",
        legend_label="V")  # fmt: skip
    add("cell", "plot_cell", (a.cell,), lambda s: expect_cell(s, a.cell))
    add("cell bare", "plot_cell", (a.cell_list,),
        lambda s: expect_cell(s, a.cell, R, False, shift=(1, -2, 30)), plot_vectors=False, color=R,
        shift=(1, -2, 30), legend_label="C")  # fmt: skip
    add("cell shift", "plot_cell", (a.cell,),
        lambda s: expect_cell(s, a.cell, G, True, "u", [-9, 0, 0]), color=G, vector_label="u",
        shift=[-9, 0, 0], legend_group="g3")  # fmt: skip
    add("kpath", "plot_kpath", (a.kp,), lambda s: expect_kpath(s, a.kp))
    add("kpath shift", "plot_kpath", (a.kp_short,),
        lambda s: expect_kpath(s, a.kp_short, R, (3, 0, -7)), color=R, shift=(3, 0, -7),
        legend_label="K")  # fmt: skip
    add("kpath legend", "plot_kpath", (a.kp,), lambda s: expect_kpath(s, a.kp, G), color=G,
        legend_label="K", legend_group="g4")  # fmt: skip
    add("kpoints", "plot_kpoints", (a.kp,), lambda s: expect_kpoints(s, a.kp))
    add("kpoints path", "plot_kpoints", (a.kp,), lambda s: expect_kpoints(s, a.kp, only=True),
        only_from_kpath=True, legend_label="Q")  # fmt: skip
    add("kpoints shift", "plot_kpoints", (a.kp_short,),
        lambda s: expect_kpoints(s, a.kp_short, G, (0, -6, 1)), color=G, shift=(0, -6, 1),
        scale=2)  # fmt: skip
    add("lattice", "plot_lattice", (a.cell,), lambda s: expect_lattice(s, a.cell))
    add("lattice range", "plot_lattice", (a.cell_list,),
        lambda s: expect_lattice(s, a.cell, R, (0, 2, 1), (0.5, 0, -3)), range=(0, 2, 1),
        shift=(0.5, 0, -3), color=R, legend_label="R")  # fmt: skip
    add("atoms", "plot_atoms", (a.cell, a.atoms),
        lambda s: expect_atoms(s, a.cell, a.atoms, [col["Cr"], col["Br"], col["I"]]))  # fmt: skip
    add("atoms species", "plot_atoms", (a.cell_list, a.atoms_species),
        lambda s: expect_atoms(s, a.cell, a.atoms_species, [col["Br"], col["Cr"]], (0, 0, 40)),
        shift=(0, 0, 40), legend_label="A", legend_group="g5", add_hoverinfo=False)  # fmt: skip
    add("atoms color", "plot_atoms", (a.cell, a.atoms),
        lambda s: expect_atoms(s, a.cell, a.atoms, G), colors=G, scale=2)  # fmt: skip
    add("atoms colors", "plot_atoms", (a.cell, a.atoms_species),
        lambda s: expect_atoms(s, a.cell, a.atoms_species, ["#101010", "#FEFEFE"], (-33, 1, 0)),
        colors=["#101010", "#FEFEFE"], shift=[-33, 1, 0])  # fmt: skip
    if not light:
        add("atoms both", "plot_atoms", (a.cell, a.atoms_both),
            lambda s: expect_atoms(s, a.cell, a.atoms_both, [col["I"], col["O"]], (0, -14, 0)),
            shift=(0, -14, 0))  # fmt: skip
        add("ws", "plot_wigner_seitz_cell", (a.cell,),
            lambda s: expect_voronoi(s, a.cell, "#000000", True, "a", (0, 0, 0), w))  # fmt: skip
        add("ws shift", "plot_wigner_seitz_cell", (a.cell_list,),
            lambda s: expect_voronoi(s, a.cell, R, False, "a", (5, 0, -2), w), plot_vectors=False,
            color=R, shift=(5, 0, -2), legend_label="W", legend_group="g6")  # fmt: skip
        add("bz", "plot_brillouin_zone", (a.cell,),
            lambda s: expect_voronoi(s, a.rcell, "#FF4D67", True, "b", (0, 0, 0), w),
            legend_label="Z")  # fmt: skip
        add("bz shift", "plot_brillouin_zone", (a.cell_list,),
            lambda s: expect_voronoi(s, a.rcell, G, True, "k", (1, 2, 3), w), vector_label="k",
            color=G, shift=np.array([1, 2, 3]))  # fmt: skip
    # flat and single-point figures
    add("flat z", "plot_line", ([0, 0, 0], [3, 4, 0]), lambda s: expect_line(s, [0, 0, 0], [3, 4, 0]))
    add("flat x", "plot_line", ([0, 1, -2], [0, 4, 5]), lambda s: expect_line(s, [0, 1, -2], [0, 4, 5]))
    add("origin", "plot_points", ([[0, 0, 0]],), lambda s: expect_points(s, [[0, 0, 0]]))
    add("axis", "plot_line", ([0, 0, 0], (0, -2, 0)), lambda s: expect_line(s, [0, 0, 0], [0, -2, 0]))
    return m


SLOW = ("ws", "ws shift", "bz", "bz shift")
PLACES = ((1, 1), (1, 2), (2, 1), (2, 2))


def scene_name(row, col, cols):
    i = (row - 1) * cols + col
    return "scene" if i == 1 else f"scene{i}"


def run_sequence(w, res, m, a, seq, places, key, shape, finish, given=None):
    """seq: names of calls; places: subplot of each call"""
    rows, cols = shape
    kw = dict(_sphinx_gallery_fix=True)
    if given is not None:
        kw["fig"] = given()
        if rows * cols > 1:
            kw.update(rows=rows, cols=cols)
    elif rows * cols > 1:
        kw.update(rows=rows, cols=cols)
    engine = w.PlotlyEngine(**kw)
    foreign = 0 if given is None else len(engine.fig.data)
    want = {}
    groups = set()
    legend = []
    for name, (row, col) in zip(seq, places):
        method, args, options, expect = m[name]
        sn = scene_name(row, col, cols)
        expect(want.setdefault(sn, Scene()))
        before = digest(args), digest(options), len(engine.fig.data)
        place = {} if (row, col) == (1, 1) else dict(row=row, col=col)
        getattr(engine, method)(*args, **options, **place)
        res.transitions += 1
        res.check(
            (digest(args), digest(options)) == before[:2],
            f"{key}/arguments",
            f"{' > '.join(seq)}: {name} changes its arguments",
        )
        new = engine.fig.data[before[2] :]
        mine = {t.legendgroup for t in new}
        g = options.get("legend_group")
        if new:
            res.check(
                len(mine) == 1 and (mine == {g} if g else not mine & groups) and None not in mine,
                f"{key}/group",
                f"{name}: legend groups {mine}, asked for {g!r}, used before {groups}",
            )
        groups |= mine
        shown = [t.name for t in new if t.showlegend]
        label = options.get("legend_label")
        res.check(
            shown == ([label] if label else []),
            f"{key}/legend",
            f"{name}: legend shows {shown}, asked for {label!r}",
        )
    before = len(engine.fig.data)
    for f in finish:
        if f == "save":
            with tempfile.TemporaryDirectory() as d:
                out = os.path.join(d, "plot.html")
                engine.save(out, kwargs_write_html=dict(include_plotlyjs="cdn"))
                res.check(
                    os.path.getsize(out) > 1000 and os.listdir(d) == ["plot.html"],
                    f"{key}/save",
                    f"{' > '.join(seq)}: no file saved",
                )
        else:
            engine.show()
    res.check(len(engine.fig.data) == before, f"{key}/{finish}", "showing changes what is drawn")
    got = read(engine.fig, engine.fig.data[foreign:])
    res.traces += 1
    res.states += 1
    for sn in sorted(set(want) | set(got)):
        diff = want.get(sn, Scene()).missing(got.get(sn, Scene()))
        res.check(
            diff is None,
            f"{key}/content",
            f"{' > '.join(seq)} ({sn}): {diff}",
            sequence=list(seq),
            places=places,
        )
    for sn, s in want.items():
        check_ranges(res, engine.fig.layout[sn], s, key, f"{' > '.join(seq)} ({sn})")


def check_ranges(res, scene, s, key, where):
    p = s.everything()
    ranges = []
    for i, axis in enumerate("xyz"):
        r = scene[f"{axis}axis"].range
        if not res.check(
            r is not None and np.isfinite(np.array(r, float)).all() and r[1] > r[0],
            f"{key}/range",
            f"{where}: range of {axis} is {r}",
        ):
            return
        ranges.append(r)
        lo, hi = p[:, i].min(), p[:, i].max()
        res.check(
            r[0] <= lo + 1e-6 and r[1] >= hi - 1e-6,
            f"{key}/range",
            f"{where}: range of {axis} {tuple(r)} does not cover [{lo}, {hi}]",
        )
    ratio = scene.aspectratio
    scales = [float(ratio[x]) / (r[1] - r[0]) for x, r in zip("xyz", ranges)]
    res.check(
        scene.aspectmode == "manual"
        and np.isfinite(scales).all()
        and min(scales) > 0
        and max(scales) - min(scales) < 1e-6 * max(scales),
        f"{key}/aspect",
        f"{where}: the scales of the axes differ: {scales}",
    )


def jobs(tier):
    out = [dict(kind="sequences", depth=2, part=i, parts=16) for i in range(16)]
    out += [dict(kind="methods", index=i, level=0 if tier == "quick" else 1) for i in range(14)]
    out.append(dict(kind="options"))
    if tier != "quick":
        out += [dict(kind="sequences", depth=3, part=i, parts=48) for i in range(48)]
    return out


def given_plain():
    import plotly.graph_objects as go

    return go.Figure()


def given_full():
    import plotly.graph_objects as go

    return go.Figure(data=[go.Scatter3d(x=[0.5], y=[0.5], z=[0.5], mode="markers")])


def given_subplots():
    from plotly.subplots import make_subplots

    return make_subplots(rows=2, cols=2, specs=[[{"type": "scene"}] * 2] * 2)


def run(job):
    import wulfric as w

    res = Result()
    if job["kind"] == "sequences":
        a = make_args(w)
        m = menu(w, a, light=job["depth"] == 3)
        names = [n for n in m if n not in ("ws", "bz shift")]  # they take a second
        if job["depth"] == 3:
            names = [n for n in names if not n.startswith(("cell", "points c", "one", "atoms sp"))]
        seqs = list(itertools.product(names, repeat=job["depth"]))
        if job["depth"] == 2:
            seqs += [(n,) for n in names]
        for i, seq in enumerate(seqs):
            if i % job["parts"] != job["part"]:
                continue
            key = "+".join(seq)
            run_sequence(w, res, m, a, seq, [(1, 1)] * len(seq), key, (1, 1), ("show",))
            # spread over subplots: the second call somewhere else, and back
            if any(n in SLOW for n in seq):
                continue
            k = i % 4
            places = [(1, 1), PLACES[k], (1, 1)][: len(seq)]
            if job["depth"] == 2:
                places = [PLACES[(i // 4) % 4], PLACES[k]][: len(seq)]
                run_sequence(w, res, m, a, seq, places, key + "/subplots", (2, 2), ("show",))
    elif job["kind"] == "methods":
        bl = list(zoo.BRAVAIS_SG)[job["index"]]
        for c in zoo.bravais_crystals(job["level"]):
            if not c.label.startswith(bl + "/"):
                continue
            a = make_args(w, cell=c.cell)
            m = menu(w, a)
            for name in m:
                run_sequence(w, res, m, a, (name,), [(1, 1)], f"{c.label}/{name}", (1, 1), ("show",))
            one = dict(positions=[[0, 0, 0]], spglib_types=[1])
            for conv in ("HPKOT", "SC"):
                try:
                    a.kp = w.Kpoints.from_crystal(c.cell, one, convention=conv)
                except ValueError:
                    continue
                m = menu(w, a, light=True)
                for name in ("kpath", "kpoints", "kpoints path", "kpath legend"):
                    key = f"{c.label}/{conv}/{name}"
                    run_sequence(w, res, m, a, (name,), [(1, 1)], key, (1, 1), ("show",))
    else:
        run_options(w, res)
    res.sample(job=job, states=res.states)
    return res


def run_options(w, res):
    a = make_args(w)
    m = menu(w, a)
    for name in m:
        if name in ("ws", "bz", "bz shift"):
            continue
        for finish in (("save",), ("show", "show"), ("save", "show")):
            run_sequence(w, res, m, a, (name,), [(1, 1)], f"{name}/{finish}", (1, 1), finish)
        for what, f in (("plain", given_plain), ("full", given_full)):
            run_sequence(
                w, res, m, a, (name,), [(1, 1)], f"{name}/given {what}", (1, 1), ("show",), f
            )
        for place in PLACES:
            key = f"{name}/given subplots {place}"
            run_sequence(w, res, m, a, (name,), [place], key, (2, 2), ("show",), given_subplots)
    # more after it was shown once
    names = ("points", "vector label", "atoms", "cell bare", "kpath shift", "kpoints")
    for i, (first, second) in enumerate(itertools.permutations(names, 2)):
        for cols in (1, 2):
            engine = w.PlotlyEngine(_sphinx_gallery_fix=True, cols=cols)
            scenes = {}
            for k, name in enumerate((first, second, first)):
                method, args, options, expect = m[name]
                col = 1 + (k == 1 and cols == 2)
                getattr(engine, method)(*args, **options, **(dict(col=2) if col == 2 else {}))
                expect(scenes.setdefault("scene" if col == 1 else "scene2", Scene()))
                if (i + k) % 3:
                    engine.show(axes_visible=bool((i + k) % 2))
                else:
                    with tempfile.TemporaryDirectory() as d:
                        engine.save(
                            os.path.join(d, "x.html"), kwargs_write_html=dict(include_plotlyjs="cdn")
                        )
                res.states += 1
                res.transitions += 2
                res.traces += 1
                got = read(engine.fig, engine.fig.data)
                for sn, s in scenes.items():
                    key, where = f"again/{first}/{second}/{sn}", f"{first}, {second}, {first} in {cols} plots"
                    check_ranges(res, engine.fig.layout[sn], s, key, where)
                    diff = s.missing(got.get(sn, Scene()))
                    res.check(diff is None, f"{key}/content", f"{where}: {diff}")
    # marker sizes follow the scale
    for name, (method, args, _, _) in m.items():
        if method not in ("plot_points", "plot_kpoints", "plot_atoms"):
            continue
        sizes = []
        for scale in (1, 2.5):
            engine = w.PlotlyEngine()
            getattr(engine, method)(*args, scale=scale)
            sizes.append(engine.fig.data[-1].marker.size)
        res.check(
            np.allclose(np.array(sizes[1]), 2.5 * np.array(sizes[0])),
            f"{name}/scale",
            f"{method}: size {sizes[0]} became {sizes[1]} with scale=2.5",
        )
    # visibility, legend, layout
    spots = dict(top=(0.5, 1.0), bottom=(0.5, 0.0), left=(0.0, 0.5), right=(1.0, 0.5))
    for axes in (True, False):
        for position in ("top", "Bottom", "LEFT", "right"):
            for how in ("show", "save"):
                engine = w.PlotlyEngine(_sphinx_gallery_fix=True, rows=1, cols=2)
                engine.plot_points(a.points, legend_label="P")
                engine.plot_points(a.points, legend_label="Q", row=1, col=2)
                with tempfile.TemporaryDirectory() as d:
                    args = (os.path.join(d, "x.html"),) if how == "save" else ()
                    kw = dict(kwargs_write_html=dict(include_plotlyjs="cdn")) if args else {}
                    engine.save(*args, axes_visible=axes, legend_position=position, title="T", **kw) \
                        if args else engine.show(axes_visible=axes, legend_position=position, title="T")  # fmt: skip
                lay = engine.fig.layout
                res.states += 1
                res.transitions += 1
                res.traces += 1
                s = Scene()
                m["points"][3](s)
                for sn in ("scene", "scene2"):
                    where = f"{how}(axes_visible={axes}): {sn}"
                    check_ranges(res, lay[sn], s, f"axes/{how}/{sn}", where)
                    for x in "xyz":
                        v = lay[sn][f"{x}axis"].visible
                        res.check(
                            (v is not False) == axes,
                            f"axes/{how}",
                            f"{how}(axes_visible={axes}): {sn} {x}axis visible is {v}",
                        )
                res.check(
                    (lay.legend.x, lay.legend.y) == spots[position.lower()],
                    f"legend/{how}",
                    f"{how}(legend_position={position!r}): {lay.legend.x}, {lay.legend.y}",
                )
                res.check(lay.title.text == "T", f"layout/{how}", f"{how}: title is not passed on")
    for how in ("show", "save"):
        engine = w.PlotlyEngine(_sphinx_gallery_fix=True)
        engine.plot_points(a.points)
        with tempfile.TemporaryDirectory() as d:
            try:
                f = dict(output_name=os.path.join(d, "x")) if how == "save" else {}
                getattr(engine, how)(legend_position="middle", **f)
                res.violation(f"legend/{how}/wrong", f"{how}: legend_position='middle' accepted")
            except ValueError:
                pass
    # hover information of atoms
    engine = w.PlotlyEngine()
    atoms = dict(
        names=["Cr1", "Br", "I2"],
        species=["Cr", "Br", "I"],
        spglib_types=[3, 5, 4],
        spin=[[0, 1, 2.5], "up", None],
        positions=[[0.1, -0.2, 0.3], [0.5, 0.5, 0.75], [-0.25, 1.5, 0.0]],
    )
    engine.plot_atoms(a.cell, atoms)
    hover = engine.fig.data[-1].hovertext
    res.states += 1
    for i in range(3):
        for x in ("Cr1 Br I2".split()[i], ["Cr", "Br", "I"][i], str([3, 5, 4][i]), str(atoms["spin"][i])):
            res.check(x in hover[i], "hover", f"{x} is not in the hover text of atom {i}: {hover[i]}")
        for x in atoms["positions"][i]:
            res.check(f"{x:.4f}" in hover[i], "hover", f"{x} is not in the text of atom {i}: {hover[i]}")
        for x in np.array(atoms["positions"][i]) @ a.cell:
            res.check(f"{x:.4f}" in hover[i], "hover", f"{x} is not in the text of atom {i}: {hover[i]}")
    # hover information of k-points
    for relative_shift in ((0, 0, 0), (1.5, -0.25, 0.125)):
        engine = w.PlotlyEngine()
        engine.plot_kpoints(a.kp, shift=relative_shift)
        t = engine.fig.data[-1]
        res.states += 1
        for i, name in enumerate(a.kp.hs_names):
            k = np.array(a.kp.hs_coordinates[name], float)
            res.check(t.text[i] == name, "hover/kpoints", f"text of {name} is {t.text[i]!r}")
            for x in (name, a.kp.hs_labels[name], *(f"{x:.4f}" for x in (*k, *(k @ a.kp.rcell + relative_shift)))):
                res.check(
                    x in t.hovertext[i], "hover/kpoints", f"{x} is not in the text of {name}: {t.hovertext[i]}"
                )
