"""C09: a Kpoints object after any history of operations agrees with a reference model."""

import itertools

import numpy as np

from mc import zoo
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="every history of 3 operations out of an alphabet of 29 (add, remove, new path given as "
        "string / list / tuple, new n, copy, and the rejected variants of each) from 8 initial objects, "
        "observed after every operation, and every history of up to 2 operations observed only at the end",
        thorough="in addition every history of 3 operations observed only at the end, and every history of 4 "
        "operations out of a reduced alphabet of 17",
    ),
    assumptions=["names contain neither '-' nor '|'"],
)

RCELLS = {
    "cubic": [[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]],
    "oblique": [[1.3, 0.2, -0.1], [0.4, 2.1, 0.3], [-0.5, 0.6, 0.9]],
    "left": [[0, 1.1, 0.2], [1.7, 0, 0.1], [0.3, 0.2, 2.5]],
}
C = {
    "G": [0, 0, 0],
    "X": [0.5, 0, 0],
    "M": [0.5, 0.5, 0.25],
    "N": [0.1, -0.2, 1.3],
    "X'": [-0.25, 0.75, 0.0],
}

# name of the operation -> (method, arguments)
OPS = {}


def _op(kind, *args):
    OPS[f"{kind}{args}"] = (kind, args)


for name, coord, label, rel in (
    ("N", "N", None, True),
    ("N", "X'", r"$N$", False),
    ("X", "X'", "Xx", True),
    ("G", "M", None, False),
    ("M", "N", "", True),
):
    _op("add", name, coord, label, rel)
for name in ("G", "X", "M", "N", "Q"):
    _op("remove", name)
for path in (
    "G-X",
    "G-X-M-G",
    "G-X|M-G",
    "X-M|G-X-G",
    "N-G-X",
    "M-M|G-N",
    [["G", "X"], ["M", "G"]],
    (("X", "M", "G"), ["G", "X"]),
    [],
    "G-Q",
    "G",
    "G-X|M",
    [["G"]],
    [["G", "X"], ["X", "Q"]],
    [["G", "X"], ["M"]],
):
    _op("path", path)
for n in (0, 1, 3, "2"):
    _op("n", n)
_op("copy")
THIN = [k for i, k in enumerate(OPS) if i in (0, 1, 2, 3, 5, 6, 7, 8, 11, 12, 14, 16, 18, 20, 24, 26, 28)]


class Model:
    """The documented behaviour, written from scratch."""

    def __init__(self, rcell, names, coords, labels, path, n):
        self.rcell = np.array(rcell, float)
        self.names = list(names)
        self.coords = {a: np.array(b, float) for a, b in zip(names, coords)}
        self.labels = dict(zip(names, labels))
        self.path = [list(p) for p in path]
        self.n = n

    def step(self, kind, args):
        """True if the operation is accepted"""
        if kind == "add":
            name, coord, label, rel = args
            if name in self.names:
                return False
            k = np.array(C[coord], float)
            if not rel:
                k = np.linalg.solve(self.rcell.T, k)
            self.names.append(name)
            self.coords[name] = k
            self.labels[name] = name if label is None else label
        elif kind == "remove":
            (name,) = args
            if name in self.names:
                self.names.remove(name)
                del self.coords[name], self.labels[name]
                path = []
                for sub in self.path:
                    for here, run in itertools.groupby(sub, lambda p: p == name):
                        run = list(run)
                        if not here and len(run) > 1:
                            path.append(run)
                self.path = path
        elif kind == "path":
            (new,) = args
            if isinstance(new, str):
                new = [s.split("-") for s in new.split("|")]
            if any(len(s) < 2 for s in new):
                return False
            if any(p not in self.names for s in new for p in s):
                return False
            self.path = [list(s) for s in new]
        elif kind == "n":
            if not isinstance(args[0], int):
                return False
            self.n = args[0]
        return True

    def segments(self):
        for i, sub in enumerate(self.path):
            for j in range(len(sub) - 1):
                yield i, j, sub[j], sub[j + 1]

    def observe(self):
        o = dict(
            names=list(self.names),
            path=self.path,
            path_string="|".join("-".join(s) for s in self.path),
            n=self.n,
            hs_labels=self.labels,
        )
        labels = []
        for i, sub in enumerate(self.path):
            for j, p in enumerate(sub):
                if j == 0 and i > 0:
                    labels[-1] = labels[-1] + "|" + self.labels[p]
                else:
                    labels.append(self.labels[p])
        o["labels"] = labels
        for rel in (False, True):
            pts, flat, ticks = [], [], [0.0] if self.path else []
            at = 0.0
            for _, _, p, q in self.segments():
                a, b = self.coords[p], self.coords[q]
                if not rel:
                    a, b = a @ self.rcell, b @ self.rcell
                d = float(np.sqrt(((b - a) ** 2).sum()))
                f = np.arange(self.n + 2) / (self.n + 1)
                pts.append(a + f[:, None] * (b - a))
                flat.append(at + f * d)
                at += d
                ticks.append(at)
            o[f"points({rel})"] = np.concatenate(pts) if pts else np.zeros((0, 3))
            o[f"flat({rel})"] = np.concatenate(flat) if flat else np.zeros(0)
            o[f"ticks({rel})"] = np.array(ticks)
        o["coords"] = np.array([self.coords[n] for n in self.names]).reshape(-1, 3)
        return o


def observe(kp):
    o = dict(
        names=list(kp.hs_names),
        path=[list(s) for s in kp.path],
        path_string=kp.path_string,
        n=kp.n,
        hs_labels=dict(kp.hs_labels),
        labels=list(kp.labels),
    )
    for rel in (False, True):
        o[f"points({rel})"] = np.asarray(kp.points(relative=rel), float).reshape(-1, 3)
        o[f"flat({rel})"] = np.asarray(kp.flat_points(relative=rel), float)
        o[f"ticks({rel})"] = np.asarray(kp.ticks(relative=rel), float)
    o["coords"] = np.array([kp.hs_coordinates[n] for n in kp.hs_names], float).reshape(-1, 3)
    if set(kp.hs_coordinates) != set(kp.hs_names):
        o["names"] = ("names and coordinates disagree", list(kp.hs_coordinates))
    return o


def differs(want, got):
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray):
            if w.shape != g.shape or (w.size and np.abs(w - g).max() > 1e-9):
                return k, w, g
        elif w != g:
            return k, w, g
    return None


def table_problem(model, text, decimals):
    lines = text.split("\n")
    if len(lines) != len(model.names) + 1:
        return f"{len(lines)} lines for {len(model.names)} points"
    if lines[0].split() != ["Name", "rel_b1", "rel_b2", "rel_b3", "k_x", "k_y", "k_z"]:
        return f"header {lines[0]!r}"
    for name, line in zip(model.names, lines[1:]):
        f = line.split()
        k = model.coords[name]
        want = [*k, *(k @ model.rcell)]
        if f[0] != name or len(f) != 7:
            return f"line {line!r} for {name}"
        if any(abs(float(x) - y) > 0.5001 * 10**-decimals + 1e-12 for x, y in zip(f[1:], want)):
            return f"line {line!r}, expected {want}"
    return None


def initial(index):
    """(constructor arguments, model)"""
    g = ["G", "X", "M"]
    co = [C[x] for x in g]
    if index == 0:
        return (RCELLS["oblique"], co, g, None, None), Model(RCELLS["oblique"], g, co, g, [g], 100)
    if index == 1:
        lab = [r"$\Gamma$", "X", "M_2"]
        return (
            (RCELLS["left"], np.array(co), tuple(g), lab, "G-X|M-X-G", 4),
            Model(RCELLS["left"], g, co, lab, [["G", "X"], ["M", "X", "G"]], 4),
        )
    if index == 2:
        return (np.array(RCELLS["cubic"]),), Model(RCELLS["cubic"], [], [], [], [], 100)
    if index == 3:
        g = ["G"]
        return (RCELLS["oblique"], [C["G"]], g, ["lab"], None, 2), Model(
            RCELLS["oblique"], g, [C["G"]], ["lab"], [], 2
        )
    if index == 4:
        names = ["K1", "K2", "K3"]
        return (RCELLS["left"], [C["M"], C["G"], C["N"]], None, None, None, 1), Model(
            RCELLS["left"], names, [C["M"], C["G"], C["N"]], ["K$_1$", "K$_2$", "K$_3$"], [names], 1
        )
    if index == 5:
        return (RCELLS["cubic"], co, g, None, [["X", "M"], ["G", "X", "G"]], 0), Model(
            RCELLS["cubic"], g, co, g, [["X", "M"], ["G", "X", "G"]], 0
        )
    if index == 7:  # joined names of two pairs are the same word
        g = ["G", "GX", "XM", "M"]
        co = [C[x] for x in ("G", "X", "M", "N")]
        return (RCELLS["oblique"], co, g, None, "G-XM|GX-M|M-G", 1), Model(
            RCELLS["oblique"], g, co, g, [["G", "XM"], ["GX", "M"], ["M", "G"]], 1
        )
    g = ["X", "M", "G", "N"]
    co = [C[x] for x in g]
    return (RCELLS["oblique"], co, g, None, "X-M-G-N-M|N-X", 2), Model(
        RCELLS["oblique"], g, co, g, [["X", "M", "G", "N", "M"], ["N", "X"]], 2
    )


N_INITIAL = 8


def build(wulf, index):
    """A fresh object; the caller's own lists are overwritten afterwards."""
    args, model = initial(index)
    own = []
    for a in args:
        if isinstance(a, (list, np.ndarray)):
            a = np.array(a) if isinstance(a, np.ndarray) else [
                list(x) if isinstance(x, (list, tuple)) else x for x in a
            ]
            own.append(a)
        else:
            own.append(a)
    keys = ("rcell", "coordinates", "names", "labels", "path", "n")
    kp = wulf.Kpoints(**dict(zip(keys, own)))
    for a in own:
        if isinstance(a, np.ndarray):
            a[...] = 77.0
        elif isinstance(a, list):
            for i, x in enumerate(a):
                if isinstance(x, list):
                    x[:] = ["overwritten"] * len(x)
                a[i] = "overwritten"
            a.clear()
    return kp, model


def apply(kp, kind, args):
    """(object to go on with, old object or None). Raises what the code raises."""
    if kind == "add":
        name, coord, label, rel = args
        k = np.array(C[coord], float)
        if label is None and rel:
            kp.add_hs_point(name, k)
        elif label is None:
            kp.add_hs_point(name, list(k), relative=False)
        else:
            kp.add_hs_point(name, k, label=label, relative=rel)
        k[...] = 55.0
    elif kind == "remove":
        kp.remove_hs_point(args[0])
    elif kind == "path":
        new = args[0]
        if isinstance(new, list):
            new = [list(s) for s in new]
        kp.path = new
        if isinstance(new, list):
            for s in new:
                s[:] = ["overwritten"]
            new.clear()
    elif kind == "n":
        kp.n = args[0]
    elif kind == "copy":
        old = kp
        kp = kp.copy()
        # the copy does not see what happens to the original
        for n in list(old.hs_names):
            old.hs_coordinates[n][...] = 3
            old.hs_labels[n] = "spoiled"
        old.rcell[...] = 7
        old.n = 9
        for n in list(old.hs_names):
            old.remove_hs_point(n)
    return kp


def play(wulf, res, index, names, observe_all):
    kp, model = build(wulf, index)
    key = f"initial{index}/" + "+".join(names) + ("" if observe_all else "/end")
    for depth, name in enumerate(names):
        kind, args = OPS[name]
        before = None
        accepted = model.step(kind, args)
        try:
            kp = apply(kp, kind, args)
            done = True
        except Exception as e:
            done, error = False, e
        if done != accepted:
            res.violation(
                key,
                f"{name} was {'accepted' if done else f'rejected ({error!r})'[:200]}, after {names[:depth]}",
            )
            return False
        last = depth == len(names) - 1
        if observe_all or last:
            for _ in range(2 if last and len(names) < 3 else 1):
                d = differs(model.observe(), observe(kp))
                res.traces += 1
                if d is not None:
                    res.violation(
                        f"{key}/{d[0]}",
                        f"{d[0]} is {d[2]}, the model says {d[1]}, after {names[: depth + 1]}",
                        initial=index,
                    )
                    return False
            if last:
                for dec in (8, 3) if len(names) < 3 else (6,):
                    p = table_problem(model, kp.hs_table(decimals=dec), dec)
                    res.check(p is None, f"{key}/hs_table", f"hs_table after {names}: {p}")
    return True


def jobs(tier):
    out = []
    for i in range(N_INITIAL):
        for first in OPS:
            out.append(dict(initial=i, first=first, depth=3, end=2 if tier == "quick" else 3))
    if tier == "thorough":
        for i in range(N_INITIAL):
            for first in THIN:
                out.append(dict(initial=i, first=first, depth=4, end=0, thin=True))
    out.append(dict(initial=0, first="crystal", depth=2))
    out.append(dict(initial=0, first="rejected", depth=0))
    return out


def run(job):
    import wulfric as wulf

    res = Result()
    if job["first"] == "crystal":
        crystal(wulf, res)
        return res
    if job["first"] == "rejected":
        rejected(wulf, res)
        return res
    names = THIN if job.get("thin") else list(OPS)
    for depth in range(0, job["depth"]):
        for rest in itertools.product(names, repeat=depth):
            seq = (job["first"],) + rest
            res.transitions += len(seq)
            res.states += 1
            if depth == job["depth"] - 1 or depth == 0:
                if not play(wulf, res, job["initial"], seq, True):
                    return res
            if len(seq) <= job["end"]:
                if not play(wulf, res, job["initial"], seq, False):
                    return res
    res.sample(job=job, histories=res.states)
    return res


def rejected(wulf, res):
    """Constructors that have to be rejected."""
    co = [C["G"], C["X"]]
    R = RCELLS["cubic"]
    for kw in (
        dict(coordinates=co, names=["G"]),
        dict(coordinates=co, names=["G", "X", "M"]),
        dict(coordinates=co, labels=["G"]),
        dict(coordinates=co, names=["G", "X"], labels=["G", "X", "M"]),
        dict(coordinates=co, names=["G", "X"], path="G-Y"),
        dict(coordinates=co, names=["G", "X"], path="G-X|X"),
        dict(coordinates=co, names=["G", "X"], path=[["G"]]),
        dict(names=["G", "X"]),
        dict(path="G-X"),
    ):
        res.states += 1
        try:
            wulf.Kpoints(R, **kw)
            res.violation(f"accepted/{sorted(kw)}", f"Kpoints({kw}) was accepted")
        except ValueError:
            res.traces += 1


def crystal(wulf, res):
    """Objects made from crystals: every symbol of both conventions, 2 operations."""
    for c in zoo.bravais_crystals(1):
        for conv in ("HPKOT", "SC"):
            kp0 = wulf.Kpoints.from_crystal(c.cell, c.atoms(), convention=zoo.spell(conv, c.label), n=2)
            names = list(kp0.hs_names)
            m0 = lambda: Model(  # noqa: E731
                kp0.rcell, names, [kp0.hs_coordinates[n] for n in names],
                [kp0.hs_labels[n] for n in names], [list(s) for s in kp0.path], 2,
            )  # fmt: skip
            for seq in itertools.product(["none"] + [("remove", (n,)) for n in names], repeat=2):
                kp, m = kp0.copy(), m0()
                for op in seq:
                    if op == "none":
                        continue
                    m.step(*op)
                    kp = apply(kp, *op)
                d = differs(m.observe(), observe(kp))
                res.states += 1
                res.traces += 1
                res.transitions += len(seq)
                if d is not None:
                    res.violation(
                        f"{c.label}/{conv}/{seq}/{d[0]}",
                        f"{conv} {c.label} after {seq}: {d[0]} is {d[2]}, the model says {d[1]}",
                    )
                    break
