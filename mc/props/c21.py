"""C21: arguments, returned objects and the library's own data do not influence each other.

Explicit-state exploration of call histories. The state is everything that survives a call: the
shared crystals, symmetry data and k-path objects, and every object reachable from the modules of
wulfric. Every transition makes one call on the shared objects, overwrites everything the call
returned, and compares the answer with the one of a pristine process. Each transition runs in a
process of its own, forked from the state it starts in. Histories that lead to the same state are
merged, so that if every call leaves the state as it was, the exploration covers histories of any
length; a second exploration without merging covers all pairs (in a bigger space, triples), in case
something survives a call that the state does not show.
"""

import dataclasses
import hashlib
import os
import pickle
import select
import signal
import sys
import tempfile
import types
import warnings

import numpy as np

from mc import zoo
from mc.core import Result
from mc.props.c22 import equal

INFO = dict(
    level="model_checking",
    space=dict(
        quick="8 worlds (4 pairs of crystals; as arrays, lists, read-only arrays, names only): all states "
        "reachable by calls from a menu of ~60 functions x 2 crystals with every returned object "
        "overwritten; all pairs of related calls without merging in 2 worlds; all histories (call, "
        "change of the crystal in place, related call); all examples and their paths",
        thorough="16 worlds; all pairs without merging for every pair of crystals,  all triples over a reduced menu",
    ),
    assumptions=[
        "merging: what survives a call is reachable from wulfric's modules or the shared objects "
        "(checked against the exploration without merging)"
    ],
)


# ------------------------------------------------------------------------------------------
# Values: a form that can be compared and sent between processes; overwriting; digests
# ------------------------------------------------------------------------------------------
def norm(x, depth=0):
    if isinstance(x, np.ndarray):
        return np.array(x)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {k: norm(v) for k, v in sorted(vars(x).items())}
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in dict.items(x)}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (str, int, float, bool, np.generic)) or x is None:
        return x
    if type(x).__name__ == "Kpoints":
        return {k: norm(v) for k, v in sorted(vars(x).items())}
    return repr(type(x))


def scribble(x, seen=None, top=True):
    """Overwrite everything that was returned, in place"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype.kind in "fc":
                x += 0.777
                x *= -3
            elif x.dtype.kind in "iu":
                x += 1
        return
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        for v in vars(x).values():
            scribble(v, seen)
        return
    if type(x).__name__ == "Kpoints":
        for v in list(vars(x).values()):
            scribble(v, seen)
        x._path = []
        return
    if isinstance(x, dict):
        for k, v in list(dict.items(x)):
            # the entries of other keys are the user's own objects, handed on
            if isinstance(v, (list, np.ndarray, dict)):
                scribble(v, seen, top=False)
        dict.clear(x)
        dict.__setitem__(x, "scribbled", 1)
        return
    if isinstance(x, list):
        if top:
            for v in x:
                scribble(v, seen)
        x[:] = ["scribbled"]
        return
    if isinstance(x, tuple):
        for v in x:
            scribble(v, seen, top)


class Digest:
    def __init__(self):
        self.h = hashlib.blake2b(digest_size=16)
        self.seen = {}

    def add(self, x, depth=0):
        h = self.h
        if x is None or isinstance(x, (bool, int, float, str, bytes, np.generic)):
            h.update(repr(x).encode())
            return
        if id(x) in self.seen:
            h.update(b"@%d" % self.seen[id(x)])
            return
        self.seen[id(x)] = len(self.seen)
        if isinstance(x, np.ndarray):
            h.update(repr((x.shape, x.dtype.str)).encode())
            h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x).encode())
        elif isinstance(x, dict):
            h.update(b"{")
            for k, v in dict.items(x):
                self.add(k)
                self.add(v)
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for v in x:
                self.add(v)
        elif isinstance(x, (set, frozenset)):
            h.update(repr(sorted(map(repr, x))).encode())
        elif isinstance(x, types.FunctionType):
            if not (x.__module__ or "").startswith("wulfric"):
                return
            h.update(x.__qualname__.encode())
            self.add(x.__defaults__)
            self.add(x.__kwdefaults__)
            self.add(x.__dict__)
            for c in x.__closure__ or ():
                try:
                    self.add(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(x, (staticmethod, classmethod)):
            self.add(x.__func__)
        elif isinstance(x, property):
            for f in (x.fget, x.fset):
                self.add(f)
        elif hasattr(x, "cache_info") and callable(x.cache_info):
            h.update(repr(x.cache_info()[-1]).encode())
            self.add(getattr(x, "__wrapped__", None))
        elif isinstance(x, type):
            if (x.__module__ or "").startswith("wulfric"):
                h.update(x.__qualname__.encode())
                for k, v in vars(x).items():
                    if k not in ("__dict__", "__weakref__", "__module__", "__slotnames__"):
                        h.update(k.encode())
                        self.add(v)
        elif isinstance(x, types.ModuleType):
            return
        elif type(x).__module__.startswith("wulfric") and hasattr(x, "__dict__"):
            h.update(type(x).__qualname__.encode())
            self.add(vars(x))
        else:
            h.update(type(x).__name__.encode())

    def hex(self):
        return self.h.hexdigest()


def library_digest():
    d = Digest()
    for name in sorted(m for m in sys.modules if m == "wulfric" or m.startswith("wulfric.")):
        m = sys.modules[name]
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            d.h.update(k.encode())
            d.add(v)
    d.add(sorted(np.get_printoptions().items(), key=str).__repr__())
    d.add(sorted(np.geterr().items()))
    return d.hex()


def digest(x):
    d = Digest()
    d.add(x)
    return d.hex()


# ------------------------------------------------------------------------------------------
# Processes
# ------------------------------------------------------------------------------------------
def in_fork(f, limit=250):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                out = ("ok", f())
            except BaseException as e:  # noqa: BLE001
                import traceback

                out = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            data = pickle.dumps(out, protocol=5)
            view = memoryview(data)
            while view:
                view = view[os.write(w, view) :]
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    try:
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        if select and sys.exc_info()[0] is not None:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not chunks:
        raise RuntimeError("a process of the explorer ended without an answer")
    kind, value = pickle.loads(b"".join(chunks))
    if kind == "error":
        raise RuntimeError(value)
    return value


# ------------------------------------------------------------------------------------------
# Worlds: the objects that calls share
# ------------------------------------------------------------------------------------------
# pairs of crystals. The second one differs from the first by what a careless memory would miss
WORLDS = {
    "kinds": (("tI", 4, [1, 1, 2, 1]), ("tI", 4, [1, 2, 2, 1])),
    "lattices": (("hR", 1, [1]), ("cF", 1, [1])),
    "metrics": (("oF", 1, [1]), ("oF*", 1, [1])),
    "low": (("aP", 2, [1, 2]), ("mC", 2, [1, 1])),
}
SITES = np.array([[0, 0, 0], [0.31, 0.17, 0.43], [0.55, 0.71, 0.12], [0.82, 0.36, 0.64]])


class Subject:
    pass


_LATTICES = {}


def lattice(bl):
    if not _LATTICES:
        for c in zoo.bravais_crystals(1):
            name = c.label.split("/")[0]
            _LATTICES.setdefault(name, c.cell)
            _LATTICES[name + "*"] = c.cell
    return _LATTICES[bl]


def make_world(w, name, form):
    out = {}
    for tag, (bl, n, kinds) in zip("AB", WORLDS[name]):
        s = Subject()
        s.cell = np.array(lattice(bl))
        pos = SITES[:n] + (0.07 if form == "lists" else 0.0)
        s.atoms = dict(
            names=[f"{'Cr' if t == 1 else 'Br'}{i + 1}" for i, t in enumerate(kinds)],
            positions=pos,
            species=["Cr" if t == 1 else "Br" for t in kinds],
            spglib_types=list(kinds),
            moment=[[0, 0, i] for i in range(n)],
            note=tuple(f"#{i}" for i in range(n)),
        )
        if form == "lists":
            s.cell = s.cell.tolist()
            s.atoms["positions"] = pos.tolist()
            del s.atoms["spglib_types"]
        if form == "names":
            del s.atoms["species"], s.atoms["spglib_types"]
        if form == "readonly":
            s.cell.flags.writeable = False
            s.atoms["positions"].flags.writeable = False
        s.data = w.get_spglib_data(s.cell, s.atoms)
        s.kp = w.Kpoints.from_crystal(s.cell, s.atoms, convention="HPKOT")
        s.rcell = w.cell.get_reciprocal(s.cell)
        s.path = [list(p) for p in s.kp.path]
        s.vector = np.array([0.3, -1.2, 2.0])
        if form == "readonly":
            for v in (s.vector, s.rcell):
                v.flags.writeable = False
        out[tag] = s
    return out


def menu(w, tags="AB", conventions=zoo.CONVENTIONS):
    """name -> (call(world), overwrite the answer?)"""
    ops = {}

    def add(name, f, overwrite=True):
        for t in tags:
            ops[f"{name} {t}"] = (lambda W, f=f, t=t: f(W[t]), overwrite)

    for conv in conventions:
        for what, d in (("", None), (" data", "data")):
            kw = (lambda s, d=d: dict(spglib_data=s.data)) if d else (lambda s: {})
            add(
                f"conventional {conv}{what}",
                lambda s, c=conv, kw=kw: w.crystal.get_conventional(s.cell, s.atoms, c, **kw(s)),
            )
            add(
                f"primitive {conv}{what}",
                lambda s, c=conv, kw=kw: w.crystal.get_primitive(s.cell, s.atoms, c, **kw(s)),
            )
            if conv == "spglib":
                continue
            for tr in (True, False):
                add(
                    f"path {conv} {tr}{what}",
                    lambda s, c=conv, kw=kw, tr=tr: w.kpoints.get_path_and_points(
                        s.cell, s.atoms, convention=c, with_time_reversal=tr, relative=tr, **kw(s)
                    ),
                )
            add(
                f"from_crystal {conv}{what}",
                lambda s, c=conv, kw=kw: w.Kpoints.from_crystal(s.cell, s.atoms, c, **kw(s)),
            )
    for what in ("", " data"):
        kw = (lambda s: dict(spglib_data=s.data)) if what else (lambda s: {})
        add(
            f"symbol{what}",
            lambda s, kw=kw: w.crystal.hpkot_get_extended_bl_symbol(s.cell, s.atoms, **kw(s)),
        )
        add(
            f"variation{what}", lambda s, kw=kw: w.crystal.sc_get_variation(s.cell, s.atoms, **kw(s))
        )
    add("data", lambda s: w.get_spglib_data(s.cell, s.atoms))
    add("data loose", lambda s: w.get_spglib_data(s.cell, s.atoms, spglib_symprec=1e-2))
    add("validate data", lambda s: w.validate_spglib_data(s.cell, s.atoms, s.data))
    add("kinds", lambda s: w.get_spglib_types(s.atoms), False)  # documented: may be the user's list
    add("validate", lambda s: w.crystal.validate_atoms(s.atoms))
    add("species", lambda s: w.crystal.get_atoms_species(s.atoms))
    # documented: the user's own list if the names are unique
    add("unique names", lambda s: w.crystal.get_unique_names(s.atoms, strategy="all"), False)
    add("vector", lambda s: w.crystal.get_vector(s.cell, s.atoms, 0, -1, R=(1, 0, -1)))
    add(
        "vector relative",
        lambda s: w.crystal.get_vector(s.cell, s.atoms, 0, 0, R=(1, 0, -1), return_relative=True),
    )
    add("distance", lambda s: w.crystal.get_distance(s.cell, s.atoms, 0, -1, R=(0, 2, 0)))
    add("reciprocal", lambda s: w.cell.get_reciprocal(s.cell))
    add("params", lambda s: w.cell.get_params(s.cell))
    add("products", lambda s: w.cell.get_scalar_products(s.cell))
    add("transformation", lambda s: w.cell.get_transformation_matrix(s.cell, s.rcell))
    add("niggli", lambda s: w.cell.get_niggli(s.cell))
    add("niggli own", lambda s: w.cell.get_niggli(s.cell, implementation="wulfric"))
    add("ws", lambda s: w.cell.get_wigner_seitz_cell(s.cell))
    add("bz", lambda s: w.cell.get_brillouin_zone(s.cell))
    add("points", lambda s: w.cell.get_lattice_points(s.cell))
    add("points relative", lambda s: w.cell.get_lattice_points(s.cell, relative=True, flat=False))
    add("volume", lambda s: w.geometry.get_volume(s.cell))
    add("volume vectors", lambda s: w.geometry.get_volume(*[row for row in s.cell]))
    add("lepage", lambda s: w.lepage(s.cell))
    add("angle", lambda s: w.geometry.get_angle(s.vector, s.cell[0]))
    add("spherical", lambda s: w.geometry.get_spherical(s.vector))
    add(
        "spherical axis",
        lambda s: w.geometry.get_spherical(s.vector, polar_axis=s.cell[0], radial_line_zero=s.cell[1]),
    )
    add("path list", lambda s: w.kpoints.get_path_as_list(s.kp.path_string))
    add("path string", lambda s: w.kpoints.get_path_as_string(s.path))
    add("kp points", lambda s: s.kp.points())
    add("kp points relative", lambda s: s.kp.points(relative=True))
    add("kp flat", lambda s: s.kp.flat_points())
    add("kp ticks", lambda s: s.kp.ticks())
    add("kp labels", lambda s: s.kp.labels)
    add("kp string", lambda s: s.kp.path_string)
    add("kp table", lambda s: s.kp.hs_table())
    add("kp copy", lambda s: s.kp.copy())
    add("kp copy edited", lambda s: edited_copy(s.kp))
    add(
        "kp new",
        lambda s: w.Kpoints(
            s.rcell, coordinates=[s.vector, s.cell[0]], names=["A", "B"], path=[["A", "B"]]
        ),
    )
    add("kp new path", lambda s: kp_path(w, s))
    add("kp added", lambda s: kp_added(w, s))
    add("poscar", lambda s: poscar(w, s))
    add("wrong convention", lambda s: w.crystal.get_conventional(s.cell, s.atoms, "none"))
    add("wrong cell", lambda s: w.crystal.get_primitive([1, 2], s.atoms))
    add("plot", lambda s: plot(w, s))
    return ops


def edited_copy(kp):
    k = kp.copy()
    k.add_hs_point("NEW", [0.1, 0.2, 0.3])
    k.path = [["GAMMA", "NEW"]]
    k.n = 3
    k.remove_hs_point("NEW")
    k.hs_coordinates["GAMMA"] += 1
    k.rcell *= 2
    return k


def kp_path(w, s):
    k = s.kp.copy()
    k.path = s.path
    k.remove_hs_point("GAMMA")
    return k


def kp_added(w, s):
    k = s.kp.copy()
    k.add_hs_point("V", s.vector, relative=False)
    k.add_hs_point("W", s.vector)
    return k


def poscar(w, s):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "POSCAR")
        w.io.dump_poscar(s.cell, s.atoms, file_object=f)
        return w.io.load_poscar(f)[:2]  # the comment has the time in it


def plot(w, s):
    p = w.PlotlyEngine()
    p.plot_cell(s.cell)
    p.plot_points([s.vector, s.cell[0]])
    p.plot_kpath(s.kp)
    p.plot_kpoints(s.kp)
    p.plot_atoms(s.cell, s.atoms)
    return len(p.fig.data)


def moved(W):
    p = W["A"].atoms["positions"]
    if isinstance(p, np.ndarray):
        p[0] += 0.1
        if len(p) > 1:
            p[1, 2] -= 0.05
    else:
        p[0] = [x + 0.1 for x in p[0]]


def strained(W):
    c = W["A"].cell
    for i in range(3):
        for j in range(3):
            c[i][j] = c[i][j] * (1 + 0.03 * (i + 1)) + 0.01 * (i == j)


def rekinded(W):
    W["A"].atoms["spglib_types"][:] = [7, 5, 7, 6][: len(W["A"].atoms["spglib_types"])]


# calls that take a second: explored with each other only
HEAVY = ("ws", "bz", "plot", "lepage")
EDITS = {"move in place": moved, "strain in place": strained, "kinds in place": rekinded}


# ------------------------------------------------------------------------------------------
# Exploration
# ------------------------------------------------------------------------------------------
class Explorer:
    def __init__(self, w, ops, make):
        self.w, self.ops, self.make = w, ops, make
        self.world = None
        self.answers = {}

    def call(self, name, world):
        f, overwrite = self.ops[name]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return f(world), overwrite
            except Exception as e:  # noqa: BLE001
                return ("exception", type(e).__name__), False

    def fresh(self, name, edits=()):
        """The answer of a pristine process"""
        key = (name, edits)
        if key not in self.answers:

            def f():
                world = self.make()
                for e in edits:
                    EDITS[e](world)
                return norm(self.call(name, world)[0])

            self.answers[key] = in_fork(f)
        return self.answers[key]

    def user(self, world):
        return {t: vars(s) for t, s in world.items()} if isinstance(world, dict) else None

    def step(self, name, world, edits, report, trace):
        """one transition on ``world``; report(kind, text)"""
        before = digest(self.user(world))
        value, overwrite = self.call(name, world)
        got = norm(value)
        want = self.fresh(name, edits)
        if not equal(want, got, 1e-9):
            report("answer", f"the answer depends on the calls before it: {show(got)}, a fresh "
                   f"process answers {show(want)}")  # fmt: skip
        if digest(self.user(world)) != before:
            report("argument", "the call changes its arguments")
            before = digest(self.user(world))
        if overwrite:
            scribble(value)
            if digest(self.user(world)) != before:
                report("alias", "changing the answer changes the arguments of the call")

    def explore(self, depth, merge, first=None, edits_at=None, second=None, near=False):
        """-> dict(states, transitions, violations, digests, capped)"""
        for name in self.ops:
            self.fresh(name)
        if edits_at:
            for name in second or self.ops:
                self.fresh(name, (edits_at,))
        out = dict(states=1, transitions=0, violations=[], digests=set(), deepest=0)

        def node(world, trace, edits, d, seen):
            """explore below; runs in the process that holds the state. -> summary"""
            summary = dict(transitions=0, violations=[], digests=[], deepest=len(trace))
            names = list(self.ops) if trace or first is None else first
            if edits and second:
                names = second
            if near and trace:
                names = [n for n in names if group(n) == group(trace[0])]
            for name in names:

                def child(name=name):
                    t = trace + (name,)
                    bad = []

                    def report(kind, text):
                        bad.append((kind, t, text))

                    self.step(name, world, edits, report, t)
                    e = edits
                    if edits_at and not edits:
                        EDITS[edits_at](world)
                        e = (edits_at,)
                        t = t + (edits_at,)
                    sub = dict(transitions=0, violations=[], digests=[], deepest=len(t))
                    state = library_digest() + digest(self.user(world))
                    new = state not in seen
                    if bad:
                        new = False  # below a violation everything may be wrong
                    if d > 1 and (new or not merge) and not bad:
                        sub = node(world, t, e, d - 1, seen | {state})
                    return dict(
                        transitions=1 + sub["transitions"],
                        violations=bad + sub["violations"],
                        digests=[state] + sub["digests"],
                        deepest=sub["deepest"],
                    )

                r = in_fork(child)
                summary["transitions"] += r["transitions"]
                summary["violations"] += r["violations"]
                summary["digests"] = list(set(summary["digests"]) | set(r["digests"]))
                summary["deepest"] = max(summary["deepest"], r["deepest"])
                if merge:
                    seen = seen | set(r["digests"])
                if len(summary["violations"]) > 10:
                    break
            return summary

        def root():
            world = self.make()
            state = library_digest() + digest(self.user(world))
            s = node(world, (), (), depth, frozenset({state}))
            s["digests"] = list(set(s["digests"]) | {state})
            return s

        return in_fork(root, 290)


def group(name):
    """calls that are likely to share code or memory: pairs inside a group are explored on every
    change, all pairs in the thorough tier"""
    if name.split(" ")[0] in ("example", "path", "kpoints") and len(name.split(" ")[1]) > 1:
        if not name.split(" ")[1] in zoo.CONVENTIONS:
            return "example " + name.split(" ")[1][:2]
    if REDUCED(name, True):
        return "symmetry"
    return "kp" if name.startswith(("kp", "path")) else "cell"


def show(x):
    return repr(x).replace("\n", " ")[:160]


def jobs(tier):
    quick = tier == "quick"
    out = []
    forms = ("arrays", "lists", "readonly", "names")
    for i, world in enumerate(WORLDS):
        for j, form in enumerate(forms):
            if quick and (i + j) % 2 == 1:
                continue
            out.append(dict(kind="closure", world=world, form=form, depth=3))
        for form in ("arrays",):
            if quick and world not in ("kinds", "low"):
                continue
            n = 16
            for part in range(n):
                out.append(dict(kind="pairs", world=world, form=form, part=part, parts=n, near=quick))
        for edit in EDITS:
            if edit == "kinds in place" and world == "lattices":
                continue
            n = 4
            if quick and world in ("lattices", "metrics") and edit == "move in place":
                continue
            for part in range(n):
                out.append(dict(kind="edits", world=world, edit=edit, part=part, parts=n, near=quick))
    if not quick:
        for part in range(24):
            out.append(dict(kind="triples", world="kinds", form="arrays", part=part, parts=24))
    for part in range(2):
        out.append(dict(kind="heavy", world="low", edit="strain in place", part=part, parts=2))
        if not quick:
            for edit in (None, "move in place"):
                out.append(dict(kind="heavy", world="kinds", edit=edit, part=part, parts=2))
    for part in range(16):
        out.append(dict(kind="examples", part=part, parts=16, near=True))
    out.append(dict(kind="examples-closure"))
    return out


def example_menu(w):
    ops = {}
    symbols = list(w.constants.HPKOT_EXTENDED_BL_SYMBOLS)
    symbols += sorted({s[:2] for s in symbols})
    for sym in symbols:
        for inv in (False, True):
            ops[f"example {sym} {inv}"] = (
                lambda W, s=sym, i=inv: w.crystal.hpkot_get_example(s, with_inversion=i),
                True,
            )
            if len(sym) == 3:
                ops[f"path {sym} {inv}"] = (
                    lambda W, s=sym, i=inv: w.kpoints.get_path_and_points(
                        *w.crystal.hpkot_get_example(s, with_inversion=i), with_time_reversal=False
                    ),
                    True,
                )
    one = dict(positions=[[0, 0, 0]], spglib_types=[1])
    for v in w.constants.SC_BRAVAIS_LATTICE_VARIATIONS if hasattr(
        w.constants, "SC_BRAVAIS_LATTICE_VARIATIONS"
    ) else SC_VARIATIONS:
        ops[f"example {v}"] = (lambda W, v=v: w.cell.sc_get_example(v), True)
        ops[f"path {v}"] = (
            lambda W, v=v: w.kpoints.get_path_and_points(
                w.cell.sc_get_example(v), dict(one), convention="SC"
            ),
            True,
        )
        ops[f"kpoints {v}"] = (
            lambda W, v=v: w.Kpoints.from_crystal(
                w.cell.sc_get_example(v), dict(one), convention="SC"
            ),
            True,
        )
    return ops


SC_VARIATIONS = (
    "CUB FCC BCC TET BCT1 BCT2 ORC ORCF1 ORCF2 ORCF3 ORCI ORCC HEX RHL1 RHL2 MCL MCLC1 MCLC2 MCLC3 "
    "MCLC4 MCLC5 TRI1a TRI1b TRI2a TRI2b"
).split()


def run(job):
    import plotly.graph_objects as go
    import wulfric as w

    go.Figure(data=[go.Scatter3d(x=[0], y=[0], z=[0]), go.Mesh3d()])  # imported before forking
    res = Result()
    kind = job["kind"]
    if kind.startswith("examples"):
        ops = example_menu(w)
        ex = Explorer(w, ops, lambda: {})
        names = list(ops)
        if kind == "examples-closure":
            out = ex.explore(3, True)
        else:
            out = ex.explore(2, False, first=names[job["part"] :: job["parts"]], near=job["near"])
    else:
        tags = "AB"
        conventions = zoo.CONVENTIONS
        form = job.get("form", "arrays")
        ops = menu(w, tags, conventions)
        lattice("cP")
        ex = Explorer(w, ops, lambda: make_world(w, job["world"], form))
        names = list(ops)
        if kind == "closure":
            out = ex.explore(job["depth"], True)
        elif kind == "heavy":
            pick = [n for n in names if n.split(" ")[0] in HEAVY + ("reciprocal", "niggli", "kp")]
            ex = Explorer(w, {n: ops[n] for n in pick}, ex.make)
            heavy = [n for n in pick if n.split(" ")[0] in HEAVY]
            on_a = [n for n in heavy if n.endswith(" A")]
            out = ex.explore(
                2, False, first=on_a[job["part"] :: job["parts"]], edits_at=job["edit"], second=heavy
            )
        elif kind == "pairs":
            ex = Explorer(w, {n: ops[n] for n in names if n.split(" ")[0] not in HEAVY}, ex.make)
            names = list(ex.ops)
            out = ex.explore(2, False, first=names[job["part"] :: job["parts"]], near=job["near"])
        elif kind == "triples":
            small = {k: v for k, v in ops.items() if REDUCED(k)}
            ex = Explorer(w, small, ex.make)
            out = ex.explore(3, False, first=list(small)[job["part"] :: job["parts"]])
        else:
            ex = Explorer(w, {n: ops[n] for n in names if n.split(" ")[0] not in HEAVY}, ex.make)
            on_a = [n for n in ex.ops if n.endswith(" A")]
            out = ex.explore(
                2,
                False,
                first=on_a[job["part"] :: job["parts"]],
                edits_at=job["edit"],
                second=on_a,
                near=job["near"],
            )
    res.states += len(out["digests"])
    res.transitions += out["transitions"]
    res.traces += out["transitions"]
    res.count(f"distinct states of the library, {kind}", len(out["digests"]))
    for what, trace, text in out["violations"]:
        res.violation(f"{what}/{job.get('world', kind)}/{' > '.join(trace)}",
                      f"{' > '.join(trace)}: {text}", trace=list(trace))  # fmt: skip
    res.sample(job=job, transitions=out["transitions"], states=len(out["digests"]))
    return res


def REDUCED(name, all_conventions=False):
    if all_conventions:
        return name.split(" ")[0] in (
            "conventional", "primitive", "from_crystal", "symbol", "variation", "data", "kinds",
            "validate", "species", "unique",
        ) or name.startswith(("path HPKOT", "path SC"))  # fmt: skip
    return name.split(" ")[0] in (
        "conventional", "primitive", "path", "from_crystal", "symbol", "variation", "data",
    ) and ("HPKOT" in name or "SC data" in name or "symbol" in name or name.startswith("data"))  # fmt: skip
