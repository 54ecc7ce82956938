"""C28: the environment of the process does not decide the answers, and calls leave nothing behind in it.

The states are configurations of a process: which of the packages that wulfric can do without are
missing, the flags of the interpreter, the locale; inside of a process: the treatment of floating-point
errors and of warnings, the way arrays are printed, a working directory that is gone, a thread that is
not the main one. All of them are visited; in each the whole menu of calls is made and compared with
the plain process. A second exploration makes every call (good and failing ones) in sequences and looks
at what the process holds afterwards: open files, threads, child processes, files in its folders.
"""

import gc
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from mc.core import Result, VERIF
from mc.props import c21, c26
from mc.props.c22 import equal

INFO = dict(
    level="model_checking",
    space=dict(
        quick="8 subsets of missing packages x 3 flags of the interpreter x 2 locales x 6 modes inside of the process x "
        "~260 calls (good and refused ones) on 2 worlds; what is held after every call and every pair of reading and writing calls, with the "
        "exceptions kept",
        thorough="4 worlds, all calls in all modes",
    ),
    assumptions=["a missing package is one whose import raises ImportError"],
)

PACKAGES = ("scipy", "plotly", "spglib")
FLAGS = ((), ("-O",), ("-OO",))
LOCALES = {
    "utf-8": {"LC_ALL": "C.UTF-8"},
    "ascii": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"},
}
MODES = ("plain", "errors", "printing", "warnings", "folder", "thread")
HEAVY = ("ws", "bz", "lepage", "plot", "plot zone", "plot cell")
WORLDS = (("low", "arrays"), ("kinds", "names"), ("metrics", "lists"), ("lattices", "readonly"))
# the prefixes of calls that cannot be made without a package
NEEDS = {
    "scipy": ("ws", "bz", "plot zone"),
    "plotly": ("plot",),
    "spglib": ("lepage", "conventional", "primitive", "path HPKOT", "path SC", "from_crystal", "symbol", "variation", "data", "niggli", "wrong"),
}
# symmetry data are given, spglib might not be needed
MAY = {"spglib": (" data A", " data B", "niggli own A", "niggli own B")}


def menu(w):
    ops = {k: v[0] for k, v in c21.menu(w).items()}
    ops.update(c26.menu(w))
    for t in "AB":
        ops |= {
            f"plot cell {t}": lambda W, t=t: plot_cell(w, W[t]),
            f"plot zone {t}": lambda W, t=t: plot_zone(w, W[t]),
            f"poscar default {t}": lambda W, t=t: poscar(w, W[t]),
            f"poscar text {t}": lambda W, t=t: text(w, W[t]),
        }
    for conv, names in (("SC", ("CUB", "ORCF3", "MCLC4", "TRI1b")), ("HPKOT", ("aP2", "hR1", "mC3", "cF1"))):
        for name in names:
            if conv == "SC":
                ops[f"example {name} A"] = lambda W, n=name: w.cell.sc_get_example(n)
            else:
                ops[f"example {name} A"] = lambda W, n=name: w.crystal.hpkot_get_example(n)
    return ops


def calls(w):
    """The menu and calls that are refused"""
    from mc.props import c29

    ops = menu(w)
    ops |= {f"fails {k} A": lambda W, f=f: f() for k, f in c29.failing(w).items()}
    ops |= {f"angles {k} A": lambda W, k=k: angles(w, k) for k in (1, -1, 0.3, -7e3)}
    return ops


def angles(w, k):
    """Of parallel vectors, a rounding error away from the border of the arc cosine"""
    out = []
    for a in itertools.product((1.0, 0.1, -0.7, 3.3), repeat=3):
        out.append(w.geometry.get_angle(a, k * np.array(a)))
        out.append(w.geometry.get_angle(a, k * np.array(a), radians=True))
    return out


def plot_cell(w, s):
    p = w.PlotlyEngine()
    p.plot_cell(s.cell)
    return len(p.fig.data)


def plot_zone(w, s):
    p = w.PlotlyEngine()
    p.plot_brillouin_zone(s.cell)
    return len(p.fig.data)


COMMENT = "\u00c5ngstr\u00f6m \u221e, \u03b1 = 90\u00b0"


def poscar(w, s):
    """Both use their default file, in the working directory"""
    with tempfile.TemporaryDirectory() as d:
        try:
            here = os.getcwd()
        except FileNotFoundError:
            here = "/"
        os.chdir(d)
        try:
            w.io.dump_poscar(s.cell, s.atoms, comment=COMMENT)
            out = w.io.load_poscar()
            return [out, sorted(os.listdir(d))]
        finally:
            os.chdir(here)


def text(w, s):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "a b")
        w.io.dump_poscar(s.cell, s.atoms, file_object=f, comment=COMMENT, mode="Cartesian", decimals=12)
        with open(f, "rb") as r:
            return [list(r.read()), w.io.load_poscar(f)]


def outcome(f, world):
    try:
        return c21.norm(f(world))
    except Exception as e:  # noqa: BLE001
        return ["exception", type(e).__name__, str(e)[-300:]]


def base(name):
    return name.rsplit(" ", 1)[0]


def ask(worlds, modes, deep, everywhere):
    """mode -> name -> outcome; calls that take long are made in all modes of some processes"""
    import wulfric as w

    out = {}
    ops = calls(w)
    for mode in modes:
        answers = out[mode] = {}
        for k, world in worlds.items():
            for name, f in ops.items():
                if base(name) in HEAVY and not deep:
                    if not name.endswith(" A") or (mode not in ("plain", "errors") and not everywhere):
                        continue
                if mode == "warnings" and base(name) in ("lepage", "fails dump"):
                    continue  # deprecated, not deduced: the warning is the answer
                answers[f"{k}: {name}"] = in_mode(mode, f, world)
    return out


def in_mode(mode, f, world):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mode == "errors":
            with np.errstate(all="raise"):
                return outcome(f, world)
        if mode == "printing":
            with np.printoptions(precision=1, threshold=2, edgeitems=1, suppress=True, legacy="1.13"):
                return outcome(f, world)
        if mode == "warnings":
            warnings.simplefilter("error")
            # of spglib itself; and of files that are closed when they are not used any more
            warnings.filterwarnings("ignore", message="Set OLD_ERROR_HANDLING")
            warnings.filterwarnings("ignore", category=ResourceWarning)
            return outcome(f, world)
        if mode == "folder":
            d = tempfile.mkdtemp()
            os.chdir(d)
            os.rmdir(d)
            try:
                return outcome(f, world)
            finally:
                os.chdir("/")
        if mode == "thread":
            got = []
            t = threading.Thread(target=lambda: got.append(outcome(f, world)))
            t.start()
            t.join()
            return got[0]
        return outcome(f, world)


class Missing:
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def jobs(tier):
    deep = tier != "quick"
    out = []
    for n in range(len(PACKAGES) + 1):
        for missing in itertools.combinations(PACKAGES, n):
            for flags in range(len(FLAGS)):
                for locale in LOCALES:
                    out.append(dict(kind="process", missing=list(missing), flags=flags, locale=locale, deep=deep))
    for i in range(4):
        out.append(dict(kind="held", part=i, parts=4, deep=deep))
    return out


_HERE = {}


def here(deep):
    """The worlds and the answers of a plain process"""
    if deep not in _HERE:
        import wulfric as w

        names = WORLDS if deep else WORLDS[:2]
        worlds = {f"{a}/{b}": c21.make_world(w, a, b) for a, b in names}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ops = calls(w)
            answers = {f"{k}: {n}": outcome(f, world) for k, world in worlds.items() for n, f in ops.items()}
        _HERE[deep] = worlds, answers
    return _HERE[deep]


def run(job):
    warnings.simplefilter("ignore")
    res = Result()
    if job["kind"] == "held":
        run_held(res, job)
    else:
        run_process(res, job)
    return res


def run_process(res, job):
    import wulfric

    worlds, answers = here(job["deep"])
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    env |= LOCALES[job["locale"]] | {"PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1"}
    env["PYTHONPATH"] = VERIF + os.pathsep + os.path.dirname(os.path.dirname(wulfric.__file__))
    label = f"without {'+'.join(job['missing']) or 'nothing'}, {' '.join(FLAGS[job['flags']]) or 'no flags'}, {job['locale']}"
    child = subprocess.run(
        [sys.executable, *FLAGS[job["flags"]], "-W", "ignore", "-m", "mc.props.c28"],
        input=pickle.dumps((job["missing"], job["deep"], pickle.dumps(worlds, protocol=5)), protocol=5),
        env=env,
        cwd=VERIF,
        capture_output=True,
        timeout=280,
    )
    if child.returncode:
        res.violation(f"process/{label}", f"a process {label} fails: {child.stderr.decode(errors='replace')[-800:]}")
        return
    facts, out = pickle.loads(child.stdout)
    res.see("encodings", facts["encoding"])
    res.see("asserts", facts["asserts"])
    for mode, there in out.items():
        res.states += 1
        for name, got in there.items():
            res.transitions += 1
            res.traces += 1
            want = answers[name]
            call = base(name.split(": ", 1)[1])
            lacking = [p for p in job["missing"] if call.startswith(NEEDS[p])]
            may = any(name.endswith(MAY.get(p, ())) for p in lacking)
            if call.startswith("fails"):  # which of the reasons comes first is not decided
                lacking, may = job["missing"], True
            refused = (
                failed(got) and got[1] in ("ImportError", "ModuleNotFoundError")
                and any(p in got[2].lower() for p in lacking)
            )  # fmt: skip
            if lacking:
                res.count("refused" if refused else "answered without")
            if refused or ((not lacking or may) and same(want, got)):
                continue
            res.violation(
                f"process/{mode}/{name}",
                f"{name} in a process {label} (mode {mode}): {c21.show(got)}, "
                f"expected {'ImportError' if lacking else c21.show(want)}",
            )
            return


def same(a, b):
    if failed(a) or failed(b):
        return failed(a) and failed(b) and a[1] == b[1]
    return equal(a, b)


def failed(x):
    return isinstance(x, list) and len(x) == 3 and isinstance(x[0], str) and x[0] == "exception"


# ------------------------------------------------------------------------------------------
# what a process holds after a call
# ------------------------------------------------------------------------------------------
def held(folders):
    files = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            files.add(os.readlink(f"/proc/self/fd/{fd}"))
        except OSError:
            pass
    return dict(
        files=sorted(f for f in files if f.startswith("/") and not f.startswith(("/proc", "/dev"))),
        threads=threading.active_count(),
        children=children(),
        folders={k: sorted(os.listdir(d)) for k, d in folders.items()},
        environment=sorted(os.environ.items()),
        directory=os.getcwd(),
    )


def children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read().split()
    except OSError:
        return []


def files(w, d):
    """Calls that read and write, on the files of the folder d; the last letter tells the state of the file"""
    ok = dict(names=["Fe1", "O1"], positions=np.array([[0, 0, 0], [0.5, 0.5, 0.25]]))
    bad = dict(names=["Fe1", "unknown"], positions=np.array([[0, 0, 0], [0.5, 0.5, 0.25]]))
    cell = np.diag([3.0, 4.0, 5.0])
    good = "c\n1.0\n3 0 0\n0 4 0\n0 0 5\nFe O\n1 1\nDirect\n0 0 0\n0.5 0.5 0.25\n"
    contents = dict(
        good=good,
        empty="",
        scale=good.replace("1.0", "1.0 -1.0 1.0"),
        number=good.replace("0.25", "zero"),
        cut=good[:40],
        counts=good.replace("1 1", "1 5"),
    )
    for k, t in contents.items():
        with open(os.path.join(d, k), "w") as f:
            f.write(t)
    os.mkdir(os.path.join(d, "folder"))
    with open(os.path.join(d, "folder", "POSCAR"), "w") as f:
        f.write(good)
    os.mkdir(os.path.join(d, "nothing"))
    ops = {}
    for k in list(contents) + ["folder", "nothing", "missing"]:
        ops[f"load {k}"] = lambda k=k: w.io.load_poscar(os.path.join(d, k))
    ops["load default"] = lambda: w.io.load_poscar()
    for k, a in (("good", ok), ("bad", bad)):
        ops[f"dump {k}"] = lambda a=a: w.io.dump_poscar(cell, a, os.path.join(d, "written"), comment="c")
        ops[f"dump {k} over"] = lambda a=a: w.io.dump_poscar(cell, a, os.path.join(d, "good"), comment="c")
        ops[f"dump {k} nowhere"] = lambda a=a: w.io.dump_poscar(cell, a, os.path.join(d, "no", "where"), comment="c")
    ops["dump torn"] = lambda: w.io.dump_poscar(cell, ok, os.path.join(d, "written"), comment="\ud800")
    ops["example"] = lambda: w.crystal.hpkot_get_example("aP2")
    return ops


def run_held(res, job):
    import wulfric as w

    with tempfile.TemporaryDirectory() as top:
        folders = {k: os.path.join(top, k) for k in ("work", "home", "tmp")}
        for f in folders.values():
            os.mkdir(f)
        data = os.path.join(top, "data")
        os.mkdir(data)
        saved = dict(os.environ)
        where, tmp = os.getcwd(), tempfile.tempdir
        os.environ.update(HOME=folders["home"], TMPDIR=folders["tmp"])
        tempfile.tempdir = folders["tmp"]
        os.chdir(folders["work"])
        kept = []
        try:
            explore_held(w, res, job, folders, data, kept)
        finally:
            os.chdir(where)
            tempfile.tempdir = tmp
            os.environ.clear()
            os.environ.update(saved)
            kept.clear()
            gc.collect()


def explore_held(w, res, job, folders, data, kept):
    def keep(f):
        try:
            return f()
        except Exception as e:  # noqa: BLE001
            kept.append(e)
            return e

    calls = files(w, data)
    world = c21.make_world(w, "kinds", "names")
    everything = {n: (lambda f=f: f(world)) for n, f in menu(w).items() if not n.startswith("poscar")}
    for n in list(everything)[:40]:
        keep(everything[n])  # what is imported late is imported
    keep(everything["plot A"])
    kept.clear()
    start = held(folders)
    extra = [t.name for t in threading.enumerate() if t is not threading.main_thread()]
    if extra or start["children"]:
        res.violation("held/running", f"after one of each call the process runs threads {extra} and processes {start['children']}")
        return
    singles = list(calls) + list(everything)
    sequences = [(a,) for a in singles]
    sequences += list(itertools.product(calls, repeat=3 if job["deep"] else 2))
    for seq in sequences[job["part"] :: job["parts"]]:
        for name in seq:
            keep(calls.get(name) or everything[name])
            res.transitions += 1
        res.states += 1
        res.traces += 1
        now = held(folders)
        if now != start:
            what = [k for k in start if now[k] != start[k]][0]
            failed = f", exceptions kept: {[type(e).__name__ for e in kept]}" if kept else ""
            res.violation(
                f"held/{what}/{'+'.join(seq)}", f"after {' then '.join(seq)}{failed} the process holds other {what}: {now[what]}, not {start[what]}"
            )
            return
        res.count("failed calls", len(kept))
        kept.clear()


def final(tier, labels, counters, r):
    r.check(counters.get("refused", 0) > 500, "coverage", "too few calls without a package were refused")
    r.check(counters.get("failed calls", 0) > 100, "coverage", "too few failing calls")
    r.check(len(labels.get("encodings", ())) == 2, "coverage", "the locales do not differ in their encoding")
    r.check(len(labels.get("asserts", ())) == 2, "coverage", "the flags of the interpreter have no effect")


def assert_free(name):
    if name in sys.modules:
        raise RuntimeError(f"{name} is imported too early")


def main():
    import locale

    missing, deep, worlds = pickle.load(sys.stdin.buffer)
    assert_free("wulfric")
    for name in list(sys.modules):
        if name.split(".")[0] in missing:
            del sys.modules[name]  # the harness uses spglib
    sys.meta_path.insert(0, Missing(missing))
    worlds = pickle.loads(worlds)
    facts = dict(encoding=locale.getpreferredencoding(False).lower(), asserts=sys.flags.optimize == 0)
    out = ask(worlds, MODES, deep, not missing and facts["asserts"])
    sys.stdout.buffer.write(pickle.dumps((facts, out), protocol=5))


if __name__ == "__main__":
    main()
