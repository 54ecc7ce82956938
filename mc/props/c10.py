"""C10: string and list representations of a k-path are interchangeable."""

import itertools

from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="every path of up to 3 subpaths of 2-4 points over 3 names (4 alphabets of names) and every "
        "string of up to 8 symbols over {A, B1, -, |}, against a reference parser",
        thorough="up to 3 subpaths of 2-4 points over 4 names; strings of up to 10 symbols",
    ),
    assumptions=["names of points are not empty and contain neither '-' nor '|'"],
)

ALPHABETS = (("GAMMA", "X", "M_P"), ("A", "A1", "AA"), ("k 1", "Γ", "X'"), (" A", "A ", "\tA\n"))


def parse(text):
    """Reference: list of subpaths, or None if a subpath has less than two points"""
    out, sub, name = [], [], ""
    for ch in text + "|":
        if ch in "-|":
            sub.append(name)
            name = ""
            if ch == "|":
                out.append(sub)
                sub = []
        else:
            name += ch
    if any(len(s) < 2 for s in out):
        return None
    return out


def jobs(tier):
    out = []
    for a in range(len(ALPHABETS)):
        for first in (2, 3, 4):
            for second in (0, 2, 3, 4):
                out.append(dict(kind="paths", alphabet=a, first=first, second=second, deep=tier != "quick"))
    length = 8 if tier == "quick" else 10
    for start in itertools.product(("A", "B1", "-", "|"), repeat=2):
        out.append(dict(kind="strings", start=start, length=length))
    out.append(dict(kind="short"))
    return out


def run(job):
    import wulfric as wulf

    to_list, to_string = wulf.kpoints.get_path_as_list, wulf.kpoints.get_path_as_string
    res = Result()
    if job["kind"] == "paths":
        names = ALPHABETS[job["alphabet"]]
        if job["deep"]:
            names = names + ("Z",)
        kp = wulf.Kpoints(
            [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[i, 0, 0] for i in range(len(names))], list(names)
        )

        def subs(n):
            return [list(s) for s in itertools.product(names, repeat=n)] if n else [None]

        # the third subpath: one of few
        thirds = [None, [names[0], names[1]], [names[2], names[2], names[0]]]
        for s1 in subs(job["first"]):
            for s2 in subs(job["second"]):
                for s3 in thirds if s2 is not None else [None]:
                    path = [s for s in (s1, s2, s3) if s is not None]
                    text = "|".join("-".join(s) for s in path)
                    res.states += 1
                    res.transitions += 2
                    got = to_string([list(s) for s in path])
                    back = to_list(text)
                    res.traces += 1
                    if not res.check(
                        got == text, f"string/{text}", f"{path} became the string {got!r}"
                    ):
                        return res
                    if not res.check(
                        back == path, f"list/{text}", f"{text!r} became the list {back}"
                    ):
                        return res
                    if res.states % 11 == 0:
                        if to_string(tuple(tuple(s) for s in path)) != text:
                            res.violation(f"tuple/{text}", f"tuples of {text!r} give another string")
                    if res.states % 5 == 0 or len(path) == 1:
                        kp.path = text
                        a, b = kp.path, kp.path_string
                        a = [list(s) for s in a]
                        kp.path = path
                        c, d = kp.path, kp.path_string
                        if (len(path) == 1 or res.states % 35 == 0) and not undefined(res, kp, names, path, text):
                            return res
                        if not (a == [list(s) for s in c] == path and b == d == text):
                            res.violation(
                                f"kpoints/{text}", f"Kpoints.path = {text!r} gives {a}, {c}, {b!r}, {d!r}"
                            )
    elif job["kind"] == "strings":
        for n in range(0, job["length"] - 1):
            for rest in itertools.product(("A", "B1", "-", "|"), repeat=n):
                text = "".join(tuple(job["start"]) + rest)
                check_string(wulf, res, text)
    else:
        for text in ("A", "-", "|", "B1"):
            check_string(wulf, res, text)
        for bad in (None, 1, ["A-B"], b"A-B"):
            res.states += 1
            try:
                to_list(bad)
                res.violation(f"type/{bad!r}", f"{bad!r} accepted as a path string")
            except ValueError:
                res.traces += 1
        for bad in (None, 5, [1, 2], [["A", "B"], 3]):
            res.states += 1
            try:
                to_string(bad)
                res.violation(f"type/{bad!r}", f"{bad!r} accepted as a list of subpaths")
            except ValueError:
                res.traces += 1
    res.sample(job=job, states=res.states)
    return res


def undefined(res, kp, names, path, text):
    """A path with a name that is not defined, in any place, is refused and changes nothing."""
    before, string = [list(s) for s in kp.path], kp.path_string
    for i, sub in enumerate(path):
        for j in range(len(sub)):
            for name in ("Q?", sub[j] + "_", sub[j].swapcase()):
                bad = [list(s) for s in path]
                if name in names:
                    continue
                bad[i][j] = name
                for value in (bad, "|".join("-".join(s) for s in bad)):
                    res.transitions += 1
                    try:
                        kp.path = value
                        res.violation(f"undefined/{value}", f"Kpoints of {names} accept the path {value}")
                        return False
                    except ValueError:
                        res.traces += 1
                    if [list(s) for s in kp.path] != before or kp.path_string != string:
                        res.violation(f"undefined/{value}", f"a refused path changed {text} to {kp.path_string}")
                        return False
    return True


def check_string(wulf, res, text):
    want = parse(text)
    if want is not None and any(not n for s in want for n in s):
        return  # empty names: outside of the quantifier
    res.states += 1
    res.transitions += 1
    res.traces += 1
    try:
        got = wulf.kpoints.get_path_as_list(text)
    except ValueError:
        got = None
    if got != want:
        res.violation(f"parse/{text}", f"{text!r} was read as {got}, expected {want}")
    if got is not None and want is not None:
        back = wulf.kpoints.get_path_as_string(got)
        if back != text:
            res.violation(f"back/{text}", f"{text!r} became {back!r} after list and back")
