"""C23: dictionaries with syntactic sugar."""

import copy
import json
import pickle

import numpy as np

from mc import zoo
from mc.core import Result, explore, jsonable

INFO = dict(
    level="model_checking",
    space=dict(
        quick="every history of 4 operations out of an alphabet of 44 (set, delete, read, pop, setdefault, update, "
        "clear, merge, copies, adding and removing sugar) over 6 keys (two of them names of dictionary methods, "
        "one not a string) from 5 initial dictionaries, merged by content; the library's functions on "
        "sugared and plain atoms of 14 Bravais lattices",
        thorough="histories of 6 operations",
    ),
    assumptions=[],
)

ATTR = ("names", "items", "copy", "_x")
KEYS = ATTR + ("1 b", 7)
VALUES = {"one": 1, "list": [1, [2, 3]]}
METHODS = set(dir(dict))
INITIAL = {
    "empty": {},
    "atoms": {"names": ["Cr1", "Cr2"], "positions": [[0, 0, 0], [0.5, 0.5, 0.5]]},
    "methods": {"items": 3, "keys": None, "copy": "c", "names": "n"},
    "nested": {"names": {"names": 1, "b": {"c": [2]}}, "_x": (1, {"items": 2}), "copy": True, "z": {}},
    "odd": {7: "seven", "1 b": 0, "_x": None, (1, 2): 3},
}


def operations(wulf):
    """name -> f(sugar, model) -> (new sugar, what it returned, new model, what it has to return)"""
    ops = {}

    def add(name, on_sugar, on_model):
        ops[name] = (on_sugar, on_model)

    def outcome(f, *args):
        try:
            return ("ok", f(*args))
        except (KeyError, AttributeError):
            return ("missing", None)

    for k in KEYS:
        for vname, v in VALUES.items():
            add(f"item {k}={vname}", lambda s, k=k, v=v: s.__setitem__(k, copy.deepcopy(v)),
                lambda m, k=k, v=v: m.__setitem__(k, copy.deepcopy(v)))  # fmt: skip
            if k in ATTR:
                add(f"attr {k}={vname}", lambda s, k=k, v=v: setattr(s, k, copy.deepcopy(v)),
                    lambda m, k=k, v=v: m.__setitem__(k, copy.deepcopy(v)))  # fmt: skip
        add(f"del item {k}", lambda s, k=k: s.__delitem__(k), lambda m, k=k: m.__delitem__(k))
        if k in ATTR:
            add(f"del attr {k}", lambda s, k=k: delattr(s, k), lambda m, k=k: m.__delitem__(k))
        add(f"pop {k}", lambda s, k=k: s.pop(k), lambda m, k=k: m.pop(k))
    add("pop default", lambda s: s.pop("nothing", 5), lambda m: m.pop("nothing", 5))
    add("setdefault", lambda s: s.setdefault("names", 9), lambda m: m.setdefault("names", 9))
    add("update", lambda s: s.update({"names": 0, "_x": 8}, extra=1), lambda m: m.update({"names": 0, "_x": 8}, extra=1))
    add("clear", lambda s: s.clear(), lambda m: m.clear())
    add("popitem", lambda s: s.popitem(), lambda m: m.popitem())
    add("ior", lambda s: s.__ior__({"copy": 4, "z": 5}) and None, lambda m: m.update({"copy": 4, "z": 5}))
    return ops, outcome


def replacements(wulf):
    """Operations that make another object with the same content."""
    return {
        "add_sugar again": wulf.add_sugar,
        "remove and add": lambda s: wulf.add_sugar(wulf.remove_sugar(s)),
        "deepcopy": copy.deepcopy,
        "shallow": copy.copy,
        "pickle": lambda s: pickle.loads(pickle.dumps(s)),
        "constructor": lambda s: wulf.SyntacticSugar(s),
    }


def frozen(m):
    return repr(list(m.items()))


def observe(wulf, res, s, m, key, trace):
    bad = []

    def want(ok, text):
        if not ok:
            bad.append(text)

    want(isinstance(s, dict) and isinstance(s, wulf.SyntacticSugar), f"type {type(s)}")
    want(s == m and m == s, f"content {dict.__repr__(s)}, expected {m}")
    want(list(dict.items(s)) == list(m.items()), "order of the items")
    want(len(s) == len(m) and bool(s) == bool(m) and list(s) == list(m), "iteration")
    for k in m:
        want(k in s and type(s[k]) is type(m[k]), f"type of the value of {k!r}")
    want(list(s.items()) == list(m.items()) and list(s.keys()) == list(m), "items() or keys()")
    want(repr(s) == repr(m), f"repr {s!r}")
    want({**s} == m and dict(s) == m, "unpacking")
    for k in set(KEYS) | set(m) | {"positions", "missing"}:
        want((k in s) == (k in m), f"{k!r} in")
        want(s.get(k, "?") == m.get(k, "?"), f"get({k!r})")
        try:
            want(s[k] == m[k], f"item {k!r}")
        except KeyError:
            want(k not in m, f"item {k!r} is missing")
        if isinstance(k, str) and k.isidentifier() and k not in METHODS:
            want(hasattr(s, k) == (k in m), f"hasattr {k!r}")
            want(getattr(s, k, "?") == m.get(k, "?"), f"attribute {k!r} is {getattr(s, k, '?')!r}")
            if k in m:
                want(getattr(s, k) is s[k], f"attribute and item {k!r} are different objects")
        elif k in METHODS:
            want(callable(getattr(s, k)), f"method {k!r} is hidden")
    plain = wulf.remove_sugar(s)
    for k in m:
        want(k in s and k in plain and plain[k] is s[k], f"value of {k!r} without sugar is not the one with it")
    want(type(plain) is dict and list(plain.items()) == list(m.items()), f"remove_sugar gives {plain!r}")
    again = wulf.remove_sugar(plain)
    want(type(again) is dict and again == m, f"remove_sugar of a plain dictionary gives {again!r}")
    again["names"] = "changed"
    want(plain == m, "remove_sugar of a plain dictionary is the same object")
    plain["names"] = "changed"
    plain["new one"] = 1
    want(s == m, "changing the dictionary without sugar changes the one with it")
    twice = wulf.add_sugar(s)
    want(isinstance(twice, wulf.SyntacticSugar) and twice == m, f"add_sugar of a sugared dictionary: {twice!r}")
    twice["names"] = "changed"
    twice.other = 1
    want(s == m, "add_sugar of a sugared dictionary is the same object")
    base = dict(m)
    candy = wulf.add_sugar(base)
    want(isinstance(candy, wulf.SyntacticSugar) and candy == m, f"add_sugar gives {candy!r}")
    for k in m:
        want(candy[k] is base[k], f"value of {k!r} is not the one that was given")
    candy["names"] = "changed"
    candy.other = 1
    want(base == m, "changing the sugared dictionary changes the plain one")
    if bad:
        res.violation(
            f"{key}/{'+'.join(trace)}", f"{key} then {', '.join(trace) or 'nothing'}: {'; '.join(bad[:3])}"
        )
    res.traces += 1


def run_history(wulf, job, res):
    ops, outcome = operations(wulf)
    others = replacements(wulf)
    m0 = copy.deepcopy(INITIAL[job["initial"]])
    start = wulf.add_sugar(copy.deepcopy(m0)) if m0 else wulf.SyntacticSugar()

    def apply(name, s, m):
        on_sugar, on_model = ops[name]
        s, m = copy.deepcopy(s), copy.deepcopy(m)
        a, b = outcome(on_sugar, s), outcome(on_model, m)
        if a != b:
            res.violation(
                f"{job['initial']}/{name}", f"{name} on {dict.__repr__(s)}: {a}, a dictionary gives {b}"
            )
        return s, m

    def successors(state):
        s, m = state
        for name in ops:
            yield name, apply(name, s, m)
        for name, f in others.items():
            t = f(s)
            if not isinstance(t, wulf.SyntacticSugar) or t != m:
                res.violation(f"{job['initial']}/{name}", f"{name} of {m} is {t!r}")
                continue
            yield name, (t, copy.deepcopy(m))

    initial = [(start, m0)]
    if job["first"] is not None:
        s, m = apply(job["first"], start, m0)
        initial = [(s, m)]

    def visit(state, trace):
        observe(wulf, res, state[0], state[1], f"{job['initial']}/{job['first']}", trace)

    explore(initial, successors, lambda st: frozen(st[1]), visit, job["depth"] - 1, res)
    res.sample(initial=job["initial"], first=job["first"], states=res.states)


def run_library(wulf, res):
    """Atoms with and without sugar are the same atoms for the library."""
    for c in zoo.bravais_crystals(0):
        for form in ("types", "names", "all"):
            plain = zoo.with_keys(c, form)
            sugar = wulf.add_sugar(zoo.with_keys(c, form))
            res.states += 1
            for name, f in {
                "get_conventional": lambda a: wulf.crystal.get_conventional(c.cell, a),
                "get_primitive": lambda a: wulf.crystal.get_primitive(c.cell, a, convention="sc"),
                "get_path_and_points": lambda a: wulf.kpoints.get_path_and_points(c.cell, a),
                "get_spglib_types": lambda a: wulf.get_spglib_types(a),
                "get_vector": lambda a: wulf.crystal.get_vector(c.cell, a, 0, len(c.pos) - 1, (1, 0, 0)),
            }.items():
                a, b = f(plain), f(sugar)
                res.traces += 1
                res.check(
                    json.dumps(jsonable(a)) == json.dumps(jsonable(b)),
                    f"library/{name}/{c.label}/{form}",
                    f"{name} of {c.label} depends on the sugar",
                    plain=a,
                    sugar=b,
                )
            data = wulf.get_spglib_data(c.cell, sugar)
            res.check(
                isinstance(np.asarray(data.conventional_cell), np.ndarray), "library/data", "spglib data"
            )
    for bad in (None, [("a", 1)], "names", 5, {1, 2}):
        for name in ("add_sugar", "remove_sugar"):
            res.states += 1
            try:
                out = getattr(wulf, name)(bad)
                res.violation(f"reject/{name}/{bad!r}", f"{name}({bad!r}) returns {out!r}")
            except ValueError:
                res.count("not dictionaries rejected")


def jobs(tier):
    import wulfric as wulf

    ops, _ = operations(wulf)
    d = 4 if tier == "quick" else 6
    out = []
    for initial in INITIAL:
        out.append(dict(kind="history", initial=initial, first=None, depth=3))
        for first in ops:
            out.append(dict(kind="history", initial=initial, first=first, depth=d))
    out.append(dict(kind="library"))
    return out


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "history":
        run_history(wulf, job, res)
    else:
        run_library(wulf, res)
    return res
