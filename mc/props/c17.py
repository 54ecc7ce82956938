"""C17: species, unique names and kinds of atoms."""

import itertools
import string
import warnings

from mc.core import Result

ELEMENTS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr "
    "Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb "
    "Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf "
    "Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"
).split()
assert len(ELEMENTS) == 118
LOWER = {e.lower(): e for e in ELEMENTS}

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all names of up to 3 characters over 26 letters, a digit and an underscore in 3 letter cases; all "
        "lists of up to 6 names over 6 colliding names and of 10 to 12 names over 2, both strategies; all lists "
        "of up to 4 species, names or kinds and all combinations of conflicting keys",
        thorough="all names of up to 4 characters; lists of up to 7 names over 6 and of 10 and 11 over 3",
    ),
    assumptions=["a name that contains several element symbols of the same length may give any of them"],
)


def jobs(tier):
    deep = tier == "thorough"
    letters = string.ascii_lowercase + "1_"
    out = [dict(kind="species", first=c, length=4 if deep else 3) for c in letters]
    for first in NAMES:
        out.append(dict(kind="unique", first=first, length=7 if deep else 6))
    for n in (10, 11) if deep else (10, 11, 12):
        for first in ("A", "A1", "A11") if deep else ("A", "A1"):
            out.append(dict(kind="long", n=n, first=first, names=["A", "A1", "A11"] if deep else ["A", "A1"]))
    out.append(dict(kind="types"))
    out.append(dict(kind="strategies"))
    return out


def species_model(name):
    """Set of allowed answers."""
    low = name.lower()
    two = {LOWER[low[i : i + 2]] for i in range(len(low) - 1) if low[i : i + 2] in LOWER}
    return two or {LOWER[c] for c in low if c in LOWER} or {"X"}


def run_species(wulf, job, res):
    letters = string.ascii_lowercase + "1_"
    f = wulf.crystal.get_atom_species
    for n in range(job["length"]):
        for rest in itertools.product(letters, repeat=n):
            base = job["first"] + "".join(rest)
            for name in {base, base.upper(), base.capitalize()}:
                want = species_model(name)
                got = f(name)
                res.states += 1
                res.traces += 1
                if got not in want:
                    res.violation(f"species/{name}", f"species of {name!r} is {got!r}, expected {sorted(want)}")
                if n < 3:
                    try:
                        again = f(name, raise_on_fail=True)
                        if want == {"X"} or again != got:
                            res.violation(
                                f"species/{name}/raise",
                                f"species of {name!r} with raise_on_fail is {again!r}, without {got!r}",
                            )
                    except Exception as e:  # noqa: BLE001
                        if want != {"X"}:
                            res.violation(f"species/{name}/raise", f"{name!r} raises {type(e).__name__}")
                        res.count("not deduced")
                    res.see("species", got)
    # the list form gives the same, name by name
    names = [job["first"].upper() + c + d for c in letters for d in ("", "r", "2")]
    got = wulf.crystal.get_atoms_species(dict(names=list(names)))
    res.traces += 1
    res.check(
        list(got) == [f(n) for n in names],
        f"species-list/{job['first']}",
        f"species of the list differ from those of its names: {names} -> {got}",
    )
    # raise_on_fail is about every name of the list
    known = [n for n in names if species_model(n) != {"X"}][:3]
    unknown = [n for n in names if species_model(n) == {"X"}][:3]
    lists = [known]
    for i in range(len(known) + 1):
        lists += [known[:i] + [u] + known[i:] for u in unknown]
    for row in lists:
        if not row:
            continue
        fails = any(species_model(n) == {"X"} for n in row)
        res.states += 1
        res.traces += 1
        try:
            got = wulf.crystal.get_atoms_species(dict(names=list(row)), raise_on_fail=True)
            ok = not fails and list(got) == [f(n) for n in row]
        except Exception as e:  # noqa: BLE001
            got, ok = f"{type(e).__name__}", fails
        res.check(ok, f"species-list/raise/{row}", f"get_atoms_species of {row} with raise_on_fail: {got}")
    res.sample(first=job["first"], states=res.states)


NAMES = ("A", "B", "A1", "A2", "A11", "B1")


def check_unique(wulf, res, names, strategy):
    res.states += 1
    res.traces += 1
    got = wulf.crystal.get_unique_names(dict(names=list(names)), strategy=strategy)
    key = f"unique/{','.join(names)}/{strategy}"
    where = f"get_unique_names({list(names)}, {strategy!r}) = {got}"
    if len(got) != len(names) or len(set(got)) != len(got):
        res.violation(key, f"{where}: not one different name per atom")
        return
    if len(set(names)) == len(names):
        res.count("already unique")
        if list(got) != list(names):
            res.violation(key, f"{where}: the names were unique already")
        return
    repeated = {n for n in names if names.count(n) > 1}
    naive, seen = [], {}
    for i, n in enumerate(names):
        if strategy.lower() == "all":
            naive.append(f"{n}{i + 1}")
        elif n in repeated:
            seen[n] = seen.get(n, 0) + 1
            naive.append(f"{n}{seen[n]}")
        else:
            naive.append(n)
    for old, new in zip(names, got):
        if strategy.lower() != "all" and old not in repeated:
            ok = new == old
        else:
            ok = new.startswith(old) and new[len(old) :].isdigit()
        if not ok:
            res.violation(key, f"{where}: {old!r} became {new!r}")
            return
    if len(set(naive)) == len(naive):
        if list(got) != naive:
            res.violation(key, f"{where}: documented numbering gives {naive}")
    else:
        res.count("documented numbering collides")


def run_types(wulf, res):
    f = wulf.get_spglib_types

    def check(atoms, ids, key):
        res.states += 1
        res.traces += 1
        got = f(atoms)
        ok = len(got) == len(ids) and all(
            (got[i] == got[j]) == (ids[i] == ids[j]) for i in range(len(ids)) for j in range(i)
        )
        ok = ok and all(isinstance(t, int) and not isinstance(t, bool) and t >= 1 for t in got)
        if not ok:
            res.violation(key, f"kinds of {atoms} are {got}, expected the partition of {ids}")

    species = ("Fe", "O", "Cr", "X")
    names = ("Fe1", "fe_2", "O", "o2", "Q1", "q1", "Q2")
    ident = lambda n: next(iter(species_model(n))) if species_model(n) != {"X"} else n  # noqa: E731
    for n in range(1, 5):
        for s in itertools.product(species, repeat=n):
            check(dict(species=list(s)), s, f"types/species/{s}")
        for s in itertools.product(names, repeat=n):
            check(dict(names=list(s)), [ident(x) for x in s], f"types/names/{s}")
        for s in itertools.product((1, 2, 7, 118), repeat=n):
            atoms = dict(spglib_types=list(s))
            got = f(atoms)
            res.states += 1
            res.check(list(got) == list(s), f"types/types/{s}", f"given kinds {s} became {got}")
    # priority of the keys
    n = 3
    for t in itertools.product((1, 2), repeat=n):
        for s in itertools.product(("Fe", "O"), repeat=n):
            for a in itertools.product(("O1", "Fe", "Zq"), repeat=n):
                full = dict(names=list(a), species=list(s), spglib_types=list(t), positions=[[0, 0, i / 5] for i in range(n)])
                for drop in ((), ("spglib_types",), ("species",), ("spglib_types", "species"), ("names",), ("names", "spglib_types")):
                    atoms = {k: v for k, v in full.items() if k not in drop}
                    if "spglib_types" in atoms:
                        res.states += 1
                        got = f(atoms)
                        res.check(list(got) == list(t), f"types/priority/{t}{s}{a}{drop}", f"{atoms}: {got}")
                    else:
                        ids = s if "species" in atoms else [ident(x) for x in a]
                        check(atoms, ids, f"types/priority/{s}{a}{drop}")
    for atoms in ({}, dict(positions=[[0, 0, 0]]), dict(charges=[1, 2])):
        res.states += 1
        try:
            got = f(atoms)
            res.violation("types/none", f"kinds of {atoms} are {got}")
        except ValueError:
            res.count("no kinds rejected")


def run(job):
    import wulfric as wulf

    warnings.simplefilter("ignore")
    res = Result()
    kind = job["kind"]
    if kind == "species":
        run_species(wulf, job, res)
    elif kind == "unique":
        for n in range(job["length"]):
            for rest in itertools.product(NAMES, repeat=n):
                for strategy in ("all", "repeated-only"):
                    check_unique(wulf, res, (job["first"], *rest), strategy)
        res.sample(first=job["first"], lists=res.states)
    elif kind == "long":
        for rest in itertools.product(job["names"], repeat=job["n"] - 1):
            for strategy in ("all", "repeated-only"):
                check_unique(wulf, res, (job["first"], *rest), strategy)
    elif kind == "types":
        run_types(wulf, res)
    else:
        for s in ("ALL", "All", "Repeated-Only", "REPEATED-ONLY"):
            check_unique(wulf, res, ("A", "A", "B"), s)
        for s in ("", "repeated", "al", "all ", "none", "repeated_only"):
            for names in (["A"], ["A", "A"]):
                res.states += 1
                try:
                    got = wulf.crystal.get_unique_names(dict(names=names), strategy=s)
                    res.violation(f"strategy/{s}", f"strategy {s!r} is accepted: {got}")
                except ValueError:
                    res.count("strategies rejected")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            wulf.crystal.get_atom_species("123q")
            res.check(
                any(issubclass(x.category, RuntimeWarning) for x in w),
                "warning",
                "no warning when the species can not be told",
            )
    return res


def final(tier, labels, counters, r):
    r.check(
        labels.get("species", set()) == set(ELEMENTS) | {"X"},
        "coverage",
        f"elements that no name gives: {sorted(set(ELEMENTS) - labels.get('species', set()))}",
    )
    r.check(counters.get("documented numbering collides", 0) > 0, "coverage", "no collision was reached")
