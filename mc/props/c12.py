"""C12: the Niggli-reduced cell is the reduced cell of the lattice, whatever basis describes it."""

import itertools

import numpy as np

from mc import crystals as cr
from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="every integer metric with squared lengths out of {4,5,6} and doubled scalar products in -6..6 "
        "that is already reduced, x every basis reachable by 3 elementary changes of the basis, x 3 "
        "orientations / scales x 2 implementations; 30 generic metrics x every unimodular matrix with entries "
        "in {-1,0,1}; every reduced metric with squared lengths out of {4,5,6} and doubled scalar products "
        "out of {0, +-0.001, +-0.04, +-2.5, +-4} x every basis reachable by 2 changes x 3 orientations / "
        "scales; 12 strongly sheared and 27 stretched bases of 30 generic metrics",
        thorough="squared lengths out of {4,5,6,7,8}, 4 elementary changes; 3 changes for the small products",
    ),
    assumptions=[
        "the Niggli form of an integer metric is decided in exact integer arithmetic",
        "cells between 1e-1 and 1e2 in length (tolerances are relative to the volume)",
        "a documented NiggliReductionFailed is accepted for bases with shears above 40",
    ],
)

GENERATORS = {
    "cycle": [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    "swap": [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    "flip": [[1, 0, 0], [0, -1, 0], [0, 0, 1]],
    "shear": [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
    "unshear": [[1, 0, 0], [0, 1, 0], [-1, 0, 1]],
    "far": [[1, 0, 0], [0, 1, 3], [0, 0, 1]],
}


def niggli_problem(A, B, C, xi, eta, zeta):
    """What is wrong with the (integer) form, or None. International Tables A, 9.2."""
    if not (A <= B <= C):
        return "A <= B <= C"
    if A == B and abs(xi) > abs(eta):
        return "|xi| <= |eta| if A = B"
    if B == C and abs(eta) > abs(zeta):
        return "|eta| <= |zeta| if B = C"
    pos = xi > 0 and eta > 0 and zeta > 0
    neg = xi <= 0 and eta <= 0 and zeta <= 0
    if not (pos or neg):
        return "all scalar products positive, or none"
    if abs(xi) > B or abs(eta) > A or abs(zeta) > A:
        return "scalar products are too large"
    if pos:
        if xi == B and zeta > 2 * eta:
            return "xi = B"
        if eta == A and zeta > 2 * xi:
            return "eta = A"
        if zeta == A and eta > 2 * xi:
            return "zeta = A"
    else:
        if xi == -B and zeta != 0:
            return "xi = -B"
        if eta == -A and zeta != 0:
            return "eta = -A"
        if zeta == -A and eta != 0:
            return "zeta = -A"
        s = xi + eta + zeta + A + B
        if s < 0:
            return "main condition of the type II"
        if s == 0 and 2 * (A + eta) + zeta > 0:
            return "boundary of the main condition of the type II"
    return None


def forms(squares):
    out = []
    for A, B, C in itertools.combinations_with_replacement(squares, 3):
        for xi, eta, zeta in itertools.product(range(-6, 7), repeat=3):
            if niggli_problem(A, B, C, xi, eta, zeta) is None:
                G2 = np.array([[2 * A, zeta, eta], [zeta, 2 * B, xi], [eta, xi, 2 * C]])
                if round(np.linalg.det(G2)) > 0:
                    out.append((A, B, C, xi, eta, zeta))
    return out


def gram2(f):
    A, B, C, xi, eta, zeta = f
    return np.array([[2 * A, zeta, eta], [zeta, 2 * B, xi], [eta, xi, 2 * C]])


def all_bases(depth):
    gens = {k: np.array(v) for k, v in GENERATORS.items()}
    seen = {np.eye(3, dtype=int).tobytes(): ((), np.eye(3, dtype=int))}
    frontier = list(seen.values())
    tr = 0
    for _ in range(depth):
        nxt = []
        for trace, M in frontier:
            for n, g in gens.items():
                tr += 1
                N = g @ M
                if N.tobytes() not in seen:
                    seen[N.tobytes()] = (trace + (n,), N)
                    nxt.append(seen[N.tobytes()])
        frontier = nxt
    return list(seen.values()), tr


# orientation, scale
SMALL = (0, 1, -1, 40, -40, 2500, -2500, 4000, -4000)


def small_forms():
    """Forms in thousandths: some scalar products are much smaller than the squared lengths"""
    out = []
    for A, B, C in itertools.combinations_with_replacement((4000, 5000, 6000), 3):
        for xi, eta, zeta in itertools.product(SMALL, repeat=3):
            if niggli_problem(A, B, C, xi, eta, zeta) is None:
                G2 = np.array([[2 * A, zeta, eta], [zeta, 2 * B, xi], [eta, xi, 2 * C]]) / 1000
                if np.linalg.det(G2) > 1:
                    out.append((A, B, C, xi, eta, zeta))
    return out


def generic_grams():
    diags = list(itertools.permutations((16.3, 21.1, 30.7)))
    offs = [(1.1, 0.7, -1.3), (-4.0, -3.0, -5.0), (5.2, -4.1, 3.3), (7.9, 7.7, 7.1), (-8.05, 0.3, 0.2)]
    for d, o in itertools.product(diags, offs):
        G = np.diag(d)
        G[0, 1] = G[1, 0] = o[0]
        G[0, 2] = G[2, 0] = o[1]
        G[1, 2] = G[2, 1] = o[2]
        if np.linalg.eigvalsh(G).min() >= 1:
            yield d, o, G


def shear(i, j, k):
    M = np.eye(3, dtype=int)
    M[i, j] = k
    return M


FAR = [
    # matrix, may it fail
    (shear(0, 1, 9), False),
    (shear(2, 1, -17), False),
    (shear(1, 0, 40), False),
    (shear(0, 1, 5) @ shear(1, 2, -7), False),
    (shear(2, 0, 7) @ shear(2, 1, 8) @ shear(1, 0, 9), False),
    (shear(0, 2, 20) @ shear(2, 1, 12), False),
    (shear(0, 1, 100), True),
    (shear(1, 2, -300), True),
    (shear(0, 1, 100) @ shear(1, 2, 100), True),
    (shear(2, 0, 1000), True),
    (shear(2, 0, 1000) @ shear(0, 1, 50), True),
    (shear(0, 1, 20000), True),
]
STRETCH = [np.diag(x) for x in itertools.product((1.0, 4.0, 12.0), repeat=3)]


def run_far(wulf, res, job):
    for n, (d, o, G) in enumerate(generic_grams()):
        if n % job["parts"] != job["part"]:
            continue
        base = cr.cell_from_gram(G)
        cells = [(base, f"shear {M.tolist()}", M, fail) for M, fail in FAR]
        Q = POSES[1][0]
        cells += [
            (base @ Q @ S, f"stretch {np.diag(S).tolist()}", shear(0, 1, 3) @ shear(2, 0, -2), False)
            for S in STRETCH
        ]
        for L, name, M, fail in cells:
            for s in (1.0, 0.05, 6.0):
                if fail and s == 0.05:
                    continue
                res.states += 1
                res.transitions += 1
                key = f"far/{d}/{o}/{name}/{s}"
                out = judge(wulf, res, s * (M @ L), None, s, key, f"{name} of {d} {o}", may_fail=fail)
                same = judge(wulf, res, L, None, 1, key + "/base", f"{name} of {d} {o}", impls=("wulfric",))
                for impl, g in out.items():
                    for ref in same.values():
                        res.check(
                            np.abs(g - ref).max() < 1e-4 * np.abs(ref).max(),
                            f"{key}/{impl}/differs",
                            f"{impl}: {name} of {d} {o}, scale {s}: another form than that of the base",
                            got=g,
                            other=ref,
                        )
                    g = g / np.linalg.det(g) ** (1 / 3)
                    f = [g[0, 0], g[1, 1], g[2, 2], 2 * g[1, 2], 2 * g[0, 2], 2 * g[0, 1]]
                    # generic lattices: no equality, but for the order of equal numbers
                    A, B, C, xi, eta, zeta = f
                    e = 1e-3
                    ok = (
                        A <= B + e and B <= C + e and abs(xi) <= B + e and abs(eta) <= A + e
                        and abs(zeta) <= A + e and xi + eta + zeta + A + B >= -e
                        and (min(xi, eta, zeta) > -e or max(xi, eta, zeta) < e)
                    )  # fmt: skip
                    res.check(ok, f"{key}/{impl}/form", f"{impl}: {name} of {d} {o}: not reduced: {f}")


POSES = (
    (np.eye(3), 1.0),
    (cr.rotation([1.0, 0.4, -0.7], 1.234), 3.7),
    (np.diag([1.0, 1.0, -1.0]) @ cr.rotation([0.2, 1.0, 0.3], 2.1), 0.25),
)


def jobs(tier):
    n = 32
    deep = tier != "quick"
    out = [dict(kind="integer", part=i, parts=n, deep=deep) for i in range(n)]
    out += [dict(kind="generic", part=i, parts=16) for i in range(16)]
    out.append(dict(kind="rejected"))
    out += [dict(kind="small", part=i, parts=n, deep=deep) for i in range(n)]
    out += [dict(kind="far", part=i, parts=8) for i in range(8)]
    return out


def judge(
    wulf, res, cell, want2, scale, key, what, impls=("spglib", "wulfric"), tol=1e-3, may_fail=False
):
    """want2: twice the reduced metric (before the scale), or None"""
    out = {}
    for impl in impls:
        res.traces += 1
        try:
            red = wulf.cell.get_niggli(cell, implementation=impl)
        except Exception as e:
            if may_fail and type(e).__name__ == "NiggliReductionFailed":
                res.count("reduction failed")
                continue
            res.violation(f"{key}/{impl}/error", f"{impl}: {e!r} for {what}", cell=cell)
            continue
        if red is None:
            res.violation(f"{key}/{impl}/none", f"{impl}: None for {what}", cell=cell)
            continue
        red = np.asarray(red, float)
        if red.shape != (3, 3) or not np.isfinite(red).all():
            res.violation(f"{key}/{impl}", f"{impl}: not a cell: {red} for {what}")
            continue
        T = red @ np.linalg.inv(cell)
        if np.abs(T - np.round(T)).max() > 1e-5 or abs(abs(np.linalg.det(T)) - 1) > 1e-5:
            res.violation(
                f"{key}/{impl}/lattice", f"{impl}: the result is a basis of another lattice, {what}", cell=cell, T=T
            )
            continue
        g = red @ red.T / scale**2
        out[impl] = g
        if want2 is not None:
            if np.abs(2 * g - want2).max() > tol:
                g2 = np.round(2 * g, 4)
                res.violation(
                    f"{key}/{impl}/form",
                    f"{impl}: doubled metric {g2.tolist()}, the Niggli form is {np.round(want2, 4).tolist()}, {what}",
                    cell=cell,
                )
    return out


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "integer":
        fs = forms((4, 5, 6, 7, 8) if job["deep"] else (4, 5, 6))
        bases, tr = all_bases(4 if job["deep"] else 3)
        for i, f in enumerate(fs):
            if i % job["parts"] != job["part"]:
                continue
            G2 = gram2(f)
            L = cr.cell_from_gram(G2 / 2)
            for j, (trace, M) in enumerate(bases):
                # every orientation for short histories, one of them for the longest
                poses = range(len(POSES)) if len(trace) < 2 else [(i + j) % len(POSES)]
                for p in poses:
                    Q, s = POSES[p]
                    res.states += 1
                    res.transitions += 1
                    judge(
                        wulf, res, s * (M @ L) @ Q.T, G2, s, f"{f}/{'+'.join(trace)}/{p}",
                        f"form {f}, basis {'+'.join(trace)}, pose {p}",
                    )  # fmt: skip
        res.sample(job=job, forms=len(fs), bases=len(bases))
    elif job["kind"] == "small":
        fs = small_forms()
        bases, tr = all_bases(3 if job["deep"] else 2)
        for i, f in enumerate(fs):
            if i % job["parts"] != job["part"]:
                continue
            G2 = gram2(f) / 1000
            L = cr.cell_from_gram(G2 / 2)
            for j, (trace, M) in enumerate(bases):
                Q, s = POSES[(i + j) % len(POSES)]
                res.states += 1
                res.transitions += 1
                judge(
                    wulf, res, s * (M @ L) @ Q.T, G2, s, f"small/{f}/{'+'.join(trace)}",
                    f"form {f} / 1000, basis {'+'.join(trace)}", tol=1e-4,
                )  # fmt: skip
        res.sample(job=job, forms=len(fs), bases=len(bases))
    elif job["kind"] == "far":
        run_far(wulf, res, job)
    elif job["kind"] == "generic":
        mats = [
            np.array(m).reshape(3, 3)
            for m in itertools.product((-1, 0, 1), repeat=9)
            if abs(round(np.linalg.det(np.array(m).reshape(3, 3)))) == 1
        ]
        k = 0
        for d, o, G in generic_grams():
            L = cr.cell_from_gram(G)
            ref = None
            for M in mats[job["part"] :: job["parts"]]:
                k += 1
                Q, s = POSES[k % 3]
                res.states += 1
                out = judge(wulf, res, s * (M @ L) @ Q.T, None, s, f"generic/{d}/{o}/{M.tolist()}", f"generic {d} {o}")
                for impl, g in out.items():
                    ref = g if ref is None else ref
                    res.check(
                        np.abs(g - ref).max() < 1e-6 * np.abs(ref).max(),
                        f"generic/{d}/{o}/{M.tolist()}/{impl}/differs",
                        f"{impl}: reduced metric depends on the basis or on the implementation",
                        got=g, other=ref,
                    )  # fmt: skip
                    f = [g[0, 0], g[1, 1], g[2, 2], 2 * g[1, 2], 2 * g[0, 2], 2 * g[0, 1]]
                    p = niggli_problem(*f)
                    res.check(p is None, f"generic/{d}/{o}/{impl}/form", f"{impl}: {p}: {f}")
    else:
        for impl in ("spglib", "wulfric"):
            for bad in (
                [[1, 0, 0], [0, 1, 0], [1, 1, 0]],
                [[0, 0, 0], [0, 1, 0], [0, 0, 1]],
                [[1, 2, 3], [1, 2, 3], [0, 0, 1]],
            ):
                res.states += 1
                try:
                    out = wulf.cell.get_niggli(bad, implementation=impl)
                    res.violation(f"zero/{bad}/{impl}", f"{impl}: zero volume accepted: {out}")
                except ValueError:
                    res.traces += 1
        cell = [[2, 0, 0], [0, 3, 0], [1, 1, 4]]
        ref = np.asarray(wulf.cell.get_niggli(cell))
        for impl in ("WULFRIC", "Wulfric", "SPGLIB", "SpgLib"):
            for form in (cell, np.array(cell), tuple(map(tuple, cell))):
                res.states += 1
                res.traces += 1
                g = np.asarray(wulf.cell.get_niggli(form, implementation=impl))
                res.check(np.abs(g @ g.T - ref @ ref.T).max() < 1e-8, f"case/{impl}", f"{impl} differs")
        for impl in ("", "niggli", "spg"):
            res.states += 1
            try:
                wulf.cell.get_niggli(cell, implementation=impl)
                res.violation(f"impl/{impl}", f"implementation {impl!r} accepted")
            except ValueError:
                res.traces += 1
        # the limit of iterations is respected: an error, never a cell that is not reduced
        hard = np.array([[1, 3, 0], [0, 1, 3], [5, 0, 1]]) @ np.array([[2, 0, 0], [0.3, 3, 0], [1, 1, 4.0]])
        full = np.asarray(wulf.cell.get_niggli(hard, implementation="wulfric"))
        failed = 0
        for n in range(0, 30):
            res.states += 1
            try:
                g = np.asarray(wulf.cell.get_niggli(hard, implementation="wulfric", max_iterations=n))
                res.check(
                    np.abs(g @ g.T - full @ full.T).max() < 1e-8,
                    f"iterations/{n}",
                    f"max_iterations={n} gives a cell that is not reduced",
                )
            except Exception as e:
                failed += 1
                res.check(
                    "Niggli" in type(e).__name__, f"iterations/{n}", f"max_iterations={n}: {e!r}"
                )
        res.check(failed > 0, "iterations", "max_iterations=0 is enough for a cell that needs many")
    return res
