"""C15: comparison with tolerance."""

import itertools
from fractions import Fraction

import numpy as np

from mc.core import Result

CONDITIONS = {
    "<": lambda d, e: d < -e,
    ">": lambda d, e: d > e,
    "<=": lambda d, e: d <= e,
    ">=": lambda d, e: d >= -e,
    "==": lambda d, e: -e <= d <= e,
    "!=": lambda d, e: d < -e or d > e,
}

INFO = dict(
    level="model_checking",
    space=dict(
        quick="all pairs of 51 exactly representable numbers (between -1024 and 1024, neighbours down to 2^-30) x "
        "9 values of eps including 0 and the differences of neighbours, all pairs x 16 combinations of rtol "
        "and atol, all pairs with the default tolerances, 6 conditions, 4 numeric types",
        thorough="all pairs of 201 numbers",
    ),
    assumptions=["finite numbers, tolerances that are not negative"],
)


def numbers(tier):
    small = [0.0, 2.0**-30, 2.0**-17, 2.0**-10, 0.25, 0.5, 1.0, 3.0, 90.0, 1024.0]
    near = [1 + 2.0**-30, 1 - 2.0**-17, 1 + 2.0**-17, 1 - 2.0**-10, 1 + 2.0**-10, 0.75, 1.25]
    near += [90 + 2.0**-17, 90 - 2.0**-10, 90.25, 1024 - 2.0**-17, 1024 + 2.0**-10, 0.5 + 2.0**-10]
    near += [3 - 2.0**-17, 2.75, 2.0**-16]
    if tier == "thorough":
        near += [v + s * d for v in (0.25, 1.0, 2.0, 7.0, 64.0, 512.0) for s in (1, -1)
                 for d in (2.0**-30, 2.0**-20, 2.0**-17, 2.0**-10, 0.125, 0.0625)]  # fmt: skip
    out = sorted({x for v in small + near for x in (v, -v)})
    return out


EPS = (0.0, 0, 2.0**-30, 2.0**-17, 2.0**-10, 0.25, 1, 100.0, 3 * 2.0**-11)
RTOL = (0.0, 2.0**-17, 2.0**-10, 0.5)
ATOL = (0.0, 2.0**-27, 2.0**-10, 0.25)
TYPES = (float, np.float64, Fraction, lambda v: int(v) if v == int(v) else v)


def jobs(tier):
    n = len(numbers(tier))
    k = 8
    out = [dict(kind="eps", tier=tier, part=i, of=k) for i in range(k)]
    out += [dict(kind="tol", tier=tier, part=i, of=k) for i in range(k)]
    out.append(dict(kind="reject"))
    assert n > 40
    return out


def representable(e, x, y):
    return all(Fraction(float(v)) == v for v in (e, Fraction(x) - e, Fraction(y) - e))


def compare(wulf, res, x, y, d, e, kw, exact=True):
    """d = x - y and the tolerance e are exact rationals"""
    if not exact and abs(abs(d) - e) <= Fraction(1, 10**9) * e:
        return
    out = {}
    for cond, model in CONDITIONS.items():
        got = wulf.compare_with_tolerance(x, cond, y, **kw)
        out[cond] = bool(got)
        res.traces += 1
        if bool(got) != model(d, e):
            res.violation(
                f"{x!r}{cond}{y!r}/{sorted(kw)}",
                f"{x!r} {cond} {y!r} with {kw} is {got}, the exact answer is {model(d, e)}",
            )
    # the conditions fit together, whatever the numbers are
    res.states += 1
    ok = [out["<"], out["=="], out[">"]].count(True) == 1
    ok = ok and out["<="] == (not out[">"]) and out[">="] == (not out["<"])
    ok = ok and out["!="] == (not out["=="])
    res.check(ok, f"{x!r},{y!r}/order", f"conditions on {x!r}, {y!r}, {kw} contradict: {out}")
    res.see("outcome", "".join(c for c in ("<", "==", ">") if out[c]))


def run(job):
    import wulfric as wulf

    res = Result()
    if job["kind"] == "reject":
        for bad in ("", "=", "=<", "=>", "<>", " <", "< ", "===", "lt", "eq", None, 0, "<<", "!"):
            for x, y in itertools.product((0.0, 1.0, 2.0), repeat=2):
                for kw in ({}, dict(eps=0.0), dict(eps=10.0)):
                    res.states += 1
                    try:
                        got = wulf.compare_with_tolerance(x, bad, y, **kw)
                        res.violation(f"reject/{bad!r}", f"condition {bad!r} is accepted: {got}")
                    except ValueError:
                        res.count("unknown conditions rejected")
        return res
    values = numbers(job["tier"])
    i = 0
    for x in values[job["part"] :: job["of"]]:
        for y in values:
            i += 1
            t1, t2 = TYPES[i % 4], TYPES[(i // 4) % 4]
            if t1 is not Fraction and t2 is Fraction or t1 is Fraction and t2 is not Fraction:
                t2 = t1
            if t1 is Fraction:
                X, Y = Fraction(x), Fraction(y)
            else:
                X, Y = t1(x), t2(y)
            d = Fraction(x) - Fraction(y)
            if job["kind"] == "eps":
                for e in EPS:
                    E = Fraction(e) if t1 is Fraction else e
                    compare(wulf, res, X, Y, d, Fraction(e), dict(eps=E))
                    # a given tolerance is the only one
                    kw = dict(eps=E, rtol=100.0, atol=1000.0)
                    compare(wulf, res, X, Y, d, Fraction(e), kw)
            else:
                if t1 is Fraction:
                    X, Y = x, y
                for r in RTOL:
                    for a in ATOL:
                        e = Fraction(a) + Fraction(r) * abs(Fraction(y))
                        compare(wulf, res, X, Y, d, e, dict(rtol=r, atol=a), representable(e, x, y))
                e = Fraction(1, 10**8) + Fraction(1, 10**5) * abs(Fraction(y))
                compare(wulf, res, X, Y, d, e, {}, exact=False)
                e = Fraction(1, 4) + Fraction(1, 10**5) * abs(Fraction(y))
                compare(wulf, res, X, Y, d, e, dict(atol=0.25), exact=False)
                e = Fraction(1, 10**8) + Fraction(1, 4) * abs(Fraction(y))
                compare(wulf, res, X, Y, d, e, dict(rtol=0.25), exact=False)
    res.sample(part=job["part"], numbers=values[:5], states=res.states)
    return res


def final(tier, labels, counters, r):
    r.check(labels.get("outcome", set()) == {"<", "==", ">"}, "coverage", "an outcome was not reached")
