"""C16: geometric primitives."""

import itertools
import math

import numpy as np

from mc.core import Result

INFO = dict(
    level="model_checking",
    space=dict(
        quick="volume: all 3x3 integer matrices with entries -1, 0, 1, 2 in both forms, all valid angle triples of "
        "a 5 degree grid; angle: all pairs of integer vectors with components -3 ... 3 at 5 pairs of scales; "
        "spherical angles: all vectors with components -2 ... 2 x 26 polar axes x 26 zero directions; "
        "parallelepiped: all angle triples of a 5 degree grid with offsets around every condition x 5 "
        "tolerances, lengths around 0",
        thorough="vectors with components -4 ... 4 for angles and -3 ... 3 for spherical angles, 3 degree grid, "
        "matrices with entries -2 ... 2",
    ),
    assumptions=["vectors longer than 1e-9"],
)

FORMS = (list, tuple, lambda v: np.array(v, float), lambda v: np.array(v), lambda v: [float(x) for x in v])


def jobs(tier):
    deep = tier == "thorough"
    out = []
    e = [-2, -1, 0, 1, 2] if deep else [-1, 0, 1, 2]
    for first in itertools.product(e, repeat=3):
        out.append(dict(kind="volume", entries=e, first=first))
    m = 4 if deep else 3
    for x in range(-m, m + 1):
        for y in range(-m, m + 1):
            out.append(dict(kind="angle", max=m, first=[x, y]))
    step = 3 if deep else 5
    grid = list(range(-10, 195, step))
    for part in range(8):
        out.append(dict(kind="box", grid=step, alphas=grid[part::8]))
    axes = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
    for axis in axes:
        out.append(dict(kind="sphere", axis=axis, max=3 if deep else 2))
    out.append(dict(kind="edges"))
    out.append(dict(kind="reject"))
    return out


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def norm(a):
    return math.sqrt(dot(a, a))


def margin(al, be, ga):
    return min(
        al, be, ga, 180 - al, 180 - be, 180 - ga,
        al + be - ga, al + ga - be, be + ga - al, 360 - al - be - ga,
    )  # fmt: skip


def gram(al, be, ga):
    s = math.radians(al + be + ga) / 2
    al, be, ga = (math.radians(x) for x in (al, be, ga))
    return 4 * math.sin(s) * math.sin(s - al) * math.sin(s - be) * math.sin(s - ga)


def run_volume(wulf, job, res):
    e = job["entries"]
    first = tuple(job["first"])
    f = wulf.geometry.get_volume
    i = 0
    for rest in itertools.product(e, repeat=6):
        i += 1
        M = (first, rest[:3], rest[3:])
        scale = (1, 0.03, 21.5)[i % 3]
        want = abs(dot(M[0], cross(M[1], M[2]))) * scale**3
        form = FORMS[(i // 3) % len(FORMS)]
        rows = [form([x * scale for x in r]) for r in M]
        got = f(rows if i % 2 else np.array(rows))
        got3 = f(*rows)
        res.states += 1
        res.traces += 2
        for v, name in ((got, "cell"), (got3, "vectors")):
            if not abs(v - want) < 1e-11 * scale**3:
                res.violation(f"volume/{M}/{name}", f"volume of {M} x {scale} as {name} is {v}, not {want}")
    res.sample(first=first, last=M, volume=want)


def angle(u, v):
    return math.atan2(norm(cross(u, v)), dot(u, v))


SCALES = ((1, 1), (0.01, 300.0), (1e-6, 1), (1e5, 1e5), (2.5, 1e-3))


def run_angle(wulf, job, res):
    m = job["max"]
    f = wulf.geometry.get_angle
    r = range(-m, m + 1)
    i = 0
    for z in r:
        u = (*job["first"], z)
        for v in itertools.product(r, repeat=3):
            i += 1
            if not any(u) or not any(v):
                for kw in ({}, dict(radians=True)):
                    res.states += 1
                    try:
                        got = f(list(u), list(v), **kw)
                        res.violation("angle/zero", f"angle of {u} and {v} is {got}, it is not defined")
                    except ValueError:
                        res.count("undefined angles rejected")
                continue
            s, t = SCALES[i % 5]
            a, b = [x * s for x in u], [x * t for x in v]
            ga, gb = FORMS[i % 5](a), FORMS[(i // 5) % 5](b)
            want = angle(u, v)
            res.states += 1
            res.traces += 2
            deg, rad = f(ga, gb), f(ga, gb, radians=True)
            # arccos is not accurate close to 0 and 180 degrees
            tol = 1e-7 if dot(u, v) ** 2 == dot(u, u) * dot(v, v) else 1e-12
            if abs(rad - want) > tol or abs(deg - math.degrees(want)) > tol * 60:
                res.violation(
                    f"angle/{u},{v}",
                    f"angle of {a} and {b}: {deg} degrees, {rad} radians, expected {math.degrees(want)}",
                )
            if list(ga) != a or list(gb) != b:
                res.violation("angle/input", f"the vectors {a}, {b} were changed")
            if tol > 1e-10:
                res.count("collinear")


def run_box(wulf, job, res):
    check, volume = wulf.geometry.parallelepiped_check, wulf.geometry.get_volume
    grid = list(range(-10, 195, job["grid"]))
    tols = ({}, dict(angle_tolerance=1e-8), dict(angle_tolerance=2.5), dict(length_tolerance=0.3),
            dict(length_tolerance=2.0, angle_tolerance=7.5))  # fmt: skip
    lens = ((1, 1, 1), (0.25, 3, 7), (2.5, 2.5, 1.5))
    i = 0
    for al in job["alphas"]:
        for be in grid:
            for ga in grid:
                i += 1
                abc = lens[i % 3]
                m = margin(al, be, ga)
                if m != 0 and 0 < min(al, be, ga) and max(al, be, ga) < 180:
                    # the conditions on the angles are those of a positive Gram determinant
                    res.check((gram(al, be, ga) > 1e-12) == (m > 0), "model", f"model {al} {be} {ga}")
                for kw in (tols[0], tols[1 + i % 4]):
                    lt, at = kw.get("length_tolerance", 1e-8), kw.get("angle_tolerance", 1e-4)
                    want = min(abc) > lt and m > at
                    got = check(*abc, al, be, ga, **kw)
                    res.states += 1
                    res.traces += 1
                    if bool(got) != want:
                        res.violation(
                            f"box/{al},{be},{ga}/{sorted(kw)}",
                            f"parallelepiped_check{abc + (al, be, ga)} with {kw} is {got}, expected {want}",
                        )
                    raised = False
                    try:
                        check(*abc, al, be, ga, raise_error=True, **kw)
                    except ValueError:
                        raised = True
                    if raised == want:
                        res.violation(
                            f"box/{al},{be},{ga}/raise",
                            f"raise_error=True {'raises' if raised else 'does not raise'} for "
                            f"{abc + (al, be, ga)} with {kw}",
                        )
                    res.see("valid", want)
                if m > 0:
                    want = math.prod(abc) * math.sqrt(gram(al, be, ga))
                    got = volume(*abc, al, be, ga)
                    res.traces += 1
                    if abs(got - want) > 1e-7 * max(1, want):
                        res.violation(
                            f"volume6/{al},{be},{ga}", f"volume{abc + (al, be, ga)} = {got}, not {want}"
                        )


def run_edges(wulf, res):
    check = wulf.geometry.parallelepiped_check
    base = [(40, 60, 100), (110, 120, 130), (90, 90, 180), (90, 90, 0), (35, 35, 70), (150, 150, 60)]
    for triple in base:
        for perm in sorted(set(itertools.permutations(triple))):
            for j in range(3):
                for d in (5e-5, -5e-5, 2e-4, -2e-4, 1e-3, -1e-3, 0.1, -0.1, 1, -1, 5, -5):
                    angles = list(perm)
                    angles[j] += d
                    for at in (1e-8, 1e-4, 5e-4, 0.05, 2.0):
                        m = margin(*angles)
                        if abs(m - at) < 1e-9:
                            continue
                        got = check(1, 2, 3, *angles, angle_tolerance=at)
                        res.states += 1
                        res.traces += 1
                        res.check(
                            bool(got) == (m > at),
                            f"edge/{angles}/{at}",
                            f"parallelepiped_check(1, 2, 3, {angles}, angle_tolerance={at}) is {got}",
                        )
    for lengths in itertools.product((-1, 0, 1e-10, 1e-7, 1e-3, 0.5, 2), repeat=3):
        for lt in (None, 0, 1e-12, 1e-5, 0.1, 1.0):
            kw = {} if lt is None else dict(length_tolerance=lt)
            got = check(*lengths, 80, 90, 100, **kw)
            res.states += 1
            res.traces += 1
            res.check(
                bool(got) == (min(lengths) > (1e-8 if lt is None else lt)),
                f"length/{lengths}/{lt}",
                f"parallelepiped_check({lengths}, 80, 90, 100, {kw}) is {got}",
            )


def run_sphere(wulf, job, res):
    m = job["max"]
    p = tuple(job["axis"])
    f = wulf.geometry.get_spherical
    axes = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
    i = 0
    for v in itertools.product(range(-m, m + 1), repeat=3):
        if not any(v):
            continue
        for q in axes:
            i += 1
            pp, pv = dot(p, p), dot(p, v)
            # exact projections multiplied by |p|^2
            u = tuple(pp * v[k] - pv * p[k] for k in range(3))
            z = tuple(pp * q[k] - dot(p, q) * p[k] for k in range(3))
            polar = math.atan2(norm(cross(p, v)), pv)
            if not any(u):
                azimuth = 0.0 if pv > 0 else math.pi
            elif not any(z):
                azimuth = None
            else:
                azimuth = math.atan2(dot(p, cross(z, u)) / norm(p), dot(z, u)) % (2 * math.pi)
            s, sp, sq = ((1, 1, 1), (0.02, 3, 1), (150.0, 1, 0.1))[i % 3]
            args = FORMS[i % 5]([x * s for x in v])
            kw = dict(
                polar_axis=FORMS[(i // 5) % 5]([x * sp for x in p]),
                radial_line_zero=FORMS[(i // 25) % 5]([x * sq for x in q]),
            )
            if p == (0, 0, 1) and i % 4 == 0:
                del kw["polar_axis"]
            if q == (1, 0, 0) and i % 3 == 0:
                del kw["radial_line_zero"]
            before = repr(args) + repr(kw)
            deg = i % 2 == 0
            if deg and i % 4 == 0:
                got = f(args, **kw)
            else:
                got = f(args, in_degrees=deg, **kw)
            res.states += 1
            res.traces += 1
            unit = 180 / math.pi if deg else 1.0
            r, th, ph = (float(x) for x in got)
            ok = abs(r - norm(v) * s) < 1e-9 * r and abs(th / unit - polar) < 1e-7
            ok = ok and -1e-9 <= ph / unit <= 2 * math.pi + 1e-9
            if ok and azimuth is not None:
                d = (ph / unit - azimuth + math.pi) % (2 * math.pi) - math.pi
                ok = abs(d) < 1e-7
                if not any(u):
                    ok = abs(ph / unit - azimuth) < 1e-9
            if not ok:
                res.violation(
                    f"sphere/{v}/{p}/{q}",
                    f"spherical coordinates of {v} x {s} with polar axis {p} and zero direction {q}: {got}, "
                    f"expected r = {norm(v) * s}, polar {polar * unit}, "
                    f"azimuthal {None if azimuth is None else azimuth * unit}",
                )
            if repr(args) + repr(kw) != before:
                res.violation("sphere/input", f"arguments were changed: {before}")
    res.sample(axis=p, vectors=i)


def run_reject(wulf, res):
    one = [1.0, 0.0, 0.0]
    for n in (0, 2, 4, 5, 7):
        for x in (1.0, one, [one, one, one]):
            res.states += 1
            try:
                got = wulf.geometry.get_volume(*([x] * n))
                res.violation(f"volume/args{n}", f"get_volume of {n} arguments is {got}")
            except (ValueError, TypeError):
                res.count("numbers of arguments rejected")


def run(job):
    import wulfric as wulf

    res = Result()
    kind = job["kind"]
    if kind == "edges":
        run_edges(wulf, res)
    elif kind == "reject":
        run_reject(wulf, res)
    else:
        dict(volume=run_volume, angle=run_angle, box=run_box, sphere=run_sphere)[kind](wulf, job, res)
    return res


def final(tier, labels, counters, r):
    r.check(labels.get("valid", set()) == {"True", "False"}, "coverage", "valid and invalid boxes")
    r.check(counters.get("collinear", 0) > 0, "coverage", "no collinear vectors were reached")
