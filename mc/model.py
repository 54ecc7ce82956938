"""Reference model of the two conventions: extended Bravais lattice symbol / variation, recommended
path and high-symmetry points as functions of the space group and of the conventional cell."""

from math import acos, cos, pi, sin, sqrt, tan

import numpy as np

from mc import tables, zoo


def params(cell):
    """lengths and angles in radians"""
    cell = np.asarray(cell, float)
    n = np.linalg.norm(cell, axis=1)
    ang = []
    for i, j in ((1, 2), (0, 2), (0, 1)):
        ang.append(acos(max(-1.0, min(1.0, float(cell[i] @ cell[j] / n[i] / n[j])))))
    return float(n[0]), float(n[1]), float(n[2]), ang[0], ang[1], ang[2]


def reciprocal(cell):
    return 2 * pi * np.linalg.inv(np.asarray(cell, float)).T


def lattice_type(number, letter):
    return zoo.family(number) + letter


def hpkot_symbol(number, lt, conv):
    """Extended Bravais lattice symbol, or None if the metric sits on a boundary (1e-6 relative)."""
    a, b, c, _, beta, _ = params(conv)

    def lt_(x, y):
        if abs(x - y) < 1e-6 * max(abs(x), abs(y), 1e-9):
            raise _Boundary()
        return x < y

    if lt in ("cI", "tP", "oP", "mP"):
        return lt + "1"
    if lt in ("cP", "cF"):
        return lt + ("1" if number <= 206 else "2")
    if lt == "hP":
        one = set(range(143, 150)) | {151, 153, 157} | set(range(159, 164))
        return lt + ("1" if number in one else "2")
    try:
        if lt == "tI":
            return "tI1" if lt_(c, a) else "tI2"
        if lt == "oF":
            if lt_(1 / b**2 + 1 / c**2, 1 / a**2):
                return "oF1"
            if lt_(1 / a**2 + 1 / b**2, 1 / c**2):
                return "oF2"
            return "oF3"
        if lt == "oI":
            m = max(a, b, c)
            if sum(abs(x - m) < 1e-6 for x in (a, b, c)) > 1:
                raise _Boundary()
            return "oI1" if m == c else "oI2" if m == a else "oI3"
        if lt == "oC":
            return "oC1" if lt_(a, b) else "oC2"
        if lt == "oA":
            return "oA1" if lt_(b, c) else "oA2"
        if lt == "hR":
            return "hR1" if lt_(sqrt(3) * a, sqrt(2) * c) else "hR2"
        if lt == "mC":
            if lt_(b, a * sin(beta)):
                return "mC1"
            return "mC2" if lt_(-a * cos(beta) / c + (a * sin(beta) / b) ** 2, 1) else "mC3"
        if lt == "aP":
            _, _, _, ka, kb, kg = params(reciprocal(conv))
            if min(abs(x - pi / 2) for x in (ka, kb, kg)) < 1e-6:
                raise _Boundary()
            if min(ka, kb, kg) > pi / 2:
                return "aP2"
            if max(ka, kb, kg) < pi / 2:
                return "aP3"
            return "neither all-acute nor all-obtuse"
    except _Boundary:
        return None
    raise KeyError(lt)


class _Boundary(Exception):
    pass


SC_NAMES = {
    "cP": "CUB", "cF": "FCC", "cI": "BCC", "tP": "TET", "tI": "BCT", "oP": "ORC", "oF": "ORCF",
    "oI": "ORCI", "oA": "ORCC", "oC": "ORCC", "hP": "HEX", "hR": "RHL", "mP": "MCL", "mC": "MCLC",
    "aP": "TRI",
}  # fmt: skip


def sc_variation(lt, conv, tol_length=1e-5, tol_angle=1e-4, margin=10.0):
    """Variation, or None where the definition leaves it open (too close to a boundary)."""
    a, b, c, alpha, _, _ = params(conv)
    deg = 180 / pi

    def sign(x, tol):
        if abs(x) <= tol / margin:
            return 0
        if abs(x) < tol * margin:
            raise _Boundary()
        return 1 if x > 0 else -1

    try:
        if lt == "tI":
            return {0: None, 1: "BCT1", -1: "BCT2"}[sign(a - c, 1e-6)]
        if lt == "oF":
            s = sign(1 / a**2 - 1 / b**2 - 1 / c**2, tol_length)
            return {0: "ORCF3", 1: "ORCF1", -1: "ORCF2"}[s]
        if lt == "hR":
            return {0: None, -1: "RHL1", 1: "RHL2"}[sign(alpha * deg - 90, tol_angle)]
        if lt == "mC":
            prim = np.array(tables.SC_P["mC"]).T @ np.asarray(conv)
            kg = params(reciprocal(prim))[5]
            s = sign(kg * deg - 90, tol_angle)
            if s >= 0:
                return "MCLC2" if s == 0 else "MCLC1"
            s = sign(b * cos(alpha) / c + (b * sin(alpha) / a) ** 2 - 1, tol_length)
            return {0: "MCLC4", -1: "MCLC3", 1: "MCLC5"}[s]
        if lt == "aP":
            ka, kb, kg = (x * deg for x in params(reciprocal(conv))[3:])
            s = [sign(x - 90, tol_angle) for x in (ka, kb, kg)]
            if s[0] == 0 or s[1] == 0:
                return None
            if s[2] == 0:
                return {(1, 1): "TRI2a", (-1, -1): "TRI2b"}.get((s[0], s[1]), "TRI")
            if s == [1, 1, 1]:
                return "TRI1a"
            if s == [-1, -1, -1]:
                return "TRI1b"
            return "neither all-acute nor all-obtuse"
    except _Boundary:
        return None
    return SC_NAMES[lt]


_COMPILED = {}


def points(convention, lt, symbol, conv):
    """{name: coordinates in the basis of the primitive reciprocal cell}"""
    table = tables.HPKOT_POINTS if convention == "HPKOT" else tables.SC_POINTS
    for symbols, (pars, pts) in table.items():
        if symbol in symbols:
            break
    else:
        raise KeyError(symbol)
    a, b, c, alpha, beta, gamma = params(conv)
    env = dict(a=a, b=b, c=c, alpha=alpha, beta=beta, cos=cos, sin=sin, tan=tan)
    env["u"], env["v"] = (b, c) if lt == "oA" else (a, b)
    for name, expr in pars:
        env[name] = eval(_compile(expr), {"__builtins__": {}}, env)
    return {
        n: np.array(eval(_compile(f"({e},)"), {"__builtins__": {}}, env), float)
        for n, e in pts.items()
    }


def _compile(expr):
    if expr not in _COMPILED:
        _COMPILED[expr] = compile(expr, "<table>", "eval")
    return _COMPILED[expr]


def path(convention, symbol):
    return (tables.HPKOT_PATHS if convention == "HPKOT" else tables.SC_PATHS)[symbol]


def primitive_matrix(convention, lt):
    return np.array((tables.HPKOT_P if convention == "HPKOT" else tables.SC_P)[lt], float)


def extended(path_string, names):
    """Path and names with the primed half added: no time reversal, no inversion."""
    extra = "|".join(
        "-".join(n if n == "GAMMA" else n + "_P" for n in sub.split("-"))
        for sub in path_string.split("|")
    )
    return f"{path_string}|{extra}", list(names) + [n + "_P" for n in names if n != "GAMMA"]
