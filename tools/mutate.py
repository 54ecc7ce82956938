#!/usr/bin/env python
"""mutate.py gen OUT.json SEED PER_FILE [file ...]  - list mutants of the source (one changed token each)
mutate.py check LIST.json OUT                      - quick checks, and the stable tests of those that are not caught

Measures how much of the code is decided by the checks; not part of any check.
"""

import ast
import glob
import json
import os
import random
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plant  # noqa: E402

SRC = "/repo/src/wulfric"
CHECKS = {
    "_numerical.py": ["C15"],
    "kpoints/_path_and_points.py": ["C10", "C07", "C08", "C06"],
    "kpoints/_hpkot_points.py": ["C06", "C04"],
    "kpoints/_sc_points.py": ["C06", "C04"],
    "_spglib_interface.py": ["C17", "C22", "C05", "C21"],
    "geometry/_geometry.py": ["C16"],
    "_kpoints_class.py": ["C09", "C08"],
    "_syntactic_sugar.py": ["C23"],
    "crystal/_primitive.py": ["C02", "C03", "C25", "C22"],
    "crystal/_conventional.py": ["C03", "C01", "C04", "C25", "C22"],
    "crystal/_basic_manipulation.py": ["C18"],
    "crystal/_crystal_validation.py": ["C25"],
    "crystal/_atoms.py": ["C17", "C25"],
    "crystal/_sc_variation.py": ["C11", "C25", "C22"],
    "crystal/_hpkot_extended_bl_symbol.py": ["C11", "C25", "C22"],
    "crystal/_hpkot_examples/__init__.py": ["C11"],
    "cell/_sc_examples.py": ["C11"],
    "_plotly_engine.py": ["C24"],
    "cell/_niggli.py": ["C12"],
    "cell/_basic_manipulation.py": ["C14"],
    "cell/_voronoi.py": ["C13"],
    "io/_vasp.py": ["C19", "C20"],
    "constants/_hpkot_convention.py": ["C06", "C03", "C02"],
    "constants/_sc_convention.py": ["C06", "C03", "C02"],
    "constants/_kpoints.py": ["C08", "C09"],
    "constants/_space_groups.py": ["C05", "C11"],
    "constants/_atoms.py": ["C17", "C19"],
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
       ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]),
       ast.MatMult: ("@", []), ast.Mod: ("%", []), ast.Pow: ("**", ["*"])}


def mutants(path):
    text = open(path).read()
    lines = text.splitlines(keepends=True)
    start = [0]
    for line in lines:
        start.append(start[-1] + len(line.encode()))
    raw = text.encode()
    pos = lambda n, end=False: start[(n.end_lineno if end else n.lineno) - 1] + (  # noqa: E731
        n.end_col_offset if end else n.col_offset
    )
    out = []

    def add(a, b, new, what, node):
        out.append(dict(start=a, end=b, old=raw[a:b].decode(), new=new, what=what, line=node.lineno))

    tree = ast.parse(text)
    docs = set()
    for n in ast.walk(tree):
        for m in ast.iter_child_nodes(n):
            m.parent = n
        body = getattr(n, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
            if isinstance(body[0].value, ast.Constant):
                docs.add(body[0].value)
    for n in ast.walk(tree):
        p = n
        inside_raise = False
        while hasattr(p, "parent"):
            if isinstance(p, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
                inside_raise = True
            p = p.parent
        if inside_raise:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = pos(left, True), pos(right)
                mid = raw[a:b].decode()
                s = SYM[type(op)]
                if mid.count(s) == 1:
                    for new in CMP[type(op)]:
                        add(a, b, mid.replace(s, new), "compare", n)
                left = right
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left, True), pos(n.right)
            mid = raw[a:b].decode()
            s, news = BIN[type(n.op)]
            if mid.count(s) == 1:
                for new in news:
                    add(a, b, mid.replace(s, new), "binop", n)
                if isinstance(n.op, ast.MatMult):
                    add(pos(n), pos(n, True), f"({ast.unparse(n.left)}) @ np.transpose({ast.unparse(n.right)})", "T", n)
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0], True), pos(n.values[1])
            mid = raw[a:b].decode()
            s, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(s) == 1 and len(n.values) == 2:
                add(a, b, mid.replace(s, new), "bool", n)
            for v in n.values:
                add(pos(v), pos(v, True), "True" if isinstance(n.op, ast.And) else "False", "drop condition", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(pos(n), pos(n.operand), "", "unary", n)
        elif isinstance(n, ast.Constant) and n not in docs:
            v = n.value
            if isinstance(v, bool):
                add(pos(n), pos(n, True), str(not v), "const", n)
            elif isinstance(v, int):
                add(pos(n), pos(n, True), str(v + 1), "const", n)
                if v > 0:
                    add(pos(n), pos(n, True), str(v - 1), "const", n)
            elif isinstance(v, float):
                add(pos(n), pos(n, True), str(v * 1.5 if v else 0.5), "const", n)
            elif isinstance(v, str) and v and isinstance(n.parent, (ast.Compare, ast.Subscript, ast.Call, ast.List)):
                add(pos(n), pos(n, True), repr(v + "_"), "string", n)
        elif isinstance(n, ast.If):
            add(pos(n.test), pos(n.test, True), f"not ({ast.unparse(n.test)})", "negate", n)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
        ):
            if not isinstance(n.parent, ast.Module):
                add(pos(n), pos(n, True), "pass", "delete", n)
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("abs", "deepcopy", "float", "list", "np.array", "str", "sorted", "dict", "np.abs") and n.args:
                add(pos(n), pos(n, True), f"({ast.unparse(n.args[0])})", "unwrap", n)
            if f in ("min", "max"):
                add(pos(n.func), pos(n.func, True), "max" if f == "min" else "min", "minmax", n)
            if len(n.args) > 1 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = n.args[:2]
                add(pos(a), pos(b, True), f"{ast.unparse(b)}, {ast.unparse(a)}", "swap", n)
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(pos(n), pos(n, True), "pass", "delete", n)
        elif isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", None), ast.Load):
            a, b = n.elts[:2]
            if ast.unparse(a) != ast.unparse(b):
                add(pos(a), pos(b, True), f"{ast.unparse(b)}, {ast.unparse(a)}", "swap", n)
    good = []
    for m in out:
        new = raw[: m["start"]] + m["new"].encode() + raw[m["end"] :]
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                good.append(m)
        except SyntaxError:
            pass
    return good


def gen(out, seed, per, files):
    rnd = random.Random(int(seed))
    res = []
    for f in files or list(CHECKS):
        ms = mutants(f"{SRC}/{f}")
        k = len(ms) if int(per) == 0 else min(len(ms), int(per))
        pick = rnd.sample(ms, k)
        print(f, len(ms), "mutants,", k, "taken")
        res += [dict(m, file=f) for m in pick]
    rnd.shuffle(res)
    json.dump(res, open(out, "w"), indent=0)


def mutate(copy, m):
    p = f"{copy}/src/wulfric/{m['file']}"
    raw = open(f"{SRC}/{m['file']}", "rb").read()
    assert raw[m["start"] : m["end"]].decode() == m["old"]
    open(p, "wb").write(raw[: m["start"]] + m["new"].encode() + raw[m["end"] :])


def check(lst, out):
    ms = json.load(open(lst))
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["i"] for x in open(out)}
    copy = "/tmp/mut/check-" + os.path.basename(out)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    for i, m in enumerate(ms):
        if i in done:
            continue
        mutate(copy, m)
        verdicts = []
        r = plant.sh([plant.PY, "-W", "ignore", "-c", "import wulfric"], copy, 60, PYTHONPATH=copy + "/src")
        if r.returncode:
            verdicts = ["import: CAUGHT"]
        else:
            for c in CHECKS[m["file"]]:
                try:
                    v = plant.check({"property": c}, copy)
                except Exception as e:
                    v = f"{c}:{type(e).__name__}"
                verdicts.append(v[:160])
                if "CAUGHT" in v:
                    break
        ok = "CAUGHT" in verdicts[-1]
        failed = [] if ok else plant.tests(copy)
        shutil.copy(f"{SRC}/{m['file']}", f"{copy}/src/wulfric/{m['file']}")
        open(out, "a").write(json.dumps(dict(i=i, caught=ok, tests=failed[:2], file=m["file"], line=m["line"],
                                             what=m["what"], old=m["old"][:100], new=m["new"][:100],
                                             verdicts=verdicts)) + "\n")


if __name__ == "__main__":
    {"gen": lambda *a: gen(a[0], a[1], a[2], a[3:]), "check": check}[sys.argv[1]](*sys.argv[2:])
