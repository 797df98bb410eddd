"""Sensitivity campaign: random small changes of the package, and which of them the checks miss.

mutate.py NUMBER SEED [file...]    (files relative to src/harmonica; one line per change, MISSED ones last)
"""

import ast
import concurrent.futures
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile

SRC = pathlib.Path("/repo/src/harmonica")
FILES = {
    "_forward/point.py": "C01 C09 C08", "_forward/utils.py": "C01 C15 C31", "_forward/dipole.py": "C04 C09 C08",
    "_forward/prisms/gravity.py": "C02 C05 C09 C08 C35", "_forward/prisms/utils.py": "C02 C03 C05 C09",
    "_forward/prisms/magnetic.py": "C03 C09 C08", "_forward/prisms/layer.py": "C10 C12 C36 C35 C34",
    "_forward/tesseroid_gravity.py": "C06 C08 C09 C07", "_forward/_tesseroid_utils.py": "C06 C08",
    "_forward/_tesseroid_variable_density.py": "C07", "_forward/tesseroid_layer.py": "C11 C12 C36 C35",
    "_forward/ellipsoids/ellipsoids.py": "C15 C13 C14", "_forward/ellipsoids/gravity.py": "C13 C35 C09",
    "_forward/ellipsoids/magnetic.py": "C14 C35 C09", "_forward/ellipsoids/utils.py": "C13 C14",
    "_transformations.py": "C16 C17 C18 C19", "filters/_filters.py": "C16 C17 C18 C19",
    "filters/_utils.py": "C16 C17 C19", "filters/_fft.py": "C16", "_utils.py": "C20",
    "_gravity_corrections.py": "C21", "_isostasy.py": "C22", "_io/icgem_gdf.py": "C23",
    "_io/oasis_montaj_grd.py": "C24", "_spherical_harmonics/igrf.py": "C25 C26",
    "_spherical_harmonics/legendre.py": "C27", "_euler_methods.py": "C28 C29 C35",
    "_equivalent_sources/cartesian.py": "C30 C33 C36 C35", "_equivalent_sources/spherical.py": "C31 C33 C36 C35",
    "_equivalent_sources/gradient_boosted.py": "C32 C33 C36", "_equivalent_sources/utils.py": "C30 C31 C32",
    "visualization/_prism.py": "C34",
}
COMPARE = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
           ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BINARY = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*",
          ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(path):
    """(line, description, new text of the file) of every change."""
    text = path.read_text()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = text.encode()
    out = []

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)

    def put(node, new, where=None):
        a, b = where or span(node)
        out.append((node.lineno, f"{raw[a:b].decode()!r:.60} -> {new!r:.60}",
                    (raw[:a] + new.encode() + raw[b:]).decode()))

    def src(node):
        a, b = span(node)
        return raw[a:b].decode()

    def visit(node, inside):
        if isinstance(node, ast.FunctionDef):
            inside = True
            for default in [*node.args.defaults, *(d for d in node.args.kw_defaults if d is not None)]:
                visit(default, True)
            body = node.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for child in body:
                visit(child, True)
            return
        if isinstance(node, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.Raise):
            return
        if inside:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                put(node, f"{src(node.left)} {COMPARE[type(node.ops[0])]} {src(node.comparators[0])}")
            if isinstance(node, ast.BinOp) and type(node.op) in BINARY and not isinstance(node.left, ast.JoinedStr):
                if not any(isinstance(n, ast.Constant) and isinstance(n.value, str) for n in ast.walk(node)):
                    put(node, f"({src(node.left)}) {BINARY[type(node.op)]} ({src(node.right)})")
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                put(node, f"({src(node.operand)})")
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Invert):
                put(node, f"({src(node.operand)})")
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                put(node, repr(node.value + 1))
                if node.value not in (0, 1):
                    put(node, repr(node.value * 1.001))
            if isinstance(node, ast.Constant) and isinstance(node.value, bool):
                put(node, repr(not node.value))
            if isinstance(node, ast.BoolOp):
                sep = " or " if isinstance(node.op, ast.And) else " and "
                put(node, sep.join(f"({src(v)})" for v in node.values))
            if isinstance(node, (ast.If, ast.IfExp)):
                put(node.test, "True")
                put(node.test, "False")
            if isinstance(node, ast.Call) and len(node.args) >= 2:
                for k in range(len(node.args) - 1):
                    a, b = node.args[k:k + 2]
                    if src(a) != src(b) and not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred):
                        lo, hi = span(a)[0], span(b)[1]
                        put(node, f"{src(b)}, {src(a)}", (lo, hi))
            if isinstance(node, ast.Tuple) and len(node.elts) >= 2 and isinstance(node.ctx, ast.Load):
                a, b = node.elts[:2]
                if src(a) != src(b):
                    put(node, f"{src(b)}, {src(a)}", (span(a)[0], span(b)[1]))
            if isinstance(node, (ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
                put(node, "pass")
            if isinstance(node, ast.Slice) and node.step is None and node.lower is not None:
                put(node.lower, f"({src(node.lower)}) + 1")
        for child in ast.iter_child_nodes(node):
            visit(child, inside)

    visit(ast.parse(text), False)
    good = []
    for line, what, new in out:
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append((line, what, new))
    return good


def trial(job):
    file, line, what, new = job
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp/w")
    try:
        shutil.copytree("/repo/src", tmp + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        (pathlib.Path(tmp) / "src/harmonica" / file).write_text(new)
        for pid in FILES[file].split():
            try:
                r = subprocess.run([sys.executable, "-B", "check.py", pid, "--no-evidence", "--workers", "2"],
                                   cwd="/verif", env={**os.environ, "VERIF_REPO": tmp}, capture_output=True,
                                   text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return f"TIMEOUT {pid} {file}:{line} {what}"
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return f"caught {pid} {file}:{line} {what}"
            if r.returncode:
                return f"ERROR rc={r.returncode} {pid} {file}:{line} {what}"
        return f"MISSED {file}:{line} {what}"
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    number, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:] or sorted(FILES)
    pick = random.Random(seed)
    jobs = []
    for file in files:
        every = mutants(SRC / file)
        pick.shuffle(every)
        jobs += [(file, *m) for m in every[:number]]
    print(len(jobs), "changes", flush=True)
    missed = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as pool:
        for out in pool.map(trial, jobs):
            print(out, flush=True)
            missed += [] if out.startswith("caught") else [out]
    print("\n".join(["---", *missed]))
