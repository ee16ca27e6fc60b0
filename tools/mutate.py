#!/usr/bin/env python3
"""Systematic small mutations of the package (development tool, not a check).

  mutate.py FILE... [--procs N] [--every K]     -> /tmp/mutants/<file>.log, survivors listed
"""
import argparse, ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALGO = "C05 C03 C01 C23 C25 C27 C26 C02 C14 C06"
CHECKS = {
    "t_iss.py": "C07 " + ALGO + " C04", "auxiva_ip.py": "C08 " + ALGO, "auxiva_ip2.py": "C08 " + ALGO,
    "five.py": "C09 " + ALGO, "wpe.py": "C10 C03 C01 C23 C25 C27 C26 C02",
    "beamformer.py": "C11 C03 C01 C23 C25 C27 C26 C02 C14", "scaling.py": "C16 C01 C23 C26 C27",
    "linalg.py": "C24 C12 C08 C07 C11 C09 C10 C23 C27 C26 C01", "stft.py": "C13 C14 C01 C26 C19",
    "fftconvolve.py": "C15 C01 C26", "utils.py": "C17 C19 C01 C26", "dtypes.py": "C24 C12 C26",
    "base.py": "C03 C02 C22 C14", "nn.py": "C14 C19 C02 C03 C20", "loader.py": "C19 C18", "separate.py": "C20",
    "models/classic.py": "C21 C27 C01 C23 C26 C02", "models/glu.py": "C21 C19 C01 C26 C27",
    "../examples/dataloader.py": "C30", "../examples/autoclip_module.py": "C30", "../examples/export_model.py": "C29", "../examples/test.py": "C29", "../examples/separation_model.py": "C29",
    "models/blstm.py": "C21 C19 C01 C26 C27", "models/simple.py": "C21 C19 C01 C26 C27",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
CMPT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
        ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*"}
UNWRAP = {"clamp", "sqrt", "conj", "hermite", "abs", "mag_sq", "reciprocal", "broadcast_to", "flip", "divide", "norm", "sigmoid", "log", "square", "real", "view_as_complex"}
METHODS = {"conj", "clone", "detach", "abs", "contiguous", "square", "real", "resolve_conj", "to", "type_as", "cpu"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, n.lineno, what))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0]); skip.add(n.body[0].value)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            skip.update(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("cost", "get_parser"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in ("Optional", "Union", "Tuple"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = text(n.left), text(n.right)
            add(n, f"({l}) {BIN[type(n.op)]} ({r})", "binop")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), "int")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(n, repr(n.value * 10 if n.value else 0.01), "float")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "..." in n.value and "->" in n.value:
            pass
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, text(n.operand), "neg")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), "not")
        elif isinstance(n, ast.BoolOp):
            add(n, text(n.values[0]), "bool-left")
            add(n, text(n.values[-1]), "bool-right")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if-true"); add(n.test, "False", "if-false")
        elif isinstance(n, ast.IfExp):
            add(n, text(n.body), "ifexp-body"); add(n, text(n.orelse), "ifexp-else")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if isinstance(f, ast.Attribute) and name in METHODS and not (isinstance(f.value, ast.Name) and f.value.id in ("torch", "pt", "np", "F")):
                add(n, text(f.value), "unmethod-" + name)
            elif name in UNWRAP and n.args:
                add(n, "(" + text(n.args[0]) + ")", "unwrap-" + name)
            for k in n.keywords:
                if k.arg is not None and name not in ("einsum",):
                    s, e = span(k)
                    e2 = e
                    while e2 < len(b) and b[e2:e2 + 1] in b", \n":
                        e2 += 1
                        if b[e2 - 1:e2] == b",":
                            break
                    out.append((s, e2 if b[e2 - 1:e2] == b"," else e, "", k.lineno, "kw-" + k.arg))
        elif isinstance(n, ast.Attribute) and n.attr in ("real",) and isinstance(n.ctx, ast.Load):
            add(n, text(n.value), "unreal")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Assert)):
            add(n, "pass", "del")
    seen, res = set(), []
    for m in sorted(out):
        new = (b[:m[0]] + m[2].encode() + b[m[1]:]).decode()
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        res.append((m[3], m[4], b[m[0]:m[1]].decode()[:60].replace("\n", " "), m[2][:60].replace("\n", " "), new))
    return res


def main():
    p = argparse.ArgumentParser()
    p.add_argument("files", nargs="+")
    p.add_argument("--procs", type=int, default=4)
    p.add_argument("--jobs", type=int, default=2)
    p.add_argument("--every", type=int, default=1)
    p.add_argument("--offset", type=int, default=0)
    p.add_argument("--count", action="store_true")
    a = p.parse_args()
    os.makedirs("/tmp/mutants", exist_ok=True)
    base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    pool = queue.Queue()
    # the checks run from a copy, so that /verif can be edited meanwhile
    vf = os.path.join(base, "verif")
    subprocess.run(["git", "clone", "-q", ROOT, vf], check=True)
    for i in range(a.procs):
        r = os.path.join(base, f"repo{i}")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        pool.put(r)
    try:
        for fn in a.files:
            path = "/repo/torchiva/" + fn
            ms = mutants(open(path).read())[a.offset:: a.every]
            print(fn, len(ms), flush=True)
            if a.count:
                continue
            log = open("/tmp/mutants/" + fn.replace("/", "_") + ".log", "a")

            def one(m):
                r = pool.get()
                dst = os.path.join(r, "torchiva", fn)
                try:
                    open(dst, "w").write(m[4])
                    hit = None
                    for c in CHECKS[fn].split():
                        try:
                            q = subprocess.run([PY, os.path.join(vf, "run.py"), c, "--jobs", str(a.jobs)], cwd=vf, capture_output=True, text=True, timeout=900,
                                               env=dict(os.environ, TORCHIVA_REPO=r, VERIF_SEED="1"))
                        except subprocess.TimeoutExpired:
                            hit = c + "!timeout"
                            break
                        if q.returncode:
                            hit = c + ("" if q.returncode == 1 and "VIOLATION" in q.stdout else "!rc%d" % q.returncode)
                            break
                    line = f"{'killed ' + hit if hit else 'SURVIVED'} {fn}:{m[0]} {m[1]} [{m[2]}] -> [{m[3]}]"
                    print(line, file=log, flush=True)
                    if not hit or "!" in hit:
                        print(line, flush=True)
                finally:
                    shutil.copy(path, dst)
                    pool.put(r)

            with ThreadPoolExecutor(a.procs) as ex:
                list(ex.map(one, ms))
    finally:
        shutil.rmtree(base)


main()
