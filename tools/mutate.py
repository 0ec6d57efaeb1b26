"""Mutation sweep: which small edits of the code does no check notice?

usage: mutate.py OUT.jsonl [--jobs N] [FILE-PATTERN ...]

Every single-site mutant (an operator, a constant, a condition, a dropped call,
keyword or statement) of the files of pytspl is written into a scratch copy of
/repo and the checks of that file run against it from a scratch copy of /verif.
A line of OUT per mutant: killed (by which check), or survived.  Survivors are
read by hand: equivalent, outside every property, or a gap to close.
"""

import ast
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "decomposition/eigendecomposition.py": "C11 C10 C18",
    "decomposition/frequency_component.py": "C11",
    "decomposition/hodge_decomposition.py": "C10",
    "filters/base_filter.py": "C23 C13 C12 C16 C14",
    "filters/chebyshev_filter_design.py": "C16 C15",
    "filters/edge_flow_denoising.py": "C12 C16",
    "filters/grid_based_filter_design.py": "C16 C14",
    "filters/ls_filter_design.py": "C13 C16",
    "filters/simplicial_trend_filter.py": "C17",
    "hogde_gp/exact_gp.py": "C19 C18",
    "hogde_gp/forex/*": "C18 C19",
    "hogde_gp/hodge_gp_trainer.py": "C19 C18",
    "hogde_gp/kern*": "C18 C19",
    "io/data_loaders/*": "C09",
    "io/dataset_loader.py": "C09",
    "io/network_reader.py": "C08 C07 C09",
    "io/sc_generator.py": "C20",
    "plot/plot.py": "C21",
    "simplicial_complex/scbuilder.py": "C05 C06 C07 C22",
    "simplicial_complex/simplicial_complex.py": "C02 C04 C01 C03 C11 C22 C10 C07",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
       ast.IsNot: "is"}  # fmt: skip
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*",
       ast.FloorDiv: "*", ast.Mod: "*", ast.MatMult: "*"}  # fmt: skip


def mutants(text):
    """(line, description, new text) of every mutant."""
    tree = ast.parse(text)
    lines = text.split("\n")
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)  # fmt: skip

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def sub(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    docs, notes = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                docs.add(id(b.value))
                docs.add(id(b))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                docs.add(id(x))
        if isinstance(n, ast.Raise) or (
            isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print"
        ):
            for x in ast.walk(n):
                notes.add(id(x))
        if isinstance(n, ast.Assert) and n.msg is not None:
            for x in ast.walk(n.msg):
                notes.add(id(x))
        for ann in [getattr(n, "annotation", None), getattr(n, "returns", None)]:
            if ann is not None:
                for x in ast.walk(ann):
                    notes.add(id(x))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in notes:
            continue
        out = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                out.append((f"cmp {op}", f"{src(n.left)} {op} {src(n.comparators[0])}"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            op = BIN[type(n.op)]
            out.append((f"bin {op}", f"({src(n.left)} {op} {src(n.right)})"))
            out.append(("left", f"({src(n.left)})"))
            out.append(("right", f"({src(n.right)})"))
        elif isinstance(n, ast.BoolOp):
            other = " or " if isinstance(n.op, ast.And) else " and "
            out.append(("bool", "(" + other.join(f"({src(v)})" for v in n.values) + ")"))
            for i in range(len(n.values)):
                out.append((f"part{i}", f"({src(n.values[i])})"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(("unary", f"({src(n.operand)})"))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                out.append(("const", str(not v)))
            elif isinstance(v, int):
                out.append(("const", str(v + 1)))
                if v not in (0, 1):
                    out.append(("const-", str(v - 1)))
            elif isinstance(v, float):
                out.append(("const", repr(v * 2 if v else 0.5)))
            elif isinstance(v, str) and v:
                out.append(("str", repr(v + "_")))
            elif v is None:
                pass
        elif isinstance(n, ast.Call):
            if n.args and len(n.args) == 1 and not n.keywords:
                out.append(("unwrap", f"({src(n.args[0])})"))
            if isinstance(n.func, ast.Attribute) and not isinstance(
                n.func.value, ast.Name
            ) | (getattr(n.func.value, "id", "") in ("np", "pd", "torch", "plt", "nx")):
                out.append(("receiver", f"({src(n.func.value)})"))
            elif isinstance(n.func, ast.Attribute) and getattr(
                n.func.value, "id", ""
            ) not in ("np", "pd", "torch", "plt", "nx", "self", "cp", "sp"):
                out.append(("receiver", f"({src(n.func.value)})"))
            for i, k in enumerate(n.keywords):
                rest = [src(a) for a in n.args] + [
                    f"{q.arg}={src(q.value)}" if q.arg else f"**{src(q.value)}"
                    for q in n.keywords
                    if q is not k
                ]
                out.append((f"drop {k.arg}", f"{src(n.func)}({', '.join(rest)})"))
            if len(n.args) == 2:
                a, b = (src(x) for x in n.args)
                out.append(("swap", f"{src(n.func)}({b}, {a}" + "".join(
                    f", {q.arg}={src(q.value)}" for q in n.keywords) + ")"))  # fmt: skip
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            out.append(("noT", src(n.value)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield n.lineno, "if True", sub(n.test, "True")
            yield n.lineno, "if False", sub(n.test, "False")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)):
            out.append(("pass", "pass"))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append(("return None", "return None"))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append(("noslice", src(n.value)))
        for what, new in out:
            yield n.lineno, f"{what}: {src(n)[:60]!r} -> {new[:60]!r}", sub(n, new)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    jobs = 4
    if args[:1] == ["--jobs"]:
        jobs = int(args[1])
        args = args[2:]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["n"]) for d in map(json.loads, open(out))}
    todo = []
    for pat, checks in CHECKS.items():
        root = "/repo/pytspl"
        for dp, _, fs in os.walk(root):
            for f in sorted(fs):
                rel = os.path.relpath(os.path.join(dp, f), root)
                if f == "__init__.py" or not f.endswith(".py"):
                    continue
                if not fnmatch.fnmatch(rel, pat):
                    continue
                if args and not any(fnmatch.fnmatch(rel, a) for a in args):
                    continue
                text = open(os.path.join(root, rel)).read()
                for n, m in enumerate(mutants(text)):
                    if (rel, n) not in done:
                        try:
                            compile(m[2], rel, "exec")
                        except SyntaxError:
                            continue
                        todo.append((rel, n, checks.split(), *m))
    print(len(todo), "mutants", flush=True)
    if out == "-":
        for t in todo:
            print(t[0], t[3], t[4])
        return
    lock = threading.Lock()
    random.Random(1).shuffle(todo)  # a part of the sweep is a fair sample
    sink = open(out, "a")

    def work():
        d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        repo, ver = d + "/repo", d + "/verif"
        ignore = shutil.ignore_patterns("__pycache__", ".git", "seeded", "evidence")
        shutil.copytree("/repo", repo, symlinks=True, ignore=ignore)
        shutil.copytree(HERE, ver, symlinks=True, ignore=ignore)
        os.makedirs(ver + "/evidence", exist_ok=True)
        env = dict(os.environ, MC_REPO=repo, MC_WORKERS=os.environ.get("MC_WORKERS", str(max(1, 8 // jobs))),
                   PYTHONDONTWRITEBYTECODE="1", MC_STOP="0", VERIF_SEED="1")  # fmt: skip
        try:
            while True:
                with lock:
                    if not todo:
                        return
                    rel, n, checks, line, what, text = todo.pop()
                path = f"{repo}/pytspl/{rel}"
                keep = open(path).read()
                open(path, "w").write(text)
                res = "survived"
                for c in checks:
                    p = subprocess.Popen([PY, "run.py", c], cwd=ver, env=env,
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                         text=True, start_new_session=True)  # fmt: skip
                    try:
                        txt, _ = p.communicate(timeout=900)
                        if p.returncode:
                            res = f"{c} {p.returncode}"
                            break
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, 9)
                        p.wait()
                        res = f"{c} timeout"
                        break
                open(path, "w").write(keep)
                with lock:
                    sink.write(json.dumps({"file": rel, "n": n, "line": line,
                                           "what": what, "result": res}) + "\n")  # fmt: skip
                    sink.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
