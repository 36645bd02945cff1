"""Mutation testing: mutate.py gen OUT.json  (mutants that pass the tests) ; mutate.py run OUT.json RES.json  (run the checks on them)"""
import ast, json, os, random, shutil, subprocess, sys
from multiprocessing import Pool
SRC = "/repo/dissect/cstruct"
FILES = ["bitbuffer.py", "types/base.py", "types/packed.py", "types/int.py", "types/leb128.py", "types/char.py", "types/wchar.py", "types/void.py", "types/pointer.py", "types/enum.py", "types/flag.py",
         "types/structure.py", "compiler.py", "parser.py", "expression.py", "utils.py", "cstruct.py", "tools/stubgen.py"]
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitXor, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mod: ast.FloorDiv, ast.BitXor: ast.BitOr}


def mutants(path):
    src = open(f"{SRC}/{path}").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in src.encode().split(b"\n"): offs.append(offs[-1] + len(l) + 1)
    raw = src.encode()
    def seg(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []
    def rep(n, new, what):
        a, b = seg(n)
        out.append((path, n.lineno, a, b, new, what))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): 
            for m in ast.walk(n.body[0]): skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    for m in ast.walk(a.annotation): skip.add(id(m))
            if n.returns:
                for m in ast.walk(n.returns): skip.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation): skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n): skip.add(id(m))
    U = ast.unparse
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []): rep(n, f"({U(ast.Compare(n.left, [o()], n.comparators))})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, f"({U(ast.BinOp(n.left, BIN[type(n.op)](), n.right))})", "bin")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                v = n.values[:i] + n.values[i + 1:]
                rep(n, f"({U(v[0] if len(v) == 1 else ast.BoolOp(n.op, v))})", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)): rep(n, f"({U(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool): rep(n, str(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): rep(n, str(not n.value), "const")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({U(n.body)})", "ifexp"); rep(n, f"({U(n.orelse)})", "ifexp")
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            rep(n.test, f"(not ({U(n.test)}))", "negate")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), (ast.Constant,)): rep(n, "pass", "drop statement")
        if isinstance(n, ast.Continue): rep(n, "break", "flow")
        if isinstance(n, ast.Break): rep(n, "continue", "flow")
    return out, raw


def apply(m, dest):
    path, _, a, b, new, _ = m
    raw = open(f"{SRC}/{path}", "rb").read()
    open(f"{dest}/dissect/cstruct/{path}", "wb").write(raw[:a] + new.encode() + raw[b:])


def restore(m, dest): shutil.copy(f"{SRC}/{m[0]}", f"{dest}/dissect/cstruct/{m[0]}")


def copydir():
    d = f"/tmp/mut/{os.getpid()}"
    if not os.path.exists(d):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree("/repo", d, symlinks=True)
    return d


def test(m):
    d = copydir()
    apply(m, d)
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20", "tests"], cwd=d, capture_output=True, timeout=120, env={**os.environ, "PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1"})
        return m, r.returncode == 0
    except subprocess.TimeoutExpired: return m, False
    finally: restore(m, d)


PROPS = {"bitbuffer.py": "C06 C02 C01 C15", "types/base.py": "C07 C09 C08 C01 C14 C16", "types/packed.py": "C05 C07 C09 C08 C15", "types/int.py": "C05 C07 C08", "types/leb128.py": "C01 C07 C08", "types/char.py": "C01 C07 C08 C09 C02",
         "types/wchar.py": "C01 C05 C07 C08 C09", "types/void.py": "C01 C07 C17", "types/pointer.py": "C16 C14", "types/enum.py": "C12 C01 C07 C17", "types/flag.py": "C12 C01", "types/structure.py": "C04 C18 C11 C02 C06 C17 C14 C01 C09 C08 C03 C16",
         "compiler.py": "C03 C18", "parser.py": "C13 C12 C10 C04 C07", "expression.py": "C10 C07", "utils.py": "C19", "cstruct.py": "C13 C05 C14 C04 C16 C20", "tools/stubgen.py": "C20"}


def check(m, out):
    d = "/tmp/mutrun"
    if not os.path.exists(d): shutil.copytree("/repo", d, symlinks=True)
    apply(m, d)
    try:
        for p in PROPS[m[0]].split():
            r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "run.py", p, "--budget", "20", "--vbudget", "60"], cwd="/tmp/mutverif", capture_output=True, text=True, timeout=900, env={**os.environ, "PV_REPO": d, "VERIF_TIER": "quick"})
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                l = r.stdout.split("\n")
                return p, l[[i for i, x in enumerate(l) if x.startswith("VIOLATION")][0]], next((x for x in l if x.startswith("  ") and not x.startswith("    ")), "")
        return None
    finally: restore(m, d)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        ms = [m for f in FILES for m in mutants(f)[0]]
        rng = random.Random(5); rng.shuffle(ms)
        print(len(ms), "mutants", flush=True)
        keep = []
        with Pool(int(sys.argv[3]) if len(sys.argv) > 3 else 4) as p:
            for i, (m, ok) in enumerate(p.imap_unordered(test, ms)):
                if ok: keep.append(m); json.dump(keep, open(sys.argv[2], "w"))
        print(len(keep), "pass the tests")
    else:
        ms = json.load(open(sys.argv[2]))
        shutil.rmtree("/tmp/mutverif", ignore_errors=True); os.makedirs("/tmp/mutverif")
        for x in ("run.py", "pyv", "contracts", "known_findings.json"): subprocess.run(["cp", "-a", f"/verif/{x}", "/tmp/mutverif/"])
        res = json.load(open(sys.argv[3])) if os.path.exists(sys.argv[3]) else []
        done = {tuple(r[0]) for r in res}
        for m in ms:
            if tuple(m) in done: continue
            r = check(m, None)
            res.append([m, r]); json.dump(res, open(sys.argv[3], "w"))
            print(m[0], m[1], m[5], repr(m[4][:90]), "->", r, flush=True)
