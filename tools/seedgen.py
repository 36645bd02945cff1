"""Build /verif/seeded/<id>/ from tools/seeds.py; verify each in a scratch copy of /repo; run the property's check against it.
usage: seedgen.py [ids...]   (not read by any check)"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
SCR = "/tmp/seedscratch"
PY = "/opt/veriftools/pyvenv/bin/python"
def sh(cmd, cwd, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)
def origlines(f):
    base = subprocess.run("git -C /repo log --format=%h --reverse | head -1", shell=True, capture_output=True, text=True).stdout.strip()
    b = sh(f"git show {base}:{f}", "/repo").stdout.split("\n")
    return set(x.strip() for x in b)
ids = sys.argv[1:]
ok = True
for s in SEEDS:
    if ids and s["id"] not in ids: continue
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", SCR], check=True)
    bad = []
    for f, old, new in s["edits"]:
        p = f"{SCR}/dissect/cstruct/{f}"
        t = open(p).read()
        if t.count(old) != 1: bad.append(f"{f}: old text occurs {t.count(old)} times")
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", SCR).stdout
    ol = None
    for f, *_ in s["edits"]:
        ol = origlines(f"dissect/cstruct/{f}")
        for l in diff.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in ol and len(s["edits"]) == 1:
                bad.append(f"not an original line: {l}")
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('#!/bin/sh\nPYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r0 = sh(f"sh {d}/demo.sh", "/repo", timeout=300)
    r1 = sh(f"sh {d}/demo.sh", SCR, timeout=300)
    if r0.returncode: bad.append("demo fails on clean tree: " + r0.stderr[-400:])
    if not r1.returncode: bad.append("demo passes on patched tree")
    t = sh("PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3", SCR)
    tests = t.stdout.strip().split("\n")[-1]
    caught = "-"
    if not bad:
        a = sh(f"git apply --check {d}/patch.diff", "/repo")
        if a.returncode: bad.append("patch does not apply " + a.stderr)
        else:
            # a copy of /verif, so that the evidence of the real tree stays
            V = "/tmp/seedverif"
            shutil.rmtree(V, ignore_errors=True)
            subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "--exclude", "evidence", "/verif/", V], check=True)
            c = sh(f"PV_REPO={SCR} VERIF_SEED=1 VERIF_TIER=quick {PY} run.py {s['property']}", V, timeout=1200)
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            caught = f"rc={c.returncode} {v[:1]} " + " | ".join(l.strip() for l in c.stdout.split("\n") if l.startswith("  ") and not l.startswith("    "))[:160]
            shutil.rmtree(V, ignore_errors=True)
    print(s["id"], s["property"], "tests:", tests, "|", caught, "| PROBLEMS:" if bad else "", *bad, flush=True)
shutil.rmtree(SCR, ignore_errors=True)
