"""native execution of proofs: tools/nat.py PROP [proof] [n]"""
import os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("PV_REPO", "/repo")]
from pyv import proofkit
proofkit.load()
for p in proofkit.PROOFS[sys.argv[1]]:
    if len(sys.argv) > 2 and p.name != sys.argv[2]: continue
    for c, _ in p.case_list():
        r = proofkit.native_work((p.prop, p.name, c, 7, int(sys.argv[3]) if len(sys.argv) > 3 else 200))
        print(p.name, c, r[2], r[3], r[4])
