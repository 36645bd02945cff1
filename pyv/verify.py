"""Symbolic run: every proof of a property (or all), as JSON on stdout.  Separate process, code instrumented on import."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("PV_REPO", "/repo"))


def run_one(p, cname, case, deadline, reuse=None):
    from pyv import engine, proofkit, sym
    t0 = time.time()
    k = 0
    while True:
        ex = engine.Explorer(timeout_ms=15000, deadline=min(deadline, time.time() + p.timeout))
        ex.stubs = dict(p.stubs)
        if p.prop in FRAMED: ex.old = OLD
        ex.role_try = k

        def path():
            X = proofkit.SymX(ex)
            p.run(X, case)
        try:
            ex.explore(path)
        finally:
            sym.set_explorer(None)
        k += 1
        if not ex.renamed or k >= min(ex.role_total, 24) or not (ex.failures or ex.unsupported or ex.errors): break
    if ex.renamed and ex.failures:
        ex.unsupported.append("the loop contract does not fit the variables of this loop")
        ex.failures = []
    missing = ex.loops_wanted - ex.cuts_hit
    if missing: ex.unsupported.append(f"no such loop: {sorted(missing)}")
    # frame condition: nothing is written that existed before the call and outlives it
    if ex.modified: ex.unsupported.append(f"the frame condition does not hold: writes {sorted(ex.modified)}")
    status = "refuted" if ex.failures else "undecided" if (ex.unsupported or ex.errors or not ex.vcs or ex.ended == 0 or not p.steps and ex.completed == 0) else "proved"
    return {"proof": p.name, "case": cname, "status": status, "paths": ex.paths, "completed": ex.completed, "obligations": ex.vcs, "queries": ex.queries,
            "solver_s": round(ex.solver_time, 3), "wall_s": round(time.time() - t0, 3), "backends": ex.backends,
            "failures": ex.failures[:3], "reasons": sorted(set(ex.unsupported))[:4], "errors": ex.errors[:2]}


FRAMED = ("C14", "C15")
OLD = {}


def job(a):
    name, i, deadline = a
    from pyv import proofkit
    p = next(p for p in proofkit.PROOFS[PROP] if p.name == name)
    cname, case = p.case_list()[i]
    signal.signal(signal.SIGPROF, lambda *_: (_ for _ in ()).throw(Late()))
    signal.setitimer(signal.ITIMER_PROF, max(1, min(p.timeout * 1.5 + 10, deadline - time.time() + 5)))
    try:
        return run_one(p, cname, case, deadline)
    except Late:
        return {"proof": name, "case": cname, "status": "undecided", "reasons": ["time"], "obligations": {}, "failures": [], "errors": [], "paths": 0, "queries": 0, "solver_s": 0, "wall_s": p.timeout, "backends": {}}
    except BaseException:
        return {"proof": name, "case": cname, "status": "undecided", "reasons": ["machinery"], "errors": [traceback.format_exc(limit=-6)], "obligations": {}, "failures": [], "paths": 0, "queries": 0, "solver_s": 0, "wall_s": 0, "backends": {}}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Late(BaseException):
    pass


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    sys.setrecursionlimit(5000)


def main():
    global PROP
    PROP, budget = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 120
    only = sys.argv[3] if len(sys.argv) > 3 else None
    from pyv import instr
    instr.install()
    import dissect.cstruct  # noqa
    from pyv import proofkit, engine, core
    proofkit.load()
    if PROP in FRAMED:
        import gc
        from pyv import absobj
        from dissect.cstruct import cstruct, Expression
        from dissect.cstruct.types.structure import Field
        engine.Frame.kinds = (absobj.AbsCls, absobj.AbsType, absobj.AbsField, absobj.AbsCS, cstruct, Expression, Field)
        OLD.update({id(o): o for o in gc.get_objects()})
    deadline = time.time() + budget
    jobs = []
    for p in proofkit.PROOFS.get(PROP, []):
        if only and only.split("/")[0] != p.name: continue
        for i, (n, c) in enumerate(p.case_list()):
            if only and "/" in only and only.split("/", 1)[1] != n: continue
            jobs.append((p.name, i, deadline))
    out = []
    if jobs:
        for (name, i, _), r in core.pmap(job, jobs, 8, limit, 20, deadline + 30):
            if r is None:
                c = next(p for p in proofkit.PROOFS[PROP] if p.name == name).case_list()[i][0]
                r = {"proof": name, "case": c, "status": "undecided", "reasons": ["the process was ended (memory or time)"], "obligations": {}, "failures": [], "errors": [], "paths": 0, "queries": 0, "solver_s": 0, "wall_s": 0, "backends": {}}
            out.append(r)
    for f, e in proofkit.FAILED:
        out.append({"proof": f, "case": "", "status": "undecided", "reasons": ["the functions under contract are not there: " + e], "obligations": {}, "failures": [], "errors": [], "paths": 0, "queries": 0, "solver_s": 0, "wall_s": 0, "backends": {}})
    json.dump(out, sys.stdout, default=str)


if __name__ == "__main__":
    main()
