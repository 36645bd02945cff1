"""Check driver: discharges the proofs of one property, runs its bounded contracts, writes evidence, prints violations."""
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

from pyv import core

ROOT = core.ROOT
PY = "/opt/veriftools/pyvenv/bin/python"


def known():
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        out = json.load(open(p))["findings"]
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    arg = lambda o, d=None: argv[argv.index(o) + 1] if o in argv else d
    importlib.import_module(f"contracts.{prop.lower()}")
    if "--case" in argv:
        return replay(prop, arg("--case"))
    t0 = time.time()
    budget = float(arg("--budget", 60 if tier == "quick" else 500))
    vbudget = float(arg("--vbudget", 150 if tier == "quick" else 350))
    only = arg("--only")
    ver, tmp = None, tempfile.TemporaryFile("w+")
    if not only and "--no-verify" not in argv:
        # separate process: it imports the code under contract instrumented
        ver = subprocess.Popen([PY, os.path.join(ROOT, "pyv", "verify.py"), prop, str(vbudget)], stdout=tmp, stderr=subprocess.PIPE, text=True, cwd=ROOT)
    proofs, verr = [], ""
    if ver is not None:
        try:
            _, verr = ver.communicate(timeout=vbudget + 60)
        except subprocess.TimeoutExpired:
            ver.kill()
            verr = "the verifier did not finish"
        tmp.seek(0)
        try: proofs = json.load(tmp)
        except ValueError: verr = verr or "no output"
    res, bad, samples, errs = core.native_search(prop, tier, seed, budget, only=only)
    # where the proofs no longer apply, the bounded contracts have to do: search for longer
    extra, t1 = 0, time.time()
    while not only and not bad and any(r["status"] == "undecided" for r in proofs) and time.time() - t1 < min(180, 3 * budget):
        extra += 1
        res2, bad, samples2, errs2 = core.native_search(prop, tier, seed + 7919 * extra, min(180, 3 * budget) - (time.time() - t1))
        for n, r in res2.items():
            for k in ("cases", "skipped", "checks", "planned"): res[n][k] += r[k]
            res[n]["digests"] |= r["digests"]
        errs += errs2
    pbad, nat = ([], {}) if only else check_proofs(prop, proofs, seed, errs)
    return finish(prop, tier, seed, t0, res, bad + pbad, samples, errs, proofs, nat, verr)


def check_proofs(prop, proofs, seed, errs):
    """Replays counterexamples on the untouched code; executes every proved contract natively (vacuity guard)."""
    from pyv import proofkit
    proofkit.load()
    reg = {p.name: p for p in proofkit.PROOFS.get(prop, [])}
    bad, nat = [], {}
    refuted = {}
    for r in proofs:
        if r["status"] == "refuted": refuted.setdefault((r["proof"], r["case"]), r)
    jobs = [(prop, p.name, c, seed, 40 * p.native if (p.name, c) in refuted else p.native) for p in reg.values() for c, _ in p.case_list() if p.native]
    done = [(j[1], j[2], 0, None, "the process was ended (memory or time)") if out is None else out for j, out in core.pmap(proofkit.native_work, jobs, 8, core.limit, 400, time.time() + 240)]
    found = set()
    for name, cname, checks, b, err in done:
        nat[name] = nat.get(name, 0) + checks
        if err: errs.append({"key": f"{name}/{cname}", "trace": err})
        if b is not None:
            bad.append(b)
            found.add((name, cname))
    for (name, cname), r in refuted.items():
        if (name, cname) in found: continue
        p = reg[name]
        case = dict(p.case_list())[cname]
        hit = None
        for label, inputs, _ in r["failures"]:
            try:
                st, x, detail = proofkit.native_timed(p, cname, case, "replay", inputs)
            except Exception:
                continue
            if st == "violation":
                hit = {"contract": name, "key": f"proof:{name}/{cname}", "case": cname, "inputs": x.inputs if x else inputs, "obligation": label, "found_by": "counterexample", **detail}
                break
        if hit is None:
            label, inputs, _ = r["failures"][0]
            hit = {"contract": name, "key": f"proof:{name}/{cname}", "case": cname, "inputs": inputs, "label": f"obligation refuted: {label}", "unreplayed": True,
                   "verifier": r}
        bad.append(hit)
    return bad, nat


def replay(prop, arg):
    if os.path.exists(arg):
        d = json.load(open(arg))
        key, inputs = d["key"], None if d.get("found_by") == "search" and not d["key"].startswith("proof:") else d.get("inputs")
    else:
        d, key, inputs = {}, arg, None
    if key.startswith("proof:"):
        from pyv import proofkit
        proofkit.load()
        name, cname = key[6:].split("/", 1)
        p = next(p for p in proofkit.PROOFS[prop] if p.name == name)
        if d.get("unreplayed"):
            print("obligation not discharged, no failing input:", d["label"])
            print(json.dumps(d["verifier"], indent=1))
            return 1
        st, x, detail = proofkit.native_timed(p, cname, dict(p.case_list())[cname], d.get("seed", "replay"), inputs)
        case = cname
    else:
        c = next(c for c in core.REG[prop] if c.name == key.split(":")[1])
        st, x, case, detail = core.run_case_timed(c, key, inputs)
    print(st)
    print("case:", core.describe(case))
    if x: print("inputs:", x.inputs)
    for k, v in (detail or {}).items():
        print(f"{k}: {v}")
    return 0 if st != "violation" else 1


TRUSTED = [
    "CPython's arithmetic, containers and control flow (the instrumented code runs on CPython itself)",
    "assumed contracts (models) of int/float/bytes/str constructors, int.from_bytes/to_bytes, struct pack/unpack, utf-16/latin-1 codecs, enum value lookup, io.BytesIO: differentially tested against CPython by tools/modeltest.py",
    "the instrumentation of pyv/instr.py (calls, `in`, f-strings, list comprehensions, loop hooks); the repository's own test suite passes on the instrumented code (tools/selftest.py)",
    "the spec functions of pyv/ref.py and the proof functions, written from the property statements",
    "z3 (and cvc5 where z3 gives no answer)",
    "streams follow the io protocol: read(n) returns at most n bytes of the content at the current position and advances by as many",
]


def finish(prop, tier, seed, t0, res, bad, samples, errs, proofs, nat, verr):
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    kf = [k for k in known() if k["property"] == prop]
    fresh, seen = [], {}
    for b in sorted(bad, key=lambda b: (b.get("unreplayed", False), len(str(b.get("case"))))):
        k = next((k for k in kf if matches(k, b)), None)
        if k is not None:
            seen.setdefault(k["id"], b)
            continue
        fresh.append(b)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if any(not b.get("unreplayed") for b in fresh): fresh = [b for b in fresh if not b.get("unreplayed")]
    shown = set()
    for b in fresh:
        sig = (b["contract"], b["label"])
        if sig in shown or len(shown) >= 12: continue
        shown.add(sig)
        path = os.path.join("evidence", "replay", f"{prop}-{len(shown)}.json")
        b["replay"] = f"{PY} /verif/run.py {prop} --case /verif/{path}"
        b.setdefault("found_by", "search")
        json.dump(b, open(os.path.join(ROOT, path), "w"), indent=1, default=str)
        print(f"  {b['contract']}: {b['label']}")
        for x in ("case", "inputs", "obligation", "exception", "outcome", "got", "expected", "where"):
            if b.get(x): print(f"    {x}: {str(b[x])[:600]}")
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if b.get("unreplayed") else ""))
    from pyv import proofkit
    reg = {p.name: p for p in proofkit.PROOFS.get(prop, [])}
    summary, obligations, discharged, backends, solver = {}, 0, 0, {}, 0.0
    functions, undecided = set(), []
    for r in proofs:
        p = reg.get(r["proof"])
        s = summary.setdefault(r["proof"], {"contract": p.doc if p else "", "functions": p.functions if p else [], "scope": (f"bounded: {p.bounded}" if p and p.bounded else "unbounded"),
                                            "cases": 0, "proved": 0, "undecided": 0, "refuted": 0, "obligations": 0, "discharged": 0, "paths": 0, "native_postconditions": nat.get(r["proof"], 0)})
        s["cases"] += 1
        s[r["status"]] += 1
        s["paths"] += r["paths"]
        o = sum(sum(v) for v in r["obligations"].values())
        d = sum(v[0] for v in r["obligations"].values())
        s["obligations"] += o
        s["discharged"] += d
        obligations += o
        discharged += d
        solver += r["solver_s"]
        for k, v in r["backends"].items(): backends[k] = backends.get(k, 0) + v
        if r["status"] == "proved" and p and not p.bounded: functions |= set(p.functions)
        if r["status"] == "undecided": undecided.append({"proof": r["proof"], "case": r["case"], "reasons": r["reasons"], "errors": r["errors"][:1]})
    allproved = bool(proofs) and not undecided and all(r["status"] == "proved" for r in proofs)
    total_cases = sum(r["cases"] for r in res.values())
    cov = {
        "explanation": "contracts discharged by symbolic execution of the code in /repo (proofs), plus the same or stronger contracts executed on generated definitions and inputs (bounded)",
        "obligations": obligations, "discharged": discharged, "undischarged": undecided[:20], "solver_s": round(solver, 2), "discharged_by": backends,
        "checker_cmd": f"{PY} /verif/pyv/verify.py {prop}",
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted(functions),
        "obligations_unbounded": sum(v["discharged"] for v in summary.values() if v["scope"] == "unbounded"),
        "programs": sum(v["cases"] for v in summary.values() if v["scope"] != "unbounded"),
        "disagreements_checked": sum(v["discharged"] for v in summary.values() if v["scope"] != "unbounded"),
        "proofs": summary,
        "verifier_error": verr[-500:] if verr else "",
        "evaluations": total_cases,
        "distinct_nontrivial": sum(len(r["digests"]) for r in res.values()),
        "rule": "one case = one generated program and one choice of inputs; non-trivial when at least one postcondition was evaluated; distinct by program and inputs",
        "samples": samples[:4] or [{"none": True}],
        "bounded_contracts": {n: {"cases": r["cases"], "planned": r["planned"], "precondition_not_met": r["skipped"], "postconditions_evaluated": r["checks"], "distinct": len(r["digests"])} for n, r in res.items()},
        "machinery_errors": errs[:5],
    }
    try: level = json.load(open(os.path.join(ROOT, "levels.json"))).get(prop, {}).get("level", "exploration")
    except FileNotFoundError: level = "exploration"
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": TRUSTED, "wall_s": round(time.time() - t0, 2), "violations": len(shown)}
    json.dump(e, open(os.path.join(ev, f"{prop}.json"), "w"), indent=1, default=str)
    for x in errs[:3]:
        print("machinery error:", x["key"], x["trace"], file=sys.stderr)
    tot = sum(r["checks"] for r in res.values())
    for u in undecided[:6]: print(f"undecided: {u['proof']} {u['case']}: {'; '.join(u['reasons'])[:200]} {(u['errors'] or [''])[0][-300:]}")
    if verr: print("verifier:", verr[-300:])
    print(f"{prop}: {discharged}/{obligations} obligations discharged in {len(proofs)} proofs ({len(undecided)} undecided); bounded: {total_cases} cases, {tot} postconditions; {len(shown)} violations, {len(errs)} machinery errors, {e['wall_s']} s")
    if shown: return 1
    if tot == 0: print("nothing could be evaluated", file=sys.stderr)
    return 0


def matches(k, b):
    return all(fnmatch.fnmatch(str(b.get(f)), pat) for f, pat in k["match"].items())
