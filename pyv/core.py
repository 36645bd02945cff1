"""Contracts, native execution of contracts, and the check driver.

A contract is a function  run(X, case)  written once against the executor interface X:
  X.bytes(name, n) / X.int(name, lo, hi) / X.pick(name, seq)   inputs, universally quantified
  X.call(f, *args, **kw) -> Out                                 a call of the real code
  X.check(cond, label, **detail)                                a postcondition
  X.assume(cond)                                                a precondition
`case` is the concrete program the contract is instantiated for (a definition, a mode, ...), built by gen(rng).

NativeX executes it on the real code with concrete inputs (bounded stand-in, and replay of counterexamples).
SymX (explore.py) executes it on the real byte code with symbolic inputs and discharges every check with an SMT solver.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class Skip(Exception):
    """Precondition not met."""


class Hang(BaseException):
    pass


class Out:
    """Outcome of a call: a value, or an exception."""
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self): return self.exc is None

    def raised(self, *types): return self.exc is not None and isinstance(self.exc, types or Exception)

    def __repr__(self): return f"raised {type(self.exc).__name__}: {self.exc}" if self.exc is not None else f"value {short(self.value)}"


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:
        s = f"<unprintable {type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


class NativeX:
    symbolic = False

    def __init__(self, rng, inputs=None):
        self.rng = rng
        self.given = inputs or {}
        self.inputs = {}
        self.checks = 0
        self.trace = []
        from pyv import ref
        self.env = ref.Env()

    def _in(self, name, gen):
        v = self.given[name] if name in self.given else gen()
        self.inputs[name] = v.hex() if isinstance(v, (bytes, bytearray)) else v
        return v

    def bytes(self, name, n):
        def gen():
            r = self.rng
            style = r.random()
            if style < .35:
                return bytes(r.choices((0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x40, 0x30), k=n))
            if style < .5:
                return bytes(r.choice((0, r.randrange(256))) for _ in range(n))
            if style < .6:
                return bytes([r.choice((0xff, 0x00, 0x80))]) * n
            return r.randbytes(n)
        v = self._in(name, gen)
        return bytes.fromhex(v) if isinstance(v, str) else v

    def int(self, name, lo, hi):
        def gen():
            r = self.rng
            k = r.random()
            if k < .15: return lo
            if k < .3: return hi
            if k < .5: return min(hi, max(lo, r.randint(-3, 3)))
            if k < .7: return min(hi, max(lo, (1 << r.randrange(max(1, hi.bit_length()))) + r.randint(-1, 1)))
            return r.randint(lo, hi)
        return self._in(name, gen)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self._in(name, lambda: self.rng.randrange(len(seq)))]

    def call(self, f, *a, **k):
        try:
            return Out(f(*a, **k))
        except (Violation, Skip):
            raise
        except RecursionError as e:
            return Out(exc=e)
        except MemoryError as e:
            return Out(exc=e)
        except Exception as e:
            return Out(exc=e)

    def check(self, cond, label, **detail):
        self.checks += 1
        if not cond:
            raise Violation(label, {k: (v() if callable(v) and not isinstance(v, type) else v) for k, v in detail.items()})

    def truth(self, c): return bool(c)

    def assume(self, c):
        if not c:
            raise Skip()


class Contract:
    def __init__(self, prop, name, run, gen, quick, thorough=None, doc="", cap=None, symbolic=None):
        self.prop, self.name, self.run, self.gen = prop, name, run, gen
        self.quick, self.thorough = quick, thorough or quick * 10
        self.doc = doc
        self.cap = cap  # seconds per case
        self.symbolic = symbolic  # SymX schedule (see explore.py)


REG: dict[str, list[Contract]] = {}


def contract(prop, gen, quick, thorough=None, **kw):
    def deco(f):
        REG.setdefault(prop, []).append(Contract(prop, f.__name__, f, gen, quick, thorough, (f.__doc__ or "").strip(), **kw))
        return f
    return deco


# ------------------------------------------------------------------------------------------------ native search

CASE_SECONDS = 10


def in_target(fn):
    return fn.startswith(os.environ.get("PV_REPO", "/repo") + "/dissect/") or fn.startswith("<compiled ")


def _alarm(*_):
    raise Hang()


def run_case(c: Contract, key: str, inputs=None):
    """-> (status, X, case, detail);  status in ok, skip, violation"""
    rng = random.Random(key)
    case = c.gen(rng)
    x = NativeX(rng, inputs)
    try:
        c.run(x, case)
        return "ok", x, case, None
    except Skip:
        return "skip", x, case, None
    except Violation as v:
        return "violation", x, case, {"label": v.label, **{k: short(d, 2000) for k, d in v.detail.items()}}
    except MemoryError:
        return "violation", x, case, {"label": "the call exhausts memory"}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(in_target(f.filename) for f in tb[-6:]):
            return "violation", x, case, {"label": "unexpected exception from the code under contract",
                                          "exception": traceback.format_exc(limit=-6)}
        raise


def run_case_timed(c, key, inputs=None):
    signal.signal(signal.SIGPROF, _alarm)
    cap = c.cap or CASE_SECONDS
    mine = False
    for attempt in (1, 4):
        signal.setitimer(signal.ITIMER_PROF, cap * attempt)
        try:
            return run_case(c, key, inputs)
        except Hang as e:
            where = traceback.format_exc(limit=-4)
            mine = mine or not any(in_target(f.filename) for f in traceback.extract_tb(e.__traceback__))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    if mine: return "skip", None, None, None  # the reference itself was still at it: a case too large to judge
    try: case = c.gen(random.Random(key))
    except Exception: case = None
    return "violation", None, case, {"label": f"no result within {cap * 4} s", "where": where}


def work(args):
    prop, name, tier, seed, lo, hi, deadline = args
    c = next(c for c in REG[prop] if c.name == name)
    n = skipped = checks = 0
    digests, bad, samples, errs = set(), [], [], []
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        key = f"{prop}:{name}:{seed}:{i}"
        try:
            st, x, case, detail = run_case_timed(c, key)
        except Exception:
            errs.append({"key": key, "trace": traceback.format_exc()})
            if len(errs) > 3:
                break
            continue
        n += 1
        if st == "skip":
            skipped += 1
            continue
        if x is not None:
            checks += x.checks
            if x.checks:
                digests.add(hashlib.sha1((describe(case) + json.dumps(x.inputs, default=str, sort_keys=True)).encode()).digest()[:8])
            if len(samples) < 1 and x.checks:
                samples.append({"contract": name, "key": key, "case": describe(case)[:600], "inputs": {k: str(v)[:200] for k, v in x.inputs.items()}, "checks": x.checks})
        if st == "violation":
            bad.append({"key": key, "case": describe(case) if case is not None else None, "inputs": x.inputs if x else None, **detail})
            if len(bad) >= 3:
                break
    return name, n, skipped, checks, digests, bad, samples, errs


def describe(case):
    if case is None: return "None"
    d = getattr(case, "describe", None)
    return d() if d else repr(case)


def native_search(prop, tier, seed, budget, procs=8, only=None):
    cs = [c for c in REG[prop] if c.gen is not None and (only is None or c.name == only)]
    deadline = time.time() + budget
    jobs = []
    for c in cs:
        total = 3 * c.quick if tier == "quick" else c.thorough
        step = max(1, min(200, -(-total // (procs * 4))))
        jobs += [(prop, c.name, tier, seed, i, min(total, i + step), deadline) for i in range(0, total, step)]
    random.Random(seed).shuffle(jobs)
    res = {c.name: dict(cases=0, skipped=0, checks=0, digests=set(), planned=3 * c.quick if tier == "quick" else c.thorough) for c in cs}
    bad, samples, errs = [], [], []
    for job, out in pmap(work, jobs, procs, limit, 50, deadline + 60):
        if out is None:
            errs.append({"key": f"{job[1]}:{job[4]}-{job[5]}", "trace": "the process executing these cases was ended (memory or time)"})
            continue
        name, n, sk, ch, dg, b, sm, er = out
        r = res[name]
        r["cases"] += n; r["skipped"] += sk; r["checks"] += ch; r["digests"] |= dg
        bad += [dict(contract=name, **x) for x in b]
        samples += sm
        errs += er
    return res, bad, samples, errs


def pmap(f, jobs, procs, init, most, deadline):
    """(job, f(job)) in any order from worker processes; (job, None) where the process ended before it was done.
    Nothing waits for a process that is gone, or longer than the deadline."""
    ctx = mp.get_context("fork")

    def serve(conn, others):
        for o in others: o.close()
        init()
        while True:
            try: j = conn.recv()
            except EOFError: break
            conn.send(f(jobs[j]))
        os._exit(0)

    todo, live = list(range(len(jobs)))[::-1], {}

    def start():
        a, b = ctx.Pipe()
        q = ctx.Process(target=serve, args=(b, [a, *live]), daemon=True)
        q.start()
        b.close()
        j = todo.pop()
        a.send(j)
        live[a] = [q, j, 1]

    def stop(c):
        q = live.pop(c)[0]
        c.close()
        if q.is_alive(): q.kill()
        q.join()

    try:
        while todo or live:
            while todo and len(live) < procs: start()
            ready = mp.connection.wait(list(live), timeout=max(0.1, deadline - time.time()))
            if not ready and time.time() > deadline:
                for c in list(live):
                    yield jobs[live[c][1]], None
                    stop(c)
                for j in todo: yield jobs[j], None
                return
            for c in ready:
                j = live[c][1]
                try: out = c.recv()
                except (EOFError, OSError, pickle.UnpicklingError):
                    stop(c)
                    yield jobs[j], None
                    continue
                if todo and live[c][2] < most:
                    k = todo.pop()
                    live[c][1:] = [k, live[c][2] + 1]
                    try: c.send(k)
                    except OSError:
                        todo.append(k)
                        stop(c)
                else: stop(c)
                yield jobs[j], out
    finally:
        for c in list(live): stop(c)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(3000)
