"""Deterministic interleaving of real threads at source-line granularity.

Each operation runs in its own thread.  A trace function stops the thread at every line of the code under contract; the
schedule is a list of global step numbers at which control passes to the next unfinished thread."""
import os
import sys
import threading

PATIENCE = 3.0


REPO = os.environ.get("PV_REPO", "/repo").rstrip("/") + "/dissect/"


def traced(fn): return fn.startswith(REPO) or fn.startswith("<compiled") or fn == "<string>"


class Scheduler:
    def __init__(self, ops, switches, opcodes=False):
        self.ops, self.switches, self.opcodes = ops, set(switches), opcodes
        self.n = len(ops)
        self.sem = [threading.Semaphore(0) for _ in ops]
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.step = 0
        self.free = False
        self.switched = 0
        self.where = []

    def run(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts: t.start()
        self.sem[0].release()
        for t in ts: t.join(60)
        return self.result

    def _thread(self, i):
        self._wait(i)
        sys.settrace(self._trace(i))
        try:
            self.result[i] = ("ok", self.ops[i]())
        except Exception as e:
            self.result[i] = ("exc", e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            self._pass(i)

    def _wait(self, i):
        # a thread that is blocked by the code under contract itself (a lock) must not stop the others forever
        if not self.free and not self.sem[i].acquire(timeout=PATIENCE if i in self._started() else 30):
            self.free = True
            for s in self.sem: s.release()

    def _started(self): return range(self.n)

    def _pass(self, i):
        for d in range(1, self.n + 1):
            j = (i + d) % self.n
            if not self.done[j]:
                if j != i: self.sem[j].release()
                return j
        return i

    def _trace(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line") and not self.free:
                self.step += 1
                if self.step in self.switches:
                    j = self._pass(i)
                    if j != i:
                        self.switched += 1
                        self.where.append(f"{frame.f_code.co_name}:{frame.f_lineno}")
                        self._wait(i)
            return local

        def glob(frame, event, arg):
            if not traced(frame.f_code.co_filename): return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return glob


def count(op, opcodes=False):
    s = Scheduler([op], [], opcodes)
    r = s.run()
    return s.step, r[0]
