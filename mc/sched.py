"""Controlled scheduler: runs operations in real threads, of which exactly one runs at a time.

Every source line (or bytecode instruction) executed outside the standard library is a scheduling point.  A schedule is a
list of segments (thread, number of points after which it is preempted); when the list is used up the threads run to
completion in order.  A thread that blocks on a real lock gives way to the others.
"""
from __future__ import annotations

import _thread
import os
import sys
import sysconfig
import time

STDLIB = tuple({sysconfig.get_paths()["stdlib"], sysconfig.get_paths()["platstdlib"], os.path.dirname(os.__file__)})
HERE = os.path.dirname(os.path.abspath(__file__))
NEVER = 1 << 60  # to completion, without scheduling points
COUNT = NEVER - 1  # to completion, counting the points


class Stuck(Exception):
    pass


class _Worker:
    def __init__(self, sched, tid):
        self.sched = sched
        self.tid = tid
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.result = None
        self.done = True
        self.op = None
        _thread.start_new_thread(self.loop, ())

    def wait(self):
        while self.sched.turn != self.tid:
            self.gate.acquire()

    def wake(self):
        try:
            self.gate.release()
        except RuntimeError:
            pass

    def loop(self):
        s = self.sched
        trace = s.tracer(self)
        while True:
            self.wait()
            if s.closed:
                return
            op = self.op
            if op is None:
                self.gate.acquire()
                continue
            if s.limit != NEVER:
                sys.settrace(trace)
            try:
                try:
                    res = op()
                finally:
                    sys.settrace(None)
            except BaseException as e:  # noqa: BLE001
                res = ("raised", type(e).__name__, str(e))
            while s.turn != self.tid:  # was blocked on a lock when its last line ran
                self.wait()
            self.result = res
            self.done = True
            self.op = None
            s.next(self)


class Scheduler:
    def __init__(self, n, opcodes=False):
        self.opcodes = opcodes
        self.turn = -1
        self.closed = False
        self.count = 0  # points since the running thread was scheduled
        self.total = 0
        self.limit = NEVER
        self.segments = []
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.workers = [_Worker(self, i) for i in range(n)]
        self.known = {}

    def tracer(self, worker):
        tid = worker.tid
        known = self.known
        opcodes = self.opcodes
        event_name = "opcode" if opcodes else "line"

        def local(frame, event, arg):
            if event == event_name:
                if self.turn != tid:
                    worker.wait()
                self.count += 1
                if self.count >= self.limit:
                    self.next(worker)
                    worker.wait()
                    if self.limit == NEVER:
                        sys.settrace(None)
                        return None
            return local

        def start(frame, event, arg):
            name = frame.f_code.co_filename
            ok = known.get(name)
            if ok is None:
                ok = known[name] = not (name.startswith(STDLIB) and "site-packages" not in name) and not name.startswith(
                    (HERE, "<frozen"))
            if not ok:
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local

        return start

    def next(self, worker):
        """Give the turn to the thread of the next segment."""
        self.total += self.count
        self.count = 0
        while self.segments:
            tid, limit = self.segments.pop(0)
            if not self.workers[tid].done:
                break
        else:
            self.limit = NEVER
            for w in self.workers:
                if not w.done:
                    tid = w.tid
                    break
            else:
                self.turn = -1
                self.finished.release()
                return
            limit = NEVER
        self.limit = limit
        self.turn = tid
        if tid != worker.tid:
            self.workers[tid].wake()

    def run(self, ops, segments):
        """Returns the results and how many points there were."""
        for w, op in zip(self.workers, ops):
            w.op, w.done, w.result = op, False, None
        self.total = self.count = 0
        self.segments = list(segments)
        tid, self.limit = self.segments.pop(0)
        self.turn = tid
        self.workers[tid].wake()
        idle = 0
        seen = -1
        while not self.finished.acquire(True, 0.02 if idle < 3 else 0.5):
            now = self.total + self.count
            if now != seen:
                seen, idle = now, 0
                continue
            # no progress: the running thread waits for something another one holds
            idle += 1
            if idle > 20:
                raise Stuck("the threads do not make progress")
            others = [w.tid for w in self.workers if not w.done and w.tid != self.turn]
            if others:
                self.limit = NEVER
                self.turn = others[0]
                self.workers[others[0]].wake()
        return [w.result for w in self.workers[: len(ops)]], self.total

    def close(self):
        self.closed = True
        for w in self.workers:
            if w.done:
                self.turn = w.tid
                w.wake()
                time.sleep(0.001)
