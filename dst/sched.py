"""Deterministic scheduling of real threads: one runs at a time, and only a seeded list of switches moves the baton.

Every line of dsps code (every instruction with opcodes=True) and every start and end of a call is a scheduling
point.  A thread that blocks in a real lock held by a parked thread is noticed by the whole process going quiet
(no thread runnable, no processor time used); the baton then moves on, and the choice of the next thread waits
until the process is quiet again, so that the set of candidates does not depend on timing.
"""

import _thread
import os
import sys
import threading
import time

import simlib

QUIET_SAMPLES = 4
QUIET_SLEEP = 0.008


def _threads(skip):
    out = {}
    base = "/proc/self/task"
    for t in os.listdir(base):
        if int(t) in skip:
            continue
        try:
            with open("%s/%s/stat" % (base, t), "rb") as f:
                st = f.read().rsplit(b")", 1)[1].split()
            with open("%s/%s/schedstat" % (base, t), "rb") as f:
                ns = int(f.read().split()[0])
        except (OSError, IndexError, ValueError):
            continue
        out[t] = (st[0], ns)
    return out


def quiet(skip, samples=QUIET_SAMPLES):
    """True if nothing but the skipped threads makes any progress."""
    last = _threads(skip)
    for _ in range(samples):
        time.sleep(QUIET_SLEEP)
        now = _threads(skip)
        for t, (st, ns) in now.items():
            if st not in (b"S", b"I") or t not in last or ns - last[t][1] > 60000:
                return False
        last = now
    return True


class Stop(BaseException):
    pass


class Sched:
    def __init__(self, bodies, switches, opcodes=False, max_steps=2000000, prefix_ok=None):
        self.bodies = bodies            # one callable(thread) per thread
        self.switches = list(switches)  # [gap, choice]: after gap scheduling points, move to candidate number choice
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.in_pkg = prefix_ok or simlib.in_pkg
        self.n = len(bodies)
        self.locks = [_thread.allocate_lock() for _ in bodies]
        for l in self.locks:
            l.acquire()
        self.state = ["parked"] * self.n  # parked, running, blocked, done
        self.tids = [None] * self.n
        self.cur = None
        self.at = 0
        self.gap = self.switches[0][0] if self.switches else None
        self.steps = 0
        self.trace = []                 # (step, thread) of every move of the baton
        self.nblocked = 0
        self.mutex = _thread.allocate_lock()
        self.done = threading.Event()
        self.deadlock = False
        self.overrun = False
        self.index = {}
        self.linehook = None

    # -- called by the simulated threads

    def point(self, i):
        self.steps += 1
        if self.cur != i:               # it was blocked in a lock and has come back
            self.park(i)
            return
        if self.steps > self.max_steps:
            self.overrun = True
            raise Stop()
        if self.gap is None:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        choice = self.switches[self.at][1]
        self.at += 1
        self.gap = self.switches[self.at][0] if self.at < len(self.switches) else None
        self.settle(i)
        cand = [j for j in range(self.n) if j != i and self.state[j] == "parked"]
        if not cand:
            return
        self.state[i] = "parked"
        self.give(cand[choice % len(cand)])
        self.locks[i].acquire()

    def park(self, i):
        with self.mutex:
            self.state[i] = "parked"
        self.locks[i].acquire()

    def give(self, j):
        self.state[j] = "running"
        self.cur = j
        self.trace.append((self.steps, j))
        self.locks[j].release()

    def settle(self, i):
        """Wait until every blocked thread has parked itself or is certainly still blocked."""
        if "blocked" not in self.state:
            return
        me = _thread.get_native_id()
        while "blocked" in self.state:
            if quiet({me, self.main}):
                return

    def finish(self, i):
        self.state[i] = "done"
        if all(s == "done" for s in self.state):
            self.done.set()
            return
        if self.cur != i:
            return
        self.settle(i)
        cand = [j for j in range(self.n) if self.state[j] == "parked"]
        if cand:
            c = 0
            if self.at < len(self.switches):
                c = self.switches[self.at][1]
            self.give(cand[c % len(cand)])
        else:
            self.cur = None             # the others are blocked; the main thread sorts it out

    # -- tracing

    def tracer(self, i):
        def line(frame, event, arg):
            if event == "line" or event == "opcode":
                if event == "line" and self.linehook is not None:
                    self.linehook(i, frame)
                self.point(i)
            return line

        def call(frame, event, arg):
            if self.in_pkg(frame.f_code.co_filename):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return line
            return None
        return call

    def body(self, i):
        self.tids[i] = _thread.get_native_id()
        self.locks[i].acquire()
        try:
            sys.settrace(self.tracer(i))
            self.bodies[i](i)
        except Stop:
            pass
        finally:
            sys.settrace(None)
            self.finish(i)

    def run(self):
        self.main = _thread.get_native_id()
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True, name="sim%d" % i) for i in range(self.n)]
        [t.start() for t in ths]
        while any(t is None for t in self.tids):
            time.sleep(0.0005)
        self.give(0)
        last, stuck = -1, 0
        while not self.done.wait(0.03):
            if self.steps != last:
                last, stuck = self.steps, 0
                continue
            if not quiet({self.main}):
                stuck = 0
                continue
            if self.steps != last:
                continue
            # nothing moves: whoever has the baton is blocked
            if self.cur is not None and self.state[self.cur] == "running":
                self.state[self.cur] = "blocked"
                self.nblocked += 1
            cand = [j for j in range(self.n) if self.state[j] == "parked"]
            if cand:
                stuck = 0
                self.give(cand[0])
            else:
                stuck += 1
                if stuck > 40:
                    self.deadlock = True
                    return
        [t.join(10) for t in ths]
