"""Controlled thread interleaving.

Threads run one at a time; who runs next is decided, from a seeded generator,
at every line (or bytecode) executed in the package under test.  A thread that
blocks outside our control (say, on a lock another thread holds) loses its turn
after a short real-time wait, and is not given another until it has moved on, so
a correct locking scheme is never a deadlock.
"""
import random
import sys
import threading
import time

from . import load


class Controlled:
    def __init__(self, seed, switch=0.3, opcodes=False, stall=0.05, changes=None):
        self.rng = random.Random(seed)
        self.switch = switch          # chance of a switch at each point
        self.changes = changes        # or: switch only at these event numbers
        self.opcodes = opcodes
        self.stall = stall
        self.cond = threading.Condition()
        self.alive = []
        self.blocked = set()          # threads seen to wait for something else
        self.ident = {}
        self.turn = None
        self.events = 0
        self.switches = 0
        self.stalls = 0
        self.trace = []               # (thread, code location) at each switch
        self.root = load.REPO + "/python/"

    def _wait(self, me):
        """Called with the condition held: block until it is this thread's turn."""
        self.blocked.discard(me)
        seen = self.events
        while self.turn != me:
            if not self.cond.wait(self.stall if self._busy(self.turn) else self.stall/5):
                if self.events == seen and self.turn != me:
                    # whoever has the turn is blocked somewhere else
                    self.stalls += 1
                    self.blocked.add(self.turn)
                    self.turn = me
                    break
                seen = self.events
        self.events += 1

    def _busy(self, other):
        """Is that thread in code that could simply take a while (rather than at a lock)?"""
        f = sys._current_frames().get(self.ident.get(other))
        return f is None or not (f.f_code.co_filename.startswith(self.root) or f.f_code.co_filename == threading.__file__)

    def _point(self, me, where):
        with self.cond:
            self.blocked.discard(me)
            if self.turn != me:
                self._wait(me)
            self.events += 1
            sw = (self.events in self.changes) if self.changes is not None else (
                self.rng.random() < self.switch)
            others = [t for t in self.alive if t != me and t not in self.blocked]
            if sw and others:
                nxt = self.rng.choice(others)
                self.switches += 1
                if len(self.trace) < 4000:
                    self.trace.append((me, where))
                self.turn = nxt
                self.cond.notify_all()
                self._wait(me)

    def _tracer(self, me):
        root, ops = self.root, self.opcodes

        def local(frame, event, arg):
            if event == ("opcode" if ops else "line"):
                self._point(me, (frame.f_code.co_name, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(root):
                if ops:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def run(self, bodies, timeout=120):
        """Run the callables to the end; returns [(ok, value or exception)]."""
        n = len(bodies)
        out = [None]*n
        self.alive = list(range(n))
        self.turn = self.rng.randrange(n)

        def main(i):
            with self.cond:
                self.ident[i] = threading.get_ident()
                self._wait(i)
            sys.settrace(self._tracer(i))
            try:
                out[i] = (True, bodies[i]())
            except BaseException as e:    # noqa: B902
                out[i] = (False, e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(i)
                    if self.turn == i and self.alive:
                        self.turn = self.rng.choice([t for t in self.alive if t not in self.blocked] or self.alive)
                    self.events += 1
                    self.cond.notify_all()
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        end = time.time() + timeout
        for t in ts:
            t.join(max(0.01, end - time.time()))
        return out


def free(bodies, interval=1e-6, timeout=120):
    """Run the callables in ordinary threads with very short time slices."""
    n = len(bodies)
    out = [None]*n
    gate = threading.Barrier(n)

    def main(i):
        gate.wait()
        try:
            out[i] = (True, bodies[i]())
        except BaseException as e:    # noqa: B902
            out[i] = (False, e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        end = time.time() + timeout
        for t in ts:
            t.join(max(0.01, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    return out
