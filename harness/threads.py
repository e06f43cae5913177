"""Runs jobs in threads, one at a time, changing over where a generated schedule says so.

A change-over is possible before every line (or every bytecode instruction) of the code under
test.  A thread which waits its turn takes it after a while without progress, so that code which
protects itself with locks does not stop the run.
"""
import sys
import threading

from core import Violation, from_repo, monotonic


class Abort(BaseException):
    pass


def outcome(f):
    """None, or why the thread's own results are wrong."""
    try:
        f()
        return None
    except Violation as e:
        return str(e)
    except Abort:
        return "no progress"
    except (Exception, SystemExit) as e:
        if from_repo(e):
            return "unexpected %s: %s" % (type(e).__name__, e)
        raise


class Turns:
    def __init__(self, jobs, schedule, root, instructions, limit=40.0):
        self.jobs, self.schedule, self.root, self.instructions = jobs, schedule, root, instructions
        self.at = 0
        self.left = 1
        self.events = 0
        self.switches = 0
        self.alive = set(range(len(jobs)))
        self.turn = 0
        self.wake = [threading.Event() for _ in jobs]
        self.failed = {}
        self.deadline = monotonic() + limit
        self.late = False
        self.mine = {}

    # -- tracing
    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        known = self.mine.get(name)
        if known is None:
            known = self.mine[name] = name.startswith(self.root)
        if not known:
            return None
        if self.instructions:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.instructions else "line"):
            self.step()
        return self.local

    def step(self):
        me = self.me.i
        if self.turn != me:  # someone took over while this thread was held up elsewhere
            self.wait(me)
        self.events += 1
        self.left -= 1
        if self.left <= 0:
            self.change(me)

    def change(self, me):
        n, pick = self.schedule[self.at % len(self.schedule)]
        self.at += 1
        self.left = n if self.switches < 800 else 20 * n + 50
        others = sorted(self.alive - {me})
        if not others:
            return
        nxt = others[pick % len(others)]
        self.switches += 1
        self.turn = nxt
        self.wake[nxt].set()
        if me in self.alive:
            self.wait(me)

    def wait(self, me):
        seen = None
        while self.turn != me:
            if self.wake[me].wait(0.1):
                self.wake[me].clear()
                continue
            if monotonic() > self.deadline:
                self.late = True
                raise Abort()
            now = (self.events, self.turn)
            if now == seen:  # no progress: the other one waits for something this one holds
                self.turn = me
            seen = now

    # -- threads
    def body(self, i):
        self.me.i = i
        try:
            self.wait(i)
            sys.settrace(self.trace)
            self.jobs[i]()
        except BaseException as e:
            self.failed[i] = e
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.turn == i or self.turn not in self.alive:
                self.change(i)

    def run(self):
        self.me = threading.local()
        self.turn = -1
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.turn = 0
        self.wake[0].set()
        for t in ts:
            t.join(max(0.1, self.deadline + 5 - monotonic()))
            if t.is_alive():
                self.late = True
        return self.failed
