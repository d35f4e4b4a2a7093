"""A deterministic stand-in for the thread pool behind an asyncio loop.

Inside a forked child, `install(schedule)` makes every new event loop a SimLoop.  Work handed to the loop's executor is
not run by threads: it is kept "in progress" until the loop has nothing else to do; then the generated schedule picks
which piece of work finishes next and it is run there and then.  The interleaving is thereby a pure function of the
schedule.  If the loop would block for ever with nothing in progress, the build is dead-locked: Deadlock is raised
(after a grace period with real waiting, in case something outside this loop is going to wake it).
"""
import asyncio
import time
import threading


class Deadlock(BaseException):
    pass


class Sim:
    def __init__(self, schedule, on_start=None, on_idle=None, grace=5.0):
        self.schedule = list(schedule)
        self.pos = 0
        self.pending = []      # [future, fn] in submission order
        self.on_idle = on_idle
        self.grace = grace
        self.idle_points = 0
        self.submitted = 0
        self.finished = 0
        self.max_in_progress = 0
        self.choices = 0       # idle points with more than one piece of work in progress
        self.interrupt_at = None   # idle point number at which KeyboardInterrupt is raised
        self.loops = 0
        self.on_batch = None

    def pick(self):
        self.idle_points += 1
        if self.on_idle is not None:
            self.on_idle(self)
        if self.interrupt_at is not None and self.idle_points == self.interrupt_at:
            raise KeyboardInterrupt()
        # a schedule entry c: piece of work c % 8 (modulo) finishes, and up to c // 8 others finish with it, i.e. before
        # the loop gets to see any of them
        c = 0
        if len(self.pending) > 1:
            self.choices += 1
            c = self.schedule[self.pos % len(self.schedule)] if self.schedule else 0
            self.pos += 1
        batch = min(1 + c // 8, len(self.pending))
        if self.on_batch is not None:
            self.on_batch(batch)
        for b in range(batch):
            self.finish_one(c % 8 + 3 * b)

    def finish_one(self, c):
        fut, fn = self.pending.pop(c % len(self.pending))
        try:
            res, exc = fn(), None
        except Deadlock:
            raise
        except BaseException as e:     # like a pool thread: everything goes to the future
            res, exc = None, e
        self.finished += 1
        if fut.cancelled():
            return
        if exc is not None:
            fut.set_exception(exc)
        else:
            fut.set_result(res)

    def drain(self, run):
        """After an interrupt: work that was in progress is completed (run=True) or dropped."""
        todo, self.pending = self.pending, []
        for fut, fn in todo:
            if run:
                try:
                    fn()
                except BaseException:
                    pass


class SimSelector:
    def __init__(self, real, sim):
        self._real = real
        self._sim = sim

    def __getattr__(self, name):
        return getattr(self._real, name)

    def select(self, timeout=None):
        if timeout is not None and timeout <= 0:
            return self._real.select(timeout)
        ev = self._real.select(0)
        if ev:
            return ev
        if self._sim.pending:
            self._sim.pick()
            return self._real.select(0)
        if timeout is not None:
            return self._real.select(timeout)
        # nothing in progress and an unbounded wait
        end = time.monotonic() + self._sim.grace
        while time.monotonic() < end:
            ev = self._real.select(0.05 if threading.active_count() <= 1 else 0.5)
            if ev:
                return ev
            if threading.active_count() <= 1:
                break            # no thread exists that could wake this loop
        raise Deadlock("event loop waits for ever with no step in progress")


def install(sim):
    class SimLoop(asyncio.SelectorEventLoop):
        def __init__(self):
            super().__init__()
            sim.loops += 1
            self._selector = SimSelector(self._selector, sim)

        def run_in_executor(self, executor, func, *args):
            fut = self.create_future()
            sim.submitted += 1
            sim.pending.append((fut, lambda: func(*args)))
            sim.max_in_progress = max(sim.max_in_progress, len(sim.pending))
            return fut

    class Policy(asyncio.DefaultEventLoopPolicy):
        def new_event_loop(self):
            return SimLoop()

    asyncio.set_event_loop_policy(Policy())
    return sim
