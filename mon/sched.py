"""Deterministic scheduling of real threads.

install() (before nion.utils is imported) replaces the primitives of the threading, queue and time modules by hybrids. Outside of
a Scheduler run they behave as the originals. Inside one, the threads are real threads of which exactly one runs at a time: it
holds the baton, and gives it up at locks, at starts and ends of threads and, with tracing, at opcodes or lines of the code
under test, to a thread chosen by a seeded generator. Time is virtual: it advances only when every thread is blocked, to the
earliest deadline. If there is none and the harness threads are not done, the run is deadlocked.
"""
import _thread
import gc
import queue
import random
import sys
import threading
import time
import traceback

REPO_CODE = "/repo/nion/utils/"

_real_lock = _thread.allocate_lock
_RealRLock = _thread.RLock
_RealThread = threading.Thread
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep

_local = threading.local()
_active = None
_installed = False


def current():
    """the record of the current thread if it is managed by the active scheduler"""
    rec = getattr(_local, "rec", None)
    return rec if rec is not None and rec.sched is _active and _active is not None else None


class Lock:
    def __init__(self):
        self._real = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        rec = current()
        if rec is None:
            return self._real.acquire(blocking, timeout)
        rec.sched.switch(rec, "acquire")
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else rec.sched.deadline(timeout)
        while not self._real.acquire(False):
            if not rec.sched.block(rec, self, deadline):
                return self._real.acquire(False)
        return True

    acquire_lock = acquire

    def release(self):
        self._real.release()
        rec = current()
        if rec is not None:
            rec.sched.wake(self)
            rec.sched.switch(rec, "release")

    release_lock = release

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_lock()


class RLock:
    def __init__(self):
        self._real = _RealRLock()

    def acquire(self, blocking=True, timeout=-1):
        rec = current()
        if rec is None:
            return self._real.acquire(blocking, timeout)
        rec.sched.switch(rec, "acquire")
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else rec.sched.deadline(timeout)
        while not self._real.acquire(False):
            if not rec.sched.block(rec, self, deadline):
                return self._real.acquire(False)
        return True

    def release(self):
        self._real.release()
        rec = current()
        if rec is not None:
            rec.sched.wake(self)
            rec.sched.switch(rec, "release")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._real._is_owned()

    def _release_save(self):
        state = self._real._release_save()
        rec = current()
        if rec is not None:
            rec.sched.wake(self)
        return state

    def _acquire_restore(self, state):
        if current() is None:
            self._real._acquire_restore(state)
            return
        self.acquire()
        for _ in range(state[0] - 1):
            self._real.acquire()

    def _at_fork_reinit(self):
        self._real = _RealRLock()


class Thread(_RealThread):
    _rec = None

    def start(self):
        rec = current()
        if rec is None:
            return super().start()
        if self._rec is not None:
            raise RuntimeError("threads can only be started once")
        self._rec = rec.sched.spawn(self)
        rec.sched.switch(rec, "start", force=True)

    def join(self, timeout=None):
        if self._rec is None:
            return super().join(timeout)
        rec = current()
        if rec is None:
            if not self._rec.done and timeout is None:
                raise RuntimeError("join of managed thread from outside")
            return
        if rec is self._rec:
            raise RuntimeError("cannot join current thread")
        deadline = None if timeout is None else rec.sched.deadline(timeout)
        rec.sched.switch(rec, "join")
        while not self._rec.done:
            if not rec.sched.block(rec, self, deadline):
                return

    def is_alive(self):
        if self._rec is None:
            return super().is_alive()
        return not self._rec.done


class Record:
    def __init__(self, sched, thread, name, index):
        self.sched, self.thread, self.name, self.index = sched, thread, name, index
        self.baton = _real_lock()
        self.baton.acquire()
        self.done = False
        self.blocked_on = None
        self.deadline = None
        self.timed_out = False
        self.exception = None
        self.priority = 0.0
        self.harness = False


class Deadlock(Exception):
    pass


class Scheduler:
    """mode: dict(kind="random", p=..., trace="opcode"|"line"|None) or dict(kind="pct", d=..., n=..., trace=...)"""
    def __init__(self, seed, mode, max_steps=60000):
        self.rng = random.Random(seed)
        self.mode = mode
        self.now = 1000.0
        self.records = []
        self.current = None
        self.finished = _real_lock()
        self.finished.acquire()
        self.outcome = None
        self.steps = 0
        self.switches = 0
        self.schedule = []
        self.max_steps = max_steps
        self.stack_report = ""
        self.injected = 0
        self.advanced = 0  # number of steps when the time last advanced
        self.forced = 0
        if mode["kind"] == "pct":
            self.change_points = set(self.rng.sample(range(1, max(mode["n"], mode["d"] + 2)), mode["d"]))

    # ---- run

    def run(self, fns):
        """run harness functions, each on a thread of its own; returns 'done', 'deadlock' or 'steps'"""
        global _active
        assert _active is None
        # collections run finalizers, which use locks: they happen where the case says, not within the scheduler
        collecting = gc.isenabled()
        gc.disable()
        _active = self
        try:
            for i, fn in enumerate(fns):
                t = Thread(target=fn, daemon=True)
                t._rec = self.spawn(t)
                t._rec.harness = True
            first = self.choose(self.runnable())
            self.current = first
            first.baton.release()
            self.finished.acquire()
        finally:
            _active = None
            if collecting:
                gc.enable()
        return self.outcome

    def exceptions(self):
        return [(r.name, r.exception) for r in self.records if r.exception is not None]

    def spawn(self, thread):
        rec = Record(self, thread, thread.name, len(self.records))
        rec.priority = self.rng.random()
        self.records.append(rec)
        _thread.start_new_thread(self._main, (rec,))
        return rec

    def _main(self, rec):
        rec.baton.acquire()
        _local.rec = rec
        ident = _thread.get_ident()
        rec.thread._ident = ident
        rec.thread._started._flag = True
        threading._active[ident] = rec.thread
        try:
            if self.mode.get("trace"):
                sys.settrace(self._trace)
            try:
                rec.thread.run()
            finally:
                sys.settrace(None)
        except SystemExit:
            pass
        except BaseException as e:
            rec.exception = e
        threading._active.pop(ident, None)
        rec.done = True
        self.wake(rec.thread)
        self._pass_on(rec)
        _local.rec = None

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO_CODE):
            return None
        if self.mode["trace"] == "opcode":
            frame.f_trace_opcodes = True
        return self._trace_local

    def _trace_local(self, frame, event, arg):
        if event == "opcode" or (event == "line" and self.mode["trace"] == "line"):
            rec = getattr(_local, "rec", None)
            if rec is not None and self.current is rec:
                inject = self.mode.get("inject")
                if inject and self.rng.random() < inject:
                    self.injected += 1
                    gc.collect()
                self.switch(rec, "trace")
        return self._trace_local

    # ---- scheduling; only called by the thread which holds the baton

    def runnable(self):
        return [r for r in self.records if not r.done and r.blocked_on is None]

    def choose(self, runnable):
        if len(runnable) == 1:
            return runnable[0]
        if self.mode["kind"] == "pct":
            return max(runnable, key=lambda r: r.priority)
        return runnable[self.rng.randrange(len(runnable))]

    def switch(self, rec, why, force=False):
        """a point where another thread may run"""
        if self.outcome is not None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._finish("steps", rec)
            return
        if self.steps - self.advanced > 4000:
            # no thread waits for the time to pass, so one may be polling it: let it pass, as it would
            self.advanced = self.steps
            self.forced += 1
            timed = [r for r in self.records if not r.done and r.deadline is not None]
            self.now += 0.05
            for r in timed:
                if r.deadline <= self.now:
                    r.blocked_on, r.deadline, r.timed_out = None, None, True
        if self.mode["kind"] == "pct":
            if self.steps in self.change_points:
                rec.priority = -self.steps
            elif not force and why == "trace":
                return
        elif not force:
            p = self.mode["p"] if why == "trace" else self.mode.get("q", 0.4)
            if self.rng.random() >= p:
                return
        self._to(rec, self.choose(self.runnable()))

    def _to(self, rec, nxt):
        if nxt is rec:
            return
        self.switches += 1
        if len(self.schedule) < 4000:
            self.schedule.append(nxt.index)
        self.current = nxt
        nxt.baton.release()
        rec.baton.acquire()

    def block(self, rec, on, deadline):
        """block until woken; False if the deadline has passed"""
        if self.outcome is not None:  # being abandoned
            rec.baton.acquire()
        if deadline is not None and deadline <= self.now:
            return False
        rec.blocked_on, rec.deadline, rec.timed_out = on, deadline, False
        nxt = self._next()
        if nxt is None:
            self._finish_blocked(rec)
        elif nxt is not rec:
            self._to(rec, nxt)
        return not rec.timed_out

    def sleep(self, rec, seconds):
        if seconds <= 0:
            self.now += 1e-7
            self.switch(rec, "sleep", force=True)
        else:
            self.block(rec, object(), self.deadline(seconds))

    def deadline(self, timeout):
        # time advances at least a little so that waiting for the rest of an interval ends
        return max(self.now + max(timeout, 0), self.now + 1e-7)

    def wake(self, on):
        for r in self.records:
            if r.blocked_on is on:
                r.blocked_on = None
                r.deadline = None

    def _next(self):
        """the thread to run next, advancing the time if all are blocked"""
        runnable = self.runnable()
        if not runnable:
            if all(r.done for r in self.records if r.harness):
                return None
            timed = [r for r in self.records if not r.done and r.deadline is not None]
            if not timed:
                return None
            self.advanced = self.steps
            self.now = max(self.now, min(r.deadline for r in timed))
            for r in timed:
                if r.deadline <= self.now:
                    r.blocked_on, r.deadline, r.timed_out = None, None, True
                    runnable.append(r)
        return self.choose(runnable)

    def _pass_on(self, rec):
        """the thread has ended"""
        if self.outcome is not None:
            return
        nxt = self._next()
        if nxt is None:
            self._finish_blocked(None)
        else:
            self.switches += 1
            self.current = nxt
            nxt.baton.release()

    def _finish_blocked(self, rec):
        self._finish("done" if all(r.done for r in self.records if r.harness) else "deadlock", rec)

    def _finish(self, outcome, rec):
        if outcome != "done":
            frames = sys._current_frames()
            out = []
            for r in self.records:
                if not r.done:
                    f = frames.get(r.thread._ident)
                    where = [x for x in traceback.extract_stack(f) if x.filename.startswith(REPO_CODE)] if f else []
                    out.append(f"thread {r.index}: " + "; ".join(f"{x.filename.rsplit('/', 1)[1]}:{x.name}" for x in where[-3:]))
            self.stack_report = "\n".join(out)
        self.outcome = outcome
        self.finished.release()
        if rec is not None:  # abandon the thread: its state is not to be changed any more
            while True:
                rec.baton.acquire()


def _time():
    rec = current()
    return rec.sched.now if rec is not None else _real_time()


def _monotonic():
    rec = current()
    return rec.sched.now if rec is not None else _real_monotonic()


def _perf_counter():
    rec = current()
    return rec.sched.now if rec is not None else _real_perf()


def _sleep(seconds):
    rec = current()
    if rec is None:
        _real_sleep(seconds)
    else:
        rec.sched.sleep(rec, seconds)


def install():
    global _installed
    if _installed:
        return
    assert "nion.utils.Event" not in sys.modules, "install before importing the code under test"
    _installed = True
    sys._getframe().f_trace_opcodes = True  # otherwise opcode events are only seen from the second settrace on
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading._CRLock = RLock
    threading.Thread = Thread
    threading._time = _monotonic
    queue.time = _monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _perf_counter
    time.sleep = _sleep


def gen_mode(rng):
    r = rng.random()
    trace = rng.choice(["opcode", "opcode", "line", None])
    if r < 0.5:
        return {"kind": "random", "p": rng.choice([0.02, 0.05, 0.1, 0.3]), "q": rng.choice([0.2, 0.5, 0.9]), "trace": trace}
    return {"kind": "pct", "d": rng.randint(1, 5), "n": rng.choice([30, 100, 300, 1000]), "trace": trace}


GRAVEYARD = []  # objects of abandoned runs: finalizers could block on locks which abandoned threads hold


def run_native(fns, timeout=60.0):
    """run on free running threads with frequent switches; returns ('done' or 'stalled', exceptions)"""
    errors = []

    def guard(i, fn):
        try:
            fn()
        except BaseException as e:
            errors.append((i, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [_RealThread(target=guard, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in threads:
            t.start()
        end = _real_monotonic() + timeout
        for t in threads:
            t.join(max(0.0, end - _real_monotonic()))
        return ("stalled" if any(t.is_alive() for t in threads) else "done"), errors
    finally:
        sys.setswitchinterval(old)


def run(case, fns, obs, keep=(), hang_kind="hang"):
    """Run harness functions as the case says (case["mode"] is None for native threads). Returns whether the run was complete."""
    from mon.core import Inconclusive, Violation
    if case.get("mode") is None:
        outcome, errors = run_native(fns)
        obs.count("native_runs")
        if outcome == "stalled":
            GRAVEYARD.append((keep, fns))
            raise Inconclusive("native threads did not finish")
    else:
        s = Scheduler(case["seed"], case["mode"], case.get("max_steps", 60000))
        outcome = s.run(fns)
        errors = s.exceptions()
        obs.count("scheduled_runs")
        obs.count("switches", s.switches)
        obs.count("steps", s.steps)
        if s.injected:
            obs.count("collections_injected", s.injected)
        obs.state(tuple(s.schedule[:400]))
        if outcome != "done":
            GRAVEYARD.append((s, keep, fns))
        if outcome == "deadlock":
            raise Violation(hang_kind, "all threads are blocked:\n" + s.stack_report)
        if outcome == "steps":
            obs.count("step_limit")
            obs.nontrivial = False
            return False
        left = [r for r in s.records if not r.done]
        obs.forced_time = s.forced
        obs.left_threads = len(left)  # blocked for good, with nobody left to wake them
        if left:
            GRAVEYARD.append((s, keep, fns))
    for name, e in errors:
        if isinstance(e, Violation):
            raise e
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO_CODE) for f in tb):
            raise Violation("raised-" + type(e).__name__, "".join(traceback.format_exception(e))[-2500:])
        raise RuntimeError("harness thread raised") from e
    return True
