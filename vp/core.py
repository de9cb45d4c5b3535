"""Event loop, case driver and environment set-up for the monitors."""
import asyncio
import collections
import gc
import heapq
import logging
import threading
import os
import signal
import sys

from . import clock

REPO = os.environ.get("VP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

logging.disable(logging.CRITICAL)

import expression.collections  # noqa: E402
import expression.core.aiotools as _aiotools  # noqa: E402
import expression.system  # noqa: E402
import reactivex  # noqa: E402

# compile the repository from its sources: never trust a stale byte-code cache
_prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-vp-pycache"
import aioreactive  # noqa: E402
import aioreactive.combine  # noqa: E402
import aioreactive.create  # noqa: E402
import aioreactive.filtering  # noqa: E402
import aioreactive.leave  # noqa: E402
import aioreactive.notification  # noqa: E402
import aioreactive.observables  # noqa: E402
import aioreactive.observers  # noqa: E402
import aioreactive.subject  # noqa: E402
import aioreactive.subscription  # noqa: E402
import aioreactive.testing  # noqa: E402
import aioreactive.timeshift  # noqa: E402
import aioreactive.transform  # noqa: E402

sys.pycache_prefix = _prefix

if not os.path.abspath(aioreactive.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("harness error: aioreactive imported from " + aioreactive.__file__)

T0 = 1000.0
OVER = False  # True while run_case tears a finished case down: nothing seen then is evidence


class Stuck(KeyboardInterrupt):
    """Raised by the watchdog inside a callback that does not yield."""


REPORTS = None  # list that collects everything reported to the loops (C28)
AT_REST = None  # called whenever nothing is ready (C28)


class VLoop(asyncio.BaseEventLoop):
    """Deterministic virtual-time loop: strict FIFO of ready callbacks (as asyncio guarantees),
    time advances only when nothing is ready. Counts steps; calls hooks before time advances."""

    def __init__(self, start=T0):
        super().__init__()
        self._ready = collections.deque()
        self._vtime = start
        self._tseq = 0
        self._timers = []
        self.ticks = 0
        self.advances = 0
        self.errors = []  # contexts given to the exception handler
        self.quiesce_hooks = []
        self.tick_hooks = None
        self.set_exception_handler(lambda _l, c: self.errors.append(c))

    def time(self):
        return self._vtime

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        h = asyncio.TimerHandle(when, callback, args, self, context)
        self._tseq += 1
        heapq.heappush(self._timers, (when, self._tseq, h))
        return h

    def _timer_handle_cancelled(self, handle):
        pass

    def _write_to_self(self):
        pass

    def call_exception_handler(self, context):
        if REPORTS is not None and not OVER:
            REPORTS.append(context)
        super().call_exception_handler(context)

    def _run_once(self):  # not used
        raise RuntimeError

    def drive(self, max_ticks, horizon):
        """Run until idle. Returns 'idle', 'livelock' or 'horizon'."""
        asyncio._set_running_loop(self)
        self._thread_id = threading.get_ident()
        ready = self._ready
        limit = self.ticks + max_ticks
        try:
            while True:
                while ready:
                    h = ready.popleft()
                    if h._cancelled:
                        continue
                    self.ticks += 1
                    if self.ticks > limit:
                        return "livelock"
                    h._run()
                    if self.tick_hooks is not None:
                        self.tick_hooks(self)
                for hook in self.quiesce_hooks:
                    hook(self)
                if AT_REST is not None:
                    AT_REST(self)
                if ready:
                    continue
                timers = self._timers
                while timers and timers[0][2]._cancelled:
                    heapq.heappop(timers)
                if not timers:
                    return "idle"
                if timers[0][0] > horizon:
                    return "horizon"
                when, _, h = heapq.heappop(timers)
                if when > self._vtime:
                    self._vtime = when
                    self.advances += 1
                ready.append(h)
                # timers due at the very same time become ready together, in creation order
                while timers and timers[0][0] <= self._vtime:
                    _, _, h2 = heapq.heappop(timers)
                    if not h2._cancelled:
                        ready.append(h2)
        finally:
            self._thread_id = None
            asyncio._set_running_loop(None)


def _running_tasks():
    d = _aiotools.__dict__
    return d.get("__running_tasks")


class Run:
    """Result of one driven case."""

    __slots__ = ("status", "ticks", "loop", "main_exc", "main_done", "end_time", "result", "ncallbacks")


TRACE_LIMIT = None  # set when re-running a stuck case with a deterministic line budget
_trace_count = 0


def _tracer(frame, event, arg):
    global _trace_count
    _trace_count += 1
    if _trace_count > TRACE_LIMIT:
        _trace_count = 0
        raise Stuck("line budget exceeded")
    return _tracer


DEBUG = False  # C33: asyncio's debug mode


def run_case(main, max_ticks=400000, horizon=T0 + 5000.0, start=T0, hooks=(), tick_hook=None, loop=None):
    """Drive coroutine function `main()` and everything it starts until the loop is idle."""
    if loop is None:
        loop = VLoop(start)
    if DEBUG:
        loop.set_debug(True)
    loop.quiesce_hooks.extend(hooks)
    loop.tick_hooks = tick_hook
    r = Run()
    r.loop = loop
    r.result = None
    clock.enter(loop)
    asyncio.set_event_loop(loop)
    asyncio._set_running_loop(loop)
    stuck = False
    task = None
    if TRACE_LIMIT is not None:
        global _trace_count
        _trace_count = 0
        sys.settrace(_tracer)
    try:
        task = loop.create_task(main())
        r.status = loop.drive(max_ticks, horizon)
    except Stuck:
        stuck = True
        r.status = "stuck"
    finally:
        if TRACE_LIMIT is not None:
            sys.settrace(None)
        clock.leave()
        asyncio._set_running_loop(None)
    r.ticks = loop.ticks
    r.end_time = loop.time()
    r.main_done = bool(task is not None and task.done())
    r.main_exc = None
    if r.main_done and not task.cancelled():
        r.main_exc = task.exception()
        if r.main_exc is None:
            r.result = task.result()
    # clean up: nothing may leak into the next case
    if stuck:
        asyncio.set_event_loop(None)
        rt = _running_tasks()
        if rt is not None:
            rt.clear()
        raise Stuck()
    loop.quiesce_hooks.clear()
    loop.tick_hooks = None
    rt = _running_tasks()
    global OVER
    OVER = True
    clock.enter(loop)
    try:
        for _ in range(3):
            ts = asyncio.all_tasks(loop)
            if not ts:
                break
            nerr = len(loop.errors)
            for t in ts:
                t.vp_cleaned = True
                t.cancel()
            loop._timers.clear()
            loop.drive(5000, -1.0)
            del loop.errors[nerr:]
    finally:
        OVER = False
        clock.leave()
    loop._ready.clear()
    loop._timers.clear()
    if rt is not None:
        rt.clear()
    asyncio.set_event_loop(None)
    loop.set_exception_handler(lambda _l, c: None)
    loop.close()
    return r


def watchdog(seconds):
    def onalarm(signum, frame):
        raise Stuck("cpu watchdog")

    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)


def watchdog_off():
    signal.setitimer(signal.ITIMER_PROF, 0)


gc.collect()
gc.freeze()
