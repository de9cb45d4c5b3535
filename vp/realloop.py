"""asyncio's own selector loop, only that waiting for time takes no time. Same interface as core.VLoop."""
import asyncio
import heapq
import selectors

from . import core


class _Handle(asyncio.TimerHandle):
    """Timers due at the same time run in the order in which they were made."""

    __slots__ = ("seq",)

    def __lt__(self, other):
        return (self._when, self.seq) < (other._when, other.seq)


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        self.loop.travel(timeout)
        return []


class RealLoop(asyncio.SelectorEventLoop):
    def __init__(self, start=core.T0, debug=False):
        self._vtime = start
        sel = _Selector()
        super().__init__(sel)
        sel.loop = self
        self._clock_resolution = 1e-9
        self._seq = 0
        self.ticks = 0
        self.errors = []
        self.quiesce_hooks = []
        self.tick_hooks = None
        self.set_exception_handler(lambda _l, c: self.errors.append(c))
        self.set_debug(debug)

    @property
    def _timers(self):
        return self._scheduled

    def time(self):
        return self._vtime

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        if self._debug:
            self._check_thread()
            self._check_callback(callback, "call_at")
        h = _Handle(when, callback, args, self, context)
        self._seq += 1
        h.seq = self._seq
        heapq.heappush(self._scheduled, h)
        h._scheduled = True
        return h

    def call_exception_handler(self, context):
        if core.REPORTS is not None and not core.OVER:
            core.REPORTS.append(context)
        super().call_exception_handler(context)

    def travel(self, timeout):
        if timeout == 0:
            self.ticks += 1
            if self.ticks > self._limit:
                self._status = "livelock"
                self.stop()
        elif timeout is None:
            self._status = "idle"
            self.stop()
        elif self._scheduled[0]._when > self._horizon:
            self._status = "horizon"
            self.stop()
        else:
            self._vtime = max(self._vtime, self._scheduled[0]._when)

    def drive(self, max_ticks, horizon):
        self._limit, self._horizon, self._status = self.ticks + max_ticks, horizon, None
        asyncio._set_running_loop(None)
        self.run_forever()
        return self._status
