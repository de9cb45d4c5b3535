"""Consistent simulated clocks.

Must be imported before aioreactive: replaces datetime.datetime by a subclass whose now()/utcnow()
follow the loop currently being driven, and lets the driver patch time.time/monotonic while a case
runs, so that code reading any clock sees the same (virtual) passage of time.
"""
import datetime as _dt
import time as _time

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter
_real_datetime = _dt.datetime
_EPOCH = _real_datetime(2021, 3, 14, 1, 59, 26, tzinfo=_dt.timezone.utc)
EPOCH_TS = _EPOCH.timestamp()

current = None  # the loop being driven


def _vt():
    return None if current is None else current.time()


class _Meta(type):
    def __instancecheck__(cls, x):  # a plain datetime is one, too
        return isinstance(x, _real_datetime)


class datetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        t = _vt()
        if t is None:
            return _real_datetime.now(tz)
        d = _EPOCH + _dt.timedelta(seconds=t)
        return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        t = _vt()
        if t is None:
            return _real_datetime.utcnow()
        return (_EPOCH + _dt.timedelta(seconds=t)).replace(tzinfo=None)


_dt.datetime = datetime


def _v_time():
    t = _vt()
    return real_time() if t is None else EPOCH_TS + t


def _v_mono():
    t = _vt()
    return real_monotonic() if t is None else t


def _v_perf():
    t = _vt()
    return real_perf() if t is None else t


def enter(loop):
    global current
    current = loop
    _time.time = _v_time
    _time.monotonic = _v_mono
    _time.perf_counter = _v_perf


def leave():
    global current
    current = None
    _time.time = real_time
    _time.monotonic = real_monotonic
    _time.perf_counter = real_perf
