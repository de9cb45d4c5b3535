"""Instrumented observers, sources and values, and comparison helpers."""
import asyncio
import zlib

from . import core  # noqa: F401  (sets up sys.path and clocks first)
from aioreactive import AsyncObservable, AsyncObserver
from aioreactive.notification import OnCompleted, OnError, OnNext
from expression import Nothing, Some
from expression.system import AsyncDisposable, ObjectDisposedException, OperationCanceledError


class Boom(Exception):
    """Injected fault."""

    def __init__(self, tag):
        Exception.__init__(self, tag)
        self.tag = tag

    def __repr__(self):
        return f"Boom({self.tag!r})"


class FalsyBoom(Boom):
    def __bool__(self):
        return False

    def __eq__(self, o):
        return isinstance(o, FalsyBoom)

    __hash__ = None


class TimeoutBoom(Boom, asyncio.TimeoutError):
    pass


class LookupBoom(Boom, LookupError):
    pass


EXC_KINDS = [Boom, FalsyBoom, TimeoutBoom, LookupBoom, Boom]
EXC_MORE = [type(f"{b.__name__}Boom", (Boom, b), {}) for b in
            (RuntimeError, ValueError, ObjectDisposedException, OSError, TypeError, AttributeError, AssertionError, NotImplementedError, KeyError,
             ArithmeticError, BufferError, EOFError, IndexError, ZeroDivisionError, UnicodeError, ImportError, MemoryError, RecursionError, asyncio.QueueEmpty,
             asyncio.InvalidStateError, NameError, SyntaxError, Warning, OperationCanceledError)]


class GroupBoom(Boom, ExceptionGroup):
    def __new__(cls, tag):
        return ExceptionGroup.__new__(cls, str(tag), [ValueError(1)])

    def __init__(self, tag):
        Boom.__init__(self, tag)

    def derive(self, excs):
        return ExceptionGroup(self.message, excs)


class NoArgsBoom(Boom):
    """Carries neither message nor arguments and cannot be converted to a string."""

    def __init__(self, tag):
        self.tag = tag
        self.args = ()

    def __str__(self):
        raise AssertionError("an error was converted to a string")


EXC_MORE += [GroupBoom, NoArgsBoom]
StopBoom = type("StopAsyncIterationBoom", (Boom, StopAsyncIteration), {})


def boom(tag, kind=0):
    """A fresh exception; which class depends on the kind and, for variety, on the tag."""
    h = zlib.crc32(str(tag).encode())
    if kind == 9:
        ex = StopBoom(tag)
    elif kind >= 10:
        ex = EXC_MORE[(kind - 10) % len(EXC_MORE)](tag)
    elif h % 3:
        ex = EXC_KINDS[kind % len(EXC_KINDS)](tag)
    else:
        ex = EXC_MORE[(kind + h // 3) % len(EXC_MORE)](tag)
    h += kind
    if h % 5 == 0:
        ex.__cause__ = ValueError("cause")
    elif h % 5 == 1:
        ex.__context__ = KeyError("context")
    return ex


class Obj:
    """Unique opaque value."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Obj({self.n})"


class AlwaysEq:
    """Equal to everything: exposes == comparisons against sentinels."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = None

    def __repr__(self):
        return "AlwaysEq"


class NoBool:
    """Raises when its truth value is taken."""

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        raise AssertionError("truth value of a stream element was used")

    def __repr__(self):
        return f"NoBool({self.n})"


class NoStr:
    """Cannot be converted to a string (as unbound proxies cannot)."""

    def __str__(self):
        raise AssertionError("a stream element was converted to a string")

    def __repr__(self):
        return "NoStr"


class NoLen:
    def __len__(self):
        return 0

    def __repr__(self):
        return "NoLen"


class Near:
    """Equality that is not transitive: equal when at most one apart."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Near) and abs(self.n - o.n) <= 1

    __hash__ = None

    def __repr__(self):
        return f"Near({self.n})"


class OddEq:
    """== gives something that is not a bool."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return [self.n] if isinstance(o, OddEq) and o.n == self.n else []

    __hash__ = None

    def __repr__(self):
        return f"OddEq({self.n})"


_EX = ValueError("a value, not an error")
_ONC, _ONE, _ONN = OnCompleted(), OnError(ValueError("v")), OnNext(7)
_STOP = StopAsyncIteration()

class Awaits:
    """Can be awaited, which nothing but the user should do."""

    def __await__(self):
        raise AssertionError("a stream element was awaited")

    def __repr__(self):
        return "Awaits"


class Calls:
    """Can be called, which nothing but the user should do."""

    def __call__(self, *args):
        raise AssertionError("a stream element was called")

    def __repr__(self):
        return "Calls"


class Stream(AsyncObservable):
    """An observable that is only passed along."""

    async def subscribe_async(self, send=None, throw=None, close=None):
        raise AssertionError("a stream element was subscribed to")

    def __repr__(self):
        return "Stream"


class Sink(AsyncObserver):
    async def asend(self, value):
        raise AssertionError("a stream element was used as an observer")

    async def athrow(self, error):
        raise AssertionError("a stream element was used as an observer")

    async def aclose(self):
        raise AssertionError("a stream element was used as an observer")

    def __repr__(self):
        return "Sink"


# values a stream may legally carry
POOL = [
    1, 2, 3, 4, 5, 6, 7,
    None, 0, False, True, "", "a", (), (1, 2), (None, None), 0.0, -1, float("inf"),
    _EX, Nothing, Some(None), Some(3), _ONC, _ONE, _ONN, _STOP, ValueError, NotImplemented, Ellipsis,
    Obj(1), Obj(2), NoBool(1), NoBool(2), NoLen(), [], {}, b"",
    Near(0), Near(1), Near(2), 1.0, -0.0, float("nan"), OddEq(1), OddEq(1), OddEq(2), -2,
    Awaits(), Calls(), Stream(), Sink(), range(3), 10**30, frozenset(), set, Exception, StopIteration(), KeyboardInterrupt, slice(1), NoStr(),
]
HASHY = len(POOL)


class Empty(list):
    """Falsy, equal to any other empty one, unhashable."""


FRESH = [lambda i: object(), lambda i: Obj(i), lambda i: NoBool(i), lambda i: NoLen(), lambda i: AlwaysEq(), lambda i: [], lambda i: {}, lambda i: [None],
         lambda i: OnNext(i), lambda i: OnNext(None), lambda i: OnCompleted(), lambda i: OnError(ValueError(i)), lambda i: ValueError(i), lambda i: StopAsyncIteration(),
         lambda i: StopIteration(), lambda i: ObjectDisposedException(), lambda i: Awaits(), lambda i: Calls(), lambda i: Stream(), lambda i: Sink(),
         lambda i: Some(i), lambda i: Some(None), lambda i: set(), lambda i: Empty(), lambda i: bytearray(), lambda i: 10**40 + i, lambda i: Near(i), lambda i: OddEq(1),
         lambda i: type("T", (), {}), lambda i: (lambda: i), lambda i: NoStr(), lambda i: asyncio.CancelledError()]


def fresh(vk, i):
    """The i-th value of an execution: a new object (so it is known by identity) of some kind; None at one place."""
    if vk is None:
        return object()
    if i == vk % 5:
        return None
    return FRESH[zlib.crc32(f"{vk}/{i}".encode()) % len(FRESH)](i)


def val(code):
    return POOL[code] if isinstance(code, int) else code


def same(a, b):
    """Identity or structural sameness without ever using the truth value of an element."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) in (tuple, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) in (int, float, str, bytes, bool):
        return a == b
    return False


def sames(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def count_same(x, xs):
    return sum(1 for y in xs if same(x, y))


def show(x, n=60):
    try:
        s = repr(x)
    except Exception:
        s = f"<{type(x).__name__}>"
    return s if len(s) <= n else s[: n - 3] + "..."


class Case:
    """Shared state of one execution: the event log and the violations found online."""

    def __init__(self):
        self.seq = 0
        self.log = []
        self.bad = []

    def ev(self, *what):
        if core.OVER:
            return None
        self.seq += 1
        loop = core.clock.current
        self.log.append((self.seq, None if loop is None else loop.time() - core.T0) + what)
        return self.seq

    def fail(self, msg):
        if len(self.bad) < 5 and not core.OVER:
            self.bad.append(msg)

    def now(self):
        loop = core.clock.current
        return None if loop is None else loop.time() - core.T0


async def pause(spec):
    """spec: None | ["y", n] yields | ["s", dt] virtual sleep."""
    if not spec:
        return
    if spec[0] == "y":
        for _ in range(spec[1]):
            await asyncio.sleep(0)
    else:
        await asyncio.sleep(spec[1])


class Rec(AsyncObserver):
    """Recording observer with an online grammar and overlap monitor.

    events: [kind, payload, t_enter, seq_enter, t_exit, seq_exit], kind in N/E/C.
    beh: {"lat": [pause...], "tlat": pause, "raise": {k: kind}, "traise": bool, "dispose": k,
          "ndispose": times}
    """

    def __init__(self, case, name="o", beh=None, grammar=True, overlap=True):
        self.case = case
        self.name = name
        self.beh = beh or {}
        self.events = []
        self.grammar = grammar
        self.overlap = overlap
        self.active = 0
        self.ended = False
        self.raised = []  # exceptions this observer raised
        self.sub = None  # set by the harness for dispose-in-handler
        self.disposed_seq = None
        self.sub_ready = None
        self.nsend = 0
        self.on_event = None
        self.cut = False
        self.dis_start = None

    async def asend(self, value):
        await self._handle("N", value)

    async def athrow(self, error):
        await self._handle("E", error)

    async def aclose(self):
        await self._handle("C", None)

    async def _handle(self, kind, payload):
        c = self.case
        if core.OVER:
            return
        s = c.ev(self.name, kind, payload)
        e = [kind, payload, c.now(), s, None, None]
        if self.grammar and self.ended:
            c.fail(f"{self.name}: {kind} {show(payload)} after the terminal; got {self.brief()}")
        if self.overlap and self.active:
            c.fail(f"{self.name}: {kind} {show(payload)} entered while an earlier call is running; got {self.brief()}")
        self.events.append(e)
        if kind != "N":
            self.ended = True
        self.active += 1
        try:
            if self.on_event is not None:
                self.on_event(e)
            b = self.beh
            if kind == "N":
                k = self.nsend
                self.nsend += 1
                lat = b.get("lat")
                if lat:
                    await pause(lat[k % len(lat)])
                r = b.get("raise")
                if r and (k in r or str(k) in r):
                    ex = boom(f"obs{k}", r.get(k, r.get(str(k))))
                    self.raised.append(ex)
                    raise ex
                if b.get("dispose") == k:
                    await self.dispose_self()
                    await self.carry_on()
            else:
                await pause(b.get("tlat"))
                if b.get("dispose") == "T":
                    await self.dispose_self()
                    await self.carry_on()
                if b.get("traise"):
                    ex = boom("obs-terminal")
                    self.raised.append(ex)
                    raise ex
        finally:
            self.active -= 1
            if not core.OVER:
                e[4] = c.now()
                e[5] = c.ev(self.name, "exit")

    async def carry_on(self):
        """The handler that disposed its own subscription goes on: it must not be cut off."""
        if self.disposed_seq is not None and self.beh.get("after"):
            a = self.beh["after"]
            self.cut = self.case.now() + (a[1] if a[0] == "s" else 0) + 1e-9  # due to end by then
            await pause(self.beh["after"])
            self.cut = False

    async def dispose_self(self):
        if self.sub is None:
            return
        self.dis_start = self.case.ev(self.name, "dispose")
        for _ in range(self.beh.get("ndispose", 1)):
            await self.sub.dispose_async()
        self.disposed_seq = self.case.ev(self.name, "disposed")

    # views
    def values(self):
        return [e[1] for e in self.events if e[0] == "N"]

    def terminals(self):
        return [e for e in self.events if e[0] != "N"]

    def kinds(self):
        return "".join(e[0] for e in self.events)

    def brief(self):
        return "[" + ", ".join(
            (show(e[1], 24) if e[0] == "N" else (f"E:{show(e[1], 24)}" if e[0] == "E" else "C")) + f"@{e[2]}"
            for e in self.events[-14:]
        ) + "]"

    def trace(self):
        return tuple((e[0], show(e[1]), e[2]) for e in self.events)

    async def subscribe(self, source, how=0):
        """Subscribe; how=0 observer object, 1 three functions, 2 the pipeable subscribe_async."""
        if how == 2:
            from aioreactive import subscribe_async
            from expression import pipe

            self.sub = await pipe(source, subscribe_async(self))
        elif how:
            self.sub = await source.subscribe_async(self.asend, self.athrow, self.aclose)
        else:
            self.sub = await source.subscribe_async(self)
        return self.sub


class ProbeSub:
    __slots__ = ("probe", "idx", "obv", "t_sub", "seq_sub", "t_ret", "disposed", "seq_disposed", "finished",
                 "seq_finished", "task", "ndispose", "failed", "seq_ret")

    def __init__(self, probe, idx, obv):
        self.probe = probe
        self.idx = idx
        self.obv = obv
        self.disposed = None
        self.seq_disposed = None
        self.finished = None
        self.seq_finished = None
        self.task = None
        self.t_ret = None
        self.seq_ret = None
        self.ndispose = 0
        self.failed = None

    @property
    def live(self):
        return self.disposed is None and self.finished is None


class Probe(AsyncObservable):
    """Instrumented source.

    spec: {"ev": [[dt, kind, payload], ...]   dt: time since subscription (cold) / since start (hot)
           "hot": bool, "sync": m (first m events are emitted inside subscribe_async),
           "late": subraise only after the first m events, "subdelay": pause, "postdelay": pause (after the first m events), "subraise": exckind, "disdelay": pause,
           "rude": bool (keeps emitting after dispose and after its own terminal),
           "spawn": bool (emissions are independent tasks), "per": [spec,...] per-subscription scripts}
    Issue log: self.issues: [seq, t, kind, payload, subidx].
    """

    def __init__(self, case, spec, name):
        self.case = case
        self.spec = spec
        self.name = name
        self.subs = []
        self.issues = []
        self.raised = []  # exceptions that came back to this producer
        self.max_live = 0
        self.children = set()
        self.payload = spec.get("payload")

    def __len__(self):  # a source may well have a length, even of zero
        return zlib.crc32(self.name.encode()) % 2

    # -- subscription
    async def subscribe_async(self, send=None, throw=None, close=None):
        from aioreactive import AsyncAnonymousObserver

        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        c = self.case
        s = ProbeSub(self, len(self.subs), obv)
        s.t_sub = c.now()
        s.seq_sub = c.ev(self.name, "subscribe", s.idx)
        sp = self.spec
        per = sp.get("per")
        if per:
            sp = {**sp, **per[min(s.idx, len(per) - 1)]}
        self.subs.append(s)
        self.case.__dict__.setdefault("psubs", []).append(s)
        try:
            return await self.subscribe_to(s, sp)
        except asyncio.CancelledError as ex:
            s.finished, s.seq_finished, s.failed = c.now(), c.ev(self.name, "subscribe cancelled", s.idx), ex
            raise

    async def subscribe_to(self, s, sp):
        c = self.case

        def subraise():
            s.finished = c.now()
            s.seq_finished = c.ev(self.name, "subraise", s.idx)
            ex = boom(f"{self.name}:subscribe", sp["subraise"])
            s.failed = ex
            raise ex

        if sp.get("subdelay"):
            await pause(sp["subdelay"])
        if sp.get("subraise") is not None and not sp.get("late"):
            subraise()
        ev = sp.get("ev", [])
        m = sp.get("sync", 0)
        for e in ev[:m]:
            if sp.get("rude") or s.disposed is None and s.finished is None:
                await self.emit(s, e)
        if sp.get("postdelay"):
            await pause(sp["postdelay"])
        if sp.get("subraise") is not None and sp.get("late"):
            subraise()
        rest = ev[m:]
        if rest and not sp.get("hot"):
            s.task = asyncio.get_running_loop().create_task(self.play(s, rest, sp))
        s.t_ret = c.now()
        s.seq_ret = c.ev(self.name, "subscribed", s.idx)

        async def dispose():
            s.ndispose += 1
            if s.disposed is None:
                s.disposed = c.now()
                s.seq_disposed = c.ev(self.name, "dispose", s.idx)
                if s.task is not None and not sp.get("rude") and not sp.get("lazy"):
                    # do not cancel: an emission in progress is a call in progress
                    pass
            if sp.get("disdelay"):
                await pause(sp["disdelay"])

        return AsyncDisposable.create(dispose) if not sp.get("multidispose") else _Disp(dispose)

    async def play(self, s, events, sp):
        loop = asyncio.get_running_loop()
        t0 = core.T0 + s.t_sub
        for e in events:
            dt = t0 + e[0] - loop.time()
            if dt > 0:
                await asyncio.sleep(dt)
            elif e[0] < 0:
                await pause(["y", -e[0]])
            if s.disposed is not None and not sp.get("rude"):
                return
            if s.finished is not None and not sp.get("rude"):
                return
            if sp.get("spawn"):
                t = loop.create_task(self.emit(s, e))
                self.children.add(t)
                t.add_done_callback(self.children.discard)
            else:
                await self.emit(s, e)

    async def emit(self, s, e):
        kind, payload = e[1], e[2] if len(e) > 2 else None
        if self.payload is not None:
            payload = self.payload(kind, payload)
        c = self.case
        if core.OVER:
            return
        q = c.ev(self.name, "issue", kind, s.idx)
        rec = [q, c.now(), kind, payload, s.idx, None]
        self.issues.append(rec)
        if kind != "N" and s.finished is None:
            s.finished = c.now()
            s.seq_finished = q
        try:
            if kind == "N":
                await s.obv.asend(payload)
            elif kind == "E":
                await s.obv.athrow(payload)
            else:
                await s.obv.aclose()
        except Exception as ex:  # the producer sees the exception
            self.raised.append(ex)
            c.ev(self.name, "raised-to-producer", ex)
            if s.finished is None:
                s.finished = c.now()  # this producer stops after a failed send
                s.seq_finished = c.ev(self.name, "stopped", s.idx)
        finally:
            rec[5] = c.ev(self.name, "issued", s.idx)

    async def start_hot(self):
        """Run the script of a hot source against whoever is subscribed at each event."""
        loop = asyncio.get_running_loop()
        t0 = core.T0
        for e in self.spec.get("ev", []):
            dt = t0 + e[0] - loop.time()
            if dt > 0:
                await asyncio.sleep(dt)
            for s in list(self.subs):
                if s.live or self.spec.get("rude"):
                    if self.spec.get("spawn"):
                        t = loop.create_task(self.emit(s, e))
                        self.children.add(t)
                        t.add_done_callback(self.children.discard)
                    else:
                        await self.emit(s, e)

    def live(self):
        return [s for s in self.subs if s.live]


class _Disp(AsyncDisposable):
    def __init__(self, fn):
        self.fn = fn

    async def dispose_async(self):
        await self.fn()


def spawn(coro):
    t = asyncio.get_running_loop().create_task(coro)
    return t


class Tap(AsyncObservable):
    """Records what passes between a real source and its subscriber (issues, subscribe, dispose)."""

    def __init__(self, case, source, name):
        self.case, self.source, self.name = case, source, name
        self.subs, self.issues, self.raised = [], [], []

    async def subscribe_async(self, send=None, throw=None, close=None):
        from aioreactive import AsyncAnonymousObserver

        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        c = self.case
        s = ProbeSub(self, len(self.subs), obv)
        s.t_sub = c.now()
        s.seq_sub = c.ev(self.name, "subscribe", s.idx)
        self.subs.append(s)
        c.__dict__.setdefault("psubs", []).append(s)
        tap = self

        class O(AsyncObserver):
            async def asend(self, v):
                await fwd("N", v)

            async def athrow(self, e):
                await fwd("E", e)

            async def aclose(self):
                await fwd("C", None)

        async def fwd(kind, payload):
            if core.OVER:
                return
            q = c.ev(tap.name, "issue", kind, s.idx)
            rec = [q, c.now(), kind, payload, s.idx, None]
            tap.issues.append(rec)
            if kind != "N" and s.finished is None:
                s.finished, s.seq_finished = c.now(), q
            try:
                if kind == "N":
                    await obv.asend(payload)
                elif kind == "E":
                    await obv.athrow(payload)
                else:
                    await obv.aclose()
            except Exception as ex:
                tap.raised.append(ex)
                raise
            finally:
                rec[5] = c.ev(tap.name, "issued", s.idx)

        try:
            d = await self.source.subscribe_async(O())
        except (Exception, asyncio.CancelledError) as ex:
            s.finished, s.seq_finished, s.failed = c.now(), c.ev(self.name, "subraise", s.idx), ex
            raise
        s.t_ret = c.now()
        s.seq_ret = c.ev(self.name, "subscribed", s.idx)

        async def dispose():
            if s.disposed is None:
                s.disposed, s.seq_disposed = c.now(), c.ev(self.name, "dispose", s.idx)
            await d.dispose_async()

        return AsyncDisposable.create(dispose)

    def live(self):
        return [s for s in self.subs if s.live]


class Stage(AsyncObservable):
    """Watches the boundary between two stages of a pipeline: grammar and overlap of what passes."""

    def __init__(self, case, source, name):
        self.case, self.source, self.name = case, source, name
        self.n = 0
        case.__dict__.setdefault("stages", []).append(self)

    async def subscribe_async(self, send=None, throw=None, close=None):
        from aioreactive import AsyncAnonymousObserver

        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        return await self.source.subscribe_async(_StageObs(self, obv))


class _StageObs(AsyncObserver):
    def __init__(self, stage, obv):
        self.stage, self.obv, self.active, self.ended, self.hist = stage, obv, 0, None, []

    async def _fwd(self, kind, payload):
        if core.OVER:
            return
        st = self.stage
        c = st.case
        st.n += 1
        self.hist.append((kind, show(payload, 20), c.now()))
        if self.ended is not None:
            c.__dict__.setdefault("gbad", []).append(f"{st.name}: {kind} {show(payload)} after the terminal: {self.hist[-8:]}")
        if self.active:
            c.__dict__.setdefault("obad", []).append(f"{st.name}: {kind} {show(payload)} entered while an earlier call is running: {self.hist[-8:]}")
        if kind != "N":
            self.ended = kind
        self.active += 1
        try:
            if kind == "N":
                await self.obv.asend(payload)
            elif kind == "E":
                await self.obv.athrow(payload)
            else:
                await self.obv.aclose()
        finally:
            self.active -= 1

    async def asend(self, v):
        await self._fwd("N", v)

    async def athrow(self, e):
        await self._fwd("E", e)

    async def aclose(self):
        await self._fwd("C", None)
