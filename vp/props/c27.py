"""C27: an ended subscription leaves nothing behind, a live one keeps only what it needs."""
import asyncio
import gc
import sys
import warnings
from collections import Counter, deque

from .. import core
from ..core import run_case
from ..kit import show
from ..runner import Out
import aioreactive as rx
import aioreactive.combine as m_combine
import aioreactive.create as m_create
import aioreactive.filtering as m_filtering
import aioreactive.leave as m_leave
import aioreactive.timeshift as m_time
import aioreactive.transform as m_transform
from aioreactive import AsyncAnonymousObserver, AsyncAwaitableObserver, AsyncIteratorObserver, AsyncObservable, AsyncSingleSubject, AsyncSubject
from expression import Nothing, Some, pipe
from expression.system import AsyncDisposable

ID = "C27"
RULE = ("the same subscription made and ended again and again (disposed at any moment, completed, failed, failing or cancelled subscribe, run(), async "
        "iteration left, reactivex) on pipelines of every operator and source, calls on a live subject or iteration given up again and again, and long streams through one live subscription; a leak monitor "
        "counts the objects the garbage collector knows (after a full collection, at rest), the slots in use in containers, the tasks of the loop, the call depth at each "
        "notification and the steps (lines, jumps, calls) of the library's own code, and demands that they do not grow; a suspicion is confirmed on a longer run; distinct: pipeline, script and counts")
BUDGET = {"quick": (16000, 240), "thorough": (40000, 600)}
REQUIRED = {"cycles": 50000, "measured": 20000, "ended:dispose": 800, "ended:C": 400, "ended:E": 300, "ended:run": 200, "ended:iter": 200, "ended:rx": 200, "ended:cancel": 200,
            "ended:fail": 100, "streamed": 100000, "inner": 500, "raised": 200, "worked": 1000000, "mode:giveup": 400}
KEEP = ("ops", "acts")

warnings.simplefilter("ignore", RuntimeWarning)  # workflows that are disposed before they start


async def aid(x, *_):
    return x


async def apred(x, *_):
    return True


async def alate(x, *_):
    await asyncio.sleep(0.25)
    return x


class Multi:
    """Values of a given kind each time it is iterated."""

    def __init__(self, n, bad=False):
        self.n, self.bad = n, bad

    def __iter__(self):
        for i in range(self.n):
            yield [i]
        if self.bad:
            raise ValueError("iter")

    async def __aiter__(self):
        for i in range(self.n):
            await asyncio.sleep(0.25)
            yield [i]
        if self.bad:
            raise ValueError("aiter")


class Fixed(AsyncObservable):
    """Source outside the library that keeps nothing. kind: how its subscribe call behaves."""

    def __init__(self, kind):
        self.kind = kind

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if not callable(send) else AsyncAnonymousObserver(send, throw, close)
        k = self.kind
        if k == "slow":
            await asyncio.sleep(0.5)
        elif k == "sync":
            await obv.asend([0])
            await obv.asend([1])
        elif k == "syncC":
            await obv.asend([0])
            await obv.aclose()
        elif k == "syncE":
            await obv.asend([0])
            await obv.athrow(ValueError())
        elif k == "fail":
            raise ValueError("subscribe")
        elif k == "slowfail":
            await asyncio.sleep(0.5)
            raise ValueError("subscribe")
        return AsyncDisposable.empty()


SOURCES = {
    "seq": lambda: m_create.of_seq(Multi(3)),
    "seqbad": lambda: rx.from_iterable(Multi(2, True)),
    "aiter": lambda: rx.from_async_iterable(Multi(3)),
    "aiterbad": lambda: rx.from_async_iterable(Multi(2, True)),
    "single": lambda: rx.single([1]),
    "empty": lambda: rx.empty(),
    "never": lambda: rx.never(),
    "fail": lambda: rx.defer(lambda: m_create.fail(ValueError("fail"))),
    "interval": lambda: rx.interval(0.25, 0.5),
    "timer": lambda: rx.timer(0.75),
    "defer": lambda: rx.defer(lambda: rx.from_iterable(Multi(2))),
    "deferbad": lambda: rx.defer(lambda: 1 / 0),
    "async": lambda: rx.defer(lambda: rx.from_async(alate([1]))),
    "create": lambda: m_create.create(lambda obv: Fixed("syncC").subscribe_async(obv)),
    **{k: lambda k=k: Fixed(k) for k in ("slow", "sync", "syncC", "syncE", "slowfail")},
    "refuse": lambda: Fixed("fail"),
}
INNER = {
    "single": lambda: rx.single([1]), "empty": lambda: rx.empty(), "seq": lambda: rx.from_iterable(Multi(3)), "timer": lambda: rx.timer(0.25),
    "aiter": lambda: rx.from_async_iterable(Multi(2)), "syncC": lambda: Fixed("syncC"),
    "delay": lambda: pipe(rx.from_iterable(Multi(2)), rx.delay(0.25)),
    "debounce": lambda: pipe(rx.single([1]), rx.debounce(0.25)),
    "take": lambda: pipe(rx.interval(0, 0.25), rx.take(2)),
    "take0": lambda: pipe(rx.never(), rx.take(0)),
    "cl": lambda: pipe(rx.single([1]), rx.combine_latest(rx.timer(0.25))),
    "wlf": lambda: pipe(rx.timer(0.25), rx.with_latest_from(rx.never())),
    "until": lambda: pipe(rx.never(), rx.take_until(rx.timer(0.25))),
    "duc": lambda: pipe(rx.from_iterable([1, 1, 2]), rx.distinct_until_changed),
    "merge": lambda: pipe(rx.single([1]), rx.merge(rx.timer(0.25))),
    "switch": lambda: pipe(rx.from_iterable([1, 2]), m_transform.flat_map_latest(lambda x: rx.timer(0.25))),
    "retry": lambda: pipe(m_create.fail(ValueError()), rx.retry(2), rx.catch(lambda e: rx.single([1]))),
    "catch": lambda: pipe(rx.from_iterable(Multi(1, True)), rx.catch(lambda e: rx.timer(0.25))),
    "zip": lambda: pipe(rx.from_iterable(Multi(3)), m_combine.zip_seq([1, 2])),
    "last": lambda: pipe(rx.from_iterable(Multi(3)), rx.take_last(1)),
    "reduce": lambda: pipe(rx.from_iterable(Multi(3)), rx.reduce(lambda a, x: x, 0)),
    "sample": lambda: pipe(rx.timer(0.75), m_time.sample(0.5)),
}
OTHERS = {"never": lambda: rx.never(), "timer": lambda: rx.timer(0.5), "interval": lambda: rx.interval(0.25, 0.25), "single": lambda: rx.single([1]),
          "sync": lambda: Fixed("sync"), "slow": lambda: Fixed("slow")}
A = {
    "map": lambda a: rx.map(lambda x: x), "map_async": lambda a: rx.map_async(aid), "map_late": lambda a: rx.map_async(alate),
    "mapi": lambda a: m_transform.mapi(lambda x, i: x), "mapi_async": lambda a: m_transform.mapi_async(aid),
    "starmap": lambda a: compose2(rx.map(lambda x: (x, 1)), rx.starmap(lambda x, _: x)),
    "filter": lambda a: rx.filter(lambda x: True), "filter_async": lambda a: rx.filter_async(apred), "filteri": lambda a: m_filtering.filteri(lambda x, i: i % 2),
    "starfilter": lambda a: compose2(rx.map(lambda x: (x, 1)), rx.starfilter(lambda x, _: True)),
    "choose": lambda a: rx.choose(lambda x: Some(x)), "choose_none": lambda a: rx.choose(lambda x: Nothing), "choose_async": lambda a: rx.choose_async(lambda x: aid(Some(x))),
    "scan": lambda a: rx.scan(lambda s, x: x, 0), "scan_async": lambda a: rx.scan_async(lambda s, x: aid(x), 0), "reduce": lambda a: rx.reduce(lambda s, x: x, 0),
    "skip": lambda a: rx.skip(a["n"]), "skip_last": lambda a: rx.skip_last(a["n"]), "take": lambda a: rx.take(a["n"]), "take_much": lambda a: rx.take(10 ** 9),
    "take_last": lambda a: rx.take_last(a["n"]), "slice": lambda a: m_filtering.slice(a["n"], None, 2), "slice_last": lambda a: m_filtering.slice(None, -a["n"] - 1, 1),
    "duc": lambda a: rx.distinct_until_changed, "delay": lambda a: rx.delay(0.25 * a["n"]), "debounce": lambda a: rx.debounce(0.25 * a["n"]), "sample": lambda a: m_time.sample(0.5),
    "merge": lambda a: rx.merge(OTHERS[a["o"]]()), "concat": lambda a: rx.concat(rx.from_iterable(Multi(1))),
    "combine_latest": lambda a: rx.combine_latest(OTHERS[a["o"]]()), "with_latest_from": lambda a: rx.with_latest_from(OTHERS[a["o"]]()),
    "take_until": lambda a: rx.take_until(OTHERS[a["o"]]()), "zip_seq": lambda a: m_combine.zip_seq(range(10 ** 9)), "zip_short": lambda a: m_combine.zip_seq([1, 2]),
    "catch": lambda a: rx.catch(lambda e: INNER[a["i"]]()), "retry": lambda a: rx.retry(a["n"]),
    "flat_map": lambda a: rx.flat_map(lambda x: INNER[a["i"]]()), "flat_map_async": lambda a: rx.flat_map_async(lambda x: aid(INNER[a["i"]]())),
    "flat_mapi": lambda a: m_transform.flat_mapi(lambda x, i: INNER[a["i"]]()), "concat_map": lambda a: m_transform.concat_map(lambda x: INNER[a["i"]]()),
    "merge_inner": lambda a: compose2(rx.map(lambda x: INNER[a["i"]]()), rx.merge_inner(a["n"])),
    "switch": lambda a: m_transform.flat_map_latest(lambda x: INNER[a["i"]]()), "switch_async": lambda a: rx.flat_map_latest_async(lambda x: aid(INNER[a["i"]]())),
    "switch_never": lambda a: m_transform.flat_map_latest(lambda x: rx.never()),
    "chained": lambda a: rx.as_chained, "hidden": lambda a: rx.as_async_observable, "iterable": lambda a: rx.to_async_iterable,
}
WITHI = ("catch", "flat_map", "flat_map_async", "flat_mapi", "concat_map", "merge_inner", "switch", "switch_async")
ENDS = ("retry",)


def compose2(f, g):
    return lambda s: g(f(s))


def op(rng, k=None):
    return [k or rng.choice(list(A)), {"n": rng.choice([0, 1, 1, 2, 3]), "o": rng.choice(list(OTHERS)), "i": rng.choice(list(INNER))}]


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def script(rng):
    acts = []
    for _ in range(rng.choice([0, 1, 2, 3, 3, 5])):
        acts.append(rng.choice(["v", "v", "v", "y", "s"]))
    acts.append(rng.choice(["C", "C", "E", "d", "d", "d", "dd", "-"]))
    if rng.random() < 0.2:
        acts.append(rng.choice(["v", "C", "E", "d"]))
    return acts


def fixed(tier):
    acts = (["d"], ["v", "v", "d"], ["v", "s", "v", "d"], ["C"], ["v", "v", "C"], ["v", "s", "E"], ["E"], ["v", "y", "C", "d"], ["s", "s", "d"])
    for k in A:
        for i, a in enumerate(acts):
            n = 1 + i % 3
            o, inn = list(OTHERS), list(INNER)
            for j in range(len(INNER) // 3 if k in WITHI else 2):
                yield {"mode": "subs", "src": "own", "ops": [[k, {"n": n, "o": o[(i + 3 * j) % len(o)], "i": inn[(i + 7 * j) % len(inn)]}]], "acts": a, "how": "sub", "beh": 0}
    for s in SOURCES:
        for how in ("sub", "cancel", "run", "iter", "rx"):
            for a in (["d"], ["y", "d"], ["s", "d"], ["-"], ["s", "s", "s", "d"]):
                for k in ([], ["map"], ["take"], ["delay"]):
                    yield {"mode": "subs", "src": s, "ops": [[x, {"n": 1}] for x in k], "acts": a, "how": how, "beh": 0}
    for k in A:
        for j in range(len(INNER) if k in WITHI else 2):
            yield {"mode": "stream", "src": "own", "ops": [[k, {"n": 2, "o": "never" if j else "interval", "i": list(INNER)[j]}]], "gap": ["s", "y"][j % 2], "beh": 0}


def gen(rng, tier):
    ops = [op(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    if rng.random() < 0.3:
        c = {"mode": "stream", "src": rng.choice(["own", "own", "own", "interval"]), "ops": ops, "gap": rng.choice(["s", "s", "s", "y", "burst"]), "beh": rng.choice([0, 0, 1, 2])}
        if any(k in WITHI or k == "map_late" for k, _ in ops) or c["beh"] == 2:
            # nothing that ticks for ever and faster than it can be handled: what waits then is kept by contract
            c["src"] = "own"
            for _, a in ops:
                a["o"] = {"interval": "timer"}.get(a["o"], a["o"])
        return c
    if rng.random() < 0.08:
        for _, a in ops:
            a["o"] = {"interval": "timer"}.get(a["o"], a["o"])
        ops = [[rng.choice(["map", "map_late", "take_much", "duc", "merge", "scan_async", "flat_map", "zip_seq"]), a] for _, a in ops[:1]]
        return {"mode": "giveup", "src": rng.choice(["single", "single_slow", "iter", "pull", "multi"]), "n": rng.choice([1, 1, 2, 3]), "acts": [rng.choice(["y", "y", "s"]) for _ in range(rng.choice([0, 1, 2, 3, 5]))],
                "ops": ops, "beh": rng.choice([0, 1, 2, 2])}
    how = rng.choice(["sub", "sub", "sub", "sub", "cancel", "run", "iter", "rx"])
    src = rng.choice(["own", "own", "own", "shared", "shared", *SOURCES])
    if how == "cancel" and rng.random() < 0.7:
        src = rng.choice(["slow", "slow", "slowfail"])
    return {"mode": "subs", "src": src, "ops": ops, "acts": script(rng), "once": rng.random() < 0.4, "how": how, "beh": rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 5])}


class Ob:
    """Observer that remembers nothing but whether it has ended."""

    def __init__(self, beh, st):
        self.beh, self.st = beh, st
        self.n = 0
        self.ended = False
        self.sub = None

    async def asend(self, x):
        self.n += 1
        st = self.st
        st["seen"] += 1
        d = depth()
        if d > st["depth"][st["phase"]]:
            st["depth"][st["phase"]] = d
        b = self.beh
        if b == 1:
            await asyncio.sleep(0)
        elif b == 2:
            await asyncio.sleep(0.125)
        elif b == 3 and self.n == 2 or b == 5 and self.n == 1:
            st["raised"] += 1
            raise ValueError("observer")
        elif b == 4 and self.sub is not None:
            await self.sub.dispose_async()

    async def athrow(self, ex):
        self.ended = True
        self.st["E"] += 1

    async def aclose(self):
        self.ended = True
        self.st["C"] += 1


def build(c, src):
    for k, a in c["ops"]:
        src = A[k](a)(src)
    return src


REST = 40.0


async def wait_for_any(t, secs):
    await asyncio.wait([t], timeout=secs)


async def cycle(c, st, shared, once):
    """One subscription from beginning to end."""
    subj = shared or AsyncSubject()
    k = c["src"]
    o = once or build(c, subj if k in ("own", "shared") else SOURCES[k]())
    how = c["how"]
    ob = Ob(c["beh"], st)
    obv = AsyncAnonymousObserver(ob.asend, ob.athrow, ob.aclose)
    acts = [a for a in c["acts"] if not (shared is not None and a in "CE")]

    async def drive(dispose):
        for a in acts:
            if a in "vCE":
                try:
                    await asyncio.wait_for(subj.asend([1]) if a == "v" else subj.aclose() if a == "C" else subj.athrow(ValueError("source")), 1)
                except Exception:  # an observer that raises, or nobody picks it up
                    pass
            elif a == "y":
                await asyncio.sleep(0)
            elif a == "s":
                await asyncio.sleep(0.375)
            elif a == "d":
                await dispose()
            elif a == "dd":
                await asyncio.gather(dispose(), dispose())

    if how in ("sub", "cancel"):
        t = asyncio.ensure_future(o.subscribe_async(obv))
        if how == "cancel":
            for a in acts[:1]:
                await asyncio.sleep({"y": 0, "s": 0.375}.get(a, 0.001))
            if t.cancel():
                st["cancelled"] += 1
        await asyncio.wait([t])
        if t.cancelled() or t.exception() is not None:
            st["fail"] += not t.cancelled()
        else:
            ob.sub = sub = t.result()
            await drive(sub.dispose_async)
            if not ob.ended or "d" in c["acts"]:
                st["dispose"] += 1
                await sub.dispose_async()
        ob.sub = None
    elif how == "run":
        res = AsyncAwaitableObserver(ob.asend, ob.athrow, ob.aclose)
        t = asyncio.ensure_future(rx.run(o, res, 1.5))
        await asyncio.sleep(0)

        async def stop():
            t.cancel()

        await drive(stop)
        await asyncio.wait([t])
        t.cancelled() or t.exception()
        res.cancelled() or res.done() and res.exception()
        st["run"] += 1
    elif how == "iter":
        it = AsyncIteratorObserver(o)

        async def consume():
            i = 0
            async for _ in it:
                i += 1
                if i == 2:
                    break

        t = asyncio.ensure_future(consume())
        await asyncio.sleep(0)

        async def stop():
            t.cancel()

        await drive(stop)
        await asyncio.wait([t], timeout=2)
        t.cancel()
        await asyncio.wait([t])
        t.cancelled() or t.exception()
        await it.dispose_async()
        st["iter"] += 1
    else:
        d = m_leave.to_observable(o).subscribe(lambda v: None, lambda e: None, lambda: None)
        await asyncio.sleep(0)

        async def stop():
            d.dispose()

        await drive(stop)
        await asyncio.sleep(1)
        d.dispose()
        st["rx"] += 1


class Work:
    """Counts the steps (lines, jumps, calls) of the library's own Python code."""
    n = 0
    on = False

    @classmethod
    def start(cls):
        mon = sys.monitoring
        if not cls.on:
            cls.on = True
            mon.use_tool_id(4, "vp-work")
            ev = mon.events.LINE | mon.events.JUMP | mon.events.PY_START
            seen = set()

            def watch(code):
                if code not in seen:
                    seen.add(code)
                    mon.set_local_events(4, code, ev)
                    for k in code.co_consts:
                        if hasattr(k, "co_code"):
                            watch(k)

            def walk(o, name):
                for f in vars(o).values():
                    f = getattr(f, "__func__", f)
                    f = getattr(f, "fget", None) or f
                    while hasattr(f, "__wrapped__"):
                        f = f.__wrapped__
                    if getattr(f, "__module__", None) == name:
                        if hasattr(f, "__code__"):
                            watch(f.__code__)
                        elif isinstance(f, type) and f is not o:
                            walk(f, name)

            for name, m in list(sys.modules.items()):
                if (name + ".").startswith("aioreactive."):
                    walk(m, name)

        def step(code, *_):
            cls.n += 1

        for e in (mon.events.LINE, mon.events.JUMP, mon.events.PY_START):
            mon.register_callback(4, e, step)
        cls.n = 0

    @staticmethod
    def stop():
        for e in (sys.monitoring.events.LINE, sys.monitoring.events.JUMP, sys.monitoring.events.PY_START):
            sys.monitoring.register_callback(4, e, None)


BOXES = (list, dict, set, deque)  # what can keep numbers and strings, which the collector does not know


def globals_():
    """Containers that belong to the modules and classes of the library."""
    for name, m in list(sys.modules.items()):
        if (name + ".").startswith("aioreactive."):
            for k, v in list(vars(m).items()):
                if type(v) in BOXES and k != "__builtins__":
                    yield v
                elif isinstance(v, type) and v.__module__ == name:
                    for w in vars(v).values():
                        if type(w) in BOXES:
                            yield w
                elif hasattr(v, "__defaults__") and getattr(v, "__module__", None) == name:
                    for w in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values(), v.__dict__):
                        if type(w) in BOXES:
                            yield w


class Meter:
    """What there is after a full collection: objects known to the collector, tasks of the loop."""

    def __init__(self, st):
        self.st = st
        self.marks = []
        self.types = []
        self.work = []
        self.slots = []

    def read(self, loop, types=False):
        self.work.append(Work.n)
        core.gc.collect()
        if types:
            self.types.append(Counter(type(x).__name__ for x in gc.get_objects()))
        objs = gc.get_objects()
        # a dict of numbers is not known to the collector, only to what refers to it
        loose = {id(x): len(x) for o in objs if type(o) is not dict for x in gc.get_referents(o) if type(x) is dict and not gc.is_tracked(x)}
        self.slots.append(sum(loose.values()) + sum(len(x) for x in objs if type(x) in BOXES) + sum(len(x) for x in globals_()) - 3 * len(self.marks))
        self.marks.append((len(objs), len(asyncio.all_tasks(loop))))
        del objs, loose
        self.st["measured"] += 1


def measure(c, at):
    """Run the case, with readings after at[i] cycles or notifications."""
    st = {"seen": 0, "C": 0, "E": 0, "dispose": 0, "run": 0, "iter": 0, "rx": 0, "cancelled": 0, "fail": 0, "raised": 0, "measured": 0, "cycles": 0, "streamed": 0,
          "depth": [0] * (len(at) + 1), "phase": 0}
    m = Meter(st)
    long = len(at) > 3 or at[0] > 5 and at[-1] > 200

    async def subs():
        shared = AsyncSubject() if c["src"] == "shared" else None
        once = None
        if c.get("once") and c["src"] != "own":
            once = build(c, shared or SOURCES[c["src"]]())
        loop = asyncio.get_running_loop()
        for i in range(at[-1]):
            await cycle(c, st, shared, once)
            await asyncio.sleep(REST)
            st["cycles"] += 1
            if i + 1 in at:
                m.read(loop, long)

    async def giveup():
        """One live subject or iteration, calls on which are given up again and again."""
        loop = asyncio.get_running_loop()
        k = c["src"]
        s = AsyncSingleSubject() if k == "single" else AsyncSubject()
        it = AsyncIteratorObserver(s) if k in ("iter", "pull") else None
        ob = Ob(c["beh"], st)
        if k in ("multi", "single_slow"):
            s = AsyncSingleSubject() if k == "single_slow" else s
            await build(c, s).subscribe_async(AsyncAnonymousObserver(ob.asend, ob.athrow, ob.aclose))
        if k == "iter":
            await asyncio.wait([t0 := asyncio.ensure_future(it.__anext__())], timeout=0.25)
            t0.cancel()
            await asyncio.wait([t0])
        for i in range(at[-1]):
            ts = [asyncio.ensure_future(it.__anext__() if k == "pull" else s.asend([i])) for _ in range(c["n"])]
            for a in c["acts"]:
                await asyncio.sleep(0 if a == "y" else 0.0625)
            for t in ts:
                st["cancelled"] += t.cancel()
            await asyncio.wait(ts, timeout=REST)
            for t in ts:
                t.done() and (t.cancelled() or t.exception())
            await asyncio.sleep(REST)
            st["cycles"] += 1
            if i + 1 in at:
                m.read(loop, long)

    async def stream():
        loop = asyncio.get_running_loop()
        s = AsyncSubject()
        ob = Ob(c["beh"], st)
        o = build(c, s if c["src"] == "own" else SOURCES[c["src"]]())
        sub = await o.subscribe_async(AsyncAnonymousObserver(ob.asend, ob.athrow, ob.aclose))
        for i in range(at[-1]):
            await s.asend([i])
            st["streamed"] += 1
            if c["gap"] == "s":
                await asyncio.sleep(1)
            elif c["gap"] == "y":
                await asyncio.sleep(0)
            if i + 1 in at:
                # a whole number of periods of everything that ticks
                await asyncio.sleep(at[-1] * 20 + REST)
                m.read(loop, long)
                st["phase"] += 1
        await sub.dispose_async()

    loop = core.VLoop()
    loop.set_exception_handler(lambda _l, _c: None)  # what is reported must not be kept by the monitor
    Work.start()
    try:
        res = run_case({"subs": subs, "giveup": giveup}.get(c["mode"], stream), max_ticks=3000000, horizon=core.T0 + 1e8, loop=loop)
    finally:
        Work.stop()
    return res, st, m


frozen = False


def run(c):
    global frozen
    if not frozen:
        gc.collect()
        gc.freeze()
        frozen = True
    bad = []
    at = (3, 6, 9) if c["mode"] != "stream" else (12, 24, 36)
    res, st, m = measure(c, at)
    first = st
    sus = False
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status}): something of an ended subscription goes on")
    else:
        def grows(x, step):
            return all(b - a >= step for a, b in zip(x, x[1:]))

        def per(x):
            """What was done from one reading to the next, from the second on (the first ones take up what is set up once)."""
            return [b - a for a, b in zip([0, *x], x)]

        step = at[1] - at[0]
        what = {"subs": "subscriptions", "giveup": "rounds of calls that were given up"}.get(c["mode"], "notifications")
        sus = grows([a for a, _ in m.marks], step) or grows([b for _, b in m.marks], 1) or grows(st["depth"][: len(at)], 1) or grows(per(m.work), step) or grows(m.slots, step)
        if sus:
            # confirm on a longer run
            at = (10, 60, 110, 160) if c["mode"] != "stream" else (20, 120, 220, 320)
            res, st, m = measure(c, at)
            step = at[1] - at[0]
            if grows([a for a, _ in m.marks], step):
                more = m.types[-1] - m.types[0]
                bad.append(f"objects alive after {at} {what}: {[a for a, _ in m.marks]}; most of all {more.most_common(6)}")
            if grows(m.slots, step):
                bad.append(f"slots in use in containers after {at} {what}: {m.slots}")
            if grows([b for _, b in m.marks], step // 2):
                bad.append(f"tasks left after {at} {what}: {[b for _, b in m.marks]}")
            work = per(m.work)[1:]
            if grows(work, step * step // 2):
                bad.append(f"steps the library takes for every {step} {what} grow: {work}")
            if grows(st["depth"][: len(at)], 20):
                bad.append(f"call depth at notifications grows: {st['depth']}")
    st = first
    cnt = {"mode:" + c["mode"]: 1, "cycles": st["cycles"], "streamed": st["streamed"], "measured": st["measured"], "ended:dispose": int(st["dispose"] > 0), "ended:C": int(st["C"] > 0),
           "ended:E": int(st["E"] > 0), "ended:run": int(st["run"] > 0), "ended:iter": int(st["iter"] > 0), "ended:rx": int(st["rx"] > 0), "ended:cancel": int(st["cancelled"] > 0),
           "worked": m.work[-1] if m.work else 0, "ended:fail": int(st["fail"] > 0), "raised": int(st["raised"] > 0), "inner": int(any(k in WITHI for k, _ in c["ops"])), "suspicious": int(sus)}
    key = (c["mode"], c["src"], tuple(k for k, _ in c["ops"]), tuple(c.get("acts", ())), c.get("how"), st["seen"], st["C"], st["E"], tuple(m.marks[i][0] - m.marks[0][0] for i in range(len(m.marks))))
    return Out(bad, key, cnt, st["measured"] > 1, note=show([c["mode"], st["seen"], m.marks], 200))
