"""C32: what only passes notifications on is transparent."""
import asyncio

from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, rlat, rpause
from ..kit import Case, Rec, show
from ..runner import Out
import aioreactive as rx
import aioreactive.create as m_create
from aioreactive import AsyncAnonymousObservable, AsyncAnonymousObserver, AsyncNotificationObserver, AsyncObservable, AsyncObserver, AsyncRx
from aioreactive.notification import MsgKind, Notification, OnCompleted, OnError, OnNext

ID = "C32"
RULE = ("random pipelines run twice: as they are, and with adapters before any stage and before the final observer (anonymous observers of bound methods "
        "or functions, notification observers that hand on by accept, accept_observer, match or kind, one after another or nested, observers and observables of user "
        "classes, the three-function spelling, anonymous observables, as_async_observable, AsyncRx); the timed traces must be equal, and every notification seen "
        "must carry the very object, be of its kind, equal what has the same kind and an equal payload and nothing else, and hand on the same again later; "
        "distinct: operators, adapters and traces")
BUDGET = {"quick": (70000, 240), "thorough": (300000, 500)}
OBS = ("anon", "fn", "accept", "accept_observer", "match", "kind", "user")
SRCS = ("lift", "three", "anonymous", "create", "chained", "hidden", "piped")
REQUIRED = {"compared": 30000, "nonempty": 20000, "errors": 4000, "raising": 3000, "disposing": 2000, "notes": 100000, "equal": 50000, "replayed": 10000, "partial": 3000, "refused": 300} | {
    "with:" + x: 3000 for x in OBS + SRCS} | {"op:" + x: 80 for x in gens.GUARDED + ("catch", "retry", "delay", "slice", "scan", "map")}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "subs", "plan")
OPTS = {"many": 0.01, "byval": True, "vboom": 0.15, "once": False, "defer": 0.05}
ODD = [None, 0, False, "", (), float("nan"), 1, True, 1.0, "a", (None,), OnCompleted(), OnNext(None), OnError(ValueError("x")), ValueError("x"), StopAsyncIteration(), [1], [1]]


def layer(rng):
    return [rng.choice(SRCS), [rng.choice(OBS) for _ in range(rng.choice([1, 1, 2]))]]


def gen(rng, tier):
    subs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        beh = {"lat": rlat(rng, 0.4), "tlat": rpause(rng, 0.15)}
        if rng.random() < 0.15:
            beh["raise"] = {str(rng.randrange(3)): rerr(rng)}
        if rng.random() < 0.12:
            beh["dispose"] = rng.choice([0, 0, 1, 2, "T"])
        if rng.random() < 0.08:
            beh["traise"] = True
        s = {"beh": beh, "t": rng.choice([0, 0, 0, 0.25, 1]), "part": rng.choice([7, 7, 7, 7, 1, 2, 3, 4, 5, 6])}
        if rng.random() < 0.15:
            s["dis"] = rng.choice([0, 0.25, 0.5, 1])
        subs.append(s)
    return {"pipe": gens.any_pipe(rng, OPTS, rng.choice([0, 0, 1, 1, 2])), "subs": subs, "plan": [layer(rng) if rng.random() < 0.6 else None for _ in range(rng.choice([1, 2, 3, 5]))],
            "last": [rng.choice(OBS) for _ in range(rng.choice([1, 1, 2, 3]))], "odd": [rng.randrange(len(ODD)) for _ in range(3)]}


class User(AsyncObserver):
    def __init__(self, obv):
        self.obv = obv

    async def asend(self, value):
        await self.obv.asend(value)

    async def athrow(self, error):
        await self.obv.athrow(error)

    async def aclose(self):
        await self.obv.aclose()


class Watch:
    """What is known about the notifications that were seen."""

    def __init__(self):
        self.notes = []
        self.bad = []
        self.n = 0

    def see(self, n, kind, payload):
        self.n += 1
        if len(self.notes) < 24:
            self.notes.append((n, kind, payload))
        k, cls = {"N": (MsgKind.ON_NEXT, OnNext), "E": (MsgKind.ON_ERROR, OnError), "C": (MsgKind.ON_COMPLETED, OnCompleted)}[kind]
        if not isinstance(n, Notification) or not isinstance(n, cls) or n.kind is not k:
            self.bad.append(f"notification of {kind} {show(payload)} is {n!r} of kind {n.kind}")
        elif kind == "N" and n.value is not payload or kind == "E" and n.exception is not payload:
            self.bad.append(f"notification of {kind} {show(payload)} carries something else")


def wrap(obv, kinds, watch):
    for k in kinds:
        obv = wrap1(obv, k, watch)
    return obv


def wrap1(obv, k, watch):
    if k == "anon":
        return AsyncAnonymousObserver(obv.asend, obv.athrow, obv.aclose)
    if k == "user":
        return User(obv)
    if k == "fn":
        async def send(x):
            await obv.asend(x)

        async def throw(ex):
            await obv.athrow(ex)

        async def close():
            await obv.aclose()

        return AsyncAnonymousObserver(send, throw, close)

    async def accept(n):
        await n.accept(obv.asend, obv.athrow, obv.aclose)

    async def accept_observer(n):
        await n.accept_observer(obv)

    async def match(n):
        match n:
            case OnNext(value=v):
                await obv.asend(v)
            case OnError(exception=ex):
                await obv.athrow(ex)
            case OnCompleted():
                await obv.aclose()

    async def kind(n):
        if n.kind is MsgKind.ON_NEXT:
            await obv.asend(n.value)
        elif n.kind is MsgKind.ON_ERROR:
            await obv.athrow(n.exception)
        elif n.kind is MsgKind.ON_COMPLETED:
            await obv.aclose()

    async def fn(n):
        watch.see(n, *seen.now)
        await {"accept": accept, "accept_observer": accept_observer, "match": match, "kind": kind}[k](n)

    inner = AsyncNotificationObserver(fn)

    class Enter(AsyncObserver):
        now = (None, None)

        async def asend(self, value):
            self.now = ("N", value)
            await inner.asend(value)

        async def athrow(self, error):
            self.now = ("E", error)
            await inner.athrow(error)

        async def aclose(self):
            self.now = ("C", None)
            await inner.aclose()

    seen = Enter()
    return seen


class Lift(AsyncObservable):
    def __init__(self, src, fn):
        self.src, self.fn = src, fn

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        return await self.src.subscribe_async(self.fn(obv))


def lift(src, how, kinds, watch):
    def fn(obv):
        return wrap(obv, kinds, watch)

    async def sub(obv):
        return await src.subscribe_async(fn(obv))

    async def three(obv):
        w = fn(obv)
        return await src.subscribe_async(w.asend, w.athrow, w.aclose)

    async def piped(obv):
        return await rx.subscribe_async(fn(obv))(src)

    if how == "lift":
        return Lift(src, fn)
    if how == "three":
        return AsyncAnonymousObservable(three)
    if how == "piped":
        return AsyncAnonymousObservable(piped)
    if how == "anonymous":
        return AsyncAnonymousObservable(sub)
    if how == "create":
        return m_create.create(sub)
    if how == "chained":
        return AsyncRx.create(rx.as_chained(Lift(src, fn)))
    return rx.as_async_observable(Lift(src, fn))


def use(c, watch):
    case = Case()
    used = set()
    state = {"n": 0}

    def stage(src, name, spec):
        p = c.get("plan")
        if not p:
            return src
        step = p[state["n"] % len(p)]
        state["n"] += 1
        if step is None:
            return src
        used.add(step[0])
        used.update(step[1])
        return lift(src, step[0], step[1], watch)

    recs = []

    async def main():
        share = pipes.SHARE
        pipes.SHARE = None
        try:
            o = pipes.build(case, c["pipe"], "p", {"stage": stage} if watch else {})
        finally:
            pipes.SHARE = share

        async def one(i, s):
            if s["t"]:
                await asyncio.sleep(s["t"])
            r = recs[i] = Rec(case, f"o{i}", s["beh"], grammar=False, overlap=False)
            part = s["part"]
            r.part = part
            try:
                if watch and part != 7:
                    r.sub = await o.subscribe_async(r.asend if part & 1 else None, r.athrow if part & 2 else None, r.aclose if part & 4 else None)
                elif part != 7:
                    r.sub = await o.subscribe_async(Part(r, part))
                elif watch:
                    used.update(c.get("last", ["anon"]))
                    r.sub = await o.subscribe_async(wrap(r, c.get("last", ["anon"]), watch))
                else:
                    r.sub = await o.subscribe_async(r)
            except Exception as ex:
                r.events.append(["X", ex, case.now(), 0, 0, 0])
                return
            if s.get("dis") is not None:
                await asyncio.sleep(s["dis"])
                await r.sub.dispose_async()

        for i, s in enumerate(c["subs"]):
            recs.append(None)
            asyncio.get_running_loop().create_task(one(i, s))

    res = run_case(main, horizon=core.T0 + 12.0, max_ticks=60000)
    return [() if r is None else tuple((e[0], show(e[1]), round(e[2], 6), None if e[4] is None else round(e[4], 6)) for e in r.events) for r in recs], res, used


class Part(AsyncObserver):
    """An observer that minds some of the notifications only."""

    def __init__(self, r, part):
        self.r, self.part = r, part

    async def asend(self, value):
        if self.part & 1:
            await self.r.asend(value)

    async def athrow(self, error):
        if self.part & 2:
            await self.r.athrow(error)

    async def aclose(self):
        if self.part & 4:
            await self.r.aclose()


def same(a, b):
    """a == b, or what it raises."""
    try:
        return bool(a == b)
    except Exception as ex:
        return type(ex)


def notes(c, watch, bad, cnt):
    """Equality of the notifications seen and of some odd ones; what they hand on when asked again."""
    # everything that went by and what was made just now, each with its kind and payload
    ns = list(watch.notes[:8])
    for i in c.get("odd", []):
        x = ODD[i]
        ns.append((OnNext(x), "N", x))
        if isinstance(x, Exception):
            ns.append((OnError(x), "E", x))
    ns.append((OnCompleted(), "C", None))
    for n, k, p in ns:
        for m, k2, q in ns:
            if k != k2:
                want = False
            elif k == "C":
                want = True
            else:
                want = same(p, q)
                if p is q and want is not True:  # not equal to itself, either answer will do
                    continue
            cnt["equal"] += 1
            got = same(n, m)
            if got != want:
                bad.append(f"{k} {show(p)} == {k2} {show(q)} is {got}, not {want}")
                return
        for other in (p, k, None):
            if not isinstance(other, Notification) and type(other).__eq__ in (object.__eq__, type(None).__eq__, str.__eq__) and same(n, other) is not False:
                bad.append(f"notification {k} {show(p)} equals {show(other)}")
    got = []

    class Log(AsyncObserver):
        async def asend(self, value):
            got.append(("N", value))

        async def athrow(self, error):
            got.append(("E", error))

        async def aclose(self):
            got.append(("C", None))

    async def main():
        r = Log()
        for n, k, p in ns:
            for how in (0, 1):
                got.clear()
                await (n.accept(r.asend, r.athrow, r.aclose) if how else n.accept_observer(r))
                cnt["replayed"] += 1
                if len(got) != 1 or got[0][0] != k or got[0][1] is not p:
                    bad.append(f"notification {k} {show(p)} handed on later gives {show(got, 80)}")
                    return
        # what the callee raises comes back
        ex = ValueError("callee")

        async def refuse(*_):
            raise ex

        for n, k, p in ns[-3:]:
            for aw in (lambda: n.accept(refuse, refuse, refuse), lambda: n.accept_observer(AsyncAnonymousObserver(refuse, refuse, refuse))):
                cnt["refused"] += 1
                try:
                    await aw()
                    bad.append(f"notification {k} {show(p)}: what the callee raised was lost")
                except ValueError as e:
                    if e is not ex:
                        raise

    res = run_case(main)
    if res.main_exc is not None:
        bad.append(f"handing on fails with {res.main_exc!r}")


def run(c):
    bad = []
    cnt = dict.fromkeys([k for k in REQUIRED if ":" not in k], 0)
    a, ra, _ = use(c, None)
    watch = Watch()
    b, rb, used = use(c, watch)
    if ra.status == "livelock" or rb.status == "livelock":
        bad.append(f"does not come to rest ({ra.status} without, {rb.status} with adapters)")
    bad += watch.bad[:2]
    cnt["compared"] = 1
    cnt["nonempty"] = int(any(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            bad.append(f"observer {i}: with adapters ...{show(y[max(k - 2, 0): k + 3], 220)}; without ...{show(x[max(k - 2, 0): k + 3], 220)}")
    notes(c, watch, bad, cnt)
    cnt["errors"] = int(any(e[0] == "E" for t in a for e in t))
    cnt["raising"] = int(any(s["beh"].get("raise") or s["beh"].get("traise") for s in c["subs"]))
    cnt["disposing"] = int(any("dispose" in s["beh"] for s in c["subs"]))
    cnt["partial"] = int(any(s["part"] != 7 for s in c["subs"]))
    cnt["notes"] = watch.n
    for x in used:
        cnt["with:" + x] = 1
    for x in set(gens.op_names(c["pipe"])):
        cnt["op:" + x] = 1
    return Out(bad[:3], (tuple(gens.op_names(c["pipe"])), tuple(sorted(used)), tuple(b)), cnt, True, note=show(b, 300))
