"""C16: sources emit exactly what they were created from, per subscription."""
import asyncio

from ..core import run_case
from ..gens import rerr, rbig, rlat, rlen, rpause, rvals
from ..kit import Case, Rec, boom, pause, same, sames, show, val
from ..runner import Out
import aioreactive as rx
import aioreactive.create as m_create
from aioreactive import AsyncObservable, AsyncRx
from aioreactive.iterable.to_async_observable import to_async_observable
from expression.system import AsyncDisposable

ID = "C16"
RULE = ("every source constructor (all public spellings) over random inputs: element pool with None/falsy/notification-like values, lengths, "
        "failing positions, one-shot and re-iterable inputs; 1-3 overlapping or consecutive subscriptions with slow observers; input-side "
        "calls are counted; distinct: source, per-subscription traces")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"values": 2000, "completions": 1000, "errors": 500, "multi": 1000, "untouched": 1000}
KEEP = ("kind", "v", "subs")
KINDS = ["iter", "iter", "iter", "aiter", "aiter", "of_async", "of_future", "single", "empty", "never", "fail", "create", "timer", "interval",
         "gen", "agen"]


def spec(rng, depth=1):
    k = rng.choice(KINDS + (["defer", "defer"] if depth else []))
    c = {"kind": k, "sp": rng.randrange(4)}
    n = rbig(rng, 0.01, (60, 129, 260, 600, 1100)) or rlen(rng, 14)
    if k == "defer":
        c["in"] = spec(rng, 0)
        c["falsy"] = rng.random() < 0.1
        if rng.random() < 0.2:
            c["boom"] = rerr(rng)
        return c
    if k in ("of_async", "of_future", "single"):
        n = 1
    c["v"] = rvals(rng, n)
    if k in ("iter", "aiter", "gen", "agen", "create", "of_async", "of_future") and rng.random() < 0.3:
        c["err"] = rerr(rng)
    if k == "fail":
        c["err"] = rerr(rng)
    if k in ("aiter", "agen", "of_async", "of_future", "create"):
        c["lat"] = rpause(rng, 0.5, n < 40) if n > 6 or rng.random() < 0.95 else ["s", rng.choice([12.0, 45.0, 150.0, 500.0, 5000.0, 100000.0])]
    if k == "timer":
        c["s"] = rng.choice([0, 0.5, 1, 2.25])
    if k == "interval":
        c["s"], c["p"], c["n"] = rng.choice([0, 0.5, 1]), rng.choice([0, 0, 0.5, 1, 2]), rng.randrange(1, 6) if rng.random() < 0.98 else 60
    if k == "iter":
        c["ctype"] = rng.randrange(6)
    return c


def gen(rng, tier):
    c = spec(rng)
    subs = []
    t = 0.0
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        t += rng.choice([0, 0, 0.25, 1, 5])
        subs.append({"t": t, "lat": rlat(rng, 0.4, len(c.get("v", c.get("in", {}).get("v", ()))) < 40), "how": rng.randrange(3)})
    c["subs"] = subs
    return c


ONESHOT = ("gen", "agen", "of_async")


class It:
    """Iterable whose use is counted."""

    def __init__(self, log, vals, err):
        self.log, self.vals, self.err = log, vals, err

    def __iter__(self):
        self.log.append("iter")
        for v in self.vals:
            self.log.append("pull")
            yield v
        if self.err is not None:
            raise self.err


class Falsy(AsyncObservable):
    """An observable with a length of zero."""

    def __init__(self, o):
        self.o = o

    def __len__(self):
        return 0

    async def subscribe_async(self, send=None, throw=None, close=None):
        return await self.o.subscribe_async(send, throw, close)


class SeqOnly:
    """Old-style sequence protocol."""

    def __init__(self, vals):
        self.vals = vals

    def __getitem__(self, i):
        return self.vals[i]


def build(c, case, log):
    """Returns (observable, expected values, expected terminal kind, error object or None)."""
    k, sp = c["kind"], c.get("sp", 0)
    vals = [val(v) for v in c.get("v", [])]
    err = boom("src", c["err"]) if c.get("err") is not None else None
    term = "E" if err is not None else "C"
    lat = c.get("lat")
    if k == "iter":
        ct = c.get("ctype", 0)
        if err is not None or ct == 0:
            it = It(log, vals, err)
        elif ct == 4:
            it = SeqOnly(vals)
        else:
            it = {1: list, 2: tuple, 3: list, 5: lambda v: dict.fromkeys(range(len(v)))}[ct](vals)
            if ct == 5:
                vals = list(it)
        o = [rx.from_iterable, AsyncRx.from_iterable, m_create.of_seq, rx.from_iterable][sp](it)
        return o, vals, term, err
    if k == "gen":
        def g():
            log.append("iter")
            for v in vals:
                yield v
            if err is not None:
                raise err

        return [rx.from_iterable, AsyncRx.from_iterable, m_create.of_seq, rx.from_iterable][sp](g()), vals, term, err
    if k in ("aiter", "agen"):
        class A:
            def __aiter__(self):
                return self.g()

            async def g(self):
                log.append("iter")
                for v in vals:
                    await pause(lat)
                    log.append("pull")
                    yield v
                await pause(lat)
                if err is not None:
                    raise err

        a = A() if k == "aiter" else A().g()
        return [rx.from_async_iterable, AsyncRx.from_async_iterable, m_create.of_async_iterable, to_async_observable][sp](a), vals, term, err
    if k in ("of_async", "of_future"):
        async def wf():
            log.append("iter")
            await pause(lat)
            if err is not None:
                raise err
            return vals[0]

        w = wf() if k == "of_async" else asyncio.get_running_loop().create_task(wf())
        o = [rx.from_async, rx.of_async, m_create.of_async, rx.from_async][sp](w)
        return o, ([] if err is not None else vals[:1]), term, err
    if k == "single":
        return [rx.single, AsyncRx.single, m_create.single, rx.single][sp](vals[0]), vals[:1], "C", None
    if k == "empty":
        return [rx.empty, AsyncRx.empty, m_create.empty, rx.empty][sp](), [], "C", None
    if k == "never":
        return [rx.never, m_create.never][sp % 2](), [], None, None
    if k == "fail":
        return m_create.fail(err), [], "E", err
    if k == "timer":
        return [rx.timer, m_create.timer][sp % 2](c["s"]), [0], "C", None
    if k == "interval":
        o = [rx.interval, m_create.interval][sp % 2](c["s"], c["p"])
        return o, [0] if not c["p"] else list(range(c["n"])), "C" if not c["p"] else None, None
    if k == "create":
        async def subscribe(obv):
            log.append("iter")

            async def play():
                for v in vals:
                    await pause(lat)
                    await obv.asend(v)
                if err is not None:
                    await obv.athrow(err)
                else:
                    await obv.aclose()

            if sp % 2:
                await play()
            else:
                log2.append(asyncio.get_running_loop().create_task(play()))
            return AsyncDisposable.empty()

        log2 = case.__dict__.setdefault("keep", [])
        return m_create.create(subscribe), vals, term, err
    if k == "defer":
        e = boom("factory", c["boom"]) if c.get("boom") is not None else None
        box = {}

        def factory():
            log.append("factory")
            if e is not None:
                raise e
            o, box["v"], box["t"], box["e"] = build(c["in"], case, case.__dict__.setdefault("ilog", []))
            return Falsy(o) if c.get("falsy") else o

        o = [rx.defer, m_create.defer][sp % 2](factory)
        if e is not None:
            return o, [], "E", e
        return o, box, None, None
    raise ValueError(k)


def run(c):
    case = Case()
    log = []
    recs = []
    st = {}
    inner = c["in"] if c["kind"] == "defer" else c
    oneshot = c["kind"] in ONESHOT
    subs = c["subs"][:1] if oneshot else c["subs"]

    async def main():
        loop = asyncio.get_running_loop()
        o, vals, term, err = build(c, case, log)
        st["exp"] = (vals, term, err)
        if c["kind"] != "of_future":
            await asyncio.sleep(1.5)
            if log:
                case.fail(f"something ran before the first subscription: {log[:3]}")
        t0 = loop.time()
        for i, s in enumerate(subs):
            dt = t0 + s["t"] - loop.time()
            if dt > 0:
                await asyncio.sleep(dt)
            beh = {"lat": s.get("lat")}
            if inner["kind"] == "interval" and inner["p"]:
                beh["dispose"] = inner["n"] - 1
            r = Rec(case, f"o{i}", beh)
            recs.append(r)
            n0 = len(log)
            await r.subscribe(o, s.get("how", 0))
            if c["kind"] == "defer":
                st.setdefault("exps", []).append(dict(vals) if isinstance(vals, dict) else None)
                if log.count("factory") != i + 1:
                    case.fail(f"factory called {log.count('factory')} times for {i + 1} subscriptions")

    res = run_case(main, horizon=1e8)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"subscribing raised {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    vals, term, err = st.get("exp", ([], None, None))
    for i, r in enumerate(recs):
        v, t, e = vals, term, err
        if isinstance(vals, dict):
            b = st["exps"][i]
            v, t, e = b["v"], b["t"], b["e"]
        if not sames(r.values(), v):
            bad.append(f"subscription {i}: {show(r.values(), 250)} instead of {show(v, 250)}")
        got = [x[0] for x in r.terminals()]
        if got != ([t] if t else []):
            bad.append(f"subscription {i}: terminal {got} instead of {t}; {r.brief()}")
        elif t == "E" and r.terminals()[0][1] is not e:
            bad.append(f"subscription {i}: error {r.terminals()[0][1]!r} instead of {e!r}")
    n = log.count("iter")
    want = {"iter": len(recs), "aiter": len(recs), "create": len(recs), "gen": len(recs), "agen": len(recs), "of_async": len(recs)}.get(c["kind"])
    if want is not None and n != want and (c["kind"] != "iter" or n):
        bad.append(f"input consumed {n} times for {want} subscriptions")
    cnt = {"kind:" + c["kind"]: 1, "values": sum(len(r.values()) for r in recs), "completions": sum("C" in r.kinds() for r in recs),
           "errors": sum("E" in r.kinds() for r in recs), "multi": int(len(recs) > 1), "untouched": int(c["kind"] != "of_future")}
    return Out(bad, (c["kind"], c.get("sp"), tuple(r.trace() for r in recs)), cnt, True, note=show([r.brief() for r in recs], 300))
