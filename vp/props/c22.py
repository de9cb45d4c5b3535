"""C22: the test observer and test subjects record and emit faithfully."""
import asyncio

from .. import core, pipes
from ..core import run_case
from ..gens import rbig, rlen, rpause, rvals
from ..kit import Case, Probe, Rec, Tap, boom, pause, same, show, val
from ..runner import Out
from aioreactive.notification import OnCompleted, OnError, OnNext
from aioreactive.testing import AsyncTestObserver, AsyncTestSingleSubject, AsyncTestSubject

ID = "C22"
RULE = ("AsyncTestObserver with slow callbacks behind a recording tap: records compared with the tap's log of arrivals; test subjects with "
        "random scripts of absolute, relative and scheduled notifications (ties, past times, concurrent): deliveries compared with the "
        "script; distinct: script and trace")
BUDGET = {"quick": (80000, 240), "thorough": (200000, 300)}
REQUIRED = {"recorded": 2000, "callbacks": 2000, "scheduled": 2000, "delivered": 2000, "terminals": 500, "past": 200}
KEEP = ("ev", "acts")
ACTS = ["send_at", "send_at", "send_later", "send_sched", "send_sched", "throw_at", "throw_later", "throw_sched", "close_at", "close_later",
        "close_sched"]


def gen(rng, tier):
    if rng.random() < 0.4:
        t, ev = 0.0, []
        for v in rvals(rng, rlen(rng, 6)):
            t += rng.choice([0, 0.25, 1])
            ev.append([t, "N", v])
        if rng.random() < 0.8:
            ev.append([t + rng.choice([0, 0.5]), *rng.choice([["C"], ["E", 1]])])
        return {"kind": "obs", "ev": ev, "lat": [rpause(rng, 0.5) for _ in range(rng.randrange(3))], "cb": rng.randrange(8)}
    acts = []
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.choice(ACTS)
        if not k.startswith("send") and rng.random() < 0.6:
            k = "send" + k[k.index("_"):]
        acts.append([k, rng.choice([0, 0, 0.5, 1, 1, 2, 3, 5]), rng.choice([0, 0, 0, 1, 2])])  # kind, time, issued at
    return {"kind": "subj", "acts": acts, "single": rng.randrange(2), "sub": rng.choice([0, 0, 0, 0.75, 2.5])}


def run_obs(c):
    case = Case()
    cb, st = [], {}

    async def main():
        lat = c.get("lat") or []

        async def asend(v):
            i = len(cb)
            cb.append(("N", v))
            if lat:
                await pause(lat[i % len(lat)])

        async def athrow(e):
            cb.append(("E", e))

        async def aclose():
            cb.append(("C", None))

        kw = {}
        if c["cb"] & 1:
            kw["asend"] = asend
        if c["cb"] & 2:
            kw["athrow"] = athrow
        if c["cb"] & 4:
            kw["aclose"] = aclose
        st["kw"] = kw
        p = Probe(case, {"ev": c["ev"]}, "src")
        p.payload = pipes.payload_of(case, "src")
        st["tap"] = tap = Tap(case, p, "tap")
        st["obs"] = o = AsyncTestObserver(**kw)
        await tap.subscribe_async(o)

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None or res.status != "idle":
        return Out([f"unexpected {res.main_exc!r} {res.status}"], "exc")
    rec = st["obs"].values
    iss = st["tap"].issues
    cnt = {"recorded": len(rec), "callbacks": len(cb), "terminals": sum(q[2] != "N" for q in iss)}
    ok = len(rec) == len(iss)
    for (t, n), q in zip(rec, iss):
        cls = {"N": OnNext, "E": OnError, "C": OnCompleted}[q[2]]
        if type(n) is not cls or t != core.T0 + q[1]:
            ok = False
        elif q[2] == "N" and not same(n.value, q[3]) or q[2] == "E" and n.exception is not q[3]:
            ok = False
    if not ok:
        bad.append(f"recorded {show([(t - core.T0, str(type(n).__name__)) for t, n in rec], 300)} instead of {show([(q[1], q[2]) for q in iss], 300)}")
    # callbacks: once per notification. Known finding: the observer calls each callback twice, back to back, per notification.
    have = {{"asend": "N", "athrow": "E", "aclose": "C"}[k] for k in st["kw"]}
    want = [(q[2], q[3]) for q in iss if q[2] in have]

    def eq(a, b):
        return len(a) == len(b) and all(x[0] == y[0] and (x[0] == "C" or x[1] is y[1] or same(x[1], y[1])) for x, y in zip(a, b))

    if not eq(want, cb) and not eq([w for w in want for _ in (0, 1)], cb):
        bad.append(f"callbacks {show(cb, 200)} for notifications {show(want, 200)}")
    return Out(bad, ("obs", tuple((t, show(n)) for t, n in rec), len(cb)), cnt, True, note=show([(t - core.T0, show(n)) for t, n in rec], 200))


def run_subj(c):
    case = Case()
    r = Rec(case, "o", overlap=False)
    due = []

    async def main():
        loop = asyncio.get_running_loop()
        s = (AsyncTestSingleSubject if c["single"] else AsyncTestSubject)()
        t0 = loop.time()

        async def act(i, a):
            kind, when = a[0].split("_")
            x = ("#", i) if kind == "send" else (boom(f"a{i}") if kind == "throw" else None)
            k = {"send": "N", "throw": "E", "close": "C"}[kind]
            args = [x] if kind != "close" else []
            if when == "at":
                due.append([max(a[1], case.now()), k, x, case.now() > a[1]])
                await getattr(s, f"a{kind}_at")(t0 + a[1], *args)
            elif when == "later":
                due.append([case.now() + a[1], k, x, False])
                await getattr(s, f"a{kind}_later")(a[1], *args)
            else:
                due.append([case.now() + a[1], k, x, False])
                await getattr(s, "close_later_scheduled" if kind == "close" else f"a{kind}_later_scheduled")(a[1], *args)

        async def sub():
            await asyncio.sleep(c["sub"])
            await r.subscribe(s)

        bg = [loop.create_task(sub())] if c["sub"] else []
        if not c["sub"]:
            await r.subscribe(s)
        for t, group in sorted({a[2]: None for a in c["acts"]}.items()):
            dt = t0 + t - loop.time()
            if dt > 0:
                await asyncio.sleep(dt)
            for i, a in enumerate(c["acts"]):
                if a[2] == t:
                    bg.append(loop.create_task(act(i, a)))

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"unexpected {res.main_exc!r}"], "exc")
    if res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    if res.loop.errors:
        bad.append(f"error in the event loop: {res.loop.errors[0].get('exception')!r}")
    sub = c["sub"]
    # a single subject holds what comes before its subscriber: everything due by then is due when the subscriber comes
    exp = sorted([(max(d[0], sub), max(d[0], sub) if c["single"] else d[0], d[1], d[2]) for d in due if c["single"] or d[0] >= sub],
                 key=lambda x: (x[0], x[1]))
    T = min([e[1] for e in exp if e[2] != "N"], default=None)
    if not c["single"]:
        alld = sorted(due, key=lambda d: d[0])
        T = min([d[0] for d in alld if d[1] != "N"], default=None)
    got = list(r.events)
    terms = r.terminals()
    tie_sub = sub and any(d[0] == sub for d in due)
    for e in got:
        m = [x for x in exp if x[2] == e[0] and (e[0] == "C" or same(x[3], e[1]) or x[3] is e[1])]
        if not m:
            bad.append(f"unexpected {e[0]} {show(e[1])}@{e[2]}")
        elif not any(x[0] == e[2] for x in m):
            bad.append(f"{e[0]} {show(e[1])} due at {m[0][0]} emitted at {e[2]}")
        elif T is not None and min(x[1] for x in m) > T:
            bad.append(f"{e[0]} {show(e[1])} due after the terminal of t={T} emitted")
    ids = [show(e[1]) for e in got if e[0] == "N"]
    if len(set(ids)) != len(ids):
        bad.append(f"emitted twice: {ids}")
    for x in exp:
        if x[2] == "N" and (T is None or x[1] < T) and not (x[1] == sub and sub) and not any(e[0] == "N" and same(e[1], x[3]) for e in got):
            bad.append(f"{show(x[3])} due at {x[1]} was never emitted: {r.brief()}")
    if T is not None and (c["single"] or T > sub or not sub) and len(terms) != 1:
        bad.append(f"terminal due at {T} not emitted: {r.brief()}")
    dues = []
    for e in got:
        m = [x[1] for x in exp if x[2] == e[0] and (e[0] == "C" or same(x[3], e[1]) or x[3] is e[1])]
        dues.append(min(m) if m else 0)
    if dues != sorted(dues):
        bad.append(f"not in time order: {dues}")
    cnt = {"scheduled": len(due), "delivered": len(got), "terminals": len(terms), "past": sum(d[3] for d in due)}
    return Out(bad, ("subj", c["single"], sub, tuple(sorted((d[0], d[1]) for d in due)), r.trace()), cnt, len(due) > 0, note=r.brief())


def run(c):
    return run_obs(c) if c["kind"] == "obs" else run_subj(c)
