"""C21: the virtual-time loop runs everything in time order, exactly on time."""
import asyncio

from .. import core  # noqa: F401
from ..kit import show
from ..runner import Out
from aioreactive.testing import VirtualTimeEventLoop

ID = "C21"
RULE = ("random programs of call_later/call_at/call_soon/cancel and sleeping coroutines, nested in callbacks, due times in the past, ties, "
        "zero delays, and bulk creation and cancellation of more than 100 timers; every callback run is logged with the loop time; "
        "distinct: execution log")
BUDGET = {"quick": (48000, 240), "thorough": (150000, 400)}
REQUIRED = {"timers": 5000, "cancelled": 1000, "soon": 3000, "bulk": 200, "past": 300, "sleeps": 1000}
KEEP = ("prog",)
DT = [0, 0, 0.25, 0.5, 1, 1, 2, 3.5, 10]


def block(rng, depth, ids):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.choice(["later", "later", "later", "at", "soon", "soon", "cancel", "sleep"])
        if k == "cancel":
            out.append(["cancel", rng.random()])
        elif k == "sleep":
            out.append(["sleep", rng.choice(DT), block(rng, depth - 1, ids) if depth > 0 and rng.random() < 0.4 else []])
        else:
            out.append([k, rng.choice(DT) if k != "at" else rng.choice([0, 0.5, 1, 1.5, 3, 7, -1]),
                        block(rng, depth - 1, ids) if depth > 0 and rng.random() < 0.5 else []])
    if rng.random() < 0.12:
        out.append(["bulk", rng.choice([50, 101, 150, 260]), rng.random(), rng.choice([0, 0.25, 1.0])])
    return out


def gen(rng, tier):
    return {"prog": block(rng, 3, []), "dbg": rng.random() < 0.05}


class Loop(VirtualTimeEventLoop):
    steps = 0

    def _run_once(self):
        self.steps += 1
        if self.steps > 20000:
            raise core.Stuck("the loop makes no progress")
        super()._run_once()


def run(c):
    loop = Loop()
    if c.get("dbg"):
        loop.set_debug(False)
    bad, log = [], []
    items = []  # id -> record
    cnt = {"timers": 0, "cancelled": 0, "soon": 0, "bulk": 0, "past": 0, "sleeps": 0}
    soonq = []
    st = {"last": 0.0, "n": 0}
    errors = []
    loop.set_exception_handler(lambda _l, x: errors.append(x))

    def fail(m):
        if len(bad) < 5:
            bad.append(m)

    def tick():
        t = loop.time()
        if t < st["last"]:
            fail(f"time went backwards from {st['last']} to {t}")
        st["last"] = t
        return t

    def fired(r):
        t = tick()
        log.append((r["kind"], r["id"], t))
        r["runs"] += 1
        if r["runs"] > 1:
            fail(f"{r['kind']} {r['id']} ran twice")
        if r["cancelled"]:
            fail(f"cancelled {r['kind']} {r['id']} ran")
        if t != r["due"]:
            fail(f"{r['kind']} {r['id']} due at {r['due']} ran at {t}")
        if r["kind"] == "soon":
            if not soonq or soonq[0] is not r:
                fail(f"call_soon callbacks run out of order: {r['id']}")
            if r in soonq:
                soonq.remove(r)
        elif r["kind"] == "timer":
            # nothing due strictly earlier may still be waiting
            if soonq and any(s["due"] < t for s in soonq):
                fail(f"time advanced to {t} while call_soon callbacks of an earlier time were waiting")

    def schedule(k, a, kids):
        r = {"id": len(items), "runs": 0, "cancelled": False, "kids": kids, "kind": "soon" if k == "soon" else "timer", "at": loop.time()}
        items.append(r)

        def cb():
            fired(r)
            do(r["kids"])

        now = loop.time()
        if k == "soon":
            cnt["soon"] += 1
            r["due"] = now
            soonq.append(r)
            r["h"] = loop.call_soon(cb)
        else:
            cnt["timers"] += 1
            if k == "later":
                r["due"] = now + a
                r["h"] = loop.call_later(a, cb)
            else:
                r["due"] = max(a, now)
                if a < now:
                    cnt["past"] += 1
                r["h"] = loop.call_at(a, cb)
        return r

    def cancel(r):
        if r["runs"] or r["cancelled"] or r.get("h") is None:
            return
        r["h"].cancel()
        r["cancelled"] = True
        cnt["cancelled"] += 1
        if r in soonq:
            soonq.remove(r)

    keep = []

    def do(prog):
        for p in prog:
            if p[0] == "cancel":
                if items:
                    cancel(items[int(p[1] * len(items)) % len(items)])
            elif p[0] == "bulk":
                cnt["bulk"] += 1
                rs = [schedule("later", p[3] + (i % 7) * 0.25, []) for i in range(p[1])]
                for i, r in enumerate(rs):
                    if (i * 0.618) % 1 < p[2]:
                        cancel(r)
            elif p[0] == "sleep":
                cnt["sleeps"] += 1
                r = {"id": len(items), "runs": 0, "cancelled": False, "kids": p[2], "kind": "sleep", "due": loop.time() + p[1]}
                items.append(r)

                async def co(r=r, d=p[1]):
                    await asyncio.sleep(d)
                    fired(r)
                    do(r["kids"])

                keep.append(loop.create_task(co()))
            else:
                schedule(p[0], p[1], p[2])

    def stopper():
        loop.stop()

    asyncio.set_event_loop(loop)
    try:
        if loop.time() != 0:
            fail(f"time starts at {loop.time()}")
        do(c["prog"])
        loop.call_at(10000.0, stopper)
        try:
            loop.run_forever()
        except core.Stuck:
            fail("the loop spins without progress although timers are pending")
        if loop.time() != 10000.0 and not bad:
            fail(f"ended at time {loop.time()}")
    finally:
        asyncio.set_event_loop(None)
    for r in items:
        if not r["runs"] and not r["cancelled"]:
            fail(f"{r['kind']} {r['id']} due at {r['due']} never ran")
    if errors:
        fail(f"exception in a callback: {errors[0].get('exception')!r}")
    try:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.set_exception_handler(lambda _l, x: None)
        loop.close()
    except Exception:
        pass
    return Out(bad, tuple(log), cnt, len(log) > 0, note=show(log[:12], 300))
