"""C26: a send is not finished before the observer has handled it."""
import asyncio

from .. import core, pipes
from ..core import run_case
from ..gens import elem_op, rbig, rlen, rpause, rvals
from ..kit import Case, Rec, same, sames, show, val
from ..runner import Out
import aioreactive as rx
from expression import Some, pipe
import aioreactive.create as m_create
import aioreactive.transform as m_transform
from aioreactive import AsyncRx, AsyncSingleSubject, AsyncSubject

ID = "C26"
RULE = ("an awaiting producer sends on a subject / single subject with 1-6 slow observers behind chains of element-wise operators, or an async "
        "iterable / interval drives such a chain; at every return of a send and every pull of the next element the monitor compares the "
        "handler exits seen so far with the list model of the values sent; distinct: operators and notification trace")
BUDGET = {"quick": (80000, 240), "thorough": (300000, 300)}
REQUIRED = {"sends": 5000, "slow_sends": 2000, "pulls": 1000, "multi": 500, "ticks": 500, "crowd": 5000, "at_once": 2000}
KEEP = ("chains", "v", "kind")
OPS = ("map", "map_async", "starmap", "starmap_async", "filter", "filter_async", "starfilter", "choose", "choose_async", "scan", "scan_async")


def chain(rng):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        while True:
            o = elem_op(rng)
            if o[-1][0] in OPS:
                break
        if o[-1][0] in ("filter", "filter_async", "choose", "choose_async") and o[-1][1].get("f") in ("no", "none"):
            o[-1][1]["f"] = "mod"
        ops += o
    if rng.random() < 0.2:
        ops.append([rng.choice(["as_chained", "as_async_observable"]), {}, 0])
    return ops


def fixed(tier):
    for kind in ("subject", "single", "aiter"):
        for op in OPS:
            tab = pipes.ELEM[op][0] if op in pipes.ELEM else pipes.ACCS
            for f in tab:
                for style in (0, 1, 2):
                    pre = [["map", {"f": "pair"}, style]] if op.startswith("star") else []
                    for lat in (["y", 3], ["s", 1.0]):
                        yield {"kind": kind, "v": [0, 7, 8, 3], "chains": [{"ops": pre + [[op, {"f": f, "k": 1, "lat": ["y", 1]}, style]],
                                                                           "beh": {"lat": [lat], "tlat": lat}, "how": style % 2}], "end": "C"}


CROWD = {
    "map": lambda: rx.map(lambda x: x),
    "map_async": lambda: rx.map_async(slowly),
    "filter": lambda: rx.filter(lambda x: True),
    "filter_async": lambda: rx.filter_async(yes),
    "choose": lambda: rx.choose(Some),
    "choose_async": lambda: rx.choose_async(some),
    "starmap": lambda: rx.starmap(lambda *x: x),
    "starmap_async": lambda: m_transform.starmap_async(all_of),
    "starfilter": lambda: rx.starfilter(lambda *x: True),
    "scan": lambda: rx.scan(lambda s, x: x, None),
}


async def slowly(x):
    await pipes.pause(["s", 0.25] if x[1] % 2 else ["y", 1])
    return x


async def yes(x):
    return bool(await slowly(x))


async def some(x):
    return Some(await slowly(x))


async def all_of(*x):
    return await slowly(x)


def run_crowd(c):
    """Several producers that send at the same time: each send waits for its own value."""
    case = Case()
    done = [set() for _ in c["chains"]]
    cnt = {"crowd": 0, "at_once": 0}
    going = 0

    def observer(i, lat):
        async def asend(x):
            await pipes.pause(lat[x[0] % len(lat)])
            done[i].add(x)
        return asend

    async def main():
        src = AsyncSubject() if c["subject"] else AsyncSingleSubject()
        for i, (ops, lat) in enumerate(c["chains"]):
            await pipe(src, *[CROWD[o]() for o in ops]).subscribe_async(observer(i, lat))

        async def producer(p, gaps):
            nonlocal going
            for k, g in enumerate(gaps):
                await pipes.pause(g)
                cnt["at_once"] += going > 0
                going += 1
                await src.asend((p, k))
                going -= 1
                cnt["crowd"] += 1
                for i, d in enumerate(done):
                    if (p, k) not in d:
                        case.fail(f"sending {(p, k)} has returned at t={case.now()} but observer {i} has handled only {show(sorted(d), 150)}")

        await asyncio.gather(*[producer(p, gaps) for p, gaps in enumerate(c["prods"])])

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None:
        return Out(bad + [f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    return Out(bad, ("crowd", tuple(tuple(x[0]) for x in c["chains"]), tuple(len(p) for p in c["prods"])), cnt, True)


def gen(rng, tier):
    if rng.random() < 0.08:
        sub = rng.random() < 0.7
        return {"crowd": 1, "subject": sub, "chains": [[[rng.choice(list(CROWD)) for _ in range(rng.choice([0, 1, 1, 2, 3]))], [rpause(rng, 0.8) for _ in range(rng.randrange(1, 4))]]
                                                       for _ in range(rng.choice([1, 1, 2, 3]) if sub else 1)],
                "prods": [[rpause(rng, 0.4) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3, 4]))]}
    kind = rng.choice(["subject", "subject", "subject", "single", "aiter", "interval"])
    n = 1 if kind in ("single", "aiter", "interval") else rng.choice([1, 1, 2, 3, 4, 6])
    chains = [{"ops": chain(rng), "beh": {"lat": [rpause(rng, 0.85) if rng.random() < 0.95 else ["s", rng.choice([6.0, 12.0, 35.0, 61.0, 130.0])] for _ in range(rng.randrange(1, 4))], "tlat": rpause(rng)},
               "how": rng.randrange(3)} for _ in range(n)]
    return {"kind": kind, "v": rvals(rng, rbig(rng, 0.006, (40, 80, 150)) or rlen(rng, 7)), "chains": chains, "gap": rpause(rng, 0.3), "end": rng.choice(["C", "E", None]),
            "p": rng.choice([0.25, 1.0]), "s": rng.choice([0, 0.5]), "style": rng.randrange(2)}


def run(c):
    if "crowd" in c:
        return run_crowd(c)
    case = Case()
    kind = c["kind"]
    recs = []
    cnt = {"kind:" + kind: 1, "sends": 0, "slow_sends": 0, "pulls": 0, "multi": int(len(c["chains"]) > 1), "ticks": 0}
    vals = [val(v) for v in c["v"]]

    def handled(sofar, what):
        """Every output of the values sent so far has been handled to the end, by everybody."""
        for i, r in enumerate(recs):
            ch = c["chains"][i]
            want, _ = pipes.model({"src": ["iter", {"v": sofar}], "ops": ch["ops"]})
            got = [e[1] for e in r.events if e[0] == "N"]
            done = [e[1] for e in r.events if e[0] == "N" and e[5] is not None]
            if r.active:
                case.fail(f"{what}: observer {i} is still handling {show(got[-1:])} at t={case.now()}")
            elif not sames(done, want):
                case.fail(f"{what}: observer {i} has handled {show(done, 120)} of {show(want, 120)}")

    codes = []

    class It:
        async def __aiter__(self):
            for k, v in enumerate(vals):
                await pipes.pause(c.get("gap"))
                cnt["pulls"] += 1
                handled(c["v"][:k], f"element {k} is pulled")
                yield v
            handled(c["v"], "the end is pulled")

    async def main():
        if kind == "subject":
            src = AsyncSubject()
        elif kind == "single":
            src = AsyncSingleSubject()
        elif kind == "aiter":
            src = [rx.from_async_iterable, m_create.of_async_iterable, AsyncRx.from_async_iterable][len(vals) % 3](It())
        else:
            src = [rx.interval, m_create.interval][c.get("style", 0)](c["s"], c["p"])
        for i, ch in enumerate(c["chains"]):
            o = src
            for j, op in enumerate(ch["ops"]):
                o = pipes.apply_op(case, o, op, f"c{i}.{j}.{op[0]}")
            r = Rec(case, f"o{i}", ch.get("beh"))
            recs.append(r)
            await r.subscribe(o, ch.get("how", 0))
        if kind in ("subject", "single"):
            for k, v in enumerate(vals):
                t = case.now()
                await src.asend(v)
                cnt["sends"] += 1
                cnt["slow_sends"] += case.now() > t
                codes.append(c["v"][k])
                handled(codes, f"send {k} has returned")
                await pipes.pause(c.get("gap"))
            if c.get("end") == "C":
                await src.aclose()
            elif c.get("end") == "E":
                await src.athrow(ValueError())
            if c.get("end") and any(r.active or not r.ended for r in recs):
                case.fail("the terminal has been sent but is still being handled")
        elif kind == "interval":
            await asyncio.sleep(12)
            await recs[0].sub.dispose_async()

    if kind == "interval":
        # ticks: by the time the next tick enters the chain the previous one has been handled to the end
        r = None
    res = run_case(main, horizon=core.T0 + 1e8)
    bad = case.bad
    if res.main_exc is not None:
        return Out(bad + [f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    if kind == "interval":
        r = recs[0]
        fns = [f for n, f in case.__dict__.get("fns", {}).items() if n.startswith("c0.0.")]
        cnt["ticks"] = len(r.events)
        if not c["chains"][0]["ops"]:
            t = c["s"]
            for k, e in enumerate(r.events):
                if e[0] != "N" or e[1] != k or e[2] != t:
                    bad.append(f"tick {k}: {r.brief()}")
                    break
                if e[4] is None:
                    break
                t = e[4] + c["p"]
        elif fns:
            # the first operator's function is entered per tick: previous outputs must all have been handled
            calls = [s for s in case.log if s[2] == fns[0].name and s[3] == "call"]
            for s in calls:
                if any(e[3] < s[0] and (e[5] is None or e[5] > s[0]) for e in r.events):
                    bad.append(f"tick {s[4]} was produced while the previous one was still being handled")
                    break
    key = (kind, tuple(tuple(o[0] for o in ch["ops"]) for ch in c["chains"]), tuple(r.trace() for r in recs))
    return Out(bad, key, cnt, sum(len(r.events) for r in recs) > 0, note=show([r.brief() for r in recs], 300))
