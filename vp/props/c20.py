"""C20: subscriptions to one observable are independent."""
import asyncio

from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, rlat, rpause
from ..kit import Case, Rec, show
from ..runner import Out

ID = "C20"
RULE = ("random pipelines (nested up to two levels) subscribed two to four times at random times, with observers that are slow, raise or dispose; and one "
        "operator value applied to several sources; the complete trace (notifications and times) of every subscription is compared with that "
        "of the same subscription running alone; distinct: operators and traces")
BUDGET = {"quick": (52000, 240), "thorough": (120000, 600)}
REQUIRED = {"compared": 15000, "simultaneous": 3000, "sequential": 300, "sibling_disposed": 1500, "sibling_raised": 600, "sibling_slow": 1200,
            "shared_operator": 1000, "nonempty": 8000} | {"op:" + x: 80 for x in gens.GUARDED + ("catch", "retry", "delay", "slice", "scan", "map")}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "subs", "srcs")
OPTS = {"many": 0.01, "byval": True, "vboom": 0.2, "once": False}


def gen(rng, tier):
    p = gens.any_pipe(rng, OPTS, rng.choice([0, 1, 1, 2]))
    subs = []
    n = rng.choice([2, 2, 3, 4])
    for i in range(n):
        beh = {"lat": rlat(rng, 0.4), "tlat": rpause(rng, 0.15)}
        s = {"beh": beh, "t": rng.choice([0, 0, 0, 0.25, 0.5, 1, 1, 2, 4])}
        r = rng.random()
        if r < 0.15:
            beh["raise"] = {str(rng.randrange(3)): rerr(rng)}
        elif r < 0.3:
            s["dis"] = rng.choice([0, 0.25, 0.5, 1, 1.5])
        elif r < 0.4:
            beh["dispose"] = rng.choice([0, 1, 2, "T"])
        subs.append(s)
    c = {"pipe": p, "subs": subs}
    if rng.random() < 0.3:
        c["srcs"] = [gens.any_src(rng, OPTS) for _ in range(n)]
    return c


def go(c, which):
    """Run the chosen subscriptions of the case in one loop."""
    case = Case()
    recs = {}
    share = {} if c.get("srcs") and len(which) > 1 else None

    async def main():
        loop = asyncio.get_running_loop()
        obs = {}
        pipes.SHARE = share
        try:
            if c.get("srcs"):
                for i in which:
                    obs[i] = pipes.build(case, {"src": c["srcs"][i], "ops": c["pipe"]["ops"]}, "p", {})
            else:
                o = pipes.build(case, c["pipe"], "p", {})
                obs = {i: o for i in which}
        finally:
            pipes.SHARE = None

        async def one(i):
            s = c["subs"][i]
            if s["t"]:
                await asyncio.sleep(s["t"])
            r = recs[i] = Rec(case, f"o{i}", s["beh"], grammar=False, overlap=False)
            try:
                await r.subscribe(obs[i], i % 3)
            except Exception as ex:
                r.events.append(["X", ex, case.now(), 0, 0, 0])
                return
            if s.get("dis") is not None:
                await asyncio.sleep(s["dis"])
                await r.sub.dispose_async()

        for i in which:
            loop.create_task(one(i))

    res = run_case(main, horizon=core.T0 + 12.0, max_ticks=60000)
    return case, recs, res


def run(c):
    n = len(c["subs"])
    bad = []
    cnt = dict.fromkeys([k for k in REQUIRED if ":" not in k], 0)
    _, together, res = go(c, list(range(n)))
    if res.status == "livelock":
        bad.append("the subscriptions do not come to rest")
    solo = {}
    for i in range(n):
        _, alone, _ = go(c, [i])
        solo[i] = alone[i]
        a, b = alone[i].trace(), together[i].trace() if i in together else None
        cnt["compared"] += 1
        cnt["nonempty"] += bool(a)
        if a != b:
            k = next((k for k, (x, y) in enumerate(zip(a, b or ())) if x != y), min(len(a), len(b or ())))
            bad.append(f"subscription {i} alone: ...{show(a[max(k - 2, 0): k + 4], 220)}; with {n - 1} others: ...{show((b or ())[max(k - 2, 0): k + 4], 220)}")
    span = {i: (c["subs"][i]["t"], solo[i].events[-1][2] if solo[i].events else c["subs"][i]["t"]) for i in range(n)}
    cnt["simultaneous"] += any(span[i][0] <= span[j][1] and span[j][0] <= span[i][1] for i in range(n) for j in range(i))
    cnt["sequential"] += any(solo[i].ended and span[i][1] < span[j][0] and solo[j].events for i in range(n) for j in range(n))
    cnt["sibling_disposed"] += any("dis" in s or "dispose" in s["beh"] for s in c["subs"])
    cnt["sibling_raised"] += any(solo[i].raised for i in range(n))
    cnt["sibling_slow"] += any(e[4] is not None and e[4] > e[2] for i in range(n) for e in solo[i].events)
    cnt["shared_operator"] += bool(c.get("srcs"))
    for x in set(gens.op_names(c["pipe"])):
        cnt["op:" + x] = 1
    return Out(bad[:3], (tuple(gens.op_names(c["pipe"])), tuple(solo[i].trace() for i in range(n))), cnt, True, note=show([solo[i].brief() for i in range(n)], 300))
