"""C30: a pipeline is an inert value; it can be built anywhere and used on any event loop."""
import asyncio

from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, rlat, rpause
from ..kit import Case, Rec, show
from ..realloop import RealLoop
from ..runner import Out

ID = "C30"
RULE = ("random pipelines (nested up to two levels) built once, outside any event loop or on a loop of their own, then used on two to four event loops "
        "one after another, the earlier ones abandoned at a random moment and closed; building must cause no event at all (subscribe, "
        "function call, iteration, task, timer) and the trace on every loop that is run to its end must equal that of a fresh pipeline on a fresh loop; "
        "distinct: operators and traces")
BUDGET = {"quick": (40000, 240), "thorough": (200000, 600)}
REQUIRED = {"compared": 15000, "nonempty": 8000, "built_without_loop": 6000, "built_on_loop": 3000, "abandoned": 6000, "abandoned_live": 2000, "errors": 1500, "many_subs": 3000, "asyncio_loop": 10000} | {
    "op:" + x: 80 for x in gens.GUARDED + ("catch", "retry", "delay", "slice", "scan", "map")}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "subs", "cuts")
OPTS = {"many": 0.01, "byval": True, "vboom": 0.15, "once": False, "defer": 0.2}


def gen(rng, tier):
    subs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        beh = {"lat": rlat(rng, 0.4), "tlat": rpause(rng, 0.15)}
        if rng.random() < 0.08:
            beh["raise"] = {str(rng.randrange(3)): rerr(rng)}
        s = {"beh": beh, "t": rng.choice([0, 0, 0, 0.25, 1])}
        if rng.random() < 0.15:
            s["dis"] = rng.choice([0, 0.25, 0.5, 1])
        subs.append(s)
    cuts = [rng.choice([None, 0, 0, 0.125, 0.25, 0.5, 1, 2]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"pipe": gens.any_pipe(rng, OPTS, rng.choice([0, 0, 1, 1, 2])), "subs": subs, "cuts": cuts, "loop": int(rng.random() < 0.35), "bases": [rng.choice([0.0, 0.0, 7.5, 1000.25, -999.0, -1000.0]) for _ in range(2)],
            "kinds": [rng.choice([0, 1, 1, 2]) for _ in range(2)]}


def build(c, case):
    share = pipes.SHARE
    pipes.SHARE = None
    try:
        return pipes.build(case, c["pipe"], "p", {})
    finally:
        pipes.SHARE = share


def use(c, case, obs, cut, base, kind=0):
    """One loop: make all subscriptions of the case; cut: stop the loop at that moment; kind 1, 2: asyncio's own loop, with debugging on."""
    recs = []

    async def main():
        loop = asyncio.get_running_loop()
        o = obs if obs is not None else build(c, case)

        async def one(i, s):
            if s["t"]:
                await asyncio.sleep(s["t"])
            r = Rec(case, f"o{i}", s["beh"], grammar=False, overlap=False)
            recs[i] = r
            try:
                await r.subscribe(o, i % 3)
            except Exception as ex:
                r.events.append(["X", ex, case.now(), 0, 0, 0])
                return
            if s.get("dis") is not None:
                await asyncio.sleep(s["dis"])
                await r.sub.dispose_async()

        for i, s in enumerate(c["subs"]):
            recs.append(None)
            loop.create_task(one(i, s))

    start = core.T0 + base
    res = run_case(main, horizon=start + (12.0 if cut is None else cut), max_ticks=60000, start=start, loop=RealLoop(start, kind == 2) if kind else None)
    return [() if r is None else tuple((e[0], show(e[1]), round(e[2] - base, 6)) for e in r.events) for r in recs], res


def run(c):
    bad = []
    cnt = dict.fromkeys([k for k in REQUIRED if ":" not in k], 0)
    ref, res = use(c, Case(), None, None, 0.0)
    if res.status == "livelock":
        bad.append("the subscriptions do not come to rest")
    case = Case()
    seen = []
    if c.get("loop"):
        async def maker():
            return build(c, case)

        r0 = run_case(maker, horizon=core.T0 + 100.0)
        obs = r0.result
        if r0.main_exc is not None:
            bad.append(f"building failed with {r0.main_exc!r}")
        elif r0.status != "idle" or r0.end_time != core.T0 or r0.ticks > 4:
            bad.append(f"building the pipeline started something on the loop ({r0.status}, {r0.ticks} steps, t={r0.end_time - core.T0})")
        cnt["built_on_loop"] = 1
    else:
        asyncio.set_event_loop(None)
        try:
            obs = build(c, case)
        except Exception as ex:
            obs = None
            bad.append(f"building failed outside an event loop: {ex!r}")
        cnt["built_without_loop"] = 1
    if case.log:
        bad.append(f"building the pipeline caused {show(case.log[:3], 200)}")
    if obs is not None and not bad:
        for n, cut in enumerate(list(c["cuts"]) + [None]):
            kind = c.get("kinds", [0])[n % len(c.get("kinds", [0]))]
            tr, res = use(c, case, obs, cut, c.get("bases", [0.0])[n % len(c.get("bases", [0.0]))], kind)
            cnt["asyncio_loop"] += kind > 0
            seen.append(tr)
            if cut is None:
                if kind:
                    # within one instant the order may depend on the kind of loop
                    ref, _ = use(c, Case(), None, None, 0.0, 1)
                cnt["compared"] += 1
                cnt["nonempty"] += any(ref)
                for i, (a, b) in enumerate(zip(ref, tr)):
                    if a != b:
                        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                        bad.append(f"subscription {i} on loop {n + 1} (earlier loops stopped at {c['cuts'][:n]}): ...{show(b[max(k - 2, 0): k + 4], 220)}; fresh pipeline: "
                                   f"...{show(a[max(k - 2, 0): k + 4], 220)}")
                if bad:
                    break
            else:
                cnt["abandoned"] += 1
                cnt["abandoned_live"] += tr != ref
    cnt["errors"] += any(e[0] == "E" for t in ref for e in t)
    cnt["many_subs"] += len(ref) > 1
    for x in set(gens.op_names(c["pipe"])):
        cnt["op:" + x] = 1
    return Out(bad[:3], (tuple(gens.op_names(c["pipe"])), tuple(c["cuts"]), tuple(ref)), cnt, True, note=show(ref, 300))
