"""C19: run and awaitable observers resolve to the outcome of the stream."""
import asyncio

from .. import pipes
from ..core import run_case
from ..gens import rerr, cold_src, elem_op, rbig, rlen, rpause, rvals
from ..kit import Case, Probe, boom, pause, same, sames, show
from ..runner import Out
import aioreactive as rx
from aioreactive import AsyncAwaitableObserver, AsyncRx

ID = "C19"
RULE = ("run() and awaited AsyncAwaitableObservers over timed sources and random pipelines; timeouts before/after the end, streams that "
        "never end, cancelled runs, slow and failing callbacks, notifications after the end; outcome, callback log and state of the "
        "upstream subscription at return are compared with the issue log; distinct: mode, history, outcome")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"returned": 2000, "raised": 1000, "cancelled": 300, "timeout": 300, "callbacks": 2000, "run_cancelled": 200}
KEEP = ("mode", "src", "ops", "ev")


def gen(rng, tier):
    mode = rng.choice(["run", "run", "run", "runobs", "runobs", "await", "direct"])
    c = {"mode": mode, "lat": [rpause(rng, 0.3) for _ in range(rng.randrange(2))], "cb": rng.randrange(8)}
    if mode == "direct" or rng.random() < 0.6:
        t, ev = 0.0, []
        for v in rvals(rng, rlen(rng, 6)):
            t += rng.choice([0, 0.25, 0.5, 1])
            ev.append([t, "N", v])
        t += rng.choice([0, 0.25, 1])
        r = rng.random()
        if r < 0.3:
            ev.append([t, "E", rerr(rng, 1)])
        elif r < 0.85:
            ev.append([t, "C"])
        if mode == "direct" and rng.random() < 0.5:
            for _ in range(rng.randrange(1, 4)):
                t += 0.5
                ev.append([t, rng.choice("NEC"), rng.randrange(5)])
        if mode == "direct":
            c["dspawn"] = rng.random() < 0.3
            if rng.random() < 0.25:
                c["dboom"] = rng.randrange(4)
            if rng.random() < 0.25:
                c["dtboom"] = True
            if rng.random() < 0.15:
                c["dcancel"] = rng.choice([0.125, 0.625, 1.625])
        c["src"], c["ops"] = ["probe", {"ev": ev, "sync": rng.choice([0, 0, 0, 1, 9])}], []
        if mode != "direct" and rng.random() < 0.3:
            c["src"][1]["hold"] = True
    else:
        ops = []
        for _ in range(rng.randrange(0, 3)):
            ops += elem_op(rng)
        c["src"], c["ops"] = cold_src(rng, rlen(rng, 6), rng.choice("CCE")), ops
    if mode in ("run", "runobs"):
        c["timeout"] = rng.choice([None, 0, "inf", 0.3125, 0.8125, 1.3125, 2.125, 50, 50])
        if rng.random() < 0.12:
            c["cancel"] = rng.choice([0, 0.125, 0.625, 1.625])
    if mode in ("runobs",) and rng.random() < 0.2 and c["src"][0] in ("iter", "aiter"):
        c["cbraise"] = rng.randrange(3)
    return c


def run(c):
    case = Case()
    st = {"out": None}
    cb = []
    mode = c["mode"]

    async def main():
        loop = asyncio.get_running_loop()
        lat = c.get("lat") or []

        async def asend(v):
            i = sum(x[0] == "N" for x in cb)
            cb.append(("N", v, case.now()))
            if lat:
                await pause(lat[i % len(lat)])
            if c.get("dboom") == i and mode == "direct":
                raise boom("direct")
            if c.get("cbraise") == i:
                st["cbexc"] = boom("cb")
                raise st["cbexc"]

        async def athrow(e):
            cb.append(("E", e, case.now()))
            if c.get("dtboom"):
                raise boom("direct")

        async def aclose():
            cb.append(("C", None, case.now()))
            if c.get("dtboom"):
                raise boom("direct")

        obv = None
        if mode != "run":
            kw = {}
            if c["cb"] & 1 or mode == "direct":
                kw["asend"] = asend
            if c["cb"] & 2:
                kw["athrow"] = athrow
            if c["cb"] & 4:
                kw["aclose"] = aclose
            st["kw"] = kw
            obv = AsyncAwaitableObserver(**kw)
        if mode == "direct":
            pay = pipes.payload_of(case, "src")
            st["fed"] = fed = []

            async def issue(e):
                dt = e[0] - case.now()
                if dt > 0:
                    await asyncio.sleep(dt)
                x = pay(e[1], e[2] if len(e) > 2 else None)
                fed.append((e[1], x, case.now()))
                try:
                    if e[1] == "N":
                        await obv.asend(x)
                    elif e[1] == "E":
                        await obv.athrow(x)
                    else:
                        await obv.aclose()
                except Exception as ex:
                    if getattr(ex, "tag", None) != "direct":
                        raise

            async def feed():
                for e in c["src"][1]["ev"]:
                    await issue(e)

            if c.get("dspawn"):
                st["feed"] = [loop.create_task(issue(e)) for e in c["src"][1]["ev"]]
            else:
                st["feed"] = loop.create_task(feed())
            if c.get("dcancel") is not None:
                def giveup():
                    st["gaveup"] = obv.cancel()

                loop.call_later(c["dcancel"], giveup)
            coro = asyncio.wait_for(asyncio.shield(_aw(obv)), 100)
        else:
            src = pipes.build(case, {"src": c["src"], "ops": c["ops"]})
            if mode == "await":
                sub = await src.subscribe_async(obv)
                coro = asyncio.wait_for(asyncio.shield(_aw(obv)), 100)
            else:
                kw2 = {}
                if c.get("timeout") is not None:
                    kw2["timeout"] = None if c["timeout"] == "inf" else c["timeout"]
                coro = rx.run(src, obv, **kw2) if obv is not None else rx.run(src, **kw2)
        t = loop.create_task(coro) if not asyncio.isfuture(coro) else coro

        def ended(_):
            st["at"] = case.now()
            st["live"] = [s for s in case.__dict__.get("psubs", []) if s.live and s.t_ret is not None]

        t.add_done_callback(ended)
        if c.get("cancel") is not None:
            await asyncio.sleep(c["cancel"])
            if not t.done():
                st["cancelled"] = True
                t.cancel()
        await asyncio.wait([t])
        if t.cancelled():
            st["out"] = ("cancel", None)
        elif t.exception() is not None:
            st["out"] = ("raise", t.exception())
        else:
            st["out"] = ("value", t.result())

    async def _aw(o):
        return await o

    res = run_case(main, horizon=1000.0 + 400)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    out = st["out"]
    cnt = {"mode:" + mode: 1, "returned": 0, "raised": 0, "cancelled": 0, "timeout": 0, "callbacks": len(cb), "run_cancelled": int(st.get("cancelled", False))}
    if out is None and c.get("timeout") == "inf" and not any(q[2] != "N" for p in case.__dict__.get("probes", []) for q in p.issues) \
            and c["src"][0] == "probe":
        return Out(bad, "endless", cnt)
    if out is None:
        return Out(bad + [f"run/await never ended ({res.status})"], "hang")
    # expected outcome
    lat = sum((x[1] for x in (c.get("lat") or []) if x and x[0] == "s"), 0.0)
    probes = case.__dict__.get("probes", [])
    if mode == "direct":
        fed = st["fed"]
        k = next((i for i, e in enumerate(fed) if e[0] != "N"), None)
        vals = [e[1] for e in (fed if k is None else fed[:k])]
        term = None if k is None else fed[k]
        terr = term[1] if term and term[0] == "E" else None
        term = term and term[0]
        tend = None
    elif probes:
        q = probes[0].issues
        vals = [x[3] for x in q if x[2] == "N"]
        tx = [x for x in q if x[2] != "N"]
        term, terr = (tx[0][2], tx[0][3]) if tx else (None, None)
        tend = tx[0][1] if tx else None
        if c["ops"]:
            vals, t2 = pipes.model({"src": c["src"], "ops": c["ops"]})
    else:
        vals, t2 = pipes.model({"src": c["src"], "ops": c["ops"]})
        term, terr, tend = ("C", None, None) if t2 == "C" else ("E", (case.__dict__.get("srcerr") or [None])[0], None)
    timeout = 100 if mode not in ("run", "runobs") else (2 if c.get("timeout") is None else 10 ** 6 if c["timeout"] == "inf" else c["timeout"])
    if "cbexc" in st:
        term, terr = "E", st["cbexc"]
    if out[0] == "raise" and isinstance(out[1], asyncio.TimeoutError) and getattr(out[1], "tag", None) is None:
        cnt["timeout"] += 1
        held = bool(c["src"][1].get("sync") and (lat or c["ops"])) or c["src"][0] == "create" or c["src"][0] == "defer"
        if (st["at"] < timeout or (st["at"] != timeout and not held)) and mode in ("run", "runobs"):
            bad.append(f"timed out at t={st['at']} with timeout {timeout}")
        if mode in ("await", "direct") and term is not None:
            bad.append("the awaitable observer never resolved")
        if probes and term is not None and tend is not None and tend < timeout and mode == "run" and not c["ops"]:
            bad.append(f"timed out although the stream ended at t={tend}")
    elif st.get("gaveup"):
        if out[0] != "cancel":
            bad.append(f"{out[0]} {show(out[1])} although the awaitable was cancelled before the end")
    elif st.get("cancelled"):
        if out[0] != "cancel" and term is None:
            bad.append(f"cancelled run ended with {out}")
    elif term is None:
        bad.append(f"ended with {show(out)} although the stream did not end")
    elif term == "E":
        cnt["raised"] += 1
        if out[0] != "raise" or (terr is not None and out[1] is not terr):
            bad.append(f"{out[0]} {out[1]!r} instead of raising {terr!r}")
    elif vals:
        cnt["returned"] += 1
        if out[0] != "value" or not same(out[1], vals[-1]):
            bad.append(f"{out[0]} {show(out[1])} instead of the last value {show(vals[-1])}")
    else:
        cnt["cancelled"] += 1
        if out[0] != "cancel":
            bad.append(f"{out[0]} {show(out[1])} instead of cancelled")
    if mode in ("run", "runobs") and st["live"]:
        bad.append(f"run ended by {out[0]} but left {st['live'][0].probe.name} subscribed")
    # callbacks: once per notification, in order, until the end
    if mode == "direct" or (mode == "await" and term is not None) or (mode == "runobs" and term is not None and out[0] in ("value",) or out[0] == "raise" and out[1] is terr and mode != "run"):
        want = [("N", v) for v in vals]
        if "cbexc" in st:
            want = want[: c["cbraise"] + 1]
        if term:
            want.append((term, terr))
        kinds = {"asend": "N", "athrow": "E", "aclose": "C"}
        have = {kinds[k] for k in st["kw"]}
        want = [w for w in want if w[0] in have]
        if len(want) != len(cb) or any(w[0] != g[0] or (w[0] == "N" and not same(w[1], g[1])) or (w[0] == "E" and w[1] is not None and w[1] is not g[1]) for w, g in zip(want, cb)):
            bad.append(f"callbacks {show([x[:2] for x in cb], 200)} instead of {show(want, 200)}")
    key = (mode, c.get("timeout"), c.get("cancel"), tuple((x[0], show(x[1]), x[2]) for x in cb), out[0], show(out[1]), st["at"])
    return Out(bad, key, cnt, True, note=f"{mode}: {show(out)} at t={st['at']}, callbacks {show(cb, 150)}")
