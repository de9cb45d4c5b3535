"""C17: delay, interval and timer keep the exact timeline."""
import asyncio

from .. import pipes
from ..core import run_case
from ..gens import rerr, rbig, rvals
from ..kit import Case, Probe, Rec, same, show
from ..runner import Out
import aioreactive as rx
import aioreactive.create as m_create
import aioreactive.timeshift as m_time
from aioreactive import AsyncRx
from expression import pipe

ID = "C17"
RULE = ("random notification timelines (bursts, gaps smaller and larger than the delay, ties) through delay / chained delays / delay around "
        "map, and interval/timer with random start, period and observer speed, 1-3 subscriptions at different times; every arrival time is "
        "compared exactly with the model (all times multiples of 1/64 s); distinct: timeline and arrival trace")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"arrivals": 5000, "overlapping_delays": 500, "busy": 500, "multi": 500, "errors": 300, "ticks": 1000}
KEEP = ("kind", "ev", "subs", "d", "s", "p")
Q = 1 / 64
LONG = [61.0, 3600.5, 3661.0, 86400.0, 90000.25, 700000.0]


def rt(rng, hi=4.0):
    return rng.choice([0, Q, 0.125, 0.25, 0.5, 1.0, 1.0, 1.5, hi, rng.randrange(0, 200) * Q if rng.random() < 0.97 else rng.choice(LONG)])


def gen(rng, tier):
    kind = rng.choice(["delay", "delay", "delay2", "delaymap", "interval", "timer"])
    subs, t = [], 0.0
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        lat = []
        if rng.random() < 0.4:
            lat = [rng.choice([None, ["s", rt(rng)], ["y", 2]]) for _ in range(rng.randrange(1, 4))]
        subs.append({"t": t, "lat": lat})
        t += rt(rng)
    c = {"kind": kind, "subs": subs, "style": rng.randrange(3)}
    if kind in ("interval", "timer"):
        c["s"] = rt(rng)
        c["p"] = rng.choice([0, 0.25, 0.5, 1.0, 1.75, Q, 1 / 2048, rt(rng)])
        if rng.random() < 0.05:
            c["s"] = 1 / 4096
        c["n"] = rng.randrange(1, 9)
        if rng.random() < 0.01:
            c["n"] = rng.choice([40, 150, 300, 1100])
            c["p"] = rng.choice([Q, 0.25, 1.0])
            for s in subs:
                s["lat"] = s["lat"] if c["n"] < 200 else []
        return c
    c["d"] = rt(rng) if rng.random() < 0.9 else 0
    c["d2"] = rt(rng)
    t, ev = 0.0, []
    n = rbig(rng, 0.01, (40, 150, 300)) or rng.choice([0, 1, 2, 3, 4, 6, 10])
    for v in rvals(rng, n):
        t += rt(rng, 2.0)
        ev.append([t, "N", v])
    r = rng.random()
    t += rt(rng, 2.0)
    if r < 0.35:
        ev.append([t, "E", rerr(rng, 1)])
    elif r < 0.9:
        ev.append([t, "C"])
    c["ev"] = ev
    c["sync"] = rng.choice([0, 0, 0, 1, 2])
    c["spawn"] = rng.random() < 0.2
    return c


def chain(times, d, lats):
    """Arrival and exit times of a serial delay stage with a consumer that takes lats[i]."""
    out, free = [], 0.0
    for i, t in enumerate(times):
        a = max(t + d, free)
        free = a + lats[i]
        out.append(a)
    return out


def run(c):
    case = Case()
    recs, st = [], {}
    kind = c["kind"]

    async def main():
        loop = asyncio.get_running_loop()
        style = c.get("style", 0)
        if kind in ("interval", "timer"):
            if kind == "interval":
                o = [rx.interval, m_create.interval][style % 2](c["s"], c["p"])
            else:
                o = [rx.timer, m_create.timer][style % 2](c["s"])
        else:
            p = st["p"] = Probe(case, {"ev": c["ev"], "sync": c.get("sync", 0), "spawn": c.get("spawn")}, "src")
            p.payload = pipes.payload_of(case, "src")

            def delay(src, d):
                if style == 2:
                    return AsyncRx(src).delay(d)
                return pipe(src, [rx.delay, m_time.delay][style](d))

            o = delay(p, c["d"])
            if kind == "delay2":
                o = delay(o, c["d2"])
            elif kind == "delaymap":
                o = delay(pipe(o, rx.map(lambda x: x)), c["d2"])
        for i, s in enumerate(c["subs"]):
            dt = s["t"] - case.now()
            if dt > 0:
                await asyncio.sleep(dt)
            beh = {"lat": s.get("lat")}
            if kind == "interval" and c["p"]:
                beh["dispose"] = c["n"] - 1
            r = Rec(case, f"o{i}", beh)
            recs.append(r)
            r.t_sub = case.now()
            await r.subscribe(o)

    res = run_case(main, horizon=1000.0 + 1e8)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    cnt = {"kind:" + kind: 1, "arrivals": 0, "overlapping_delays": 0, "busy": 0, "multi": int(len(recs) > 1), "errors": 0, "ticks": 0}
    for i, r in enumerate(recs):
        cnt["arrivals"] += len(r.events)
        lat = c["subs"][i].get("lat") or []

        def lt(k):
            x = lat[k % len(lat)] if lat else None
            return x[1] if x and x[0] == "s" else 0.0

        if kind in ("interval", "timer"):
            p = c["p"] if kind == "interval" else 0
            n = c["n"] if p else 1
            t = r.t_sub + c["s"]
            want = []
            for k in range(n):
                want.append(("N", k, t))
                t += lt(k) + p
            if not p:
                want.append(("C", None, t))
            cnt["ticks"] += len(r.events)
            got = [(e[0], e[1], e[2]) for e in r.events]
            if len(got) != len(want) or any(g[0] != w[0] or not same(g[1], w[1]) or g[2] != w[2] for g, w in zip(got, want)):
                bad.append(f"subscription {i} at t={r.t_sub}: {show(got, 250)} instead of {show(want, 250)}")
            continue
        iss = [q for q in st["p"].issues if q[4] == i]
        times = [q[1] for q in iss]
        lats, k = [], 0
        for q in iss:
            lats.append(lt(k) if q[2] == "N" else 0.0)
            k += q[2] == "N"
        if kind == "delay":
            want = chain(times, c["d"], lats)
        else:
            want = chain(chain(times, c["d"], [0.0] * len(iss)), c["d2"], lats)
        cnt["busy"] += sum(w > t + c["d"] + (c["d2"] if kind != "delay" else 0) for t, w in zip(times, want))
        cnt["overlapping_delays"] += sum(b - a < c["d"] for a, b in zip(times, times[1:]))
        cnt["errors"] += sum(q[2] == "E" for q in iss)
        if [q[2] for q in iss] != [e[0] for e in r.events] or any(q[3] is not e[1] and not same(q[3], e[1]) for q, e in zip(iss, r.events)):
            bad.append(f"subscription {i}: notifications {r.brief()} instead of {show([(q[2], q[3], q[1]) for q in iss], 250)}")
        elif any(w != e[2] for w, e in zip(want, r.events)):
            bad.append(f"subscription {i}: arrivals at {[e[2] for e in r.events]} instead of {want} (issued at {times})")
        if len(iss) != len(c["ev"]):
            bad.append(f"subscription {i}: source was held up, only {len(iss)} of {len(c['ev'])} issued")
        if any(q[1] != r.t_sub + e[0] for q, e in zip(iss, c["ev"])) and not c.get("sync"):
            bad.append("the source was held up by the delay")
    return Out(bad, (kind, c.get("d"), tuple(r.trace() for r in recs)), cnt, cnt["arrivals"] > 0, note=show([r.brief() for r in recs], 300))
