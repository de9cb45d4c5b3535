"""C08: combine_latest and with_latest_from pair the right values."""
import asyncio

from .. import pipes
from ..core import run_case
from ..gens import rerr, rbig, rlat, rvals
from ..kit import Case, Probe, Rec, sames, show, val
from ..runner import Out
import aioreactive as rx
import aioreactive.combine as m_combine
from aioreactive import AsyncRx
from expression import pipe

ID = "C08"
RULE = ("random histories of two inputs: distinct instants, bursts inside one instant from one awaiting producer, synchronous "
        "emission during subscribe; element pool includes None/falsy/option/notification values; the pair sequence is computed from "
        "the issue log; distinct: operator, history, trace")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"pairs": 2000, "errors": 200, "completions": 200}
KEEP = ("op", "ev", "beh")
OPS = ["cl", "cl_mod", "cl_m", "wl", "wl_mod", "wl_m"]


def gen(rng, tier):
    n = rbig(rng) or rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    ev, t = [], 0.0
    mode = rng.choice(["seq", "timed", "subject", "seq", "timed", "subject", "self"])
    for v in rvals(rng, n, rng.choice([0.2, 0.8])):
        t += rng.choice([0, 0, 1, 2]) if mode != "timed" else rng.choice([1, 1, 2])
        ev.append([t, rng.randrange(2), "N", v])
    r = rng.random()
    if r < 0.3:
        t += rng.choice([0, 1]) if mode != "timed" else 1
        ev.append([t, rng.randrange(2), "E", rerr(rng, 1)])
    elif r < 0.65:
        t += rng.choice([0, 1]) if mode != "timed" else 1
        ev.append([t, rng.randrange(2), "C"])
    if r < 0.65 and rng.random() < 0.5:  # life goes on at the other input
        w = 1 - ev[-1][1]
        for v in rvals(rng, rng.randrange(1, 3)):
            t += 1
            ev.append([t, w, "N", v])
        ev.append([t + 1, w, rng.choice("CE"), 0])
    return {"op": rng.choice(OPS), "mode": mode, "ev": ev, "beh": {"lat": rlat(rng, 0.35)},
            "sync": [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 1, 2])] if mode == "timed" else [0, 0]}


def run(c):
    case = Case()
    r = Rec(case, "o", c.get("beh"))
    mode = c.get("mode", "timed")
    wl = c["op"].startswith("wl")
    iss = []

    async def main():
        pay = [pipes.payload_of(case, "a"), pipes.payload_of(case, "b")]
        if mode == "timed":
            ps = []
            for w in (0, 1):
                p = Probe(case, {"ev": [[e[0]] + e[2:] for e in c["ev"] if e[1] == w], "sync": c.get("sync", [0, 0])[w]}, "ab"[w])
                p.payload = pay[w]
                ps.append(p)
        elif mode == "seq":
            ps = [Probe(case, {"ev": []}, "a"), Probe(case, {"ev": []}, "b")]
            for w in (0, 1):
                ps[w].payload = pay[w]
        else:
            ps = [rx.AsyncSubject(), rx.AsyncSubject()]
            if mode == "self":
                ps[1] = ps[0]
        a, b = ps
        o = {
            "cl": lambda: pipe(a, rx.combine_latest(b)),
            "cl_mod": lambda: pipe(a, m_combine.combine_latest(b)),
            "cl_m": lambda: AsyncRx(a).combine_latest(b),
            "wl": lambda: pipe(a, rx.with_latest_from(b)),
            "wl_mod": lambda: pipe(a, m_combine.with_latest_from(b)),
            "wl_m": lambda: AsyncRx(a).with_latest_from(b),
        }[c["op"]]()
        await r.subscribe(o)
        if mode == "timed":
            case.ps = ps
            return
        for e in c["ev"]:
            dt = e[0] - case.now()
            if dt > 0:
                await asyncio.sleep(dt)
            w, k = e[1], e[2]
            x = pay[w](k, e[3] if len(e) > 3 else None)
            if mode == "seq":
                s = ps[w].subs[0]
                iss.append((case.seq, case.now(), k, x, w))
                if not s.live:
                    iss.pop()
                    continue
                await ps[w].emit(s, [0] + e[2:])
            else:
                for u in (0, 1) if mode == "self" else (w,):
                    iss.append((case.seq, case.now(), k, x, u))
                if k == "N":
                    await ps[w].asend(x)
                elif k == "E":
                    await ps[w].athrow(x)
                else:
                    await ps[w].aclose()

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    if mode == "timed":
        for w, p in enumerate(case.ps):
            for q in p.issues:
                iss.append((q[0], q[1], q[2], q[3], w))
        iss.sort(key=lambda x: x[0])
    first = next((x for x in iss if x[2] != "N"), None)

    def pairs(order):
        latest, want = [None, None], []
        for x in order:
            if x is first or x[2] != "N":
                break
            latest[x[4]] = (x[3],)
            if latest[0] and latest[1] and (not wl or x[4] == 0):
                want.append((latest[0][0], latest[1][0]))
        return want

    got = r.values()
    want = pairs(iss)
    if mode == "self" and not sames(got[: len(want)], want):  # which of the two inputs hears the shared source first is not fixed
        want = pairs([x for i in range(0, len(iss), 2) for x in (iss[i + 1], iss[i])])
    terms = r.terminals()
    if not sames(got[: len(want)], want) or (len(got) > len(want) and (first is None or first[2] == "E")):
        bad.append(f"pairs {show(got, 300)} instead of {show(want, 300)}")
    if first is not None and first[2] == "E":
        if [e[0] for e in terms] != ["E"] or terms[0][1] is not first[3]:
            bad.append(f"error of an input not forwarded: {r.brief()}")
    elif first is None and terms:
        bad.append(f"terminated although no input has: {r.brief()}")
    cnt = {"op:" + c["op"]: 1, "mode:" + mode: 1, "pairs": len(got), "issued": len(iss),
           "errors": sum(e[0] == "E" for e in terms), "completions": sum(e[0] == "C" for e in terms)}
    return Out(bad, (c["op"], tuple((x[1], x[2], x[4]) for x in iss), r.trace()), cnt, len(iss) > 0, note=r.brief())
