"""C18: debounce emits exactly the values followed by silence."""
import asyncio
import sys

from .. import pipes
from ..core import run_case
from ..gens import rerr, rbig, rvals
from ..kit import Case, Probe, Rec, same, show
from ..runner import Out
import aioreactive as rx
import aioreactive.timeshift as m_time
from aioreactive import AsyncRx
from expression import pipe

ID = "C18"
RULE = ("random arrival patterns around the timeout (bursts, gaps just below/equal/above it, repeated equal values), terminals at every "
        "distance from the last value, slow observers, 1-3 subscriptions; each emission and each drop is judged against the arrival times "
        "(gaps exactly equal to the timeout may go either way); distinct: timeline and trace")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"emitted": 2000, "dropped": 2000, "terminals": 1000, "equal_repeats": 300, "overtaken": 200}
KEEP = ("ev", "subs", "d")
Q = 1 / 64
sys.setrecursionlimit(20000)


def gen(rng, tier):
    d = rng.choice([Q, 0.25, 0.5, 1.0, 1.0, 2.0])
    t, ev = 0.0, []
    n = rbig(rng, 0.01, (40, 150, 300, 1100)) or rng.choice([0, 1, 2, 3, 4, 6, 10])
    for v in rvals(rng, n, rng.choice([0.3, 0.9])):
        t += rng.choice([0, 0, Q, d - Q, d, d + Q, 2 * d, d / 2, d / 2, 3 * d])
        ev.append([t, "N", v])
        if len(ev) > 1 and rng.random() < 0.2:
            ev[-1][2] = ev[-2][2]
    r = rng.random()
    t += rng.choice([0, Q, d - Q, d, d + Q, d / 2, 3 * d])
    if r < 0.3:
        ev.append([t, "E", rerr(rng, 1)])
    elif r < 0.85:
        ev.append([t, "C"])
    subs, t = [], 0.0
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        lat = []
        if rng.random() < 0.25:
            lat = [rng.choice([None, ["s", rng.choice([Q, d / 2, d, 2 * d])], ["y", 2]]) for _ in range(rng.randrange(1, 4))]
        subs.append({"t": t, "lat": lat})
        t += rng.choice([0, d / 2, 5 * d])
    return {"d": d, "ev": ev, "subs": subs, "style": rng.randrange(3), "sync": rng.choice([0, 0, 0, 1, 2]), "spawn": rng.random() < 0.2}


def run(c):
    case = Case()
    recs, st = [], {}
    d = c["d"]

    async def main():
        p = st["p"] = Probe(case, {"ev": c["ev"], "sync": c.get("sync", 0), "spawn": c.get("spawn")}, "src")
        p.payload = pipes.payload_of(case, "src")
        s = c.get("style", 0)
        o = AsyncRx(p).debounce(d) if s == 2 else pipe(p, [rx.debounce, m_time.debounce][s](d))
        for i, s in enumerate(c["subs"]):
            dt = s["t"] - case.now()
            if dt > 0:
                await asyncio.sleep(dt)
            r = Rec(case, f"o{i}", {"lat": s.get("lat")})
            recs.append(r)
            await r.subscribe(o)

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    cnt = {"emitted": 0, "dropped": 0, "terminals": 0, "equal_repeats": 0, "overtaken": 0, "ties": 0}
    for i, r in enumerate(recs):
        iss = [q for q in st["p"].issues if q[4] == i]
        slow = any(c["subs"][i].get("lat") or [])
        vs = [q for q in iss if q[2] == "N"]
        ts = [q for q in iss if q[2] != "N"]
        T = ts[0][1] if ts else None
        cnt["equal_repeats"] += sum(same(a[3], b[3]) for a, b in zip(vs, vs[1:]))
        must, may = [], []  # indices
        for k, q in enumerate(vs):
            due = q[1] + d
            nxt = vs[k + 1][1] if k + 1 < len(vs) else None
            if nxt is not None and nxt < due:
                continue
            if (nxt is not None and nxt == due) or (T is not None and T <= due):
                may.append(k)
                if T is not None and T <= due:
                    cnt["overtaken"] += 1
                else:
                    cnt["ties"] += 1
            else:
                must.append(k)
        got = [e for e in r.events if e[0] == "N"]
        cnt["emitted"] += len(got)
        cnt["dropped"] += len(vs) - len(got)
        cnt["terminals"] += len(r.terminals())
        # match the emissions, in order, against must/may; a must cannot be skipped
        cand = sorted(must + may)

        def fits(j, e):
            due = vs[j][1] + d
            if not same(vs[j][3], e[1]):
                return False
            if e[2] == due or (slow and e[2] >= due):
                return True
            return T is not None and T <= due and (e[2] == T or (slow and e[2] >= T))

        def match(g, x):
            if g == len(got):
                return not any(j in must for j in cand[x:])
            while x < len(cand):
                if fits(cand[x], got[g]) and match(g + 1, x + 1):
                    return True
                if cand[x] in must:
                    return False
                x += 1
            return False

        if not match(0, 0):
            bad.append(f"emissions {r.brief()} do not follow from the arrivals {show([(q[3], q[1]) for q in vs], 250)}, timeout {d}, end {T}; "
                       f"required {[(show(vs[j][3]), vs[j][1] + d) for j in must]}, optional {[(show(vs[j][3]), vs[j][1] + d) for j in may]}")
        te = r.terminals()
        if ts:
            if [e[0] for e in te] != [ts[0][2]] or (ts[0][2] == "E" and te[0][1] is not ts[0][3]):
                bad.append(f"terminal of the source not forwarded: {r.brief()}")
            elif te[0][2] != T and not (slow and te[0][2] > T):
                bad.append(f"terminal of t={T} forwarded at t={te[0][2]}")
        elif te:
            bad.append(f"made-up terminal: {r.brief()}")
        if len(iss) != len(c["ev"]):
            bad.append("the source was held up")
    return Out(bad, (d, tuple((q[1], q[2]) for q in st["p"].issues), tuple(r.trace() for r in recs)), cnt, len(st["p"].issues) > 0,
               note=show([r.brief() for r in recs], 300))
