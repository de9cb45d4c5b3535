"""C25: take and take_until end the stream as soon as they can."""
import asyncio

from .. import core, pipes
from ..core import run_case
from ..gens import rerr, rbig, rlen, rvals
from ..kit import Case, Probe, Rec, same, sames, show, val
from ..runner import Out
import aioreactive as rx
import aioreactive.filtering as m_filtering
from aioreactive import AsyncRx, AsyncSubject
from expression import pipe

ID = "C25"
RULE = ("take(n), slices with non-negative bounds, indexing and take_until (1-2 triggers) on hot and cold sources that may never end, with "
        "idle and slow observers; the instant of the completion is compared with the instant of the n-th value / of the trigger; "
        "distinct: operator, arguments and timed trace")
BUDGET = {"quick": (96000, 240), "thorough": (300000, 300)}
REQUIRED = {"early": 3000, "zero": 500, "slow": 1000, "endless": 2000, "triggered": 2000, "other_completed": 300, "errors": 500}
KEEP = ("kind", "ev", "others", "n", "a", "b")


def timeline(rng, n, frac, end):
    t, ev = 0.0, []
    for v in rvals(rng, n):
        t += rng.choice([0, 0, 1, 1, 2])
        ev.append([t + (frac if t else 0), "N", v])
    if end:
        t += rng.choice([0, 1, 2])
        ev.append([t + (frac if t else 0), *([end] if end == "C" else ["E", rerr(rng, 1)])])
    return ev


def fixed(tier):
    for n in range(0, 5):
        for m in range(0, 6):
            for end in (None, "C", "E"):
                for src in ("probe", "subject", "syncprobe"):
                    ev = [[float(i + 1), "N", i] for i in range(m)] + ([[float(m + 1), end, 0]] if end else [])
                    for st in range(3):
                        yield {"kind": "take", "n": n, "ev": ev, "style": st, "src": src, "lat": []}
                    for s in (1, 2, 3):
                        yield {"kind": "slice", "a": 0, "b": n, "s": s, "ev": ev, "style": 2, "src": src, "lat": []}
                        yield {"kind": "slice", "a": 1, "b": n, "s": s, "ev": ev, "style": 0, "src": src, "lat": []}
                    yield {"kind": "index", "n": n, "ev": ev, "style": 2, "src": src, "lat": []}


def gen(rng, tier):
    kind = rng.choice(["take", "take", "slice", "index", "until", "until", "until", "until"])
    end = rng.choice([None, None, "C", "E"])
    big = rbig(rng, 0.006, (40, 100, 200))
    c = {"kind": kind, "ev": timeline(rng, big or rlen(rng, 8), 1 / 8, end), "style": rng.randrange(3),
         "src": rng.choice(["probe", "probe", "probe", "subject", "interval"][: 4 if big else 5]), "sync": rng.choice([0, 0, 0, 1, 3]),
         "lat": [rng.choice([None, ["y", 2], ["s", 0.75], ["s", 1.5]]) for _ in range(rng.randrange(3))] if rng.random() < 0.5 else [],
         "pre": rng.randrange(2), "post": rng.randrange(2)}
    if kind == "take":
        c["n"] = rng.choice([0, 1, 1, 2, 3, 5, 9]) if not big else rng.choice([big // 2, big - 1, big, big + 1])
    elif kind == "index":
        c["n"] = rng.choice([0, 1, 2, 4])
    elif kind == "slice":
        c["a"], c["b"], c["s"] = rng.choice([None, 0, 1, 2, 4]), rng.choice([0, 1, 2, 3, 6]), rng.choice([None, 1, 2, 3])
    else:
        c["others"] = [timeline(rng, rng.choice([0, 0, 1, 1, 2]), (3 + i) / 16 if rng.random() < 0.7 else 1 / 8, rng.choice([None, "C", "C", "E"]))
                       for i in range(rng.choice([1, 1, 1, 2]))]
        if c["src"] == "interval" and not any(ev and ev[0][1] != "C" for ev in c["others"]):
            c["src"] = "probe"
        c["osync"] = rng.choice([0, 0, 0, 1])
    return c


def run(c):
    case = Case()
    r = Rec(case, "o", {"lat": c.get("lat")})
    st = {}
    kind = c["kind"]

    async def main():
        loop = asyncio.get_running_loop()
        pay = pipes.payload_of(case, "src")
        if c["src"] == "interval":
            src = rx.interval(0.125, 1)
        elif c["src"] == "subject":
            src = AsyncSubject()
            st["issues"] = iss = []

            async def feed():
                for e in c["ev"]:
                    dt = core.T0 + e[0] + 1 / 64 - loop.time()
                    await asyncio.sleep(max(dt, 0))
                    x = pay(e[1], e[2] if len(e) > 2 else None)
                    iss.append((case.now(), e[1], x))
                    await (src.asend(x) if e[1] == "N" else src.athrow(x) if e[1] == "E" else src.aclose())

            st["feed"] = loop.create_task(feed())
        else:
            src = st["p"] = Probe(case, {"ev": c["ev"], "sync": c.get("sync", 0) if c["src"] == "probe" else len(c["ev"]),
                                         "rude": c.get("rude")}, "src")
            src.payload = pay
        o = src
        if c.get("pre"):
            o = pipe(o, rx.map(lambda x: x))
        S = c.get("style", 0)

        def ap(o, name, x):
            return getattr(AsyncRx(o), name)(x) if S == 2 else pipe(o, getattr([rx, m_filtering][S], name)(x))

        if kind == "take":
            o = ap(o, "take", c["n"])
        elif kind == "slice":
            if S == 2:
                o = AsyncRx(o)[slice(c.get("a"), c.get("b"), c.get("s"))]
            else:
                o = pipe(o, m_filtering.slice(c.get("a"), c.get("b"), c.get("s") or 1))
        elif kind == "index":
            o = AsyncRx(o)[c["n"]]
        else:
            st["o"] = []
            for i, ev in enumerate(c["others"]):
                p = Probe(case, {"ev": ev, "sync": c.get("osync", 0)}, f"other{i}")
                p.payload = pipes.payload_of(case, f"other{i}")
                st["o"].append(p)
                o = ap(o, "take_until", p)
        if c.get("post"):
            o = pipe(o, rx.map(lambda x: x))
        r.t_sub = case.now()
        await r.subscribe(o)

    res = run_case(main, horizon=core.T0 + (60 if len(c["ev"]) < 40 else 1200))
    bad = case.bad
    if res.main_exc is not None:
        return Out(bad + [f"unexpected exception {res.main_exc!r}"], "exc")
    if c["src"] == "interval":
        src = [(0.125 + k, "N", k) for k in range(40)]
    else:
        src = [(e[0], e[1], val(e[2]) if e[1] == "N" else None) for e in c["ev"]]
        if c["src"] == "subject":
            src = [(e[0] + 1 / 64, *e[1:]) for e in src]
        elif c["src"] == "syncprobe":
            src = [(0.0, *e[1:]) for e in src]
        elif c["src"] == "probe":
            m = c.get("sync", 0)
            src = [(0.0 if i < m else e[0], *e[1:]) for i, e in enumerate(src)]
    lat = c.get("lat") or []

    def lt(k):
        x = lat[k % len(lat)] if lat else None
        return x[1] if x and x[0] == "s" else 0.0

    slow = any(x and x[0] == "s" for x in lat)
    vals = [e for e in src if e[1] == "N"]
    term = next((e for e in src if e[1] != "N"), None)
    got = r.events
    gv, gt = [e for e in got if e[0] == "N"], [e for e in got if e[0] != "N"]

    def serial(vs):
        """times at which a serial observer gets the values"""
        out, free = [], 0.0
        for k, e in enumerate(vs):
            a = max(e[0], free)
            out.append(a)
            free = a + lt(k)
        return out, free

    cnt = {"kind:" + kind: 1, "early": 0, "zero": 0, "slow": int(slow), "endless": int(term is None), "triggered": 0, "other_completed": 0,
           "errors": 0}
    if kind != "until":
        a, b = (0, c["n"]) if kind == "take" else ((c["n"], c["n"] + 1) if kind == "index" else (c.get("a") or 0, c.get("b") or 0))
        s = (c.get("s") or 1) if kind == "slice" else 1
        stop = max(a, b) if b <= a else b  # number of source values that decide the result
        n = 0 if b <= a else b
        want = vals[:n][a:b:s]
        wt, free = serial(want)
        if b <= a or len(vals) >= b:
            # completes with the value number b (at once if there is none to wait for)
            hi = 0.0 if b <= a else vals[b - 1][0]
            lo = want[-1][0] if want else 0.0
            k, early = "C", True
        elif term is not None:
            lo = hi = term[0]
            k, early = term[1], False
        else:
            lo = hi = k = None
            early = False
        cnt["early"] += early
        cnt["zero"] += b <= a
        cnt["errors"] += k == "E"
        if not sames([e[1] for e in gv], [e[2] for e in want]):
            bad.append(f"values {r.brief()} instead of {show([e[2] for e in want], 200)}")
        elif [e[2] for e in gv] != wt:
            bad.append(f"values at {[e[2] for e in gv]} instead of {wt}")
        if k is None:
            if gt:
                bad.append(f"terminated although more values are wanted: {r.brief()}")
        elif [e[0] for e in gt] != [k]:
            bad.append(f"expected {k} but got {r.brief()}")
        elif not max(lo, free) <= gt[0][2] <= max(hi, free):
            bad.append(f"terminal at t={gt[0][2]}, due at t={max(hi, free)}: {r.brief()}")
        del stop
    else:
        trig = []  # (time, kind, exception)
        for p, ev in zip(st["o"], c["others"]):
            for i, e in enumerate(ev):
                t = 0.0 if i < c.get("osync", 0) else e[0]
                if e[1] == "C":
                    cnt["other_completed"] += 1
                    break
                trig.append((t, "C" if e[1] == "N" else "E", p))
                break
        t0 = min((x[0] for x in trig), default=None)
        tt = term[0] if term else None
        T = min([x for x in (t0, tt) if x is not None], default=None)
        kinds = {x[1] for x in trig if x[0] == T} | ({term[1]} if tt is not None and tt == T else set())
        must = [e for e in vals if T is None or e[0] < T or (tt == T and t0 != T)]
        may = [e for e in vals if T is None or e[0] <= T]
        if T is None and c["src"] == "interval":
            return Out(bad, "endless", cnt, False)
        cnt["triggered"] += t0 is not None and T == t0
        cnt["errors"] += "E" in kinds
        k = len(gv)
        if not (len(must) <= k <= len(may)) or not sames([e[1] for e in gv], [e[2] for e in may[:k]]):
            bad.append(f"values {r.brief()}; expected {show([e[2] for e in must], 150)} to {show([e[2] for e in may], 150)} with the trigger at {t0}")
        else:
            wt, free = serial(may[:k])
            if [e[2] for e in gv] != wt:
                bad.append(f"values at {[e[2] for e in gv]} instead of {wt}")
            if T is None:
                if gt:
                    bad.append(f"terminated although nothing has triggered it: {r.brief()}")
            elif len(gt) != 1 or gt[0][0] not in kinds:
                bad.append(f"expected a terminal {kinds} at t={T} but got {r.brief()}")
            elif gt[0][2] != max(T, free):
                bad.append(f"terminal at t={gt[0][2]}, due at t={max(T, free)}: {r.brief()}")
    issued = [q[3] for p in ([st["p"]] if "p" in st else []) + st.get("o", []) for q in p.issues if q[2] == "E"] + [q[2] for q in st.get("issues", []) if q[1] == "E"]
    if any(e[0] == "E" and not any(e[1] is x for x in issued) for e in gt):
        bad.append(f"a different error was forwarded: {r.brief()}, issued {issued}")
    key = (kind, c.get("n"), c.get("a"), c.get("b"), c.get("s"), str(c.get("others")), r.trace())
    return Out(bad, key, cnt, len(got) > 0, note=r.brief())
