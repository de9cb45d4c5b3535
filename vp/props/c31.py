"""C31: a producer that gives up a send affects only what it was sending."""
import asyncio
import itertools

from .. import core, pipes
from ..core import run_case
from ..gens import elem_op, rbig, rerr, rvals
from ..kit import Case, Probe, Rec, Tap, boom, pause, same, show, val
from ..runner import Out
from aioreactive import transform as m_transform
import aioreactive as rx
from expression import pipe
from expression.system import AsyncDisposable

ID = "C31"
RULE = ("sends that are cancelled or timed out at any loop step while a user function or the observer is still busy with them: (chain) into chains of 0-3 operators, directly, "
        "through a subject or a single subject: what is delivered must be what the list model gives for the values, where each value whose send "
        "was given up may be missing from any stage on; (multi) into the inputs of the combining operators through an async stage: same trace as a run in "
        "which exactly what passed that stage is sent and nothing given up; (subject) several observers: exactly once each, in order, for sends not given up, "
        "at most once for the others; distinct: operators, interruptions and trace")
BUDGET = {"quick": (110000, 240), "thorough": (800000, 600)}
MULTI = ("merge", "merge_seq", "merge_inner", "flat_map", "concat_seq", "concat", "switch_latest", "flat_map_latest", "catch", "take_until", "combine_latest", "with_latest_from", "delay", "debounce",
         "distinct_until_changed", "take_last", "skip_last", "reduce", "flat_mapi", "flat_map_async", "flat_mapi_async", "flat_map_latest_async", "zip_seq", "slice", "retry")
KINDS = ("map", "map_async", "mapi", "mapi_async", "filter", "filter_async", "choose", "choose_async", "scan", "scan_async", "reduce", "starmap_async", "skip", "skip_last", "take", "take_last", "distinct_until_changed")
REQUIRED = {"interrupted": 15000, "lost": 8000, "delivered_anyway": 2500, "values_after": 40000, "terminals": 30000, "in_observer": 4000, "in_function": 9000, "timed_out": 2800,
            "via_probe": 1000, "via_subject": 1000, "via_single": 1000, "late": 200, "observers": 8000} | {"multi:" + x: 250 for x in MULTI} | {
    "op:" + x: 150 for x in KINDS if x in ("map", "map_async", "filter", "filter_async", "choose", "choose_async", "scan", "scan_async", "starmap_async")}
KEEP = ("mode", "op", "ops", "sends", "srcs", "out", "n", "obs", "via", "how", "style", "f", "init", "lat", "beh", "k")


def rgive(rng):
    """When the producer gives up: after some loop steps or some time; None: it does not."""
    r = rng.random()
    if r < 0.6:
        return None
    if r < 0.8:
        return [rng.randrange(2), "y", rng.choice([1, 1, 2, 3, 4, 6])]
    return [rng.randrange(2), "s", rng.choice([0.125, 0.25, 0.5])]


def rsends(rng, n, end, give=True):
    vs = rvals(rng, n)
    left = rng.choice([1, 1, 2])
    out = []
    for v in vs:
        g = rgive(rng) if give and left else None
        left -= g is not None
        out.append([rng.choice([0, 0, 0.125, 0.5, 1]), "N", v, g])
    if end:
        out.append([rng.choice([0, 0, 0.5]), end, rerr(rng, 1), rgive(rng) if give and rng.random() < 0.2 else None])
    return out


def rlat(rng):
    return [rng.choice([["y", 2], ["y", 3], ["s", 0.25], ["s", 0.375], ["s", 1.0], None]) for _ in range(rng.choice([1, 1, 2, 3]))]


def gen(rng, tier):
    r = rng.random()
    beh = {"lat": rlat(rng) if rng.random() < 0.8 else []}
    if rng.random() < 0.2:
        beh["tlat"] = ["s", 0.25]
    if r < 0.5:
        n = rbig(rng, 0.01, (40, 70)) or rng.choice([1, 2, 3, 4, 6, 8])
        ops = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            k = rng.choice(("elem",) * 6 + ("skip", "skip_last", "take", "take_last", "distinct_until_changed"))
            if k == "elem":
                new = elem_op(rng)
                for o in new:
                    if o[0].endswith("async"):
                        o[1]["lat"] = rng.choice([["y", 2], ["y", 3], ["s", 0.25], ["s", 0.5]])
                if any(o[0] not in KINDS + ("starmap",) for o in new):
                    continue
            elif k == "distinct_until_changed":
                new = [[k, {}, rng.randrange(3)]]
            else:
                new = [[k, {"n": rng.choice([0, 1, 1, 2, 4])}, rng.randrange(3)]]
            ops += new
        ops = [o for o in ops if o[0] != "take" or o[1]["n"]]  # (ends before anything is sent)
        c = {"mode": "chain", "ops": ops, "sends": rsends(rng, n, rng.choice(["C", "C", "E", None])), "via": rng.choice(["probe", "subject", "single"]), "beh": beh, "how": rng.randrange(3)}
        if c["via"] == "single" and rng.random() < 0.3:
            c["late"] = rng.choice([0.0625, 0.25, 1.0])  # the first sends wait for the observer
            c["sends"] = [q if q[1] == "N" else q[:3] + [None] for q in c["sends"]]
        return c
    if r < 0.85:
        op = rng.choice(MULTI)
        m = rng.choice([2, 2, 3])
        end = lambda: rng.choice(["C", "C", "E", None]) if op not in ("catch", "retry") else rng.choice(["E", "E", "C"])
        srcs = [{"s": rsends(rng, rng.choice([1, 2, 3, 4]), end()), "lat": rng.choice([["y", 2], ["s", 0.25], ["s", 0.375], ["s", 0.0625]])} for _ in range(m)]
        out = {"s": rsends(rng, m, rng.choice(["C", "C", "E", None])), "lat": rng.choice([["y", 2], ["s", 0.25]])}
        return {"mode": "multi", "op": op, "srcs": srcs, "out": out, "n": rng.choice([0, 0, 1, 2]), "beh": beh, "how": rng.randrange(3), "style": rng.randrange(3)}
    obs = [{"lat": rlat(rng), "op": rng.choice(["none", "none", "map", "map_async", "skip", "merge"])} for _ in range(rng.choice([1, 2, 3, 4]))]
    return {"mode": "subject", "obs": obs, "sends": rsends(rng, rng.choice([2, 3, 5, 8]), rng.choice(["C", "E", None])), "conc": int(rng.random() < 0.3)}


async def attempt(case, send, give, rec):
    """One send; give: [kind, pause...]. Sets rec['cut'] when it was given up before it was over."""
    async def go():
        rec["began"] = True
        try:
            await send()
            rec["done"] = True
        except Exception as ex:
            rec["exc"] = ex

    if give is None:
        await go()
        return
    rec["give"] = True
    if give[0] == 0 or give[1] == "y":
        t = asyncio.get_running_loop().create_task(go())
        await pause(give[1:])
        if not t.done():
            rec["cut"] = True
            t.cancel()
            await asyncio.wait([t])
    else:
        try:
            await asyncio.wait_for(go(), give[2])
        except asyncio.TimeoutError:
            rec["cut"] = rec["timeout"] = True
        except asyncio.CancelledError:
            rec["cut"] = True
            raise


async def push(case, target, sends, recs, mk=val):
    for j, (gap, kind, x, give) in enumerate(sends):
        if core.OVER:
            return
        if gap:
            await asyncio.sleep(gap)
        x = mk(x) if kind == "N" else boom("src", x) if kind == "E" else None
        rec = {"kind": kind, "x": x, "t": case.now()}
        recs.append(rec)
        await attempt(case, lambda: target.asend(x) if kind == "N" else target.athrow(x) if kind == "E" else target.aclose(), give, rec)


# ---- chain
def stages(ops):
    out = []
    for op in ops:
        o, a = op[0], op[1]
        k = a.get("k", 0)
        st = {"i": 0, "acc": val(a["init"]) if "init" in a else None, "q": [], "end": False}
        if o in pipes.ELEM:
            f = pipes.ELEM[o][0]
            f = f[a.get("f", next(iter(f)))]

            def step(x, o=o, f=f, k=k, st=st):
                i = st["i"]
                st["i"] += 1
                r = f(k, *(tuple(x) if o.startswith("star") else (x, i) if o in ("mapi", "mapi_async", "filteri") else (x,)))
                return [r] if "map" in o else ([x] if r else []) if "filter" in o else list(r.to_list())
            fin = lambda kind: []
        elif o in pipes.SCANS:
            f = pipes.ACCS[a.get("f", "sum")]

            def step(x, f=f, k=k, st=st, o=o):
                st["acc"] = f(k, st["acc"], x)
                st["i"] += 1
                return [st["acc"]] if o.startswith("scan") else []
            fin = lambda kind, st=st, o=o: [st["acc"]] if o.startswith("reduce") and kind == "C" and st["i"] else []
        else:
            n = a.get("n", 0)
            st["end"] = o == "take" and n == 0

            def step(x, o=o, n=n, st=st):
                st["i"] += 1
                if o == "skip":
                    return [x] if st["i"] > n else []
                if o == "take":
                    st["end"] = st["i"] >= n
                    return [x] if st["i"] <= n else []
                if o == "distinct_until_changed":
                    r = [x] if not st["q"] or not pipes.eq(x, st["q"][-1]) else []
                    st["q"] = [x]
                    return r
                st["q"].append(x)
                if o == "skip_last":
                    return [st["q"].pop(0)] if len(st["q"]) > n else []
                if len(st["q"]) > n:
                    st["q"].pop(0)
                return []
            fin = lambda kind, o=o, st=st: list(st["q"]) if o == "take_last" and kind == "C" else []
        out.append((step, fin, st))
    return out


def expect(ops, recs, drops):
    """What the observer gets if send j gets no further than stage drops[j]."""
    sts = stages(ops)
    out = []

    def flow(xs, i, lim):
        """Feed xs to stage i; returns True once the stream has ended."""
        for x in xs:
            if i >= lim:
                return False
            if i == len(sts):
                out.append(x)
                continue
            step, fin, st = sts[i]
            if st["end"]:
                return True
            if flow(step(x), i + 1, lim):
                return True
            if st["end"]:
                return finish("C", i + 1)
        return False

    def finish(kind, i):
        for k in range(i, len(sts)):
            if flow(sts[k][1](kind), k + 1, 99):
                return True
            if sts[k][2]["end"]:
                kind = "C"
        out.append(kind)
        return True

    for k, s in enumerate(sts):
        if s[2]["end"]:
            finish("C", k + 1)
            return out
    for j, r in enumerate(recs):
        if r["kind"] == "N":
            if flow([r["x"]], 0, drops.get(j, 99)):
                break
        else:
            finish(r["kind"], 0)
            break
    return out


def run_chain(c):
    case = Case()
    r = Rec(case, "o", c.get("beh"), overlap=False)
    recs = []
    base = {}

    async def main():
        via = c.get("via", "probe")
        if via == "probe":
            class S(rx.AsyncObservable):
                async def subscribe_async(self, send=None, throw=None, close=None):
                    base["obv"] = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
                    return AsyncDisposable.empty()
            src = S()
        else:
            src = rx.AsyncSubject() if via == "subject" else rx.AsyncSingleSubject()
            base["obv"] = src
        pipes.SHARE = None
        o = src
        for i, op in enumerate(c["ops"]):
            o = pipes.apply_op(case, o, op, f"p.{i}.{op[0]}", {})
        if c.get("late"):
            asyncio.get_running_loop().create_task(late(o, c["late"]))
        else:
            await r.subscribe(o, c.get("how", 0))
        await push(case, base["obv"], c["sends"], recs)
        await asyncio.sleep(10)

    async def late(o, t):
        await asyncio.sleep(t)
        await r.subscribe(o, c.get("how", 0))

    res = run_case(main, horizon=core.T0 + 1000)
    bad = list(case.bad)
    if res.main_exc is not None:
        bad.append(f"unexpected exception {res.main_exc!r}")
    elif res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status}, producer {'done' if res.main_done else 'blocked'})")
    for q in recs:
        if q.get("exc") is not None and not disposed_ok(c, q["exc"]):
            bad.append(f"a send raised {q['exc']!r}")
    seen = [e[1] if e[0] == "N" else e[0] for e in r.events]
    cuts = [j for j, q in enumerate(recs) if q.get("cut") and q["kind"] == "N"]
    n = len(c["ops"])
    ok = False
    first = None
    if not bad and len(cuts) <= 3:
        for ds in itertools.product(range(n + 1, -1, -1), repeat=len(cuts)):
            want = expect(c["ops"], recs, {j: (99 if d == n + 1 else d) for j, d in zip(cuts, ds)})
            first = want if first is None else first
            if len(want) == len(seen) and all(same(a, b) for a, b in zip(want, seen)):
                ok = True
                break
        if not ok:
            bad.append(f"got {show(seen, 200)}; sends {cuts} were given up, with all of them delivered it would be {show(first, 200)}")
    cnt = count(recs, r)
    cnt["lost"] = int(ok and bool(cuts) and len(seen) < len(first))
    cnt["delivered_anyway"] = int(ok and bool(cuts) and len(seen) == len(first))
    cnt["via_" + c.get("via", "probe")] = int(bool(cuts))
    cnt["late"] = int(bool(c.get("late")) and any(q.get("cut") and q["t"] < c["late"] for q in recs))
    for op in c["ops"]:
        cnt["op:" + op[0]] = int(bool(cuts))
    return Out(bad, ("chain", tuple(o[0] for o in c["ops"]), tuple(cuts), r.trace()), cnt, bool(cuts), note=r.brief())


def disposed_ok(c, ex):
    """A single subject whose observer has ended its subscription refuses further sends."""
    return type(ex).__name__ == "ObjectDisposedException" and (c.get("via") == "single")


def count(recs, *rs):
    cut = [q for q in recs if q.get("cut")]
    at = [e for r in rs for e in r.events if e[0] == "N" and any(same(q["x"], e[1]) for q in cut)]
    t = min((q["t"] for q in cut), default=None)
    return {"interrupted": len(cut), "in_observer": int(bool(at)), "in_function": int(len(at) < len(cut)), "timed_out": sum(bool(q.get("timeout")) for q in cut),
            "values_after": sum(e[0] == "N" and t is not None and e[2] > t for r in rs for e in r.events), "terminals": sum(len(r.terminals()) for r in rs)}


# ---- multi
def multi(c, case, srcs, outer):
    op, st = c["op"], c.get("style", 0)
    which = lambda x: srcs[x[1] % len(srcs)]
    if op in ("merge_seq", "concat_seq"):
        return getattr(rx, op)(srcs)
    if op == "merge_inner":
        return pipe(outer, rx.map(which), rx.merge_inner(c["n"]))
    if op == "flat_map":
        return pipe(outer, rx.flat_map(which))
    if op == "switch_latest":
        return pipe(outer, rx.map(which), m_transform.switch_latest)
    if op == "flat_map_latest":
        return pipe(outer, m_transform.flat_map_latest(which))
    if op == "flat_mapi":
        return pipe(outer, rx.flat_mapi(lambda x, i: which(x)))
    if op in ("flat_map_async", "flat_mapi_async", "flat_map_latest_async"):
        async def mapper(x, i=0):
            return which(x)
        return pipe(outer, getattr(rx if hasattr(rx, op) else m_transform, op)(mapper))
    if op == "zip_seq":
        return pipe(srcs[0], pipes.m_combine.zip_seq(list(range(3))))
    if op == "slice":
        return pipe(srcs[0], pipes.m_filtering.slice(c["n"], 3, 1 + c["n"] % 2))
    if op == "sample":
        return pipe(srcs[0], pipes.m_time.sample(0.3))
    if op == "retry":
        return pipe(srcs[0], rx.retry(1 + c["n"]))
    if op == "catch":
        return pipe(srcs[0], rx.catch(lambda ex: srcs[1]))
    if op in ("delay", "debounce"):
        return pipe(srcs[0], getattr(rx, op)(0.3))
    if op == "distinct_until_changed":
        return pipe(srcs[0], rx.distinct_until_changed)
    if op in ("take_last", "skip_last"):
        return pipe(srcs[0], getattr(rx, op)(c["n"]))
    if op == "reduce":
        return pipe(srcs[0], rx.reduce(lambda a, x: a + (x,), ()))
    return pipes._ap(st, srcs[0], op, srcs[1], mods=pipes.MODS, key=None)


def run_multi(c):
    def once(replay):
        case = Case()
        r = Rec(case, "o", c.get("beh") if c["op"] not in ("catch", "retry") else {}, overlap=False)
        recs, taps, tasks = [], [], []

        def source(d, name, idx):
            if replay is not None:
                per = replay[idx]
                p = Probe(case, {"ev": [], "per": [{"ev": ev} for ev in per] or None, "payload": lambda kind, x: x}, name)
                taps.append(p)
                return p

            class S(rx.AsyncObservable):
                async def subscribe_async(self, send=None, throw=None, close=None):
                    obv = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)

                    async def later():
                        await asyncio.sleep((idx + 1) / 1024)
                        await push(case, obv, d["s"], recs, mk=lambda x: x)
                    t = asyncio.get_running_loop().create_task(later())
                    tasks.append(t)
                    return AsyncDisposable.empty()
            d = dict(d, s=[s[:2] + [(name, j) if s[1] == "N" else s[2]] + s[3:] for j, s in enumerate(d["s"])])

            async def f(x):
                await pause(d["lat"])
                return x
            t = Tap(case, pipe(S(), rx.map_async(f)), name)
            taps.append(t)
            return t

        async def main():
            srcs = [source(d, f"s{i}", i) for i, d in enumerate(c["srcs"])]
            outer = source(c["out"], "out", len(srcs))
            await r.subscribe(multi(c, case, srcs, outer), c.get("how", 0))

        res = run_case(main, horizon=core.T0 + 1000)
        bad = list(case.bad)
        if res.main_exc is not None:
            bad.append(f"unexpected exception {res.main_exc!r}")
        elif res.status != "idle":
            bad.append(f"never comes to rest ({res.status})")
        bad += [f"a producer is left blocked" for t in tasks if not t.done()]
        bad += [f"a send raised {q['exc']!r}" for q in recs if q.get("exc") is not None]
        return r, recs, taps, bad

    r, recs, taps, bad = once(None)
    lines = []
    for t in taps:
        per = [[] for _ in t.subs]
        for q in t.issues:
            s = t.subs[q[4]]
            if s.finished is None or not any(e[1] != "N" for e in per[q[4]]):
                per[q[4]].append([q[1] - s.t_sub, q[2], q[3]])
        lines.append(per)
    r2, _, _, bad2 = once(lines)
    a, b = r.trace(), r2.trace()
    if not bad and not bad2 and a != b:
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        bad.append(f"{c['op']}: with sends given up on the way: ...{show(a[max(k - 2, 0): k + 4], 250)}; when only what got through is sent: ...{show(b[max(k - 2, 0): k + 4], 250)}")
    bad += bad2
    cnt = count(recs, r)
    cut = cnt["interrupted"]
    cnt["lost"] = int(cut > 0)
    cnt["multi:" + c["op"]] = int(cut > 0)
    return Out(bad[:3], ("multi", c["op"], tuple(j for j, q in enumerate(recs) if q.get("cut")), a), cnt, cut > 0, note=r.brief())


# ---- subject
def run_subject(c):
    case = Case()
    rs = [Rec(case, f"o{i}", {"lat": o["lat"]}, overlap=False) for i, o in enumerate(c["obs"])]
    recs = []

    async def main():
        s = rx.AsyncSubject()

        async def same_later(x):
            await pause(["y", 2])
            return x

        for r, o in zip(rs, c["obs"]):
            k = o.get("op")
            x = s if k == "none" else pipe(s, rx.map(lambda v: v) if k == "map" else rx.map_async(same_later) if k == "map_async" else rx.skip(0) if k == "skip" else rx.merge(rx.empty()))
            await r.subscribe(x, 0)
        await asyncio.sleep(0.125)  # merge subscribes a little later
        sends = [q[:2] + [(j,) if q[1] == "N" else q[2]] + q[3:] for j, q in enumerate(c["sends"])]
        mk = lambda x: x
        if c.get("conc"):
            loop = asyncio.get_running_loop()
            ts = []
            for q in sends:
                if q[1] != "N":
                    await asyncio.wait(ts) if ts else None
                if q[0]:
                    await asyncio.sleep(q[0])
                ts.append(loop.create_task(push(case, s, [[0] + q[1:]], recs, mk)))
            await asyncio.wait(ts)
        else:
            await push(case, s, sends, recs, mk)

    res = run_case(main, horizon=core.T0 + 1000)
    bad = [b for b in case.bad]
    if res.main_exc is not None:
        bad.append(f"unexpected exception {res.main_exc!r}")
    elif res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status}, producer {'done' if res.main_done else 'blocked'})")
    bad += [f"a send raised {q['exc']!r}" for q in recs if q.get("exc") is not None]
    full = [q["x"] for q in recs if q["kind"] == "N" and not q.get("cut")]
    cut = [q["x"] for q in recs if q["kind"] == "N" and q.get("cut")]
    term = [q for q in recs if q["kind"] != "N"]
    for r in rs:
        got = r.values()
        rest = [x for x in got if x not in cut]
        if (sorted(rest) if c.get("conc") else rest) != full and sorted(rest) != sorted(full) or not c.get("conc") and got != sorted(got):
            bad.append(f"{r.name}: sends {show(cut)} were given up, so {show(full)} should be delivered in order; got {r.brief()}")
        elif len(set(got)) < len(got):
            bad.append(f"{r.name}: delivered twice: {r.brief()}")
        if term and not term[0].get("cut") and r.kinds().lstrip("N") != term[0]["kind"]:
            bad.append(f"{r.name}: no terminal: {r.brief()}")
    cnt = count(recs, *rs)
    cnt["observers"] = len(rs) if cut else 0
    return Out(bad[:3], ("subject", tuple(o.get("op") for o in c["obs"]), tuple(cut), tuple(r.trace() for r in rs)), cnt, bool(cut), note=show([r.brief() for r in rs], 300))


def run(c):
    return {"chain": run_chain, "multi": run_multi, "subject": run_subject}[c["mode"]](c)
