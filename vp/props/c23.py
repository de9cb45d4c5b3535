"""C23: chained methods, slicing and function operators agree."""
import asyncio

from .. import core, pipes
from ..core import run_case
from ..gens import rerr, elem_op, rlen, rpause, rvals
from ..kit import Case, Probe, Rec, boom, pause, show, val
from ..runner import Out
import aioreactive as rx
import aioreactive.combine as m_combine
import aioreactive.create as m_create
import aioreactive.filtering as m_filtering
import aioreactive.leave as m_leave
import aioreactive.timeshift as m_time
import aioreactive.transform as m_transform
from aioreactive import AsyncAnonymousObserver, AsyncObserver, AsyncRx
from expression import pipe

ID = "C23"
RULE = ("the same random pipeline (1-3 operators, timed tie-free sources with values, errors and completions) executed in three forms - "
        "AsyncRx methods, package functions, module functions - and with wrappers and three-function subscription; notification traces with "
        "times, user-function calls and upstream subscribe/dispose times must be identical; distinct: pipeline and trace")
BUDGET = {"quick": (36000, 240), "thorough": (120000, 400)}
METHODS = ["choose", "choose_async", "combine_latest", "concat", "debounce", "delay", "distinct_until_changed", "filter", "filteri",
           "filter_async", "flat_map", "flat_map_async", "flat_map_latest_async", "map", "merge", "reduce", "reduce_async", "skip", "skip_last",
           "starfilter", "starmap", "take", "take_last", "take_until", "with_latest_from", "getitem", "index", "iter"]
# only functions: the package's and the module's are compared
FUNCS = ["catch", "retry", "scan", "scan_async", "mapi", "map_async", "mapi_async", "flat_mapi", "merge_inner"]
REQUIRED = {"m:" + m: 40 for m in METHODS + FUNCS} | {"values": 5000, "errors": 300, "completions": 2000, "wrapped": 1000, "functions": 1000, "ctor": 300, "pipe": 300, "omitted": 1000}
KEEP = ("ev", "op", "ops", "src", "kind")


def timeline(rng, i, n=None, end=None):
    """Times of source i have their own fraction: no two sources act at the same instant."""
    t, ev = rng.choice([0, 1, 1]) * 1.0, []
    f = (i + 1) / 64
    for v in rvals(rng, rlen(rng, 6) if n is None else n):
        ev.append([t + f, "N", v])
        t += rng.choice([0, 1, 1, 2])
    end = end or rng.choice(["C", "C", "C", "E", None])
    if end:
        ev.append([t + f, *(["C"] if end == "C" else ["E", rerr(rng, 1)])])
    return ["probe", {"ev": ev}]


def gen_op(rng, k):
    m = rng.choice(METHODS[:-1] + FUNCS)
    i = 10 * (k + 1)
    a = {"k": rng.randrange(3)}
    pre = []
    if m in ("combine_latest", "concat", "merge", "take_until", "with_latest_from"):
        a["other"] = timeline(rng, i)
        if m in ("concat", "merge") and rng.random() < 0.15:
            a["self"] = 1
    elif m in ("debounce", "delay"):
        a["d"] = rng.choice([0.5, 1.0, 2.0, 0.25])
    elif m in ("skip", "skip_last", "take", "take_last"):
        a["n"] = rng.choice([0, 1, 2, 3, 5])
    elif m == "catch":
        a["handler"] = timeline(rng, i)
    elif m == "retry":
        a["n"] = rng.choice([0, 1, 2, 3])
    elif m.startswith("flat_map") or m == "merge_inner":
        if m == "merge_inner":
            a["n"] = rng.choice([0, 1, 2])
        a["inner"] = [timeline(rng, i + j) for j in range(rng.choice([1, 2, 3]))]
        if m.endswith("async"):
            a["lat"] = rpause(rng)
    elif m == "getitem":
        a = {"a": rng.choice([None, 0, 1, 2, -1, -2]), "b": rng.choice([None, 0, 1, 3, -1, -3]), "s": rng.choice([None, 1, 2, 3])}
        return [["slice", a]]
    elif m == "index":
        return [["index", {"i": rng.choice([0, 1, 2, 4, -1, -2])}]]
    elif m != "distinct_until_changed":
        while True:
            o = elem_op(rng, style=0, boom=rng.randrange(4) if rng.random() < 0.1 else None)
            if o[-1][0] == m:
                break
        pre, a = o[:-1], o[-1][1]
    return [p[:2] for p in pre] + [[m, a]]


def gen(rng, tier):
    r = rng.random()
    if r < 0.06:
        return {"kind": "ctor", "which": rng.choice(["empty", "from_iterable", "from_async_iterable", "single", "create", "of_async", "interval", "timer", "defer", "never"]),
                "v": rvals(rng, rlen(rng)), "err": rng.choice([None, None, 1]), "lat": rpause(rng), "beh": {"lat": [rpause(rng)]}}
    if r < 0.14:
        return {"kind": "iter", "src": timeline(rng, 0), "lat": rpause(rng), "n": rng.choice([1, 3, 99]), "wrap": rng.randrange(3)}
    ops = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        ops += gen_op(rng, k)
    return {"kind": "ops", "src": timeline(rng, 0), "ops": ops, "wrap": rng.randrange(4), "how": rng.randrange(4), "mask": rng.choice([None, None, rng.randrange(7)]), "w2": rng.choice([6, 6, 1, 2, 3, 4, 5]),
            "beh": {"lat": [rpause(rng, 0.5) for _ in range(rng.randrange(3))]}, "dis": rng.choice([None, None, None, 1.5 + 1 / 512, 3 + 1 / 512])}


NEG = object()


def apply(case, o, op, name, style):
    """style 0: package function; 1: module function; 2: AsyncRx method (only where the class has it)."""
    if op[0] == "index":
        i = op[1]["i"]
        if style == 2:
            return (o if isinstance(o, AsyncRx) else AsyncRx(o))[i]
        return pipe(o, m_filtering.slice(i, i + 1 if i != -1 else None))
    if style == 2 and op[0] not in ("slice",):
        if not hasattr(AsyncRx, op[0]):
            style = 0  # pair-building map etc. always exist; anything else is not a method
    x = pipes.apply_op(case, o, [op[0], op[1], style], name)
    if style == 2 and not isinstance(x, AsyncRx):
        case.fail(f"AsyncRx.{op[0]} returned a {type(x).__name__}: it cannot be chained further")
    return x


def wrap(o, w):
    return [lambda x: x, AsyncRx, rx.as_chained, rx.as_async_observable, lambda x: AsyncRx(x).as_async_observable(), AsyncRx.create, rx.to_async_iterable][w](o)


async def nothing(*args):
    pass


class Some(AsyncObserver):
    def __init__(self, *fns):
        self.fns = fns

    async def asend(self, value):
        await self.fns[0](value)

    async def athrow(self, error):
        await self.fns[1](error)

    async def aclose(self):
        await self.fns[2]()


def trace(c, style, w, how):
    case = Case()
    r = Rec(case, "o", c.get("beh"))

    async def main():
        o = pipes.build(case, c["src"], "src")
        o = wrap(o, w)
        for i, op in enumerate(c["ops"]):
            o = apply(case, o, op, f"p.{i}.{op[0]}", style)
        if w:
            o = wrap(o, w)
        if how == 0:
            sub = await o.subscribe_async(r)
        elif how == 1:
            sub = await o.subscribe_async(r.asend, r.athrow, r.aclose)
        elif how >= 20:  # some of the three functions omitted
            m = how - 20
            sub = await o.subscribe_async(*[f if m >> i & 1 else None for i, f in enumerate((r.asend, r.athrow, r.aclose))])
        elif how >= 10:  # the same as an observer
            m = how - 10
            sub = await o.subscribe_async(Some(*[f if m >> i & 1 else nothing for i, f in enumerate((r.asend, r.athrow, r.aclose))]))
        elif how == 3:
            sub = await pipe(o, rx.subscribe_async(r))
        else:
            sub = await o.subscribe_async(AsyncAnonymousObserver(r.asend, r.athrow, r.aclose))
        if c.get("dis"):
            await asyncio.sleep(c["dis"])
            await sub.dispose_async()

    res = run_case(main, horizon=core.T0 + 200)
    fns = {n: [show(x) for x in f.calls] for n, f in case.__dict__.get("fns", {}).items()}
    subs = sorted((s.probe.name, s.t_sub, s.disposed is not None or s.finished is not None) for s in case.__dict__.get("psubs", []))
    return case.bad, (r.trace(), repr(res.main_exc), res.status), fns, subs, r, len(res.loop.errors)


def run_ops(c):
    ref = trace(c, 0, 0, 0)
    bad = list(ref[0])
    cnt = {"values": len(ref[4].values()), "errors": sum(e[0] == "E" for e in ref[4].events),
           "completions": sum(e[0] == "C" for e in ref[4].events), "wrapped": int(c.get("wrap", 0) > 0), "functions": int(c.get("how", 0) == 1),
           "pipe": int(c.get("how", 0) == 3)}
    for op in c["ops"]:
        cnt["m:" + {"slice": "getitem"}.get(op[0], op[0])] = 1
    forms = [("AsyncRx methods", (2, 0, 0)), ("module functions", (1, 0, 0))]
    if c.get("wrap"):
        forms.append((f"wrapper {c['wrap']}", (0, c["wrap"], 0)))
        forms.append((f"wrapper {c['wrap'] + 2}", (0, c["wrap"] + 2, 0)))
    if c.get("how"):
        forms.append((f"wrapper {c.get('w2', 6)} and way {c['how']} of subscribing", (0, c.get("w2", 6), c["how"])))
        forms.append(([0, "three functions", "observer made of three functions", "pipeable subscribe_async"][c["how"]], (0, 0, c["how"])))
    for name, (st, w, how) in forms:
        t = trace(c, st, w, how)
        bad += t[0]
        for x, y, what in ((ref[1], t[1], "notifications"), (ref[2], t[2], "function calls"), (ref[3], t[3], "upstream subscriptions")):
            if x != y:
                bad.append(f"{name}: {what} {show(y, 260)} instead of {show(x, 260)}")
                break
    m = c.get("mask")
    if m is not None:
        a, b = trace(c, 0, 0, 10 + m), trace(c, 0, 0, 20 + m)
        bad += a[0] + b[0]
        cnt["omitted"] = 1
        for x, y, what in ((a[1], b[1], "notifications"), (a[2], b[2], "function calls"), (a[3], b[3], "upstream subscriptions")):
            if x != y:
                bad.append(f"only functions {m:03b}: {what} {show(y, 260)} instead of {show(x, 260)}")
                break
    return Out(bad, (str(c["ops"]), ref[1]), cnt, len(ref[4].events) > 0, note=ref[4].brief())


CLS = ("empty", "from_iterable", "from_async_iterable", "single", "create")


def run_ctor(c):
    def one(cls):
        case = Case()
        r = Rec(case, "o", c.get("beh"))
        w = c["which"]

        async def main():
            vals = [val(v) for v in c["v"]]
            err = None if c.get("err") is None else boom("e", c["err"])
            if w == "empty":
                o = AsyncRx.empty() if cls else rx.empty()
            elif w == "single":
                v = vals[0] if vals else None
                o = AsyncRx.single(v) if cls else rx.single(v)
            elif w == "from_iterable":
                it = pipes.ReIter(case, vals, err, "i")
                o = AsyncRx.from_iterable(it) if cls else rx.from_iterable(it)
            elif w == "from_async_iterable":
                it = pipes.AIter(case, vals, err, c.get("lat"), "i")
                o = AsyncRx.from_async_iterable(it) if cls else rx.from_async_iterable(it)
            elif w == "create":
                o = rx.from_iterable(vals)
                o = AsyncRx.create(o) if cls else o
            else:
                n = len(vals)
                async def wf():
                    await pause(c.get("lat"))
                    if err is not None:
                        raise err
                    return vals[0] if vals else None

                m = m_create if cls else rx
                if w == "of_async":
                    o = m.of_async(wf()) if n % 2 or cls else rx.from_async(wf())
                elif w == "interval":
                    o = pipe(m.interval(n % 3, 1 + n % 2), rx.take(4)) if n != 5 else m.interval(2, 0)
                elif w == "timer":
                    o = m.timer(n % 3)
                elif w == "never":
                    o = m.never()
                else:
                    o = m.defer(lambda: rx.from_iterable(vals))
            if cls and w in CLS and not isinstance(o, AsyncRx):
                case.fail(f"AsyncRx.{w} gives a {type(o).__name__}")
            await r.subscribe(o)

        run_case(main)
        return case.bad, r

    (b1, r1), (b2, r2) = one(False), one(True)
    bad = b1 + b2
    if r1.trace() != r2.trace():
        bad.append(f"the other form of {c['which']}: {r2.brief()} instead of {r1.brief()}")
    if not r1.events and c["which"] != "never":
        bad.append(f"{c['which']} emits nothing")
    return Out(bad, ("ctor", c["which"], r1.trace()), {"ctor": 1, "values": len(r1.values())}, True, note=r1.brief())


def run_iter(c):
    def one(form):
        case = Case()
        got = []

        async def main():
            src = pipes.build(case, c["src"], "src")
            src = wrap(src, c.get("wrap", 0))
            it = [rx.to_async_iterable, m_leave.to_async_iterable, lambda s: AsyncRx(s).to_async_iterable()][form](src)
            n = 0
            try:
                async for x in it:
                    got.append((show(x), case.now()))
                    await pause(c.get("lat"))
                    n += 1
                    if n >= c["n"]:
                        break
                got.append(("end", case.now()))
            except Exception as ex:
                got.append((repr(ex), case.now()))

        res = run_case(main, horizon=core.T0 + 200)
        return got, case.bad, repr(res.main_exc)

    ref = one(0)
    bad = list(ref[1])
    for f in (1, 2):
        t = one(f)
        if t[0] != ref[0] or t[2] != ref[2]:
            bad.append(f"iteration form {f}: {show(t[0], 250)} instead of {show(ref[0], 250)}")
    return Out(bad, ("iter", str(ref[0])), {"m:iter": 1, "values": len(ref[0])}, True, note=show(ref[0], 200))


def run(c):
    return {"ops": run_ops, "ctor": run_ctor, "iter": run_iter}[c["kind"]](c)
