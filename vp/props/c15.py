"""C15: async iteration yields every value once, in order, with back-pressure."""
import asyncio

from .. import pipes
from ..core import run_case
from ..gens import rerr, cold_src, elem_op, rbig, rlen, rpause, rvals
from ..kit import Case, Probe, boom, pause, same, sames, show, val
from ..runner import Out
import aioreactive as rx
from aioreactive import AsyncIteratorObserver, AsyncRx

ID = "C15"
RULE = ("async-for and manual stepping (AsyncIteratorObserver) over pipelines and over instrumented sources with one or several awaiting "
        "producers; slow consumers, consumers that time out or are cancelled at arbitrary instants and step again; the yielded sequence "
        "(some leave the iteration and dispose it: nobody may stay blocked) "
        "is compared with the issued one and every send with the number of steps taken; distinct: yield/issue log")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"slow_subscribe": 300, "yielded": 2000, "errors": 300, "stops": 1000, "timeouts": 300, "producers>1": 300, "held": 300, "fifo": 500, "mid": 200, "gave_up": 1000, "yanked": 500, "left": 500, "again": 2000}
KEEP = ("prods", "src", "ops", "v")


def gen(rng, tier):
    cons = {"lat": [rpause(rng, 0.6) for _ in range(rng.randrange(3))]}
    if rng.random() < 0.45:
        cons["wait"] = [rng.choice([None, 0.1, 0.3, 0.5, 0.75, 1.0]) for _ in range(rng.randrange(1, 4))]
        cons["cancel"] = rng.randrange(2)
    if rng.random() < 0.06:
        ops = []
        for _ in range(rng.randrange(0, 3)):
            ops += elem_op(rng)
        return {"again": [rng.choice([None, None, 0, 1, 2, 4]) for _ in range(rng.choice([2, 2, 3]))], "both": rng.randrange(2),
                "src": ["iter", {"v": rvals(rng, rlen(rng, 6))}], "ops": ops, "cons": {"lat": cons["lat"]}, "how": rng.randrange(3)}
    if rng.random() < 0.35:
        n = rbig(rng, 0.01) or rlen(rng, 10)
        ops = []
        for _ in range(rng.randrange(0, 3)):
            ops += elem_op(rng)
        src = cold_src(rng, n, rng.choice("CCE"))
        for e in src[1].get("ev", []):
            if e[1] == "E" and e[2] == 9:  # StopAsyncIteration cannot be told from the end of the iteration
                e[2] = 0
        return {"src": src, "ops": ops, "cons": cons, "how": rng.randrange(4)}
    if rng.random() < 0.12:
        # one value per producer, at distinct moments: handed over in the order they were sent
        prods = [[[rng.choice([0, 0, 0.5, 1, 2, 3]) + (p + 1) / 64, "N", ["#", p, 0]]] for p in range(rng.choice([2, 3, 4, 6]))]
        cons["lat"] = [rng.choice([None, ["s", 0.5], ["s", 1.0], ["s", 2.0], ["s", 3.0]]) for _ in range(3)]
        cons.pop("wait", None)
        if rng.random() < 0.4:  # the end comes while others still want to send
            return {"prods": prods, "fifo": True, "mid": True, "term": [rng.choice([0, 0.5, 1, 2]) + 63 / 64, rng.choice("CE"), rerr(rng)], "cons": cons, "how": rng.randrange(3)}
        return {"prods": prods, "fifo": True, "term": [9, "C", 0], "cons": cons, "how": rng.randrange(3)}
    np_ = rng.choice([1, 1, 1, 2, 3])
    prods = []
    for p in range(np_):
        n = rbig(rng, 0.01, (60, 150, 300)) or rlen(rng, 6)
        t, ev = 0.0, []
        for v in rvals(rng, n) if np_ == 1 else [["#", p, j] for j in range(n)]:
            t += rng.choice([0, 0, 0.25, 0.5, 1])
            ev.append([t, "N", v])
        prods.append(ev)
    last = rng.randrange(np_)
    tt = max([e[0] for p in prods for e in p], default=0) + rng.choice([0, 0.5, 1])
    if rng.random() < 0.3:  # some producers give up waiting
        for p, ev in enumerate(prods):
            for j, e in enumerate(ev):
                e[2] = ["#", p, j]
                if rng.random() < 0.5:
                    e.append(rng.choice([0, 0.1, 0.3, 0.5, 0.75, 1.0, 2.0, -1, -1, -1]))  # -1: right when the consumer picks something up
    sd = rng.choice([None, None, None, ["y", 2], ["s", 0.5], ["s", 1.5]])
    if rng.random() < 0.25:  # the iteration is left
        cons["leave"] = rng.choice([0, 1, 1, 2, 3])
        cons["leavelat"] = rpause(rng)
        if not cons["leave"]:
            cons["wait"] = [rng.choice([0.1, 0.3, 0.75, 2.0])]
    return {"prods": prods, "subdelay": sd, "term": [tt, rng.choice("CCE"), rerr(rng)], "cons": cons, "how": rng.randrange(4)}


def run_again(c):
    """One async iterable, iterated several times."""
    case = Case()
    got, ends = [[] for _ in c["again"]], [None] * len(c["again"])
    lat = c["cons"].get("lat") or [None]

    async def walk(i, it, most):
        k = 0
        while most is None or k < most:
            try:
                got[i].append(await it.__anext__())
            except StopAsyncIteration:
                ends[i] = "C"
                return
            except Exception as ex:
                ends[i] = ex
                return
            await pause(lat[(k + i) % len(lat)])
            k += 1
        await it.dispose_async()

    async def main():
        src = pipes.build(case, {"src": c["src"], "ops": c["ops"]})
        its = rx.to_async_iterable(src) if c["how"] else AsyncRx(src).to_async_iterable()
        if c["both"]:
            await asyncio.gather(*[walk(i, its.__aiter__(), m) for i, m in enumerate(c["again"])])
        else:
            for i, m in enumerate(c["again"]):
                await walk(i, its.__aiter__(), m)

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None:
        return Out(bad + [f"unexpected exception {res.main_exc!r}"], "exc")
    vals, term = pipes.model({"src": c["src"], "ops": c["ops"]})
    for i, m in enumerate(c["again"]):
        want = vals if m is None else vals[:m]
        if not sames(got[i], want):
            bad.append(f"iteration {i} of the same iterable yielded {show(got[i], 150)} instead of {show(want, 150)}")
        elif (m is None or m > len(vals)) and (ends[i] != "C" if term == "C" else not isinstance(ends[i], Exception)):
            bad.append(f"iteration {i} of the same iterable ended with {ends[i]!r}, the source with {term}")
    if not bad and (res.status != "idle" or not res.main_done):
        bad.append(f"never comes to rest ({res.status})")
    return Out(bad, ("again", tuple(c["again"]), c["both"], tuple(o[0] for o in c["ops"]), tuple(len(g) for g in got)),
               {"again": len(got), "yielded": sum(map(len, got))}, True)


def run(c):
    if "again" in c:
        return run_again(c)
    case = Case()
    yields, st = [], {"started": 0, "timeouts": 0, "end": None, "sends": 0, "held": 0, "gaveup": [], "doomed": [], "yanked": 0}
    issues = []

    def yielded(v):
        case.ev("yield", v)
        yields.append(v)
        for t in st["doomed"]:
            st["yanked"] += t.cancel()
        st["doomed"] = []

    async def leave(it, cons):
        await pause(cons.get("leavelat"))
        st["left"] = case.now()
        await it.dispose_async()
        st["end"] = ("L", None)
        case.ev("left")

    async def consume(it, cons):
        lat, waits = cons.get("lat") or [], cons.get("wait") or []
        k = 0
        w = 0
        loop = asyncio.get_running_loop()
        while True:
            st["started"] += 1
            case.ev("step")
            to = waits[w % len(waits)] if waits else None
            w += 1
            try:
                if to is None or w > 60:
                    v = await it.__anext__()
                elif cons.get("cancel"):
                    t = loop.create_task(it.__anext__())
                    done, _ = await asyncio.wait([t], timeout=to)
                    if not done:
                        t.cancel()
                        try:
                            v = await t
                        except asyncio.CancelledError:
                            raise asyncio.TimeoutError from None
                    else:
                        v = t.result()
                else:
                    v = await asyncio.wait_for(it.__anext__(), to)
            except StopAsyncIteration:
                st["end"] = ("C", None)
                break
            except asyncio.TimeoutError as ex:
                if getattr(ex, "tag", None) is not None:
                    st["end"] = ("E", ex)
                    break
                st["timeouts"] += 1
                st["started"] -= 1  # this step picked nothing up
                case.ev("timeout")
                if cons.get("leave") == 0:
                    await leave(it, cons)
                    break
                continue
            except Exception as ex:
                st["end"] = ("E", ex)
                break
            yielded(v)
            if len(yields) == cons.get("leave"):
                await leave(it, cons)
                break
            if lat:
                await pause(lat[k % len(lat)])
            k += 1

    class Src(Probe):
        async def subscribe_async(self, send=None, throw=None, close=None):
            d = await Probe.subscribe_async(self, send, throw, close)
            obv = self.subs[0].obv
            loop = asyncio.get_running_loop()
            t0 = loop.time()
            tasks = []

            async def snd(rec):
                rec[0], rec[2] = case.ev("issue"), case.now()
                issues.append(rec)
                await obv.asend(rec[1])

            async def one(ev):
                for e in ev:
                    dt = t0 + e[0] - loop.time()
                    if dt > 0:
                        await asyncio.sleep(dt)
                    x = tuple(e[2]) if isinstance(e[2], list) else val(e[2])
                    at, rec = case.now(), [0, x, 0, None]
                    if len(e) > 3:
                        t = loop.create_task(snd(rec))
                        if e[3] < 0:
                            st["doomed"].append(t)
                        else:
                            await (asyncio.wait([t], timeout=e[3]) if e[3] else pause(["y", 1]))
                            t.cancel()
                        await asyncio.wait([t])
                        if t.cancelled():
                            rec[3] = case.ev("gave-up")
                            st["gaveup"].append(x)
                            continue
                        t.result()
                    else:
                        await snd(rec)
                    rec[3] = case.ev("sent")
                    rec.append(case.now())
                    st["sends"] += 1
                    if case.now() > at:
                        st["held"] += 1
                    if st["sends"] > st["started"] and "left" not in st:
                        case.fail(f"{st['sends']} sends have returned but the consumer has taken only {st['started']} steps")

            async def fin():
                if tasks and not c.get("mid"):
                    await asyncio.wait(tasks)
                dt = t0 + c["term"][0] - loop.time()
                if dt > 0:
                    await asyncio.sleep(dt)
                st["err"] = boom("iter", c["term"][2])
                st["before"] = len(issues)
                case.ev("issue-term")
                if c["term"][1] == "C":
                    await obv.aclose()
                else:
                    await obv.athrow(st["err"])
                st["term_returned"] = case.ev("term-sent")

            for ev in c["prods"]:
                tasks.append(loop.create_task(one(ev)))
            self.fin = loop.create_task(fin())
            return d

    async def main():
        if "prods" in c:
            src = st["probe"] = Src(case, {"ev": [], "subdelay": c.get("subdelay")}, "src")
        else:
            src = pipes.build(case, {"src": c["src"], "ops": c["ops"]})
        how = c.get("how", 0)
        if how == 0:
            it = rx.to_async_iterable(src).__aiter__()
        elif how == 1:
            it = AsyncRx(src).to_async_iterable().__aiter__()
        elif how == 2:
            it = AsyncIteratorObserver(src).__aiter__()
        else:
            it = rx.to_async_iterable(src)
            if not (c.get("cons") or {}).get("wait") and "leave" not in c["cons"]:
                st["started"] = 10 ** 9
                try:
                    async for v in it:
                        yielded(v)
                    st["end"] = ("C", None)
                except Exception as ex:
                    st["end"] = ("E", ex)
                return
            it = it.__aiter__()
        await consume(it, c.get("cons") or {})

    res = run_case(main)
    bad = case.bad
    left = 0
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    if st["end"] is None or not res.main_done:
        bad.append(f"iteration never ended; yielded {show(yields, 200)}, issued {show([i[1] for i in issues], 200)}")
    else:
        k, e = st["end"]
        if k == "L":
            for i in issues:
                if i[1] not in st["gaveup"] and i[3] is None:
                    bad.append(f"{show(i[1])} is still being sent although the iteration was left at t={st['left']}")
                elif i[3] is not None and len(i) > 4 and i[4] > max(i[2], st["left"]):
                    bad.append(f"sending {show(i[1])} at t={i[2]} returned at t={i[4]} although the iteration was left at t={st['left']}")
                left += len(i) > 4 and i[4] == st["left"] > i[2]
            if issues and st.get("before") is not None and st.get("term_returned") is None:
                bad.append("the producer of the terminal stays blocked although the iteration was left")
            iss = [i[1] for i in issues if i[1] in yields or i[1] not in st["gaveup"]] if st["gaveup"] else [i[1] for i in issues]
            if not sames(yields, iss[:len(yields)]):
                bad.append(f"yielded {show(yields, 200)} instead of the first of {show(iss, 200)}")
        elif "prods" in c:
            want = c["term"][1]
            if c.get("mid"):
                del issues[st["before"]:]
            if k != want or (k == "E" and e is not st.get("err")):
                bad.append(f"ended with {k} {e!r} instead of {want} {st.get('err')!r}")
            if st.get("term_returned") is None:
                bad.append("the producer of the terminal stays blocked")
            if any(i[3] is None for i in issues):
                bad.append("a producer stays blocked after its value was taken")
            n = sum(len(p) for p in c["prods"])
            iss = [i[1] for i in issues]
            # what a producer gave up sending may or may not have been handed over
            skip = [x for x in st["gaveup"] if x not in yields]
            iss = [x for x in iss if x not in skip] if skip else iss
            n -= len(skip)
            if len(c["prods"]) == 1:
                if not sames(yields, iss):
                    bad.append(f"yielded {show(yields, 200)} instead of {show(iss, 200)}")
            else:
                for p in range(len(c["prods"])):
                    a = [y for y in yields if type(y) is tuple and len(y) == 3 and y[1] == p]
                    b = [y for y in iss if y[1] == p]
                    if not sames(a, b):
                        bad.append(f"values of producer {p}: yielded {show(a, 150)} instead of {show(b, 150)}")
                if not sames(yields, iss):
                    bad.append(f"yielded {show(yields, 200)} instead of {show(iss, 200)}, the order in which they were sent")
                if len(yields) != len(iss):
                    bad.append(f"{len(yields)} values yielded, {len(iss)} issued")
            if len(st["probe"].subs) != 1:
                bad.append(f"subscribed {len(st['probe'].subs)} times")
            if len(iss) != n and not c.get("mid"):
                bad.append(f"only {len(iss)} of {n} values could be sent")
        else:
            vals, term = pipes.model({"src": c["src"], "ops": c["ops"]})
            if not sames(yields, vals):
                bad.append(f"yielded {show(yields, 200)} instead of {show(vals, 200)}")
            if (k == "C") != (term == "C"):
                bad.append(f"ended with {k} {e!r}, the source with {term}")
            elif k == "E":
                srcerr = case.__dict__.get("srcerr", [])
                pe = [q[3] for p in case.__dict__.get("probes", []) for q in p.issues if q[2] == "E"]
                if not any(e is x for x in srcerr + pe) and not (c["src"][0] == "fail"):
                    bad.append(f"raised {e!r} instead of the source's error")
    cnt = {"slow_subscribe": int(bool(c.get("subdelay"))), "yielded": len(yields), "errors": int((st["end"] or "-")[0] == "E"), "stops": int((st["end"] or "-")[0] == "C"),
           "timeouts": st["timeouts"], "producers>1": int(len(c.get("prods", [])) > 1), "held": st["held"], "fifo": int(bool(c.get("fifo"))), "mid": int(bool(c.get("mid"))), "gave_up": len(st["gaveup"]), "yanked": st["yanked"], "left": left}
    return Out(bad, tuple((x[1],) + tuple(show(y) for y in x[2:]) for x in case.log), cnt, len(case.log) > 0,
               note=show([x[1:] for x in case.log][:14], 400))
