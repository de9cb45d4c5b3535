"""C11: after dispose the observer is left alone."""
import asyncio

from .. import core, gens, pipes
from ..core import run_case
from ..gens import rlat, rpause
from ..kit import Case, Rec, show, val
from ..runner import Out

ID = "C11"
LEVEL = "fault_enumeration"
RULE = ("random pipelines (nested up to two levels) over library sources, instrumented sources, misbehaving sources behind guarding operators and "
        "subjects; the subscription is disposed after every scheduler step (enumerated) or at a random step, at virtual times, from inside "
        "handlers, at once, and repeatedly; nothing may enter the observer after dispose returned, what came before is compared with an "
        "undisturbed run of the same case (no made-up terminal), dispose returns, a handler disposing its own subscription runs on; "
        "distinct: operators, point of disposal and trace")
BUDGET = {"quick": (48000, 240), "thorough": (250000, 600)}
REQUIRED = {"disposed_live": 6000, "from_handler": 800, "at_step": 5000, "at_time": 1000, "pending_when_disposed": 3000, "issued_after": 1000, "twice": 500,
            "subject": 400, "in_flight": 3, "handler_ran_on": 300} | {"op:" + x: 100 for x in gens.GUARDED + ("catch", "retry", "delay", "slice", "scan", "map")}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "how", "at")
STRICT = {"many": 0.01, "rude": 0.25, "boom": 0.1, "once": True, "single": False, "create": False, "lat": False}
LOOSE = {**STRICT, "lat": True, "boom": 0}


def gen(rng, tier):
    o = STRICT if rng.random() < 0.85 else LOOSE
    p = gens.any_pipe(rng, o, rng.choice([0, 1, 1, 2]))
    c = {"pipe": p, "beh": {"lat": rlat(rng), "tlat": rpause(rng, 0.2)}, "sub": rng.randrange(3)}
    if rng.random() < 0.15 and p["src"][0] == "probe":  # a real subject with a producer instead
        ev = sorted([e for e in p["src"][1]["ev"] if e[1] == "N"], key=lambda e: e[0])
        for i in range(rng.choice([0, 2, 4])):
            ev.append([(ev[-1][0] if ev else 0) + rng.choice([0, 0.5, 1]), "N", rng.randrange(7)])
        if rng.random() < 0.6:
            ev.append([(ev[-1][0] if ev else 0) + rng.choice([0, 0.5]), rng.choice("CE"), 0])
        p["src"] = ["subject", {"id": "S", "one": rng.randrange(2)}]
        c["script"] = ev
    r = rng.random()
    if r < 0.35:
        c["how"], c["at"] = "step", rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30, 40])
    elif r < 0.42:
        c["how"], c["at"] = "steps", 0
    elif r < 0.7:
        c["how"], c["at"] = "time", rng.choice([0, 0.25, 0.5, 0.5, 0.75, 1, 1.5, 2, 3])
    elif r < 0.95:
        c["how"], c["at"] = "handler", rng.choice([0, 0, 1, 1, 2, 3, "T"])
        if rng.random() < 0.7:
            c["beh"]["after"] = rpause(rng, 1.0)
    else:
        c["how"], c["at"] = "now", 0
    if rng.random() < 0.2:
        c["twice"] = rng.choice([0, 0.5, 1])
    return c


def once(c, how, at):
    case = Case()
    beh = dict(c["beh"])
    if how == "handler":
        beh["dispose"] = at
        if c.get("twice") is not None:
            beh["ndispose"] = 2
    r = Rec(case, "observer", beh, grammar=False, overlap=False)
    st = {"done": None, "start": None, "steps": None, "task": None, "active": 0, "err": None, "late": 0}

    async def dispose():
        st["start"], st["t"] = case.ev("root", "dispose"), case.now()
        try:
            await r.sub.dispose_async()
        except Exception as ex:
            st["err"] = ex
        st["done"] = case.ev("root", "disposed")
        st["active"] = sum(f.active for f in case.__dict__.get("fns", {}).values())
        if c.get("twice") is not None:
            if c["twice"]:
                await asyncio.sleep(c["twice"])
            try:
                await r.sub.dispose_async()
            except Exception as ex:
                st["err"] = ex
            st["second"] = True

    async def producer(s):
        loop = asyncio.get_running_loop()
        for e in c["script"]:
            dt = core.T0 + e[0] - loop.time()
            if dt > 0:
                await asyncio.sleep(dt)
            if st["done"] is not None:
                st["late"] += 1
            try:
                if e[1] == "N":
                    await s.asend(val(e[2]))
                elif e[1] == "C":
                    await s.aclose()
                else:
                    await s.athrow(Exception("script"))
            except Exception:
                if c["pipe"]["src"][1].get("one"):
                    return

    async def main():
        env = {}
        p = c["pipe"]
        o = pipes.build(case, p, "p", env)
        if p["src"][0] == "subject":
            asyncio.get_running_loop().create_task(producer(case.subjects["S"]))
        await r.subscribe(o, c.get("sub", 0))
        case.ev("root", "subscribed")
        if how == "time":
            await asyncio.sleep(at)
            await dispose()
        elif how == "now":
            await dispose()
        elif how == "step":
            st["steps"] = 0

    def hook(loop):
        if st["steps"] is None:
            return
        if st["steps"] == at and st["task"] is None:
            st["task"] = asyncio.Task(dispose(), loop=loop, eager_start=True)
        st["steps"] += 1

    subject = pipes.rx.AsyncSubject
    if c["pipe"]["src"][0] == "subject" and c["pipe"]["src"][1].get("one"):
        pipes.rx.AsyncSubject = pipes.rx.AsyncSingleSubject
    try:
        res = run_case(main, horizon=core.T0 + 9.0, max_ticks=30000, tick_hook=hook if how == "step" else None)
    finally:
        pipes.rx.AsyncSubject = subject
    if how == "handler":
        st["start"], st["done"] = r.dis_start, r.disposed_seq
        st["active"] = 0
    return case, r, res, st


def judge(c, how, at, ctl, cnt):
    case, r, res, st = once(c, how, at)
    bad = []
    if res.main_exc is not None:
        return [f"unexpected exception {res.main_exc!r}"], r, st
    if st["err"] is not None:
        bad.append(f"dispose raised {st['err']!r}")
    if st["start"] is None:
        return bad, r, st
    if st["done"] is None:
        bad.append("dispose did not return")
        return bad, r, st
    if c.get("twice") is not None and how in ("step", "time", "now") and not st.get("second") and st["t"] + c["twice"] < 9:
        bad.append("disposing again did not return")
    lat = "'lat': ['" in str(c["pipe"])
    before = [e for e in r.events if e[3] < st["start"]]
    during = [e for e in r.events if st["start"] < e[3] < st["done"]]
    after = [e for e in r.events if e[3] > st["done"]]
    if how in ("step", "time") and len(after) == 1 and after[0][0] != "N" and after[0][2] == st["t"] and any(
            x[0] == after[0][0] and x[2] == after[0][2] for x in ctl.events):
        # the terminal of this very instant was on its way when dispose was called
        during.append(after.pop())
        cnt["terminal_in_flight"] = cnt.get("terminal_in_flight", 0) + 1
    if lat:
        # what was inside an async user function may come out, as a value or as the error of a function behind it
        own = [e for e in after if e[0] == "N" or e[0] == "E" and any(e[1] is x for x in case.__dict__.get("booms", []))]
        inner = len(own)
        if inner > st["active"] and how != "handler" or len(own) < len(after):
            bad.append(f"{[(e[0], show(e[1]), e[2]) for e in after[:4]]} delivered after dispose had returned (disposed {how} {at}); got {r.brief()}")
        cnt["in_flight"] += inner > 0
    elif after:
        bad.append(f"{[(e[0], show(e[1]), e[2]) for e in after[:4]]} delivered after dispose had returned (disposed {how} {at}); got {r.brief()}")
    ref = [(e[0], show(e[1])) for e in ctl.events]
    if how != "handler":
        got = [(e[0], show(e[1])) for e in before]
        if got != ref[: len(got)]:
            bad.append(f"before dispose {r.brief()}, undisturbed {ctl.brief()}")
    for e in during:
        if e[0] != "N" and not any(x[0] == e[0] and x[2] == e[2] for x in ctl.events):
            bad.append(f"dispose made up {e[0]} at t={e[2]}: {r.brief()}, undisturbed {ctl.brief()}")
    if how == "handler" and r.cut and r.cut < 9.0:
        bad.append(f"the handler that disposed its own subscription was cut off: {r.brief()}")
    live = not any(e[0] != "N" for e in before)
    cnt["disposed_live"] += live
    cnt["from_handler"] += how == "handler"
    cnt["at_step"] += how == "step"
    cnt["at_time"] += how == "time"
    cnt["twice"] += c.get("twice") is not None
    cnt["subject"] += c["pipe"]["src"][0] == "subject"
    cnt["handler_ran_on"] += how == "handler" and bool(c["beh"].get("after"))
    cnt["pending_when_disposed"] += len(ctl.events) > len(before)
    cnt["issued_after"] += st["late"] + sum(q[0] > st["done"] for p in case.__dict__.get("probes", []) for q in p.issues)
    if res.status == "livelock":
        bad.append("does not come to rest after dispose")
    return bad, r, st


def run(c):
    cnt = dict.fromkeys([k for k in REQUIRED if ":" not in k], 0)
    _, ctl, res, st = once(c, "none", None)
    if res.status == "livelock":
        return Out([], "livelock", cnt, False)
    how, at = c["how"], c["at"]
    bad = []
    if how == "steps":
        k = 0
        while k < 120:
            b, r, st = judge(c, "step", k, ctl, cnt)
            bad += b
            if bad or st["start"] is None:
                break
            k += 1
    else:
        bad, r, st = judge(c, how, at, ctl, cnt)
    if how != "handler" or st["start"] is not None:
        for x in set(gens.op_names(c["pipe"])):
            cnt["op:" + x] = 1
    return Out(bad[:4], (tuple(gens.op_names(c["pipe"])), how, at, r.trace()), cnt, st["start"] is not None or how == "steps", note=f"{how} {at}: {r.brief()}")
