"""C12: ended or disposed subscriptions release every upstream one."""
import asyncio

from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, rlat, rpause
from ..kit import Case, Rec, Tap, pause, show
from ..runner import Out
import aioreactive as rx

ID = "C12"
LEVEL = "fault_enumeration"
RULE = ("random pipelines (nested up to two levels); every source, nested ones included, is wrapped by an instrumented observable that records "
        "subscribe, dispose and end; the subscription ends by completion, error, a raising function, a raising observer, early-ending operators, or is "
        "disposed at any step, time, from a handler or by leaving an async iteration; from the end of that instant of loop time on, no upstream "
        "subscription may be live, and the loop has to become idle; distinct: operators, way of ending and trace")
BUDGET = {"quick": (96000, 240), "thorough": (300000, 600)}
REQUIRED = {"released_live": 8000, "ended_E": 1500, "ended_C": 3000, "disposed": 5000, "upstream": 30000, "iter": 300, "observer_raised": 300, "inner_live": 500,
            "step": 2000, "subscribe_failed": 50, "left_subscribing": 100, "sub_cancelled": 500, "cancel_live": 100, "got_before_failing": 50, "calm_failing": 50} | {"op:" + x: 100 for x in gens.GUARDED + ("catch", "retry", "delay", "slice", "scan", "map")}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "how", "at")
OPTS = {"many": 0.01, "boom": 0.15, "once": True}


def half(rng):
    """A subscription that has got some of its upstream ones when it fails or is cancelled."""
    k = rng.choice(gens.TWO + gens.INNER + ("catch", "retry", "catch"))
    while True:
        ops = gens.any_op(rng, OPTS, 1)
        if ops[0][0] == k:
            break
    live = lambda: {"src": ["probe", {"ev": [[rng.choice([0, 0.5, 5]), "N", rng.randrange(7)] for _ in range(rng.choice([0, 1, 2]))]}], "ops": gens.any_op(rng, OPTS, 0) if rng.random() < 0.3 else []}
    ev = [[0, "N", rng.randrange(7)] for _ in range(rng.choice([0, 1, 2]))]
    if k in ("catch", "retry") or rng.random() < 0.2:
        ev.append([0, "E", rerr(rng, 1)])
    a = {"ev": ev, "sync": len(ev), "postdelay": rng.choice([None, ["y", 2], ["y", 5], ["s", 1.0], ["s", 4.0]])}
    if rng.random() < 0.4:
        a.update(subraise=rerr(rng), late=True)
    p = {"src": ["probe", a], "ops": ops}
    x = ops[0][1]
    if k in gens.TWO:
        x["other"] = live()
        if rng.random() < 0.5 and k != "take_until":
            p["src"], x["other"]["src"] = x["other"]["src"], p["src"]
    elif k in gens.INNER:
        x["inner"] = [live() for _ in x["inner"]]
        x.pop("boom", None)
    elif k == "catch":
        x["handler"] = live()
    else:
        a["per"] = [{"ev": ev, "sync": len(ev)}, {"ev": [[5, "C"]], "sync": 0, "postdelay": None, "subraise": None}]
    for _ in range(rng.choice([0, 0, 1, 2])):
        p["ops"] += gens.any_op(rng, OPTS, 0)
    return {"pipe": p, "beh": {}, "sub": rng.randrange(3), "how": "cancel", "at": rng.choice([-1, -2, -3, -4, -6, 0.125, 0.5, 1.5, 4.5])}


def gen(rng, tier):
    if rng.random() < 0.02:
        return half(rng)
    p = gens.any_pipe(rng, OPTS, rng.choice([0, 1, 1, 2, 2]))
    for i, q in enumerate(list(gens.walk_pipes(p))):
        if i and q["src"][0] == "probe" and rng.random() < 0.03:
            q["src"] = ["probe", {"ev": [], "subraise": rerr(rng)}]
        elif q["src"][0] == "probe" and rng.random() < 0.02:  # fails after having sent something
            a = q["src"][1]
            a.update(subraise=rerr(rng), late=True, sync=rng.choice([1, 2, len(a["ev"])]))
    beh = {"lat": rlat(rng, 0.4), "tlat": rpause(rng, 0.2)}
    c = {"pipe": p, "beh": beh, "sub": rng.randrange(3), "how": "end", "at": 0}
    r = rng.random()
    if r < 0.3:
        if rng.random() < 0.3:
            beh["raise"] = {str(rng.randrange(3)): rerr(rng)}
    elif r < 0.55:
        c["how"], c["at"] = "step", rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17, 22, 30, 45])
    elif r < 0.58:
        c["how"], c["at"] = "steps", 0
    elif r < 0.8:
        c["how"], c["at"] = "time", rng.choice([0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3])
    elif r < 0.87:  # subscribing is cancelled
        c["how"], c["at"] = "cancel", rng.choice([-1, -2, -3, -4, -5, -7, 0.125, 0.375, 0.75, 1.25, 2.5])
        prob = rng.choice([0.2, 0.5])
        for q in gens.walk_pipes(p):
            if q["src"][0] == "probe" and rng.random() < prob:
                q["src"][1].pop("subdelay", None)
                q["src"][1]["sync"] = rng.choice([0, 1, 2, len(q["src"][1]["ev"])])
                q["src"][1]["postdelay"] = rng.choice([["y", 2], ["s", 0.5], ["s", 1.0], ["s", 3.0]])
    elif r < 0.93:
        c["how"], c["at"] = "handler", rng.choice([0, 0, 1, 2, "T"])
        if rng.random() < 0.5:
            beh["after"] = rpause(rng, 1.0)
    else:
        c["how"], c["at"] = "iter", rng.choice([1, 1, 2, 3])
        if rng.random() < 0.15:  # left while the source is still being subscribed to
            k = rng.choice([1, 2, 3])
            ev = [[0, "N", rng.randrange(7)] for _ in range(k)] + [[rng.choice([0, 1, 4]), "N", rng.randrange(7)] for _ in range(rng.choice([0, 1, 3]))]
            src = ["probe", {"ev": ev, "sync": k, "postdelay": rpause(rng, 1.0)}]
            c["pipe"] = {"src": src, "ops": rng.choice([[], [], [["map", {"f": "id"}, 0]], [["skip", {"n": 0}, 0]], [["scan", {"f": "last", "init": 3}, 0]]])}
            c["at"], c["leave"] = k + (c["pipe"]["ops"] != [] and c["pipe"]["ops"][0][0] == "scan"), True
            return c
        c["pipe"] = gens.any_pipe(rng, {**OPTS, "sync": False, "subdelay": False, "create": False}, rng.choice([0, 1, 2]))
    return c


def suspends(p):
    """A source that may still be inside its subscribe_async when the consumer leaves."""
    return any(q["src"][0] == "create" or q["src"][0] == "probe" and (q["src"][1].get("sync") or q["src"][1].get("subdelay")) for q in gens.walk_pipes(p))


def once(c, how, at):
    case = Case()
    beh = dict(c["beh"])
    if how == "handler":
        beh["dispose"] = at
    r = Rec(case, "observer", beh, grammar=False, overlap=False)
    st = {"gone": None, "why": None, "steps": None, "task": None, "start": None, "live": 0, "inner": 0, "bad": [], "err": None, "pending": False}

    def stage(o, name, spec):
        return Tap(case, o, name) if name.endswith(".s") and spec[0] != "probe" else o

    def gone(why):
        if st["gone"] is None:
            st["gone"], st["why"] = case.now(), why
            if why.startswith("subscribing"):
                st["fail_seq"] = case.ev("root", why)
                st["busy"] = bool(r.active or sum(f.active for f in case.__dict__.get("fns", {}).values())
                                  or any(s.t_ret is None and s.failed is None for s in case.__dict__.get("psubs", [])))

    async def dispose():
        st["start"] = case.ev("root", "dispose")
        live = [s for s in case.__dict__.get("psubs", []) if s.live]
        st["live"], st["inner"] = len(live), sum(s.probe.name.count(".") > 1 for s in live)
        try:
            await r.sub.dispose_async()
        except Exception as ex:
            st["err"] = ex
        gone("dispose")

    async def iterate(o):
        it = rx.AsyncIteratorObserver(o)
        try:
            for _ in range(at):
                await it.__anext__()
            st["live"] = sum(s.live for s in case.__dict__.get("psubs", []))
            await it.dispose_async()
            gone("iteration left")
        except StopAsyncIteration:
            gone("iteration ended")
        except Exception:
            gone("iteration failed")

    async def main():
        o = pipes.build(case, c["pipe"], "p", {"stage": stage})
        if how == "iter":
            await iterate(o)
            return
        if how == "cancel":
            t = asyncio.get_running_loop().create_task(r.subscribe(o, c.get("sub", 0)))
            await pause(["y", -at] if at < 0 else ["s", at])
            if t.cancel():
                st["live"] = sum(s.live and s.t_ret is not None for s in case.__dict__.get("psubs", []))
                await asyncio.wait([t])
            if t.cancelled():
                st["cancelled"] = True
                gone("subscribing cancelled")
            elif t.exception() is not None:
                gone("subscribing failed")
            else:
                await dispose()
            return
        try:
            await r.subscribe(o, c.get("sub", 0))
        except Exception:
            gone("subscribing failed")
            return
        if how == "time":
            await asyncio.sleep(at)
            await dispose()
        elif how == "step":
            st["steps"] = 0

    def hook(loop):
        if st["steps"] is None:
            return
        if st["steps"] == at and st["task"] is None:
            st["task"] = asyncio.Task(dispose(), loop=loop, eager_start=True)
        st["steps"] += 1

    def calm(loop):
        if st["gone"] is None:
            if r.disposed_seq is not None:
                gone("dispose from a handler")
            elif r.ended and not r.active:
                gone("terminal")
        if st["gone"] is not None and not st["bad"]:
            subs = case.__dict__.get("psubs", [])
            st["pending"] = pending = any(s.t_ret is None and s.failed is None for s in subs)  # a source still inside its subscribe_async: wait for it
            left = [s for s in subs if s.live]
            if left and not pending:
                st["bad"].append(f"{st['why']} at t={st['gone']}, but at t={case.now()} still subscribed: "
                                 + ", ".join(f"{s.probe.name}#{s.idx} (since t={s.t_sub})" for s in left[:4]))

    res = run_case(main, horizon=core.T0 + 40.0, max_ticks=30000, tick_hook=hook if how == "step" else None, hooks=[calm])
    return case, r, res, st


def judge(c, how, at, cnt):
    case, r, res, st = once(c, how, at)
    bad = list(st["bad"])
    if st["err"] is not None:
        bad.append(f"dispose raised {st['err']!r}")
    if st["gone"] is not None and not bad and res.status != "idle" and not st["pending"]:
        bad.append(f"{st['why']} at t={st['gone']}, but the pipeline keeps running ({res.status})")
    if "fail_seq" in st:
        late = [e for e in r.events if e[3] > st["fail_seq"]]
        cnt["calm_failing"] += not st["busy"]
        if late and not st["busy"]:
            bad.append(f"{st['why']} at t={st['gone']}, but at t={late[0][2]} the observer is still called: {late[0][0]} {show(late[0][1])}")
        cnt["got_before_failing"] += any(e[3] < st["fail_seq"] for e in r.events)
    subs = case.__dict__.get("psubs", [])
    cnt["upstream"] += len(subs)
    cnt["released_live"] += sum(s.disposed is not None and s.finished is None for s in subs)
    cnt["ended_E"] += "E" in r.kinds()
    cnt["ended_C"] += "C" in r.kinds()
    cnt["disposed"] += st["why"] in ("dispose", "dispose from a handler", "iteration left")
    cnt["iter"] += how == "iter" and st["why"] == "iteration left" and st["live"] > 0
    cnt["observer_raised"] += bool(r.raised)
    cnt["inner_live"] += st["inner"] > 0
    cnt["subscribe_failed"] += st["why"] == "subscribing failed"
    cnt["left_subscribing"] += bool(c.get("leave")) and st["why"] == "iteration left"
    cnt["sub_cancelled"] += "cancelled" in st
    cnt["cancel_live"] += "cancelled" in st and st["live"] > 0
    cnt["step"] += how == "step" and st["live"] > 0
    return bad, r, st


def run(c):
    cnt = dict.fromkeys([k for k in REQUIRED if ":" not in k], 0)
    how, at = c["how"], c["at"]
    if how == "iter" and not c.get("leave") and suspends(c["pipe"]):
        return Out([], "skip", cnt, False)
    bad = []
    if how == "steps":
        k = 0
        while k < 120:
            b, r, st = judge(c, "step", k, cnt)
            bad += b
            if bad or st["start"] is None:
                break
            k += 1
    else:
        bad, r, st = judge(c, how, at, cnt)
    for x in set(gens.op_names(c["pipe"])):
        cnt["op:" + x] = 1
    return Out(bad[:4], (tuple(gens.op_names(c["pipe"])), how, at, r.trace()), cnt, st["gone"] is not None or how == "steps", note=f"{how} {at}: {st['why']} {r.brief()}")
