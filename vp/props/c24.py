"""C24: the reactivex bridge forwards the stream and its disposal."""
import asyncio

from .. import core, pipes
from ..core import run_case
from ..gens import rerr, elem_op, rbig, rlen, rpause, rvals
from ..kit import Case, Rec, Tap, show
from ..runner import Out
import reactivex
from reactivex.scheduler import CurrentThreadScheduler, ImmediateScheduler
from aioreactive.leave import to_observable

ID = "C24"
LEVEL = "fault_enumeration"
RULE = ("random sources (timed probes, iterables, async iterables, intervals) behind 0-2 element-wise operators, bridged to reactivex and "
        "observed by reactivex observers (1-2 subscriptions, optionally reactivex take); compared with a native subscription of the same "
        "pipeline; disposal injected before the start, at every loop step, at times and inside on_next; upstream liveness and loop errors "
        "are checked at every quiescent instant; distinct: pipeline, disposal point and trace")
BUDGET = {"quick": (16000, 240), "thorough": (60000, 400)}
REQUIRED = {"values": 3000, "errors": 300, "completions": 1000, "disposed_before_start": 500, "disposed_running": 3000, "disposed_in_handler": 200,
            "released": 2000, "subscribe_failed": 300}
KEEP = ("src", "ops", "s", "p", "ev", "n")


def gen(rng, tier):
    n = rlen(rng, 5)
    if rng.random() < 0.004:
        n = 60
    r = rng.random()
    v = rvals(rng, n)
    end = rng.choice(["C", "C", "E", None])
    if r < 0.6:
        t, ev = rng.choice([0, 0.5]), []
        for x in v:
            ev.append([t, "N", x])
            t += rng.choice([0, 0.25, 1])
        if end:
            ev.append([t, *([end] if end == "C" else ["E", rerr(rng, 1)])])
        src = ["probe", {"ev": ev, "sync": rng.choice([0, 0, 1, len(ev)]), "subdelay": rpause(rng, 0.3), "disdelay": rpause(rng, 0.2)}]
        if rng.random() < 0.08:  # cannot be subscribed to
            src[1]["subraise"] = rerr(rng, 1)
            if rng.random() < 0.5:
                src[1]["late"] = True
    elif r < 0.75:
        src = ["iter", {"v": v, "re": 1, **({"err": 1} if end == "E" else {})}]
    elif r < 0.9:
        src = ["aiter", {"v": v, "lat": rpause(rng), **({"err": 1} if end == "E" else {})}]
    else:
        src = ["interval", {"s": 0.5, "p": rng.choice([0, 1])}]
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops += elem_op(rng, style=0)
    return {"src": src, "ops": ops, "take": rng.choice([None, None, None, 1, 2]), "dis": rng.choice([None, "ticks", "ticks", "times", "handler"]),
            "subs": rng.choice([1, 1, 2]), "sched": rng.choice([0, 0, 0, 0, 1, 2]), "fns": rng.random() < 0.2, "nd": rng.choice([1, 1, 2])}


class RxObs(reactivex.abc.ObserverBase):
    def __init__(self, case, name, in_handler=None):
        self.case, self.name, self.ev, self.d, self.k = case, name, [], None, in_handler
        self.after = None

    def _e(self, kind, x):
        if self.after is not None:
            self.case.fail(f"{self.name}: {kind} {show(x)} delivered after dispose")
        self.case.ev(self.name, kind, x)
        self.ev.append((kind, show(x), self.case.now()))
        if kind == "N" and self.k is not None and len(self.ev) == self.k + 1 and self.d is not None:
            self.dispose()

    def dispose(self):
        self.d.dispose()
        self.after = self.case.now()
        self.case.ev(self.name, "disposed")

    def on_next(self, v):
        self._e("N", v)

    def on_error(self, e):
        self._e("E", e)

    def on_completed(self):
        self._e("C", None)


def execute(c, at=None, how=None):
    """at: ('now',) / ('tick', n) / ('time', t) / ('handler', k) for the first subscription."""
    case = Case()
    obs, st = [], {"n": 0, "done": False, "nd": c.get("nd", 1)}

    def doit():
        st["done"] = True
        o = obs[0]
        if o.d is None:
            return
        for _ in range(st["nd"]):
            o.d.dispose()
        o.after = case.now()
        case.ev("o0", "disposed")

    def tick(loop):
        if st["done"] or not obs or obs[0].d is None:
            return
        if st["n"] == at[1]:
            doit()
        st["n"] += 1

    def quiesce(loop):
        if not st.get("disposed_check") and not (obs and obs[0].after is not None):
            return
        for s in st["subs0"]():
            if s.live and s.t_ret is not None:
                case.fail(f"the reactivex subscription was disposed at t={obs[0].after} but {s.probe.name} is still subscribed at t={case.now()}")

    async def main():
        base = pipes.build(case, c["src"], "src")
        taps = []

        def one(i):
            src = base
            tap = Tap(case, src, f"tap{i}")
            taps.append(tap)
            o = tap
            for j, op in enumerate(c["ops"]):
                o = pipes.apply_op(case, o, op, f"p{i}.{j}.{op[0]}")
            x = to_observable(o)
            if c.get("take"):
                x = x.pipe(reactivex.operators.take(c["take"]))
            ob = RxObs(case, f"o{i}", at[1] if i == 0 and at and at[0] == "handler" else None)
            obs.append(ob)
            if c.get("sched"):
                kw = {"scheduler": [None, ImmediateScheduler(), CurrentThreadScheduler()][c["sched"]]}
            else:
                kw = {}
            ob.d = x.subscribe(ob, **kw) if not c.get("fns") else x.subscribe(ob.on_next, ob.on_error, ob.on_completed, **kw)

        st["subs0"] = lambda: taps[0].subs if taps else []
        one(0)
        if at and at[0] == "now":
            doit()
        for i in range(1, c.get("subs", 1)):
            one(i)
        if at and at[0] == "time":
            await asyncio.sleep(at[1])
            doit()
        await asyncio.sleep(30 - case.now())
        st["disposed_check"] = False
        for o in obs:
            if o.after is None:
                o.d.dispose()
                o.after = case.now()

    import reactivex.operators  # noqa: F401
    res = run_case(main, horizon=core.T0 + 60, hooks=[quiesce], tick_hook=tick if at and at[0] == "tick" else None)
    bad = case.bad
    if res.main_exc is not None:
        bad.append(f"subscribing raised {res.main_exc!r}")
    if res.status != "idle":
        bad.append(f"never comes to rest after everything was disposed ({res.status})")
    for e in res.loop.errors[:1]:
        bad.append(f"error in the event loop: {e.get('exception')!r}")
    for s in case.__dict__.get("psubs", []):
        if s.live:
            bad.append(f"{s.probe.name} is left subscribed")
    return obs, bad, st, case


c_failed = [0]


def native(c):
    case = Case()
    r = Rec(case, "ref")

    async def main():
        o = Tap(case, pipes.build(case, c["src"], "src"), "tap")
        for j, op in enumerate(c["ops"]):
            o = pipes.apply_op(case, o, op, f"p0.{j}.{op[0]}")
        try:
            await r.subscribe(o)
        except Exception as ex:
            if not r.ended:
                failed.append(("E", show(ex), case.now()))
            return
        await asyncio.sleep(30)
        await r.sub.dispose_async()

    failed = []
    run_case(main, horizon=core.T0 + 60)
    out = [e for e in r.trace() if e[2] < 30] + failed
    c_failed[0] += bool(failed)
    if c.get("take"):
        k = c["take"]
        vs = [e for e in out if e[0] == "N"]
        out = vs[:k] + [("C", "None", vs[k - 1][2])] if len(vs) >= k else out
    return out


def run(c):
    c_failed[0] = 0
    ref = native(c)
    obs, bad, st, case = execute(c)
    bad = list(bad)
    cnt = {"values": 0, "errors": 0, "completions": 0, "disposed_before_start": 0, "disposed_running": 0, "disposed_in_handler": 0, "released": 0,
           "runs": 1, "subscribe_failed": c_failed[0]}

    def note(obs, case):
        for o in obs:
            cnt["values"] += sum(e[0] == "N" for e in o.ev)
            cnt["errors"] += sum(e[0] == "E" for e in o.ev)
            cnt["completions"] += sum(e[0] == "C" for e in o.ev)
        cnt["released"] += sum(s.disposed is not None for s in case.__dict__.get("psubs", []))

    note(obs, case)
    for o in obs:
        if o.ev != ref:
            bad.append(f"{o.name}: {show(o.ev, 250)} instead of {show(ref, 250)}")
    key = [tuple(ref)]
    pts = []
    d = c.get("dis")
    if d == "ticks":
        pts = [("now",)] + [("tick", k) for k in list(range(14)) + [17, 21, 26, 33]]
    elif d == "times":
        pts = [("time", t) for t in (0.0, 0.125, 0.25, 0.5, 0.625, 1.0, 1.75)]
    elif d == "handler":
        pts = [("handler", k) for k in (0, 1, 2)]
    for at in pts:
        if bad:
            break
        obs, b, st, case = execute(c, at)
        cnt["runs"] += 1
        note(obs, case)
        ev = obs[0].ev
        if ev != ref[: len(ev)]:
            b.append(f"disposed {at}: {show(ev, 250)} is not a prefix of {show(ref, 250)}")
        if obs[0].after is not None and obs[0].after < 30:
            if not ev and at[0] in ("now", "tick"):
                cnt["disposed_before_start"] += 1
            else:
                cnt["disposed_running"] += 1
            cnt["disposed_in_handler"] += at[0] == "handler"
            missing = [e for e in ref if e[2] < obs[0].after]
            if len(ev) < len(missing):
                b.append(f"disposed {at} at t={obs[0].after}: earlier values missing, {show(ev, 200)} of {show(ref, 200)}")
        elif ev != ref:
            b.append(f"{at}: {show(ev, 250)} instead of {show(ref, 250)}")
        for o in obs[1:]:
            if o.ev != ref:
                b.append(f"disposed {at}: the other subscription got {show(o.ev, 200)} instead of {show(ref, 200)}")
        key.append((at, tuple(ev)))
        bad += [f"dispose at {at}: {x}" for x in b]
    return Out(bad, tuple(key), cnt, True, note=show(ref, 300))
