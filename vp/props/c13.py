"""C13: a subject reaches exactly the observers subscribed at the send."""
import asyncio

from ..core import run_case
from ..kit import Case, boom, fresh, pause, show
from ..gens import rbig, rpause
from ..runner import Out
import aioreactive as rx
from aioreactive.testing import AsyncTestSubject
from aioreactive.types import AsyncObserver
from expression.system import ObjectDisposedException

ID = "C13"
RULE = ("random histories of subscribe/unsubscribe/send/throw/close/dispose on AsyncSubject, issued by a main actor, by timed actors while "
        "sends are in flight, and from inside observer handlers; every operation and delivery is logged and judged against a sequential "
        "model; distinct: operation/delivery log")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"sends": 2000, "deliveries": 2000, "terminals": 500, "unsub_during_send": 100, "refused": 300, "nested": 300, "equal": 300}
KEEP = ("op", "ops")
KINDS = ["N", "N", "N", "N", "sub", "sub", "unsub", "unsub", "E", "C", "D"]


def rop(rng, nobs, late):
    k = rng.choice(KINDS)
    if k in ("E", "C", "D") and rng.random() > (0.6 if late else 0.15):
        k = "N"
    if k in ("sub", "unsub"):
        return [k, rng.randrange(nobs)]
    return [k]


def gen(rng, tier):
    many = rbig(rng, 0.006, (12, 25, 40, 60, 70))
    nobs = many or rng.choice([1, 2, 3, 3, 4, 5])
    n = rbig(rng, 0.006, (40, 90, 200)) or rng.choice([2, 4, 6, 8, 12])
    ops = [["sub", i] for i in range(rng.randrange(0, nobs + 1) if not many or rng.random() < 0.3 else nobs)]
    ops += [rop(rng, nobs, i > n * 0.6) for i in range(n)]
    if rng.random() < 0.3:
        ops += [rng.choice([["E"], ["C"]]), ["N"], ["N"]]
    if rng.random() < 0.2:
        ops += [["D"], ["N"], rng.choice([["C"], ["E"]]), ["sub", 0]]
    obs = []
    for i in range(nobs):
        o = {"lat": [rpause(rng, 0.4) for _ in range(rng.randrange(3))]}
        if rng.random() < 0.3:
            o["do"] = {str(rng.randrange(3)): rop(rng, nobs, False)}
            if rng.random() < 0.5:
                o["do"] = {str(rng.randrange(2)): ["unsub", i]}
        o["fn"] = rng.randrange(2)
        obs.append(o)
    timed = []
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice(["sub", "unsub", "unsub", "N", "D", "C"])
            timed.append([rng.choice([0.125, 0.375, 0.6, 1.1, 2.2]), [k, rng.randrange(nobs)] if k in ("sub", "unsub") else [k]])
    return {"ops": ops, "obs": obs, "timed": timed, "cls": rng.randrange(3), "vk": rng.choice([None, rng.randrange(1000), rng.randrange(1000)]),
            "gap": rng.choice([None, None, ["y", 1], ["s", 0.5]]), "eq": int(rng.random() < 0.25)}


class O(AsyncObserver):
    def __init__(self, h, i, spec, gen):
        self.h, self.i, self.spec, self.n, self.gen = h, i, spec, 0, gen

    async def asend(self, v):
        await self.h.deliver(self, "N", v)

    async def athrow(self, e):
        await self.h.deliver(self, "E", e)

    async def aclose(self):
        await self.h.deliver(self, "C", None)


class OEq(O):
    """Observers of a class with value equality (as dataclasses have)."""

    def __eq__(self, other):
        return isinstance(other, OEq)

    def __hash__(self):
        return 1


class H:
    def __init__(self, c):
        self.c = c
        self.case = Case()
        self.bad = self.case.bad
        self.subs = []  # dicts: obs, seq_sub (return), seq_unsub_start, seq_unsub_end, disp
        self.active = {}  # observer index -> live sub record
        self.opslog = []
        self.deliv = []  # (seq, sub record, kind, payload)
        self.stop_seq = None
        self.disp_seq = None
        self.depth = 0
        self.nested = 0

    async def deliver(self, o, kind, payload):
        s = self.case.ev("deliver", o.i, kind)
        d = [s, o.rec, kind, payload, None]
        self.deliv.append(d)
        k = o.n
        o.n += 1
        lat = o.spec.get("lat")
        if lat:
            await pause(lat[k % len(lat)])
        act = o.spec.get("do", {}).get(str(k))
        if act and self.depth < 3:
            self.depth += 1
            self.nested += 1
            try:
                await self.do(act, nested=True)
            finally:
                self.depth -= 1
        d[4] = self.case.ev("handled", o.i)

    async def do(self, op, nested=False):
        k = op[0]
        subj = self.subj
        case = self.case
        rec = {"k": k, "start": case.ev("op", *op), "t0": case.now(), "nested": nested}
        disposed, stopped = self.disp_seq is not None, self.stop_seq is not None
        rec["disposed"], rec["stopped"] = disposed, stopped
        exc = None
        if k == "unsub":
            s = self.active.get(op[1])
            if s is None:
                return
            s["u0"] = case.ev("unsub", op[1])
            del self.active[op[1]]
            try:
                await s["disp"].dispose_async()
                if len(self.subs) % 3 == 0:
                    await s["disp"].dispose_async()
            except Exception as ex:
                self.case.fail(f"unsubscribing raised {ex!r}")
            s["u1"] = case.ev("unsubbed", op[1])
            return
        if k == "sub":
            if op[1] in self.active:
                return
            o = (OEq if self.c.get("eq") else O)(self, op[1], self.c["obs"][op[1] % len(self.c["obs"])], len(self.subs))
            s = {"obs": op[1], "s0": rec["start"], "u0": None, "u1": None, "disp": None, "n": len(self.subs)}
            o.rec = s
            try:
                if self.c["obs"][op[1] % len(self.c["obs"])].get("fn"):
                    s["disp"] = await subj.subscribe_async(o.asend, o.athrow, o.aclose)
                else:
                    s["disp"] = await subj.subscribe_async(o)
            except Exception as ex:
                exc = ex
            if exc is None:
                self.subs.append(s)
                s["s1"] = case.ev("subscribed", op[1])
                self.active[op[1]] = s
        else:
            if k == "D":
                self.disp_seq = self.disp_seq or rec["start"]
            elif k != "N" and not disposed:
                self.stop_seq = self.stop_seq or rec["start"]
            rec["snap"] = [s for s in self.subs if s["u0"] is None] if not (disposed or stopped) else []
            rec["payload"] = v = fresh(self.c.get("vk"), len(self.opslog)) if k == "N" else boom("subj", len(self.opslog))
            rec["end"] = None
            self.opslog.append(rec)
            try:
                if k == "N":
                    await subj.asend(v)
                elif k == "E":
                    await subj.athrow(v)
                elif k == "C":
                    await subj.aclose()
                else:
                    await subj.dispose_async()
            except Exception as ex:
                exc = ex
            rec["end"], rec["t1"] = case.ev("opend", k), case.now()
        rec["exc"] = exc
        if k == "D":
            if exc is not None:
                self.case.fail(f"dispose raised {exc!r}")
        elif disposed:
            if not isinstance(exc, ObjectDisposedException):
                self.case.fail(f"{k} on a disposed subject: {exc!r} instead of ObjectDisposedException")
            self.refused = getattr(self, "refused", 0) + 1
        elif exc is not None and not isinstance(exc, ObjectDisposedException):
            self.case.fail(f"{k} raised {exc!r}")
        elif exc is not None and not (self.disp_seq is not None and self.disp_seq > rec["start"]):
            self.case.fail(f"{k} raised {exc!r} although the subject is not disposed")


def run(c):
    h = H(c)

    async def timed():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        for t, op in sorted(c.get("timed", []), key=lambda x: x[0]):
            await asyncio.sleep(max(0, t0 + t - loop.time()))
            h.bg.append(loop.create_task(h.do(op)))

    async def main():
        h.subj = [rx.AsyncSubject, AsyncTestSubject, rx.AsyncMultiSubject if hasattr(rx, "AsyncMultiSubject") else rx.AsyncSubject][c.get("cls", 0)]()
        h.bg = []
        if c.get("timed"):
            h.bg.append(asyncio.get_running_loop().create_task(timed()))
        for op in c["ops"]:
            await h.do(op)
            await pause(c.get("gap"))

    res = run_case(main)
    bad = h.bad
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"blocked: status {res.status}, main finished: {res.main_done}")
    byp = {}
    for d in h.deliv:
        byp.setdefault((d[2], id(d[3]) if d[2] != "C" else 0), []).append(d)
    udur = 0
    terms = [r for r in h.opslog if r["k"] in "EC" and not r["disposed"] and not r["stopped"]]
    seen = 0
    prev = None
    for r in h.opslog:
        if r["k"] == "D":
            continue
        ds = byp.get((r["k"], id(r["payload"]) if r["k"] != "C" else 0), [])
        if r["k"] == "C":
            if r["disposed"] or r["stopped"]:
                continue  # no payload to attribute; the live close below accounts for every completion
        seen += len(ds)
        end = r["end"] if r["end"] is not None else float("inf")
        # something that may legitimately cut the delivery round short started meanwhile
        cut = min([x for x in (h.stop_seq, h.disp_seq) if x is not None and x > r["start"]], default=float("inf"))
        got = {}
        for d in ds:
            got.setdefault(d[1]["n"], []).append(d)
            if d[0] < r["start"] or d[0] > end:
                bad.append(f"{r['k']} delivered outside its send")
            if d[4] is not None and d[4] > end or d[4] is None and end != float("inf"):
                bad.append(f"{r['k']}: the send returned before observer {d[1]['obs']} had handled it")
        for s in h.subs:
            n = len(got.get(s["n"], []))
            insnap = s in r["snap"]
            if not insnap:
                if n:
                    why = "unsubscribed" if s["u0"] is not None and s["u0"] < r["start"] else ("late" if s["s0"] > r["start"] else "refused")
                    bad.append(f"{r['k']} sent at {r['start']} reached observer {s['obs']} ({why})")
                continue
            gone = s["u0"] is not None and s["u0"] < end
            if gone:
                udur += 1
            if n > 1:
                bad.append(f"{r['k']} reached observer {s['obs']} {n} times")
            elif n == 0 and not gone and cut > end and r["end"] is not None:
                bad.append(f"{r['k']} sent at {r['start']} never reached observer {s['obs']}, subscribed since {s['s1']}")
        order = [d[1]["n"] for d in ds]
        if order != sorted(order):
            bad.append(f"{r['k']} delivered in order {order} instead of subscription order")
        if not r["snap"] and r["end"] is not None and r["t1"] != r["t0"]:
            bad.append(f"{r['k']} with no observer blocked until t={r['t1']}")
        if prev is not None and prev["end"] is not None and prev["end"] < r["start"]:
            pd = byp.get((prev["k"], id(prev["payload"])), [])
            if pd and ds and max(d[0] for d in pd) > min(d[0] for d in ds):
                bad.append("values delivered out of send order")
        prev = r if r["k"] == "N" else prev
    if seen != len(h.deliv):
        bad.append(f"{len(h.deliv) - seen} deliveries that correspond to no accepted send")
    cnt = {"sends": sum(r["k"] == "N" for r in h.opslog), "deliveries": len(h.deliv), "terminals": len(terms), "unsub_during_send": udur,
           "refused": getattr(h, "refused", 0), "nested": h.nested, "equal": int(bool(c.get("eq")) and len(h.subs) > 1), "subscriptions": len(h.subs)}
    key = tuple(x[1:3] + tuple(show(y, 20) for y in x[3:]) for x in h.case.log)
    return Out(bad, key, cnt, len(h.opslog) > 0, note=show([x[1:] for x in h.case.log][:14], 400))
