"""C14: a single subject waits for its observer and loses nothing."""
import asyncio

from .. import core
from ..core import run_case
from ..kit import Case, boom, fresh, pause, show
from ..gens import rbig, rpause
from ..runner import Out
import aioreactive as rx
from aioreactive.subject import AsyncSingleSubject
from aioreactive.testing import AsyncTestSingleSubject
from aioreactive.types import AsyncObserver
from expression.system import ObjectDisposedException

ID = "C14"
RULE = ("random histories of producers (awaiting and concurrent), cancelled producers, subscription, slow observers and disposal of the "
        "subscription or the subject at every relative position; each operation's outcome and each delivery judged against the "
        "waiting-queue model; distinct: operation/delivery log")
BUDGET = {"quick": (104000, 240), "thorough": (300000, 400)}
REQUIRED = {"delivered": 2000, "waited": 1000, "refused": 500, "woken_by_dispose": 200, "cancelled": 100, "ignored": 200, "nested": 1000}
KEEP = ("prod", "sub", "disp")


def gen(rng, tier):
    n = rbig(rng, 0.006, (40, 90, 200)) or rng.choice([1, 2, 3, 4, 6, 8])
    prod = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = {"t": rng.choice([0, 0, 0, 1, 2, 3]), "ops": [], "par": rng.random() < 0.5}
        for _ in range(rng.randrange(1, n + 1)):
            k = rng.choice(["N", "N", "N", "N", "N", "C", "E"])
            p["ops"].append([rng.choice([0, 0, 0.5, 1]), k])
        prod.append(p)
    c = {"prod": prod, "vk": rng.choice([None, rng.randrange(1000), rng.randrange(1000)]), "cls": rng.randrange(2), "fn": rng.randrange(2), "lat": [rpause(rng, 0.5) for _ in range(rng.randrange(3))],
         "sub": rng.choice([None, 0, 0, 0.25, 0.75, 1.25, 2.75])}
    if rng.random() < 0.5:
        c["disp"] = [rng.choice([0.3, 0.8, 1.3, 2.3, 4.3]), rng.choice(["sub", "subj", "subj"])]
    if rng.random() < 0.3:
        c["cancel"] = [[rng.randrange(6), rng.choice([0.2, 0.4, 1.1])] for _ in range(rng.randrange(1, 3))]
    if rng.random() < 0.15 and c.get("disp") is None:
        c["hdisp"] = rng.randrange(3)
    if rng.random() < 0.2:  # the observer itself sends
        c["nest"] = [rng.randrange(3), rng.choice("NNNCE")]
    return c


def run(c):
    case = Case()
    bad = case.bad
    ops = []  # op records in issue order
    deliv = []
    st = {"sub": None, "disp0": None, "disp1": None, "sub_t": None}
    errs = {}

    class O(AsyncObserver):
        async def handle(self, k, x):
            d = [case.ev("deliver", k), k, x, case.now(), None]
            i = len(deliv)
            deliv.append(d)
            lat = c.get("lat")
            if lat:
                await pause(lat[i % len(lat)])
            if c.get("hdisp") == i and st["sub"] is not None:
                await dispose("sub")
            if (c.get("nest") or [None])[0] == i and k == "N":
                st["nested"] = True
                await do(c["nest"][1])
            d[4] = case.ev("handled", k)

        async def asend(self, x):
            await self.handle("N", x)

        async def athrow(self, x):
            await self.handle("E", x)

        async def aclose(self):
            await self.handle("C", None)

    async def dispose(what):
        if st["disp0"] is None:
            st["disp0"], st["disp_t"] = case.ev("dispose"), case.now()
        try:
            if what == "sub" and st["sub"] is not None:
                await st["sub"].dispose_async()
                await st["sub"].dispose_async()
            else:
                await st["subj"].dispose_async()
        except Exception as ex:
            case.fail(f"dispose raised {ex!r}")
        if st["disp1"] is None:
            st["disp1"] = case.ev("disposed")
            if case.now() != st["disp_t"]:
                case.fail("dispose blocked")

    async def do(k):
        s = st["subj"]
        x = fresh(c.get("vk"), len(ops)) if k == "N" else (boom("e", len(ops)) if k == "E" else object())
        r = {"k": k, "x": x, "start": case.ev("op", k), "t0": case.now(), "end": None, "exc": None, "cancel": None,
             "disposed": st["disp0"] is not None, "attached": st["sub"] is not None}
        ops.append(r)
        try:
            if k == "N":
                await s.asend(x)
            elif k == "E":
                await s.athrow(x)
            else:
                await s.aclose()
        except asyncio.CancelledError:
            if core.OVER:  # torn down: it was still blocked when the case had come to rest
                raise
            r["cancelled"] = True
            r["t1"] = case.now()
            r["end"] = case.ev("cancelled")
            raise
        except Exception as ex:
            r["exc"] = ex
        if core.OVER:
            return
        r["t1"] = case.now()
        r["end"] = case.ev("opend", k)

    bg = []

    async def producer(p):
        await asyncio.sleep(p["t"])
        for dt, k in p["ops"]:
            if dt:
                await asyncio.sleep(dt)
            if p["par"]:
                bg.append(asyncio.get_running_loop().create_task(do(k)))
                bg[-1].rec = len(ops)
            else:
                await do(k)

    async def main():
        loop = asyncio.get_running_loop()
        st["subj"] = (AsyncSingleSubject if not c.get("cls") else AsyncTestSingleSubject)()
        for p in c["prod"]:
            bg.append(loop.create_task(producer(p)))
        plan = []
        if c.get("sub") is not None:
            plan.append((c["sub"], "sub", None))
        if c.get("disp"):
            plan.append((c["disp"][0], "disp", c["disp"][1]))
        for i, t in c.get("cancel", []):
            plan.append((t, "cancel", i))
        plan.sort(key=lambda x: x[0])
        for t, what, a in plan:
            dt = t - case.now()
            if dt > 0:
                await asyncio.sleep(dt)
            if what == "sub":
                o = O()
                dead = st["disp0"] is not None
                try:
                    st["sub_seq"], st["sub_t"] = case.ev("sub"), case.now()
                    st["sub"] = await (st["subj"].subscribe_async(o.asend, o.athrow, o.aclose) if c.get("fn") else st["subj"].subscribe_async(o))
                    if dead:
                        case.fail("subscribing to a disposed subject succeeded")
                except ObjectDisposedException:
                    if not dead:
                        case.fail("subscribe raised ObjectDisposedException")
                except Exception as ex:
                    case.fail(f"subscribe raised {ex!r}")
            elif what == "disp":
                await dispose(a)
            elif a < len(bg):
                bg[a].cancel()
                case.ev("cancel", a)

    res = run_case(main)
    if res.main_exc is not None:
        return Out([f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    attached = st["sub"] is not None
    INF = float("inf")
    d0 = st["disp0"] if st["disp0"] is not None else INF
    dt = st.get("disp_t", INF)
    d1 = st["disp1"] if st["disp1"] is not None else INF
    cnt = {"delivered": len(deliv), "waited": 0, "refused": 0, "woken_by_dispose": 0, "cancelled": 0, "ignored": 0, "ops": len(ops), "nested": int(bool(st.get("nested")))}
    dv = {id(d[2]): d for d in deliv if d[1] != "C"}
    comp = [d for d in deliv if d[1] == "C"]
    if len({id(d[2]) for d in deliv if d[1] != "C"}) != sum(d[1] != "C" for d in deliv):
        bad.append("a notification was delivered twice")
    terms = [d for d in deliv if d[1] != "C" and d[1] == "E"] + comp
    if len(terms) > 1:
        bad.append(f"{len(terms)} terminals delivered")
    for d in deliv:
        if d[0] > d1:
            bad.append(f"{d[1]} delivered after dispose returned")
    # the terminal that wins: first one issued in order among those not cancelled while waiting / not refused
    sub_seq = st.get("sub_seq", INF) if attached else INF
    sub_t = st["sub_t"] if attached else INF
    tdeliv = min((d[0] for d in terms), default=INF)
    for r in ops:
        d = dv.get(id(r["x"])) if r["k"] != "C" else None
        waited = r["start"] < sub_seq
        if waited:
            cnt["waited"] += 1
        if r.get("cancelled"):
            cnt["cancelled"] += 1
            continue
        if r["start"] > d1:
            cnt["refused"] += 1
            if not isinstance(r["exc"], ObjectDisposedException):
                bad.append(f"{r['k']} after dispose ended with {r['exc']!r}" if r["end"] else f"{r['k']} after dispose blocks")
            if d is not None:
                bad.append("delivered although disposed")
            continue
        if r["end"] is None:
            if attached or d0 != INF:
                bad.append(f"{r['k']} issued at t={r['t0']} blocks for ever (subscribed at t={sub_t}, disposed at t={dt})")
            if d is not None:
                pass
            continue
        if not attached and d0 == INF:
            bad.append(f"{r['k']} returned although no observer was ever attached")
        if r["exc"] is not None:
            if not isinstance(r["exc"], ObjectDisposedException):
                bad.append(f"{r['k']} raised {r['exc']!r}")
            elif d0 == INF:
                bad.append(f"{r['k']} raised ObjectDisposedException although nothing was disposed")
            else:
                cnt["woken_by_dispose"] += 1
                if d is not None:
                    bad.append("delivered and refused")
                # it can only still have been waiting if no observer was attached in an earlier instant
                if attached and sub_seq < d0 and sub_t < dt and waited and r["t0"] < dt:
                    bad.append(f"{r['k']} issued at t={r['t0']} refused although the observer was attached at t={sub_t}, before the dispose at t={dt}")
                if not waited and attached and r["start"] < d0:
                    bad.append(f"{r['k']} issued with the observer attached ended with ObjectDisposedException")
            if r["t1"] != dt and r["start"] < d0:
                bad.append(f"{r['k']} pending at the dispose at t={dt} ended at t={r['t1']}")
            continue
        # returned normally
        if r["k"] != "C" and d is not None:
            if d[4] is None or d[4] > r["end"]:
                bad.append(f"{r['k']} returned before the observer had handled it")
        elif r["k"] == "N" or (r["k"] == "E" and d is None):
            cnt["ignored"] += 1
            # must be explained by a terminal that came first
            if not (terms and tdeliv < r["end"]):
                bad.append(f"{r['k']} issued at t={r['t0']} returned but was never delivered")
        if waited and attached and sub_t > r["t0"] and r["t1"] < sub_t:
            bad.append(f"{r['k']} returned at t={r['t1']} before the observer was attached at t={sub_t}")
    # order: everything issued before attachment is delivered in issue order; so is everything issued after it
    for grp in (lambda r: r["start"] < sub_seq, lambda r: r["start"] > sub_seq):
        seqs = [dv[id(r["x"])][0] for r in ops if grp(r) and r["k"] != "C" and id(r["x"]) in dv]
        if seqs != sorted(seqs):
            bad.append("delivered out of issue order")
    # sends accepted before the first terminal of the same group must be delivered, later ones must not
    # (a producer cancelled while the observer was already handling its notification counts as delivered)
    live = [r for r in ops if r["exc"] is None and r["end"] is not None
            and (not r.get("cancelled") or id(r["x"]) in dv or (r["k"] == "C" and any(r["start"] < d[0] < r["end"] for d in comp)))]
    pre = [r for r in live if r["start"] < sub_seq]
    ft = next((i for i, r in enumerate(pre) if r["k"] != "N"), None)
    post_before = any(r["k"] != "N" and r["start"] > sub_seq and r["t0"] == sub_t for r in ops)
    if attached and not post_before:
        for i, r in enumerate(pre):
            if r["k"] == "N" and id(r["x"]) not in dv and (ft is None or i < ft):
                bad.append(f"value issued at t={r['t0']} before the terminal was lost")
            if ft is not None and i > ft and r["k"] != "C" and id(r["x"]) in dv:
                bad.append(f"{r['k']} issued after the terminal was delivered")
        if ft is not None and not terms:
            bad.append("the terminal was lost")
        if ft is not None and terms and terms[0][1] != pre[ft]["k"]:
            bad.append("the wrong terminal was delivered")
    post = [r for r in live if r["start"] > sub_seq]
    stopped = ft is not None
    for r in post:
        if r["k"] != "N":
            if not stopped and r["k"] == "E" and id(r["x"]) not in dv:
                bad.append("error was lost")
            stopped = True
        elif not stopped and id(r["x"]) not in dv:
            bad.append("value sent to an attached observer was lost")
        elif stopped and id(r["x"]) in dv and r["t0"] > sub_t:
            bad.append("value delivered after the terminal")
    if stopped and attached and not terms and d0 == INF:
        bad.append("the terminal was lost")
    key = tuple(x[1:] for x in case.log)
    return Out(bad, key, cnt, len(ops) > 0, note=show([x[1:] for x in case.log][:16], 400))
