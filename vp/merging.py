"""Shared merge/concat scenarios and their trace checker (C05, C06)."""
from . import core, pipes
from .core import run_case
from .gens import rerr, rbig, rlat, rvals
from .kit import Case, Probe, Rec, Tap, boom, same, show, val
from .runner import Out
import aioreactive as rx
import aioreactive.combine as m_combine
import aioreactive.transform as m_transform
from aioreactive import AsyncObservable, AsyncRx
from expression import pipe

UNB = ["merge", "merge_m", "merge_seq", "merge_inner", "merge_inner0", "flat_map", "flat_map_m", "flat_mapi", "flat_map_async", "flat_map_async_m", "flat_mapi_async"]
BND = ["merge_n", "concat", "concat_m", "concat_seq", "concat_map", "merge_n", "merge_n"]


def dec(x):
    """Value of a scripted element: unique per source, or an unusual one (no two sources share one)."""
    return val(5 * x[1] + x[2]) if x[0] == "w" else tuple(x)


def gen_inner(rng, i, exact, mayfail, weird=False, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 4])
    tag = "w" if weird and i < 7 and n <= 5 else "#"
    if rng.random() < 0.3:
        k = rng.choice(["iter", "aiter", "empty", "single", "timed", "of_async", "interval"])
        v = [[tag, i, j] for j in range(n)]
        if k == "timed":
            return {"lib": "timed", "v": v, "d": rng.randrange(1, 4) + (i + 1) / 64}
        if k == "interval":
            return {"lib": "interval", "s": rng.randrange(0, 3) + (i + 1) / 64, "p": 1 + rng.randrange(0, 2), "n": n}
        return {"lib": k, "v": v, "err": rerr(rng) if mayfail and rng.random() < 0.15 else None}
    t = 0.0
    ev = []
    for j in range(n):
        step = rng.choice([0, 0, 1, 1, 2])
        t += step
        # first timed event gets this inner source's own fraction of a second: no ties across sources
        ev.append([t + (i + 1) / 64 if (exact or rng.random() < 0.5) and t > 0 else t, "N", [tag, i, j]])
    t += rng.choice([0, 1, 1, 3])
    tt = t + (i + 1) / 64 if exact and t > 0 else t
    if ev:
        tt = max(tt, ev[-1][0])
    r = rng.random()
    if mayfail and r < 0.18:
        ev.append([tt, "E", rerr(rng, 1)])
    elif r < 0.93:
        ev.append([tt, "C"])
    sp = {"ev": ev, "sync": rng.choice([0, 0, 0, 0, 1, 2, len(ev)])}
    r = rng.random()
    if r < 0.06:
        sp["subdelay"] = ["y", rng.randrange(1, 4)]
    elif r < 0.1:
        sp["subdelay"] = ["s", 1.5]
    if mayfail and rng.random() < 0.05:
        sp["subraise"] = rerr(rng)
    if rng.random() < 0.1:
        sp["disdelay"] = ["y", 2]
    if rng.random() < 0.15:
        sp["spawn"] = True
    return sp


def gen_case(rng, ops):
    op = rng.choice(ops)
    exact = rng.random() < 0.6
    mayfail = rng.random() < 0.45
    m = 2 if op in ("merge", "merge_m", "concat", "concat_m") else rng.choice([0, 1, 2, 3, 3, 4, 5, 7])
    big = rbig(rng, 0.009, (20, 35, 60, 70, 140, 140, 280)) if m != 2 else None
    if big:
        m, exact, mayfail = big, False, mayfail and rng.random() < 0.2
    long = rbig(rng, 0.004, (70, 150, 300))
    weird = rng.random() < 0.5
    c = {"op": op, "inner": [gen_inner(rng, i, exact, mayfail, weird, long if long and i == m // 2 else None) for i in range(m)],
         "beh": {"lat": rlat(rng, 0.35 if not big and not long else 0.1), "tlat": None}}
    if big and rng.random() < 0.7:  # all of them end
        for sp in c["inner"]:
            if "ev" in sp and not (sp["ev"] and sp["ev"][-1][1] in "CE"):
                sp["ev"].append([sp["ev"][-1][0] if sp["ev"] else 0, "C"])
    if op == "merge_n":
        c["n"] = rng.choice([1, 1, 2, 2, 3, 5]) if not big else rng.choice([1, 2, 4, 11, 17, 40, 66, 100])
    # outer timeline
    t = 0.0
    out = []
    for i in range(m):
        t += rng.choice([0, 0, 0, 1, 2])
        out.append(t)
    if big and rng.random() < 0.5:
        out = [out[0]] * m
    c["out"] = out
    t += rng.choice([0, 0, 1, 4])
    r = rng.random()
    c["oterm"] = [t + (0.5 if exact else 0), "E", 3] if (mayfail and r < 0.2) else ([t, "C"] if r < 0.92 else None)
    c["osync"] = rng.choice([0, 0, 0, 1, m])
    if rng.random() < 0.15:
        c["ospawn"] = True
    elif (g := gen_share(rng, m)):
        c["share"] = g
    if op.endswith("async") or op.endswith("async_m"):
        c["mlat"] = rng.choice([None, ["y", 1], ["y", 3]])
        c.pop("ospawn", None)
    return c


class Shared(AsyncObservable):
    """One observable object standing for several inner sources: its k-th subscription is the k-th of them."""

    def __init__(self, case, members):
        self.case, self.members, self.k = case, members, 0

    async def subscribe_async(self, send=None, throw=None, close=None):
        self.k += 1
        if self.k > len(self.members):
            self.case.fail(f"a source that was given {len(self.members)} times was subscribed {self.k} times")
        return await self.members[min(self.k, len(self.members)) - 1].subscribe_async(send, throw, close)


def share(case, c, ins):
    """The inner sources as the library sees them: some of them are the same object."""
    out = list(ins)
    g = [i for i in c.get("share") or [] if i < len(ins)]
    if len(g) > 1:
        s = Shared(case, [ins[i] for i in g])
        for i in g:
            out[i] = s
    return out


def gen_share(rng, m):
    if m > 1 and rng.random() < 0.15:
        return sorted(rng.sample(range(m), rng.randrange(2, min(m, 5) + 1)))
    return None


def build_inner(case, sp, i):
    name = f"in{i}"
    if "lib" not in sp:
        p = Probe(case, sp, name)
        errs = pipes.payload_of(case, name)
        p.payload = lambda k, x: (dec(x) if k == "N" else errs(k, x))
        return p
    v = [dec(x) for x in sp.get("v", [])]
    k = sp["lib"]
    err = None if sp.get("err") is None else boom(name, sp["err"])
    if k == "iter":
        s = rx.from_iterable(pipes.ReIter(case, v, err, name))
    elif k == "aiter":
        s = rx.from_async_iterable(pipes.AIter(case, v, err, ["y", 1], name))
    elif k == "empty":
        s = rx.empty()
    elif k == "single":
        s = rx.single(v[0] if v else (i, "single"))
    elif k == "of_async":
        async def wf():
            await core.asyncio.sleep(1 + i / 64)
            if err is not None:
                raise err
            return v[0] if v else (i, "res")

        s = rx.of_async(wf())
    elif k == "timed":
        s = pipe(rx.from_iterable(v), rx.delay(sp["d"]))
    else:
        s = pipe(rx.interval(sp["s"], sp["p"]), rx.take(sp["n"]), rx.map(lambda x: ("#", i, x)))
    return Tap(case, s, name)


def build(case, c, inners):
    op = c["op"]
    if op in ("merge", "merge_m", "concat", "concat_m"):
        if len(inners) < 2:
            raise ValueError
        a, b = inners[0], inners[1]
        if op == "merge":
            return pipe(a, rx.merge(b)), None
        if op == "merge_m":
            return AsyncRx(a).merge(b), None
        if op == "concat":
            return pipe(a, rx.concat(b)), None
        return AsyncRx(a).concat(b), None
    if op == "merge_seq":
        return rx.merge_seq(inners), None
    if op == "concat_seq":
        return (rx.concat_seq if len(inners) % 2 else m_combine.concat_seq)(inners), None
    ev = [[t, "N", i] for i, t in enumerate(c["out"][: len(inners)])]
    if c.get("oterm"):
        ev.append(c["oterm"])
    outer = Probe(case, {"ev": ev, "sync": c.get("osync", 0), "spawn": c.get("ospawn", False)}, "outer")
    oerr = boom("outer", 0)
    obs_payload = op in ("merge_inner", "merge_inner0", "merge_n")
    outer.payload = lambda k, x: ((inners[x] if obs_payload else x) if k == "N" else (oerr if k == "E" else None))
    lat = c.get("mlat")

    def pick(x):
        case.ev("mapper", x)
        return inners[x]

    async def apick(x):
        case.ev("mapper", x)
        await pipes.pause(lat)
        return inners[x]

    idx = []

    def picki(x, i):
        idx.append((x, i))
        return inners[x]

    async def apicki(x, i):
        idx.append((x, i))
        await pipes.pause(lat)
        return inners[x]

    case.idx = idx
    f = {
        "merge_inner": lambda: pipe(outer, m_combine.merge_inner()),
        "merge_inner0": lambda: pipe(outer, rx.merge_inner()),
        "merge_n": lambda: pipe(outer, (rx.merge_inner if len(inners) % 2 else m_combine.merge_inner)(c["n"])),
        "flat_map": lambda: pipe(outer, rx.flat_map(pick)),
        "flat_map_m": lambda: AsyncRx(outer).flat_map(pick),
        "flat_mapi": lambda: pipe(outer, rx.flat_mapi(picki)),
        "flat_map_async": lambda: pipe(outer, rx.flat_map_async(apick)),
        "flat_map_async_m": lambda: AsyncRx(outer).flat_map_async(apick),
        "flat_mapi_async": lambda: pipe(outer, m_transform.flat_mapi_async(apicki)),
        "concat_map": lambda: pipe(outer, m_transform.concat_map(pick)),
    }[op]
    return f(), outer


def limit_of(c):
    op = c["op"]
    if op == "merge_n":
        return c["n"]
    if op.startswith("concat"):
        return 1
    return 0


def run_merge(c, which):
    case = Case()
    r = Rec(case, "o", c.get("beh"))
    inners = [build_inner(case, sp, i) for i, sp in enumerate(c["inner"]) if "lib" not in sp]
    state = {}
    lim = limit_of(c)
    slow_sub = any("subdelay" in sp for sp in c["inner"])
    slow_map = bool(c.get("mlat"))
    maxlive = [0]

    def subs():
        return [s for p in state.get("inners", []) for s in p.subs]

    def quiesce(loop):
        if not lim or which != "C06" or slow_sub or "root" not in state:
            return
        if r.terminals() or any(i[2] == "E" for p in state["all"] for i in p.issues) or any(s.failed is not None for s in subs()):
            return
        live = sum(s.live for s in subs())
        started = len(subs())
        arrived = len(state["inners"]) if state["outer"] is None else sum(1 for i in state["outer"].issues if i[2] == "N")
        if c.get("ospawn") or slow_map:
            return
        if started < arrived and live < lim:
            case.fail(f"{arrived - started} source(s) wait although only {live} of {lim} slots are in use at t={case.now()}")

    async def main():
        ins = [build_inner(case, sp, i) for i, sp in enumerate(c["inner"])]
        state["inners"] = ins
        obs, outer = build(case, c, share(case, c, ins))
        state["outer"] = outer
        state["all"] = ins + ([outer] if outer else [])
        state["root"] = 1
        await r.subscribe(obs)

    del inners

    def tick(loop):
        if lim:
            n = sum(s.live for s in subs())
            if n > maxlive[0]:
                maxlive[0] = n
                if n > lim:
                    case.fail(f"{n} inner sources subscribed at once, limit {lim}")

    res = run_case(main, hooks=[quiesce], tick_hook=tick if (lim and which == "C06") else None)
    bad = case.bad
    if res.main_exc is not None:
        bad.append(f"subscribe raised {res.main_exc!r}")
        return Out(bad, "exc")
    if res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    ins, outer = state["inners"], state["outer"]
    slow_obs = any(c.get("beh", {}).get("lat") or [])
    iss = []  # (seq, t, kind, payload, inner index)
    for i, p in enumerate(ins):
        for q in p.issues:
            iss.append((q[0], q[1], q[2], q[3], i))
        for s in p.subs:
            if s.failed is not None:
                iss.append((s.seq_finished, s.finished, "E", s.failed, i))
    if outer is not None:
        for q in outer.issues:
            if q[2] != "N":
                iss.append((q[0], q[1], q[2] if q[2] == "E" else "OC", q[3], -1))
    iss.sort(key=lambda x: x[0])
    errs = [x for x in iss if x[2] == "E"]
    te = errs[0][1] if errs else None
    qe = errs[0][0] if errs else None
    vals = [x for x in iss if x[2] == "N"]
    got = [e for e in r.events if e[0] == "N"]
    # exactly once, and each delivered value was issued
    used = [False] * len(vals)
    pos = []
    for e in got:
        for j, x in enumerate(vals):
            if not used[j] and same(x[3], e[1]) and x[0] < e[3]:
                used[j] = True
                pos.append(j)
                break
        else:
            bad.append(f"value {show(e[1])} delivered more often than it was issued")
    # order within a source / strictly earlier instants first
    for a, b in zip(pos, pos[1:]):
        x, y = vals[a], vals[b]
        if (x[4] == y[4] and y[0] < x[0]) or (y[1] < x[1]):
            bad.append(f"value {show(y[3])} issued at t={y[1]} delivered after {show(x[3])} issued at t={x[1]}")
    for j, x in enumerate(vals):
        if not used[j] and (te is None or x[1] < te or (x[4] == errs[0][4] and x[0] < qe)):
            bad.append(f"value {show(x[3])} issued at t={x[1]} was never delivered")
        if used[j] and te is not None and x[1] > te:
            bad.append(f"value {show(x[3])} issued after the error was delivered")
    terms = r.terminals()
    if errs:
        cands = [x[3] for x in errs if x[1] == te]
        if [e[0] for e in terms] != ["E"] or not any(terms[0][1] is x for x in cands):
            bad.append(f"expected the error {cands} but got {r.brief()}")
    else:
        comp_outer = outer is None or any(x[2] == "OC" for x in iss)
        n_started = sum(len(p.subs) for p in ins)
        all_done = all(len(p.subs) >= 1 and all(s.finished is not None for s in p.subs) for p in ins)
        if outer is None or c["op"]:
            all_done = all_done and n_started == len(ins)
        tl = max([x[1] for x in iss if x[2] in ("C", "OC")] or [0.0])
        if comp_outer and all_done:
            if [e[0] for e in terms] != ["C"]:
                bad.append(f"all sources completed but the result did not: {r.brief()}")
            elif terms[0][2] < tl:
                bad.append(f"completed at t={terms[0][2]} before the last source at t={tl}")
            elif not slow_obs and not slow_sub and terms[0][2] != tl:
                bad.append(f"completed at t={terms[0][2]} instead of t={tl}")
        elif terms:
            bad.append(f"terminated although not every source has: {r.brief()}")
        elif comp_outer and not all_done and lim and which == "C06":
            # every waiting source must have been started unless one running never ends
            live = sum(s.live for s in subs())
            if n_started < len(ins) and live < lim:
                bad.append(f"only {n_started} of {len(ins)} sources were ever subscribed")
    # promptness: an idle observer gets a value in the instant it was issued
    if not slow_obs and not slow_sub:
        for j, e in zip(pos, got):
            if e[2] != vals[j][1]:
                bad.append(f"value {show(e[1])} issued at t={vals[j][1]} delivered at t={e[2]}")
    if c["op"] in ("flat_mapi", "flat_mapi_async") and not c.get("ospawn"):
        if case.idx != [(i, i) for i in range(len(case.idx))]:
            bad.append(f"indices {case.idx}")
    if which == "C06" and lim:
        order = sorted(subs(), key=lambda s: s.seq_sub)
        names = [s.probe.name for s in order]
        if not c.get("ospawn"):
            want = [f"in{i}" for i in range(len(ins))][: len(names)]
            if names != want:
                bad.append(f"sources started in the order {names}")
        if len(set(names)) != len(names):
            bad.append(f"a source was subscribed twice: {names}")
        if lim == 1:
            for a, b in zip(order, order[1:]):
                if a.seq_finished is None or a.seq_finished > b.seq_sub:
                    bad.append(f"{b.probe.name} subscribed before {a.probe.name} had completed")
            for a, b in zip(pos, pos[1:]):
                if vals[a][4] > vals[b][4] and not c.get("ospawn"):
                    bad.append(f"values of source {vals[a][4]} before those of source {vals[b][4]}")
    n_sub = sum(len(p.subs) for p in ins)
    cnt = {"op:" + c["op"]: 1, "values": len(got), "issued": len(vals), "long": int(len(got) > 60), "many": int(n_sub > 15), "many_completed": int(n_sub > 101 and len(terms) > 0 and terms[0][0] == "C"), "errors": len(errs),
           "shared": int(bool(c.get("share"))), "completions": sum(e[0] == "C" for e in terms), "inner_subscriptions": sum(len(p.subs) for p in ins)}
    if lim:
        cnt["slots_full"] = int(maxlive[0] == lim)
        cnt["had_to_wait"] = int(len(ins) > lim)
    key = (c["op"], tuple((x[1], x[2], x[4]) for x in iss), r.trace())
    return Out(bad, key, cnt, len(iss) > 0, note=r.brief())
