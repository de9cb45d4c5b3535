"""C10: catch continues with the handler's sequence; retry is bounded."""
import asyncio

from .. import core, pipes
from ..core import run_case
from ..gens import rerr, elem_op, rbig, rlen, rpause, rvals
from ..kit import Case, Rec, sames, show, val
from ..runner import Out
import aioreactive as rx
import aioreactive.transform as m_transform
from expression import pipe

ID = "C10"
LEVEL = "fault_enumeration"
RULE = ("sources that fail at every position (scripted per subscription, failing iterables, failing user functions) under catch, retry and "
        "nestings of both, handlers that return, fail, raise or cannot be subscribed, repeated and simultaneous subscriptions, disposal at "
        "random times; values, terminal, identity of every exception, handler calls, number and order of source subscriptions compared with "
        "a sequential model; distinct: structure and trace")
BUDGET = {"quick": (150000, 240), "thorough": (250000, 400)}
REQUIRED = {"handler_calls": 2000, "resubscriptions": 3000, "exhausted": 500, "recovered": 1000, "transparent": 300, "handler_raised": 100,
            "released_before_next": 2000, "disposed": 300, "second_subscription": 500}
KEEP = ("node", "ops", "src", "ev", "rec", "n", "h", "per", "v")


def script(rng, force=None):
    t, ev = 0.0, []
    for v in rvals(rng, rng.choice([0, 0, 1, 2, 3])):
        t += rng.choice([0, 0, 1])
        ev.append([t, "N", v])
    end = force or rng.choice(["E", "E", "E", "C", None])
    if end:
        t += rng.choice([0, 0, 1])
        ev.append([t, *([end] if end == "C" else ["E", rerr(rng, 1)])])
    return {"ev": ev, "sync": rng.choice([0, 0, 0, 0, len(ev), 1])}


def node(rng, depth, fail=0.8):
    r = rng.random()
    ops = []
    if r < 0.6:
        src = ["probe", {"per": [script(rng) for _ in range(rng.choice([1, 2, 3, 4]))]}]
        if rng.random() < 0.2:
            src[1]["disdelay"] = rpause(rng)
            for x in src[1]["per"]:
                x["sync"] = 0
        if rng.random() < 0.2:
            src[1]["subdelay"] = rpause(rng)
    else:
        k = rng.choice(["iter", "iter", "aiter", "fail", "create", "empty", "single"])
        a = {"v": rvals(rng, 0 if k == "fail" else rlen(rng, 4)), "re": 1}
        if k in ("iter", "aiter", "create") and rng.random() < 0.6 or k == "fail":
            a["err"] = rerr(rng)
        src = [k, a]
        if rng.random() < 0.5 and k not in ("fail", "create"):
            ops = elem_op(rng, boom=rng.randrange(4), style=0)
    n = {"src": src, "ops": ops, "rec": []}
    for _ in range(rng.choice([1, 1, 1, 2]) if depth else rng.choice([0, 0, 1])):
        if rng.random() < 0.5:
            n["rec"].append(["retry", {"n": rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.99 else rng.choice([8, 13])}, rng.randrange(2)])
        else:
            n["rec"].append(["catch", {"h": node(rng, max(depth - 1, 0)), **({"boom": [rng.randrange(3), rerr(rng)]} if rng.random() < 0.15 else {})},
                             rng.randrange(2)])
    return n


def fixed(tier):
    for n in range(0, 4):
        for fails in range(0, 6):
            for sync in (0, 9):
                for vals in (0, 2):
                    per = [{"ev": [[0.0 if sync else j + 1.0, "N", j] for j in range(vals)] + [[vals + (not sync) * 1.0, "E", j]], "sync": sync}
                           for j in range(fails)] + [{"ev": [[1.0, "N", 5], [2.0, "C"]]}]
                    yield {"node": {"src": ["probe", {"per": per}], "ops": [], "rec": [["retry", {"n": n}, 0]]}, "seqs": 2}
                    if n == 3 and fails == 5:  # many attempts
                        for m in (12,) if sync else (20, 40, 60):
                            for k in (m - 1, m, m + 1):
                                many = [{"ev": [[1.0, "N", 1], [1.0, "E", j]], "sync": sync} for j in range(k)] + [{"ev": [[1.0, "N", 5], [2.0, "C"]]}]
                                yield {"node": {"src": ["probe", {"per": many}], "ops": [], "rec": [["retry", {"n": m}, 0]]}, "seqs": 2}
                    yield {"node": {"src": ["probe", {"per": per}], "ops": [], "rec": [["retry", {"n": n}, 1], ["catch", {
                        "h": {"src": ["iter", {"v": [1, 2]}], "ops": [], "rec": []}}, 0]]}, "seqs": 2}


def walk(n):
    yield n
    for rec in n["rec"]:
        if rec[0] == "catch":
            yield from walk(rec[1]["h"])


def suspends_in_subscribe(nd):
    """Some source may suspend (deliver to a slow observer, or wait) before its subscribe_async returns."""
    for n in walk(nd):
        if n["src"][0] == "create" or n["src"][0] == "probe" and (n["src"][1].get("subdelay") or any(x.get("sync") for x in n["src"][1]["per"])):
            return True
    return False


def gen(rng, tier):
    c = {"node": node(rng, 2), "beh": {"lat": [rpause(rng, 0.4) for _ in range(rng.randrange(3))]}}
    total = 1  # attempts that fail while being subscribed to nest in Python's stack: keep their number bounded
    for n in walk(c["node"]):
        for rec in n["rec"]:
            if rec[0] == "retry":
                if total * (rec[1]["n"] + 1) > 40:
                    rec[1]["n"] = 0
                total *= rec[1]["n"] + 1
    r = rng.random()
    if r < 0.3:
        c["seqs"] = 2
    elif r < 0.45:
        if rng.random() < 0.7:
            for n in walk(c["node"]):
                if n["src"][0] == "probe":
                    n["src"][1].pop("subdelay", None)
                    for x in n["src"][1]["per"]:
                        x["sync"] = 0
                elif n["src"][0] == "create":
                    n["src"][0] = "iter"
        c["dis"] = rng.choice([0.0, 0.5, 1.0, 1.5, 2.0, 3.0])
    return c


# ------------------------------------------------------------------ building and model
def build(case, n, name):
    o = pipes.build(case, {"src": n["src"], "ops": n["ops"]}, name)
    for i, rec in enumerate(n["rec"]):
        m = [rx, m_transform][rec[2]]
        if rec[0] == "retry":
            o = pipe(o, m.retry(rec[1]["n"]))
        else:
            nm = f"{name}.catch{i}"
            h = build(case, rec[1]["h"], nm + ".h")
            f = pipes.Calls(case, nm, rec[1])
            case.__dict__.setdefault("fns", {})[nm] = f

            def handler(ex, f=f, h=h):
                f.enter((ex,))
                return h

            o = pipe(o, m.catch(handler))
    return o


class Model:
    def __init__(self):
        self.calls, self.subs, self.hand, self.attempts = {}, {}, {}, []

    def attempt(self, n, name):
        i = self.subs.get(name, 0)
        self.subs[name] = i + 1
        self.attempts.append((name, i))
        src = n["src"]
        if src[0] == "probe":
            per = src[1]["per"]
            sp = per[min(i, len(per) - 1)]
            if sp.get("subraise") is not None:
                return [], ("sub", name, i)
            spec = {"src": ["probe", sp], "ops": n["ops"]}
        else:
            spec = {"src": src, "ops": n["ops"]}
            if src[0] in ("fail",):
                spec = {"src": ["iter", src[1]], "ops": n["ops"]}
            elif src[0] == "single":
                spec = {"src": ["iter", {"v": src[1]["v"][:1] or [7]}], "ops": n["ops"]}
            elif src[0] == "empty":
                spec = {"src": ["iter", {"v": []}], "ops": n["ops"]}
        v, t = pipes.model(spec, name, self.calls)
        if isinstance(t, pipes.Err):
            t = (("probe", name, i) if src[0] == "probe" else ("src", name)) if t.who == "src" else ("fn", t.who)
        return v, t

    def run(self, n, name):
        def base():
            return self.attempt(n, name)

        f = base
        for i, rec in enumerate(n["rec"]):
            f = self.wrap(f, rec, f"{name}.catch{i}")
        return f()

    def wrap(self, g, rec, nm):
        if rec[0] == "retry":
            def f():
                v, t = g()
                k = rec[1]["n"]
                while isinstance(t, tuple) and k > 0:
                    v2, t = g()
                    v = v + v2
                    k -= 1
                return v, t
        else:
            def f():
                v, t = g()
                if isinstance(t, tuple):
                    log = self.hand.setdefault(nm, [])
                    log.append(t)
                    b = rec[1].get("boom")
                    if b is not None and len(log) - 1 == b[0]:
                        return v, ("fn", nm)
                    v2, t = self.run(rec[1]["h"], nm + ".h")
                    v = v + v2
                return v, t
        return f


def resolve(case, t):
    """The exception object a model error stands for."""
    if t[0] == "probe":
        p = next(p for p in case.probes if p.name == t[1] + ".s")
        x = [q[3] for q in p.issues if q[4] == t[2] and q[2] == "E"]
        return x[0] if x else None
    if t[0] == "src":
        return next((e for e in case.__dict__.get("srcerr", []) if e.tag == t[1] + ".s:src"), None)
    x = case.fns[t[1]].exc
    return x[-1] if x else None


def run(c):
    case = Case()
    recs = []
    exp = []
    M = Model()
    nd = c["node"]

    async def main():
        o = build(case, nd, "r")
        for i in range(c.get("seqs", 1)):
            r = Rec(case, f"o{i}", c.get("beh"))
            recs.append(r)
            r.seq_start = case.ev("o", "root", i)
            await r.subscribe(o, i)
            if c.get("dis") is not None:
                await asyncio.sleep(c["dis"])
                await r.sub.dispose_async()
                r.seq_dis, r.t_dis = case.ev("o", "disposed"), case.now()
            elif i + 1 < c.get("seqs", 1):
                await asyncio.sleep(300)

    res = run_case(main, horizon=core.T0 + 3000)
    bad = case.bad
    if res.main_exc is not None:
        return Out(bad + [f"unexpected exception {res.main_exc!r}"], "exc")
    if res.status != "idle" or not res.main_done:
        bad.append(f"never comes to rest ({res.status})")
    cnt = {"handler_calls": 0, "resubscriptions": 0, "exhausted": 0, "recovered": 0, "transparent": 0, "handler_raised": 0,
           "released_before_next": 0, "disposed": int(c.get("dis") is not None), "second_subscription": int(c.get("seqs", 1) > 1)}
    dis = c.get("dis") is not None
    for r in recs:
        v, t = M.run(nd, "r")
        exp.append((v, t))
        got, gt = r.values(), r.terminals()
        if dis:
            if not sames(got, v[: len(got)]):
                bad.append(f"values {show(got, 200)} are not a prefix of {show(v, 200)}")
            if any(e[2] > r.t_dis for e in r.events) and not any(x in str(nd) for x in ("single", "create", "lat")):
                bad.append(f"delivered after dispose at t={r.t_dis}: {r.brief()}")
            continue
        if not sames(got, v):
            bad.append(f"values {show(got, 250)} instead of {show(v, 250)}")
        if t is None:
            if gt:
                bad.append(f"terminal {r.brief()} although the sequence never ends")
        elif t == "C":
            if [e[0] for e in gt] != ["C"]:
                bad.append(f"expected completion, got {r.brief()}")
        else:
            x = resolve(case, t) if len(recs) == 1 or r is recs[-1] or t[0] != "fn" else (gt[0][1] if gt else None)
            if [e[0] for e in gt] != ["E"] or gt[0][1] is not x:
                bad.append(f"expected the error {t} {x!r}, got {r.brief()}")
            cnt["exhausted"] += 1
            cnt["handler_raised"] += t[0] == "fn" and t[1].rsplit(".", 1)[-1].startswith("catch")
    probes = {p.name: p for p in case.__dict__.get("probes", [])}
    if not dis:
        for nm, log in M.hand.items():
            calls = case.fns[nm].calls if nm in case.fns else []
            cnt["handler_calls"] += len(calls)
            if len(calls) != len(log):
                bad.append(f"handler {nm} called {len(calls)} times instead of {len(log)}")
            else:
                for a, t in zip(calls, log):
                    if t[0] != "fn" and a[0] is not resolve(case, t) or not isinstance(a[0], Exception):
                        bad.append(f"handler {nm} called with {a[0]!r} instead of the error {t}")
        for nm, f in case.__dict__.get("fns", {}).items():
            if nm.rsplit(".", 1)[-1].startswith("catch") and nm not in M.hand and f.calls:
                bad.append(f"handler {nm} called without an error")
        for nm, k in M.subs.items():
            p = probes.get(nm + ".s")
            if p is not None and len(p.subs) != k:
                bad.append(f"source {nm} subscribed {len(p.subs)} times instead of {k}")
        for nm, p in probes.items():
            if nm[:-2] not in M.subs and p.subs:
                bad.append(f"source {nm} subscribed {len(p.subs)} times instead of never")
    # a failed source is disposed before the next one is used
    allsubs = sorted([s for p in probes.values() for s in p.subs], key=lambda s: s.seq_sub)
    for k, r in enumerate(recs):
        end = recs[k + 1].seq_start if k + 1 < len(recs) else float("inf")
        own = [s for s in allsubs if r.seq_start < s.seq_sub < end]
        for a, b in zip(own, own[1:]):
            cnt["resubscriptions"] += 1
            if not any(q[2] == "E" and q[4] == a.idx for q in a.probe.issues):
                continue
            if a.disposed is None:
                bad.append(f"the failed {a.probe.name}#{a.idx} was never disposed")
            elif a.seq_ret is None or a.seq_ret > a.seq_finished:
                continue  # failed while it was being subscribed to: there was nothing to dispose yet
            elif a.seq_disposed > b.seq_sub:
                bad.append(f"{b.probe.name}#{b.idx} subscribed before the failed {a.probe.name}#{a.idx} was disposed")
            else:
                cnt["released_before_next"] += 1
    if dis:
        r = recs[0]
        for s in allsubs:
            if s.live:
                bad.append(f"{s.probe.name}#{s.idx} is left subscribed after dispose")
            if s.t_sub > r.t_dis and not suspends_in_subscribe(nd):
                bad.append(f"{s.probe.name}#{s.idx} subscribed at t={s.t_sub} after dispose at t={r.t_dis}")
    elif not any(c.get("beh", {}).get("lat") or []):
        for p in probes.values():
            for a, b in zip(p.subs, p.subs[1:]):
                if a.finished is not None and "disdelay" not in str(nd) and "subdelay" not in str(nd) and nd["rec"] and all(
                        x[0] == "retry" for x in nd["rec"]) and b.t_sub != a.finished and b.t_sub < 290:
                    bad.append(f"{p.name} failed at t={a.finished} but was retried at t={b.t_sub}")
    cnt["recovered"] += sum(1 for (v, t) in exp if t == "C") if M.hand or any(k > len(recs) for k in M.subs.values()) else 0
    cnt["transparent"] += int(not M.hand and all(k == len(recs) for k in M.subs.values()) and not dis)
    key = (str([x[0] for x in nd["rec"]]), tuple(r.trace() for r in recs), tuple(sorted(M.subs.items())))
    return Out(bad, key, cnt, True, note=show([r.brief() for r in recs], 300))
