"""C29: operators that are not about time take no time."""
import asyncio

from .. import core, gens, pipes
from ..core import run_case
from ..gens import elem_op, rbig, rerr, rlen, rvals
from ..kit import Case, Probe, Rec, same, show, val
from ..runner import Out
from aioreactive import transform as m_transform
import aioreactive as rx
from expression import pipe

ID = "C29"
RULE = ("(list) random chains of the operators that have a list model, fed by timed events: after every event exactly what the list model gives for "
        "the events so far has to be out, each notification starting in the instant its event was issued or, if the observer was still "
        "busy, the instant it got free; (multi) operators on several sources with unique values: every delivered value starts in the instant it was issued "
        "(pairs: in which its later half was), terminals and inner subscriptions likewise; distinct: operators and timeline")
BUDGET = {"quick": (160000, 240), "thorough": (1200000, 600)}
MULTI = ("merge", "merge_seq", "merge_inner", "flat_map", "flat_mapi", "concat", "concat_seq", "switch_latest", "flat_map_latest", "catch", "retry", "take_until", "combine_latest",
         "with_latest_from")
LIST = ("skip", "skip_last", "take", "take_last", "slice", "index", "distinct_until_changed", "zip_seq")
REQUIRED = {"values": 100000, "waited": 8000, "terminals": 20000, "errors": 3000, "ended_early": 2000, "held_back": 300, "long": 100, "inner_subscribed": 8000} | {
    "op:" + x: 400 for x in MULTI + LIST + tuple(pipes.ELEM) + tuple(pipes.SCANS)} | {"src:" + x: 300 for x in ("iter", "aiter", "of_async", "single", "empty", "fail", "create", "defer")}
KEEP = ("mode", "lib", "v", "re", "rx", "err", "op", "ops", "ev", "n", "src", "srcs", "out", "d", "how", "style", "a", "b", "s", "i", "k", "f", "init", "kind", "lat", "beh")


def script(rng, n, end, t0=0.0):
    t, ev = t0, []
    for _ in range(n):
        ev.append([t, "N"])
        t += rng.choice([0, 0, 0.125, 0.25, 0.5, 1, 3])
    if end == "C":
        ev.append([t, "C"])
    elif end == "E":
        ev.append([t, "E", rerr(rng, 1)])
    return ev


def lat(rng):
    r = rng.random()
    if r < 0.5:
        return []
    return [rng.choice([None, None, ["s", 0.125], ["s", 0.375], ["s", 1.0], ["y", 2]]) for _ in range(rng.choice([1, 2, 3]))]


def lib_src(rng):
    """A source of the library, which has everything at once."""
    k = rng.choice(["iter", "iter", "aiter", "aiter", "of_async", "single", "empty", "fail", "create", "defer"])
    n = {"of_async": 1, "single": 1, "empty": 0, "fail": 0}.get(k)
    if n is None:
        n = rbig(rng, 0.06, (40, 66, 130, 260, 520)) or rlen(rng, 10)
    a = {"v": rvals(rng, n)}
    if k not in ("single", "empty", "defer") and (k == "fail" or rng.random() < 0.2):
        a["err"] = rerr(rng)
        if k == "of_async":
            a["v"] = []
    if k == "iter":
        a["re"], a["rx"] = rng.randrange(2), rng.randrange(2)
    return [k, a] if k != "defer" else ["defer", {"src": [rng.choice(["iter", "aiter"]), a]}]


def gen(rng, tier):
    beh = {"lat": lat(rng)}
    if rng.random() < 0.15:
        beh["tlat"] = ["s", 0.25]
    if rng.random() < 0.5:
        n = rbig(rng, 0.01, (40, 66, 130, 260)) or rlen(rng, 10)
        vs = rvals(rng, n)
        ev = script(rng, n, rng.choice(["C", "C", "E", None]))
        for e, v in zip(ev, vs):
            e.append(v)
        if n > 30:
            beh["lat"] = beh["lat"][:1]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            k = rng.choice(LIST + ("elem",) * 7)
            if k == "elem":
                new = elem_op(rng)
                for o in new:
                    if (o[1].get("lat") or ["y"])[0] == "s":
                        o[1]["lat"] = ["y", 2]
            elif k == "slice":
                new = [["slice", {"a": rng.choice([None, 0, 1, 2, -1, -2, -5]), "b": rng.choice([None, 0, 1, 3, 6, -1, -2]), "s": rng.choice([None, 1, 2, 3])}, rng.randrange(3)]]
            elif k == "index":
                new = [["index", {"i": rng.choice([0, 0, 1, 2, -1, -2])}, 0]]
            elif k == "zip_seq":
                new = [["zip_seq", {"n": rng.choice([0, 1, 2, 3, 5, 8]), "kind": rng.randrange(5)}, rng.randrange(2)]]
            elif k == "distinct_until_changed":
                new = [[k, {}, rng.randrange(3)]]
            else:
                new = [[k, {"n": rng.choice([0, 1, 1, 2, 3, 5])}, rng.randrange(3)]]
            ops += new
        if rng.random() < 0.25:
            return {"mode": "list", "lib": lib_src(rng), "ops": ops, "beh": beh, "how": rng.randrange(3)}
        return {"mode": "list", "ev": ev, "ops": ops, "beh": beh, "how": rng.randrange(3), "sync": rng.choice([0, 0, 0, 1, 2])}
    op = rng.choice(MULTI)
    m = rng.choice([2, 2, 3, 4, 6])
    end = lambda: rng.choice(["C", "C", "C", "E", None]) if op not in ("catch", "retry") else rng.choice(["E", "E", "C", None])
    srcs = [script(rng, rng.choice([0, 1, 2, 3, 5]), end(), rng.choice([0, 0, 0.125, 0.5, 1])) for _ in range(m)]
    out = script(rng, m, rng.choice(["C", "C", "E", None]), rng.choice([0, 0, 0.25]))
    return {"mode": "multi", "op": op, "srcs": srcs, "out": out, "n": rng.choice([0, 0, 1, 2]), "beh": beh, "how": rng.randrange(3), "style": rng.randrange(3),
            "pass": [rng.choice(["map", "filter", "skip", "distinct"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]}


def prefix(ops, vals, term):
    """List model of what is out after these events. term: None while the source goes on."""
    for i, op in enumerate(ops):
        o, a = op[0], op[1]
        if o == "index":
            k = a["i"]
            a = {"a": k, "b": k + 1 if k != -1 else None}
            o = "slice"
        if o == "slice" and term != "C":
            s, e, st = a.get("a"), a.get("b"), a.get("s") or 1
            if s is not None and s < 0:
                vals = []
            elif e is None:
                vals = vals[s::st]
            elif e >= 0:
                if len(vals) >= e or e <= (s or 0):
                    term = "C"
                vals = vals[s:e:st]
            else:
                vals = vals[s or 0:]
                vals = vals[:max(len(vals) + e, 0)][::st]
        elif o == "slice":
            vals = vals[a.get("a"):a.get("b"):a.get("s") or 1]
        else:
            vals, term = pipes.model_op(op, list(vals), term, f"p.{i}.{op[0]}", prefix.calls)
    return vals, term


def run_list(c):
    case = Case()
    r = Rec(case, "o", c.get("beh"), overlap=False)
    ev = c.get("ev", [])
    lib = c.get("lib")

    async def main():
        src = pipes.build(case, {"src": lib or ["probe", {"ev": ev, "sync": c.get("sync", 0)}], "ops": c["ops"]})
        await r.subscribe(src, c.get("how", 0))

    res = run_case(main, horizon=core.T0 + 1000)
    bad = list(case.bad)
    if res.main_exc is not None:
        bad.append(f"unexpected exception {res.main_exc!r}")
    elif res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    p = case.probes[0] if not lib else None
    vals, due, k, term, held = [], [], 0, None, 0
    if lib:
        a = lib[1].get("src", lib)[1]
        issues = [(0, 0.0, "N", val(v)) for v in a.get("v", [])] + [(0, 0.0, "C" if a.get("err") is None else "E", None)]
        steps = [(0.0, None)] + [(q[1], q) for q in issues]
    else:
        issues = p.issues
        steps = [(p.subs[0].t_sub if p.subs else 0.0, None)] + [(q[1], q) for q in issues]
    for t, q in steps:
        if q is not None:
            if q[2] == "N":
                vals.append(q[3])
            else:
                term = "C" if q[2] == "C" else pipes.Err("src")
        prefix.calls = {}
        ov, ot = prefix(c["ops"], list(vals), term)
        held += len(ov) - k > 1
        due += [(t, "N", x) for x in ov[k:]]
        k = len(ov)
        if ot is not None:
            due.append((t, "C" if ot == "C" else "E", None))
            break
    free, waited = 0.0, 0
    for i, (d, kind, x) in enumerate(due):
        if bad:
            break
        if i >= len(r.events):
            bad.append(f"{kind} {show(x)} is due at t={d} (after {sum(q[1] <= d for q in issues)} events of the source) but was never delivered; got {r.brief()}")
            break
        e = r.events[i]
        if e[0] != kind or kind == "N" and not same(e[1], x):
            bad.append(f"notification {i} is {e[0]} {show(e[1])} instead of {kind} {show(x)}")
        elif e[2] != max(d, free):
            bad.append(f"{kind} {show(e[1])} was due at t={d} and the observer free at t={free}, but it was delivered at t={e[2]}")
        waited += d < free
        free = e[4] if e[4] is not None else e[2]
    if not bad and len(r.events) > len(due):
        bad.append(f"{r.events[len(due)][0]} {show(r.events[len(due)][1])} delivered at t={r.events[len(due)][2]} before it was due")
    cnt = {"values": len(r.values()), "waited": waited, "terminals": len(r.terminals()), "errors": int("E" in r.kinds()), "held_back": int(held > 0), "long": int(len(vals) > 39),
           "ended_early": int(bool(due) and due[-1][1] == "C" and term is None), "inner_subscribed": 0}
    if lib:
        cnt["src:" + lib[0]] = 1
    for op in c["ops"]:
        cnt["op:" + op[0]] = 1
    return Out(bad, ("list", tuple(o[0] for o in c["ops"]), r.trace()), cnt, len(r.events) > 0, note=r.brief())


def run_multi(c):
    case = Case()
    r = Rec(case, "o", c.get("beh"), overlap=False)
    op, st = c["op"], c.get("style", 0)
    ps = []
    errs = {}

    def probe(ev, name):
        evs = []
        for j, e in enumerate(ev):
            evs.append([e[0], "N", (name, j)] if e[1] == "N" else e[:2] + [pipes_err(name, j, e)] if e[1] == "E" else e)
        p = Probe(case, {"ev": evs, "payload": lambda kind, x: x}, name)
        ps.append(p)
        return p

    def pipes_err(name, j, e):
        return errs.setdefault((name, j), ValueError(f"{name}:{j}"))

    srcs = [probe(ev, f"s{i}") for i, ev in enumerate(c["srcs"])]
    outer = probe(c["out"], "out")
    which = lambda x: srcs[x[1] % len(srcs)]

    def build():
        if op == "merge":
            return pipes._ap(st, srcs[0], "merge", srcs[1], mods=pipes.MODS, key=None)
        if op in ("merge_seq", "concat_seq"):
            return getattr(rx, op)(srcs)
        if op == "merge_inner":
            return pipe(outer, rx.map(which), rx.merge_inner(c["n"]))
        if op == "flat_map":
            return pipe(outer, rx.flat_map(which))
        if op == "flat_mapi":
            return pipe(outer, rx.flat_mapi(lambda x, i: which(x)))
        if op == "concat":
            return pipes._ap(st, srcs[0], "concat", srcs[1], mods=pipes.MODS, key=None)
        if op == "switch_latest":
            return pipe(outer, rx.map(which), m_transform.switch_latest)
        if op == "flat_map_latest":
            return pipe(outer, m_transform.flat_map_latest(which))
        if op == "catch":
            return pipe(srcs[0], rx.catch(lambda ex: srcs[1]))
        if op == "retry":
            return pipe(srcs[0], rx.retry(c["n"] + 1))
        return pipes._ap(st, srcs[0], op, srcs[1], mods=pipes.MODS, key=None)

    PASS = {"map": lambda: rx.map(lambda x: x), "filter": lambda: rx.filter(lambda x: True), "skip": lambda: rx.skip(0), "distinct": lambda: rx.distinct_until_changed}

    async def main():
        o = build()
        for x in c.get("pass", ()):
            o = pipe(o, PASS[x]())
        st0["t"] = case.now()
        await r.subscribe(o, c.get("how", 0))

    st0 = {}
    res = run_case(main, horizon=core.T0 + 1000)
    bad = list(case.bad)
    if res.main_exc is not None:
        bad.append(f"unexpected exception {res.main_exc!r}")
    elif res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    issued = {}
    ends = []
    for p in ps:
        for q in p.issues:
            if q[2] == "N":
                issued.setdefault(q[3], []).append(q[1])
            else:
                ends.append((q[1], q[2], p.name))

    def dues(e):
        """Possible due times of a delivered notification."""
        if e[0] == "N":
            if op == "combine_latest":
                return [max(a, b) for a in issued.get(e[1][0], []) for b in issued.get(e[1][1], [])]
            return issued.get(e[1][0] if op == "with_latest_from" else e[1], [])
        if e[0] == "E":
            return [t for t, k, _ in ends if k == "E"]
        if op == "take_until":
            return [q[1] for q in srcs[1].issues[:1] if q[2] == "N"] + [t for t, k, n in ends if k == "C" and n == "s0"]
        return [t for t, k, _ in ends if k == "C"]

    free, waited = 0.0, 0
    for e in r.events:
        d = dues(e)
        if not any(max(x, free) == e[2] for x in d):
            bad.append(f"{op}: {e[0]} {show(e[1])} was due at {sorted(set(d))} and the observer free at t={free}, but it was delivered at t={e[2]}")
        waited += all(x < free for x in d)
        free = e[4] if e[4] is not None else e[2]
    # inner sources
    inner = 0
    first = st0.get("t", 0.0)
    ot = [q[1] for q in outer.issues if q[2] == "N"]
    for p in ps:
        for s in p.subs:
            if p is outer:
                ok = [first]
            elif op in ("flat_map", "flat_mapi", "switch_latest", "flat_map_latest") or op == "merge_inner" and c["n"] == 0:
                ok = ot
            elif op == "merge_inner":
                ok = ot + [t for t, k, _ in ends if k == "C"]
            elif op in ("concat", "concat_seq"):
                ok = [first] if p is srcs[0] else [t for t, k, n in ends if k == "C" and n == srcs[srcs.index(p) - 1].name]
            elif op in ("catch", "retry"):
                ok = [first] + [t for t, k, n in ends if k == "E" and n == "s0"]
                if op == "catch" and p is srcs[1]:
                    ok = ok[1:]
            else:
                ok = [first]
            inner += s.t_sub != first
            if s.t_sub not in ok:
                bad.append(f"{op}: {p.name} was subscribed to at t={s.t_sub} instead of {ok[:6]}")
    subs = [s for p in ps for s in p.subs]
    if not bad and not r.terminals() and all(s.finished is not None or s.disposed is not None for s in subs):
        bad.append(f"{op}: all {len(subs)} subscribed sources have ended, but the stream has not: {r.brief()}")
    end = r.terminals()[0][2] if r.terminals() else float("inf")
    if not bad and end == float("inf") and op not in ("catch", "retry") and any(k == "E" for t, k, n in ends):
        bad.append(f"{op}: the error of a source is not delivered: {r.brief()}")
    if not bad and end == float("inf") and op == "take_until" and any(q[2] == "N" for q in srcs[1].issues):
        bad.append(f"{op}: the stream has not ended although the other source has sent a value: {r.brief()}")
    ties = set(ot) | {t for t, k, n in ends}
    if op == "take_until":
        ties |= {q[1] for q in srcs[1].issues}
    got = [e[1] for e in r.events if e[0] == "N"]
    first_end = min([t for t, k, n in ends if k == "E" or op in ("combine_latest", "with_latest_from")] + [q[1] for q in srcs[1].issues[:1] if op == "take_until"], default=float("inf")) if op not in ("catch", "retry") else end
    for p in srcs:
        if bad or op == "take_until" and p is srcs[1]:
            break
        for q in p.issues:
            if q[2] != "N" or q[1] >= first_end or q[1] in ties:
                continue
            if op == "combine_latest":
                other = [x[1] for x in srcs[1 - srcs.index(p)].issues if x[2] == "N"] if p in srcs[:2] else []
                if other and min(other) < q[1] and not any(q[3] in v for v in got):
                    bad.append(f"{op}: {q[3]} was issued at t={q[1]} and is in no pair: {r.brief()}")
            elif op == "with_latest_from":
                other = [x[1] for x in srcs[1].issues if x[2] == "N"]
                if p is srcs[0] and other and min(other) < q[1] and not any(v[0] == q[3] for v in got):
                    bad.append(f"{op}: {q[3]} was issued at t={q[1]} and is in no pair: {r.brief()}")
            elif q[3] not in got:
                bad.append(f"{op}: {q[3]} was issued at t={q[1]} and never delivered: {r.brief()}")
    cnt = {"values": len(r.values()), "waited": waited, "terminals": len(r.terminals()), "errors": int("E" in r.kinds()), "held_back": 0, "long": 0, "ended_early": 0, "inner_subscribed": inner,
           "op:" + op: 1}
    return Out(bad[:4], (op, tuple(c.get("pass", ())), r.trace()), cnt, len(r.events) > 0, note=r.brief())


def run(c):
    return run_list(c) if c["mode"] == "list" else run_multi(c)
