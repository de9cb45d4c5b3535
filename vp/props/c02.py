"""C02: notifications to one observer never overlap, and keep the order in which they were issued."""
from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, rlat, rpause, rvals
from ..kit import Case, Rec, Stage, sames, show
from ..runner import Out

ID = "C02"
RULE = ("slow observers below random pipelines (nested up to two levels) whose sources push from independent tasks into guarding operators, and "
        "merging operators over many sources; every call into the observer and across every boundary between two stages is bracketed and an "
        "entry while another call of the same subscription is running is a violation; for concurrent producers into one operator chain the "
        "delivered sequence is compared with a list model over the issue order; distinct: operators and observed trace")
BUDGET = {"quick": (96000, 240), "thorough": (400000, 500)}
REQUIRED = {"boundary_events": 20000, "slow_calls": 10000, "concurrent_issues": 3000, "ordered_values": 5000, "cross_source": 1000,
            "lib_source_slow": 500} | {"op:" + x: 100 for x in gens.GUARDED}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "mode")
OPTS = {"many": 0.01, "spawn": 0.45, "boom": 0.15, "once": True}
ORDERED = ["skip", "skip_last", "take", "take_last", "distinct_until_changed", "mapi", "filteri", "debounce0", "merge_never", "slice", "mapi_async",
           "reduce", "concat_empty", "take_until_never"]


def slow(rng):
    return {"lat": [rng.choice([["y", 1], ["y", 2], ["y", 4], ["s", 0.25], ["s", 1.0], ["s", 2.5], None]) for _ in range(rng.randrange(1, 5))],
            "tlat": rpause(rng, 0.7)}


def gen(rng, tier):
    r = rng.random()
    if r < 0.55:
        beh = slow(rng)
        if rng.random() < 0.15:
            beh["raise"] = {str(rng.randrange(4)): rerr(rng)}
        return {"mode": "any", "pipe": gens.any_pipe(rng, OPTS, rng.choice([0, 1, 1, 2])), "beh": beh, "how": rng.randrange(3)}
    if r < 0.85:
        n = rng.choice([1, 2, 3, 4, 6, 9])
        t, ev = 0.0, []
        for v in rvals(rng, n, 0.4):
            ev.append([t, "N", v])
            t += rng.choice([0, 0, 0, 0.25, 1])
        ev.append([t, "C"])
        k = rng.choice(ORDERED)
        st = rng.randrange(3)
        op = {"skip": ["skip", {"n": rng.choice([0, 1, 2])}, st], "skip_last": ["skip_last", {"n": rng.choice([0, 1, 2])}, st],
              "take": ["take", {"n": rng.choice([1, 2, 5, 20])}, st], "take_last": ["take_last", {"n": rng.choice([1, 3, 20])}, st],
              "distinct_until_changed": ["distinct_until_changed", {}, st], "mapi": ["mapi", {"f": "ix"}, st],
              "filteri": ["filteri", {"f": "idx", "k": rng.randrange(3)}, st], "slice": ["slice", {"a": rng.choice([0, 1]), "b": rng.choice([2, 9]), "s": 1}, 0],
              "mapi_async": ["mapi_async", {"f": "ix", "lat": rpause(rng)}, st], "reduce": ["reduce", {"f": "sum", "init": 8}, st]}
        two = {"merge_never": "merge", "concat_empty": "concat", "take_until_never": "take_until", "debounce0": "merge"}
        if k in two:
            ops = [[two[k], {"other": ["empty" if two[k] != "take_until" else "never", {}]}, st]]
            if k == "concat_empty" and rng.random() < 0.5:
                ops[0][0] = "merge"
        else:
            ops = [op[k]]
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops += gens.elem_op(rng)
        return {"mode": "order", "pipe": {"src": ["probe", {"ev": ev, "spawn": True}], "ops": ops}, "beh": slow(rng), "how": rng.randrange(3)}
    # several sources, all issue times distinct: the delivered order is the issue order
    m = rng.choice([2, 3, 4, 6])
    total = rng.choice([3, 5, 8, 14])
    evs = [[] for _ in range(m)]
    t = 0.0
    for i in range(total):
        evs[rng.randrange(m)].append([t, "N", rng.randrange(7)])
        t += rng.choice([0.125, 0.25, 0.5, 1])
    for e in rng.sample(evs, m):
        e.append([t, "C"])
        t += rng.choice([0.125, 0.5])
    if rng.random() < 0.3:
        e = rng.choice(evs)
        e[-1] = [e[-1][0], "E", rerr(rng, 1)]
    return {"mode": "cross", "evs": evs, "form": rng.choice(["merge", "flat_map", "merge_seq", "merge_inner"]), "beh": slow(rng), "how": rng.randrange(3)}


def build_cross(case, c):
    import aioreactive as rx
    from expression import pipe

    ps = []
    for i, ev in enumerate(c["evs"]):
        ps.append(pipes.build_src(case, ["probe", {"ev": ev}], f"x{i}", {}))
    f = c["form"]
    if f == "merge":
        o = ps[0]
        for p in ps[1:]:
            o = pipe(o, rx.merge(p))
        return o
    if f == "merge_seq":
        return rx.merge_seq(ps)
    src = rx.from_iterable(range(len(ps)))
    if f == "flat_map":
        return pipe(src, rx.flat_map(lambda i: ps[i]))
    return pipe(src, rx.map(lambda i: ps[i]), rx.merge_inner(0))


def run(c):
    case = Case()
    r = Rec(case, "observer", c.get("beh"), grammar=False, overlap=True)
    mode = c["mode"]

    def stage(o, name, spec):
        return o if spec[0] == "probe" else Stage(case, o, name)

    async def main():
        if mode == "cross":
            o = build_cross(case, c)
        else:
            o = pipes.build(case, c["pipe"], "p", {"stage": stage})
        await r.subscribe(o, c.get("how", 0))

    res = run_case(main, horizon=core.T0 + (12.0 if mode == "any" else 400.0), max_ticks=40000)
    bad = case.bad + case.__dict__.get("obad", [])[:2]
    if res.status == "livelock":
        bad.append("the pipeline does not come to rest")
    issues = sorted((q for p in case.__dict__.get("probes", []) for q in p.issues), key=lambda q: q[0])
    conc = sum(1 for a, b in zip(issues, issues[1:]) if a[5] is None or a[5] > b[0] or a[1] == b[1])
    slow_calls = sum(1 for e in r.events if e[5] is not None and (e[4] > e[2] or e[5] > e[3] + 1))
    cnt = {"boundary_events": len(r.events) + sum(s.n for s in case.__dict__.get("stages", [])), "concurrent_issues": conc, "slow_calls": slow_calls,
           "ordered_values": 0, "cross_source": int(mode == "cross"), "lib_source_slow": 0}
    if mode == "any":
        for x in set(gens.op_names(c["pipe"])):
            cnt["op:" + x] = 1
        cnt["lib_source_slow"] = int(any(q["src"][0] in ("iter", "aiter", "interval", "of_async") for q in gens.walk_pipes(c["pipe"])) and slow_calls > 0)
        key = (tuple(gens.op_names(c["pipe"])), r.trace())
    elif mode == "order":
        ops = [x for x in c["pipe"]["ops"] if x[0] not in ("merge", "concat", "take_until")]  # with empty/never: no effect
        v, t = pipes.model({"src": c["pipe"]["src"], "ops": ops})
        if not sames(r.values(), v):
            bad.append(f"delivered {show(r.values(), 250)} instead of {show(v, 250)}")
        if t == "C" and [e[0] for e in r.terminals()] != ["C"]:
            bad.append(f"expected completion, got {r.brief()}")
        cnt["ordered_values"] = len(v)
        key = (str(c["pipe"]["ops"]), r.trace())
    else:
        cut = next((i for i, q in enumerate(issues) if q[2] == "E"), len(issues))
        exp = [q[3] for q in issues[:cut] if q[2] == "N"]
        if not sames(r.values(), exp):
            bad.append(f"delivered {show(r.values(), 250)} instead of the issue order {show(exp, 250)}")
        want = "E" if cut < len(issues) else "C"
        if [e[0] for e in r.terminals()] != [want]:
            bad.append(f"expected terminal {want}, got {r.brief()}")
        cnt["ordered_values"] = len(exp)
        key = (c["form"], r.trace())
    return Out(bad, key, cnt, True, note=r.brief())
