"""C09: errors are never lost and arrive once, unchanged."""
from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, cold_src, elem_op, rlat, rlen, rpause, rvals
from ..kit import Case, Rec, boom, sames, show
from ..runner import Out
from expression import pipe
import aioreactive as rx
import aioreactive.combine as m_combine

ID = "C09"
LEVEL = "fault_enumeration"
RULE = ("one injected fault per execution, enumerated over operator, failing call (0-3), kind of source and operator behind it, then sampled: user "
        "functions, iterables, async iterables, awaitables, factories, subscriptions of inner sources and the observer's own send handler raise; "
        "values, exactly one error and the identity of its exception are compared with a list model; random nested pipelines with several "
        "possible faults: an error that was produced is delivered once, one that was not is never made up; distinct: structure and trace")
BUDGET = {"quick": (104000, 240), "thorough": (400000, 500)}
REQUIRED = {"function_faults": 3000, "source_faults": 2000, "observer_faults": 2000, "inner_subscribe_faults": 200, "factory_faults": 100,
            "errors_delivered": 8000, "to_producer": 200, "random_faults": 1000}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "mode", "k", "boom")
FN = ["map", "map_async", "mapi", "mapi_async", "starmap", "starmap_async", "filter", "filter_async", "filteri", "starfilter", "choose",
      "choose_async", "scan", "scan_async", "reduce", "reduce_async", "flat_map", "flat_map_async", "flat_mapi", "flat_mapi_async", "concat_map",
      "flat_map_latest", "flat_map_latest_async"]
SRC = ["iter", "aiter", "probe", "psync", "single", "of_async", "defer"]
AFTER = [None, ["map", {"f": "tag"}, 0], ["delay", {"d": 0.5}, 0], ["merge", {"other": ["empty", {}]}, 0], ["mapi", {"f": "ix"}, 0], ["skip", {"n": 1}, 0],
         ["take_last", {"n": 2}, 0], ["scan", {"f": "last"}, 0], ["distinct_until_changed", {}, 0], ["concat", {"other": ["empty", {}]}, 0]]
NEUTRAL = ("merge", "concat")


class EqBoom:
    """Cannot be compared."""

    def __init__(self, ex):
        self.ex = ex

    def __eq__(self, o):
        raise self.ex

    __ne__ = __eq__
    __hash__ = None


def source(kind, vals):
    if kind == "probe":
        return ["probe", {"ev": [[0.5 * i, "N", v] for i, v in enumerate(vals)] + [[0.5 * len(vals), "C"]]}]
    if kind == "psync":
        return ["probe", {"ev": [[0, "N", v] for v in vals] + [[0, "C"]], "sync": 2}]
    if kind in ("single", "of_async"):
        return [kind, {"v": vals[:1]}]
    if kind == "defer":
        return ["defer", {"src": ["iter", {"v": vals}], "v": vals}]
    return [kind, {"v": vals, "re": 1}]


def fnop(op, k, exc, late=False):
    a = {"f": next(iter(pipes.ELEM[op][0])) if op in pipes.ELEM else "sum", "boom": [k, exc], "init": 7}
    if op in ("filter", "filter_async", "filteri", "starfilter"):
        a["f"] = "all"
    if op in gens.INNER:
        a = {"inner": [["single", {"v": [3]}]], "boom": [k, exc]}
    if late:
        a["late_boom"], a["lat"] = True, ["y", 2]
    pre = [["map", {"f": "pair"}, 0]] if op.startswith("star") else []
    return pre + [[op, a, 0]]


def fixed(tier):
    for op in FN:
        for k in range(4):
            for s in SRC:
                if s in ("single", "of_async") and k:
                    continue
                for j, after in enumerate(AFTER):
                    yield {"mode": "fn", "pipe": {"src": source(s, [1, 2, 3, 4, 5]), "ops": fnop(op, k, (k + j) % 5, op.endswith("async") and j % 2) + (
                        [after] if after else [])}}
    for s in SRC + ["interval", "delay"]:
        for k in range(4):
            for j, after in enumerate(AFTER):
                if after and after[0] in ("take_last",) and s == "interval":
                    continue
                src = ["interval", {"s": 0.5, "p": 0.5}] if s == "interval" else source("iter" if s == "delay" else s, [1, 2, 3, 4, 5])
                ops = ([["delay", {"d": 1}, 0]] if s == "delay" else []) + ([["take", {"n": 5}, 0]] if s == "interval" and j % 2 else []) + ([after] if after else [])
                yield {"mode": "obs", "k": k, "exc": (k + j) % 5, "pipe": {"src": src, "ops": ops}}
    for kind in ("iter", "aiter", "of_async", "probe", "psync", "fail", "create", "deferfail", "subfail", "zipseq", "eqraise"):
        for n in (0, 1, 3):
            for exc in range(5):
                for after in AFTER:
                    yield {"mode": "src", "kind": kind, "n": n, "exc": exc, "ops": [after] if after else []}


OPTS = {"boom": 0.3, "once": False, "endless": False, "create": False, "single": True}


def strip(p, rng):
    """Keep only operators that cannot end early or swallow errors."""
    ok = ("skip", "skip_last", "take_last", "distinct_until_changed", "delay", "debounce", "merge", "concat", "flat_map", "flat_map_async", "flat_mapi",
          "flat_mapi_async", "concat_map", "merge_inner", "mapi", "mapi_async", "filteri", "map", "map_async", "filter", "filter_async", "starmap",
          "starmap_async", "starfilter", "choose", "choose_async", "scan", "scan_async", "reduce", "reduce_async")
    p["ops"] = [o for o in p["ops"] if o[0] in ok]
    if p["src"][0] == "interval":
        p["src"] = ["timer", {"s": p["src"][1]["s"]}]
    for o in p["ops"]:
        a = o[1]
        if "other" in a:
            strip(a["other"], rng)
        for q in a.get("inner", []):
            strip(q, rng)
            if rng.random() < 0.06:
                q["src"] = ["probe", {"ev": [], "subraise": rerr(rng)}]


def gen(rng, tier):
    r = rng.random()
    if r < 0.4:
        p = gens.any_pipe(rng, OPTS, rng.choice([1, 1, 2]))
        strip(p, rng)
        return {"mode": "any", "pipe": p, "beh": {"lat": rlat(rng)}}
    n = rlen(rng, 6)
    if r < 0.65:
        ops = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops += elem_op(rng)
        op = rng.choice(FN)
        f = fnop(op, rng.randrange(4), rerr(rng), op.endswith("async") and rng.random() < 0.5)
        f[-1][2] = rng.randrange(3)
        ops += f
        for _ in range(rng.choice([0, 1, 2])):
            if rng.random() < 0.5:
                ops += elem_op(rng)
            else:
                ops.append(rng.choice(AFTER[1:]))
        src = cold_src(rng, n)
        if src[0] == "create":
            src[0] = "iter"
        elif src[0] == "defer" and src[1]["src"][0] == "create":
            src[1]["src"][0] = "iter"
        return {"mode": "fn", "pipe": {"src": src, "ops": ops}, "beh": {"lat": rlat(rng)}, "how": rng.randrange(3)}
    if r < 0.85:
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            ops += elem_op(rng) if rng.random() < 0.6 else [rng.choice(AFTER[1:])]
        src = cold_src(rng, n, rng.choice(["C", "C", "E"]))
        if src[0] == "create":
            src[0] = "iter"
        elif src[0] == "defer" and src[1]["src"][0] == "create":
            src[1]["src"][0] = "iter"
        return {"mode": "obs", "k": rng.randrange(4), "exc": rerr(rng), "pipe": {"src": src, "ops": ops}, "beh": {"lat": rlat(rng)}, "how": rng.randrange(3)}
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        ops += elem_op(rng) if rng.random() < 0.6 else [rng.choice(AFTER[1:])]
    return {"mode": "src", "kind": rng.choice(["iter", "aiter", "of_async", "probe", "psync", "fail", "create", "deferfail", "subfail", "zipseq", "eqraise"]), "n": n,
            "exc": rerr(rng), "ops": ops, "beh": {"lat": rlat(rng)}}


def model(p, calls):
    """pipes.model with the neutral two-source operators left out and inner sources that emit one value."""
    vals, term = pipes.model({"src": p["src"], "ops": []})
    for i, op in enumerate(p["ops"]):
        nm = f"p.{i}.{op[0]}"
        if op[0] in NEUTRAL:
            continue
        if op[0] in gens.INNER:
            b = op[1].get("boom")
            k = len(vals) if b is None else min(b[0], len(vals))
            inner = pipes.val(3)
            if k < len(vals):
                term = pipes.Err(nm)
            vals = [inner] * k
            continue
        vals, term = pipes.model_op(op, vals, term, nm, calls)
    return vals, term


def run(c):
    mode = c["mode"]
    case = Case()
    beh = dict(c.get("beh") or {})
    if mode == "obs":
        beh["raise"] = {str(c["k"]): c["exc"]}
    r = Rec(case, "observer", beh)
    given = {}

    def src_case():
        """A failing source of the requested kind -> (source, expected values, the exception)."""
        n, exc = c["n"], c["exc"]
        v = [1, 2, 3, 4, 5, 6][:n]
        k = c["kind"]
        if k == "deferfail":
            ex = boom("factory", exc)

            def factory():
                raise ex
            return rx.defer(factory), [], ex
        if k == "subfail":  # subscribing to an inner source fails; earlier inner sources have delivered (merged in order)
            p = pipes.build_src(case, ["probe", {"ev": [], "subraise": exc}], "sub", {})
            return rx.concat_seq([rx.from_iterable([pipes.val(x) for x in v]), p]), [pipes.val(x) for x in v], None
        if k == "zipseq":  # the sequence paired with the values fails (as those of the indexed operators could)
            ex = boom("sequence", exc)

            def seq():
                yield from range(n)
                raise ex
            return pipe(rx.from_iterable(range(10, 20)), m_combine.zip_seq(seq())), [(10 + i, i) for i in range(n)], ex
        if k == "eqraise":  # comparing a value with the one before raises
            ex = boom("equality", exc)
            v = [1, 2, 3, 4, 5, 6][: max(n, 1)]
            o = pipes.build_src(case, source(("iter", "probe", "aiter")[n % 3], v + [1]), "p.s", {})
            o = pipe(o, rx.map(lambda x, st=[]: st.append(x) or (EqBoom(ex) if len(st) > len(v) else x)))
            return pipe(o, rx.distinct_until_changed), [pipes.val(x) for x in v], ex
        if k in ("probe", "psync"):
            sp = source(k, v)
            sp[1]["ev"][-1] = [sp[1]["ev"][-1][0], "E", exc]
            return pipes.build_src(case, sp, "p.s", {}), [pipes.val(x) for x in v], None
        if k in ("of_async", "fail"):
            v = []
        o = pipes.build_src(case, [k, {"v": v, "err": exc}], "p.s", {})
        return o, [pipes.val(x) for x in v], case.srcerr[-1]

    async def main():
        if mode == "src":
            o, v, ex = src_case()
            given["v"], given["ex"] = v, ex
            for i, op in enumerate(c["ops"]):
                o = pipes.apply_op(case, o, op, f"p.{i}.{op[0]}", {})
        else:
            o = pipes.build(case, c["pipe"], "p", {})
        await r.subscribe(o, c.get("how", 0))

    res = run_case(main, horizon=core.T0 + 200)
    bad = case.bad
    if res.main_exc is not None:
        return Out(bad + [f"subscribing raised {res.main_exc!r}"], "exc")
    if res.status != "idle" and not (mode == "obs" and c["pipe"]["src"][0] == "interval"):
        bad.append(f"never comes to rest ({res.status})")
    got, gt = r.values(), r.terminals()
    cnt = {"function_faults": 0, "source_faults": 0, "observer_faults": 0, "inner_subscribe_faults": 0, "factory_faults": 0, "to_producer": 0,
           "random_faults": 0, "errors_delivered": sum(e[0] == "E" for e in gt)}
    probes = case.__dict__.get("probes", [])
    toprod = [x for p in probes for x in p.raised]

    def direct(ops):
        """The producer's send waits for these operators (nothing in between takes over the delivery)."""
        return all(o[0] not in gens.GUARDED + ("delay",) for o in ops) or None

    def expect(vals, exc, why, upto=None):
        if not sames(got, vals):
            bad.append(f"values {show(got, 250)} instead of {show(vals, 250)} before {why}")
        if gt and gt[0][0] == "E" and gt[0][1] is exc:
            return
        if not gt and upto is not None and any(x is exc for x in toprod):
            cnt["to_producer"] += 1
            return
        bad.append(f"{why}: {exc!r} expected as the error, got {r.brief()}" + (f"; raised to the producer: {toprod}" if toprod else ""))

    if mode == "fn":
        vals, term = model(c["pipe"], {})
        if isinstance(term, pipes.Err):
            excs = case.fns[term.who].exc if term.who in case.__dict__.get("fns", {}) else []
            if not excs:
                bad.append(f"{term.who} did not get the call that fails; got {r.brief()}")
            elif any(o[0] in gens.INNER for o in c["pipe"]["ops"]):  # inner sources may not have delivered yet, or be superseded
                if not (gt and gt[0][1] is excs[0] or any(x is excs[0] for x in toprod)):
                    bad.append(f"function {term.who} raised {excs[0]!r}, got {r.brief()}")
            else:
                i = int(term.who.split(".")[1])
                ops = c["pipe"]["ops"]
                upto = direct(ops[:i] + [o for o in ops[i: i + 1] if o[0] in ("mapi", "mapi_async", "filteri")])
                expect(vals, excs[0], f"function {term.who} raised", upto)
            cnt["function_faults"] += 1
        elif "flat_map_latest" not in str(c["pipe"]):
            if not sames(got, vals) or [e[0] for e in gt] != ["C"]:
                bad.append(f"no function failed, expected {show(vals, 200)} and completion, got {r.brief()}")
    elif mode == "obs":
        p = c["pipe"]
        if p["src"][0] == "interval":
            p = {"src": ["iter", {"v": [0, 1, 2, 3, 4, 5, 6, 7]}], "ops": [o for o in p["ops"]]}
            vals, term = list(range(8)), "C"
            for i, op in enumerate(p["ops"]):
                if op[0] not in NEUTRAL:
                    vals, term = pipes.model_op(op, vals, term, f"p.{i}.{op[0]}", {})
        else:
            vals, term = model(p, {})
        if len(vals) > c["k"]:
            if not r.raised:
                bad.append(f"the observer did not get value number {c['k']}; got {r.brief()}")
            else:
                expect(vals[: c["k"] + 1], r.raised[0], "the observer raised", direct(c["pipe"]["ops"]))
            cnt["observer_faults"] += 1
        else:
            if not sames(got, vals):
                bad.append(f"values {show(got, 250)} instead of {show(vals, 250)}")
            if term == "C" and [e[0] for e in gt] != ["C"] or term != "C" and [e[0] for e in gt] != ["E"]:
                bad.append(f"terminal {term} expected, got {r.brief()}")
    elif mode == "src":
        ex = given["ex"]
        if ex is None:
            for p in probes:
                for s in p.subs:
                    ex = s.failed if s.failed is not None else ex
                ex = next((q[3] for q in p.issues if q[2] == "E"), ex)
        vals, term = given["v"], pipes.Err("src")
        for i, op in enumerate(c["ops"]):
            if op[0] not in NEUTRAL:
                vals, term = pipes.model_op(op, vals, term, f"p.{i}.{op[0]}", {})
        if ex is None:
            bad.append(f"the failing source was never used; got {r.brief()}")
        elif isinstance(term, pipes.Err):
            expect(vals, ex, f"source {c['kind']} failed")
        cnt["source_faults"] += 1
        cnt["inner_subscribe_faults"] += c["kind"] == "subfail"
        cnt["factory_faults"] += c["kind"] == "deferfail"
    else:
        made = list(case.__dict__.get("booms", [])) + [q[3] for p in probes for q in p.issues if q[2] == "E"] + [
            s.failed for p in probes for s in p.subs if s.failed is not None]
        src = case.__dict__.get("srcerr", [])
        if gt and gt[0][0] == "E" and not any(gt[0][1] is x for x in made + src):
            bad.append(f"the error {gt[0][1]!r} was never raised; raised: {made + src}")
        if made and not (gt and gt[0][0] == "E") and not all(any(x is y for y in toprod) for x in made):
            bad.append(f"{made[0]!r} was raised but {r.brief()} was delivered")
        cnt["random_faults"] += bool(made)
        cnt["inner_subscribe_faults"] += any(s.failed is not None for p in probes for s in p.subs)
    key = (str(c.get("pipe", c.get("kind"))) if mode != "any" else tuple(gens.op_names(c["pipe"])), r.trace())
    return Out(bad, key, cnt, True, note=r.brief())
