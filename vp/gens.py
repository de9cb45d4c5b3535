"""Random generators shared by the property modules (everything JSON)."""
from .kit import EXC_MORE, POOL

NPOOL, NMORE = len(POOL), len(EXC_MORE)
ROWS = ("pair", "lpair", "pair", "trip", "quad", "solo", "nil")


def rvals(rng, n, weird=0.6):
    out = []
    for _ in range(n):
        if rng.random() < weird:
            out.append(rng.randrange(NPOOL))
        else:
            out.append(rng.randrange(7))
        if out and len(out) > 1 and rng.random() < 0.15:
            out[-1] = out[-2]
    return out


def rerr(rng, sent=False):
    """Which exception: see kit.boom (9, StopAsyncIteration, only for errors that are sent, never raised)."""
    r = rng.random()
    if r < 0.7:
        return rng.randrange(5)
    if sent and r < 0.75:
        return 9
    return 10 + rng.randrange(NMORE)


def rlen(rng, hi=8):
    return rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, hi])


def rbig(rng, p=0.006, sizes=(40, 66, 130, 260, 520, 1050)):
    """Now and then, a size far beyond the usual ones (None otherwise)."""
    return rng.choice(sizes) if rng.random() < p else None


def rpause(rng, p=0.5, sleeps=True):
    r = rng.random()
    if r > p:
        return None
    if sleeps and rng.random() < 0.4:
        return ["s", rng.choice([0.25, 0.5, 1.0, 1.75])]
    return ["y", rng.choice([1, 1, 2, 3, 5])]


def rlat(rng, p=0.5, sleeps=True):
    if rng.random() > p:
        return []
    return [rpause(rng, 0.7, sleeps) for _ in range(rng.randrange(1, 4))]


def elem_op(rng, boom=None, star_ok=False, style=None):
    """One element-wise operator (or a pair+star combination), as a list of ops."""
    st = rng.randrange(3) if style is None else style
    a = {"k": rng.randrange(4)}
    kind = rng.choice(["map", "map_async", "mapi", "mapi_async", "starmap", "starmap_async", "filter", "filter_async",
                       "filteri", "starfilter", "choose", "choose_async", "scan", "scan_async", "reduce",
                       "reduce_async", "map", "filter", "choose"])
    pre = []
    if kind in ("map", "map_async"):
        a["f"] = rng.choice(["id", "tag", "tag", "none", "falsy", "hash", "notif"])
    elif kind in ("mapi", "mapi_async"):
        a["f"] = rng.choice(["ix", "ix", "i", "none"])
    elif kind in ("starmap", "starmap_async"):
        a["f"] = rng.choice(["tup", "first", "last", "none"])
        pre = [["map", {"f": rng.choice(ROWS)}, rng.randrange(3)]]
    elif kind in ("filter", "filter_async"):
        a["f"] = rng.choice(["mod", "mod", "all", "no"])
    elif kind == "filteri":
        a["f"] = rng.choice(["idx", "mod", "all"])
    elif kind == "starfilter":
        a["f"] = rng.choice(["mod", "all"])
        pre = [["map", {"f": rng.choice(ROWS)}, rng.randrange(3)]]
    elif kind in ("choose", "choose_async"):
        a["f"] = rng.choice(["mod", "some", "none", "wrap"])
    else:
        a["f"] = rng.choice(["sum", "sum", "last", "none", "cnt"])
        a["init"] = rng.choice([7, 8, 9, 0, 13, rng.randrange(NPOOL)])
    if kind.endswith("async"):
        a["lat"] = rpause(rng, 0.6)
    if boom is not None:
        a["boom"] = [boom, rerr(rng)]
        if kind.endswith("async") and rng.random() < 0.5:
            a["late_boom"] = True
    return pre + [[kind, a, st]]


def cold_src(rng, n, term="C", weird=0.6, times=True):
    """A one-shot source of n values; term C or E."""
    v = rvals(rng, n, weird)
    kinds = ["iter", "iter", "aiter", "probe", "probe", "create"]
    if n == 1:
        kinds += ["single"] if term == "C" else []
        kinds += ["of_async"] if term == "C" else []
    if n == 0 and term == "C":
        kinds += ["empty"]
    if n == 0 and term == "E":
        kinds += ["fail", "of_async"]
    k = rng.choice(kinds)
    a = {"v": v}
    if term == "E":
        a["err"] = rerr(rng)
    if k == "iter":
        if rng.random() < 0.5:
            a["re"] = 1
        if rng.random() < 0.3:
            a["rx"] = 1
    elif k in ("aiter", "of_async"):
        a["lat"] = rpause(rng)
    elif k == "probe":
        t = 0.0
        ev = []
        for x in v:
            t += rng.choice([0, 0, 0.25, 1.0]) if times else 0
            ev.append([t, "N", x])
        t += rng.choice([0, 0, 0.5]) if times else 0
        ev.append([t, "C"] if term == "C" else [t, "E", rerr(rng, 1)])
        a = {"ev": ev, "sync": rng.choice([0, 0, 0, 1, len(ev)])}
    if rng.random() < 0.15 and k not in ("probe", "of_async"):
        return ["defer", {"src": [k, a], "v": v, **({"err": a["err"]} if "err" in a else {})}]
    return [k, a]


# ---------------------------------------------------------------- arbitrary pipelines
GUARDED = ("skip", "skip_last", "take", "take_last", "take_until", "distinct_until_changed", "mapi", "mapi_async", "filteri", "debounce", "zip_seq", "sample", "merge",
           "concat", "flat_map", "flat_map_async", "flat_mapi", "flat_mapi_async", "concat_map", "merge_inner", "flat_map_latest",
           "flat_map_latest_async", "combine_latest", "with_latest_from", "reduce", "reduce_async")
TWO = ("merge", "concat", "combine_latest", "with_latest_from", "take_until")
INNER = ("flat_map", "flat_map_async", "flat_map_latest", "flat_map_latest_async", "concat_map", "flat_mapi", "flat_mapi_async", "merge_inner")


def any_src(rng, o, rude=False):
    """A source. o: options (endless, single, once, sync, create, lat)."""
    r = rng.random()
    n = rbig(rng, o.get("many", 0), (9, 14, 26)) or rng.choice([0, 1, 1, 2, 2, 3, 4])
    v = rvals(rng, n, 0.3)
    end = rng.choice(["C", "C", "C", "E", "E", None]) if o.get("endless", True) else rng.choice(["C", "C", "E"])
    if r < 0.6 or rude:
        t, ev = rng.choice([0, 0, 0.5, 1]), []
        for x in v:
            ev.append([t, "N", x])
            t += rng.choice([0, 0, 0.25, 1])
        if end:
            ev.append([t, *([end] if end == "C" else ["E", rerr(rng, 1)])])
        a = {"ev": ev}
        if rude:
            a["rude"] = True
            for _ in range(rng.choice([1, 2, 3])):
                t += rng.choice([0, 0, 0.5])
                ev.append([t, *rng.choice([["N", rng.randrange(7)], ["N", rng.randrange(7)], ["C"], ["E", rerr(rng, 1)]])])
        if o.get("sync", True) and rng.random() < 0.25:
            a["sync"] = rng.choice([1, 2, len(ev)])
        if o.get("subdelay", True) and rng.random() < 0.1:
            a["subdelay"] = rpause(rng, 1.0)
        return ["probe", a]
    k = rng.choice(["iter", "iter", "iter", "aiter", "aiter", "empty", "never", "fail", "interval", "timer"]
                   + (["create"] if o.get("create", True) else []) + (["single"] if o.get("single", True) else [])
                   + (["of_async"] if o.get("once") else []))
    a = {"v": v}
    if k == "fail" or (k in ("iter", "aiter", "create", "of_async") and end == "E"):
        a["err"] = rerr(rng)
    if k == "iter":
        a["re"] = 1
    elif k in ("aiter", "of_async"):
        a["lat"] = rpause(rng) if o.get("lat", True) else None
    elif k == "interval":
        a = {"s": rng.choice([0, 0.25, 1]), "p": rng.choice([0, 0.5, 1])}
    elif k == "timer":
        a = {"s": rng.choice([0, 0.5, 1])}
    elif k == "create":
        a["c"] = rng.random() < 0.8
    if k == "never" and not o.get("endless", True):
        k = "empty"
    if o.get("defer") and k != "of_async" and rng.random() < o["defer"]:
        return ["defer", {"src": [k, a], "v": v}]
    return [k, a]


def any_op(rng, o, depth, first_rude=False):
    """One operator (list of ops) with nested pipelines up to `depth`."""
    r = rng.random()
    st = rng.randrange(3)
    if first_rude:
        pool = [x for x in GUARDED if depth > 0 or x not in TWO + INNER]
        k = rng.choice(pool)
    elif depth > 0 and r < 0.42:
        k = rng.choice(TWO + INNER + ("catch", "retry", "catch"))
    elif r < 0.7:
        k = rng.choice(["skip", "skip_last", "take", "take_last", "slice", "distinct_until_changed", "delay", "debounce", "take", "zip_seq", "sample"])
    else:
        b = rng.randrange(4) if rng.random() < o.get("boom", 0) else None
        ops = elem_op(rng, boom=b)
        if not o.get("lat", True):
            for x in ops:
                x[1].pop("lat", None)
        if rng.random() < o.get("vboom", 0):
            ops[-1][1].pop("boom", None)
            ops[-1][1]["vboom"] = rng.randrange(7)
        return ops
    if k in TWO:
        return [[k, {"other": any_pipe(rng, o, depth - 1, False)}, st]]
    if k in INNER:
        a = {"inner": [any_pipe(rng, o, depth - 1, False) for _ in range(rng.choice([1, 2, 3]))]}
        if o.get("byval"):
            a["byval"] = 1
        if k == "merge_inner":
            a["n"] = rng.choice([0, 1, 2])
        if k.endswith("async") and o.get("lat", True):
            a["lat"] = rpause(rng)
        if k != "merge_inner" and rng.random() < o.get("boom", 0):
            a["boom"] = [rng.randrange(3), rerr(rng)]
        return [[k, a, st % 2 if k == "merge_inner" else st]]
    if k == "catch":
        return [[k, {"handler": any_pipe(rng, o, depth - 1, False)}, st]]
    if k == "retry":
        return [[k, {"n": rng.choice([0, 1, 2])}, st]]
    if k in ("skip", "skip_last", "take", "take_last"):
        return [[k, {"n": rng.choice([0, 1, 1, 2, 3]) if not (first_rude and k == "take") else rng.choice([1, 2, 3])}, st]]
    if k == "slice":
        return [[k, {"a": rng.choice([None, 0, 1, -2]), "b": rng.choice([None, 1, 3, -1]), "s": rng.choice([None, 1, 2])}, st]]
    if k in ("delay", "debounce"):
        return [[k, {"d": rng.choice([0, 0.25, 0.5, 1])}, st]]
    if k == "distinct_until_changed":
        return [[k, {}, st]]
    if k == "zip_seq":
        return [[k, {"n": rng.choice([0, 1, 1, 2, 3]), "kind": rng.randrange(5)}, st]]
    if k == "sample":
        return [[k, {"d": rng.choice([0.25, 0.5, 1])}, st]]
    for _ in range(60):
        ops = elem_op(rng)
        if ops[-1][0] == k and len(ops) == 1:
            return ops
    return [["skip", {"n": 0}, st]]


def any_pipe(rng, o, depth=2, top=True):
    if rng.random() < o.get("hub", 0):
        t, ev = 0.0, []
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            ev.append([t, *rng.choice([["N", rng.randrange(7)], ["N", rng.randrange(7)], ["C"], ["E", rerr(rng, 1)]])])
            t += rng.choice([0, 0, 0, 0.25, 1])
        src = ["hub", {"ev": ev, "one": rng.random() < 0.4, "early": rng.choice([None, ["y", 1], ["y", 3], ["s", 0.5]])}]
        if top and rng.random() < 0.5:  # nested, nothing need serialize in front of the outer operators
            return {"src": src, "ops": []}
        ops = any_op(rng, o, depth, True)
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops += any_op(rng, o, depth)
        return {"src": src, "ops": ops}
    rude = rng.random() < o.get("rude", 0)
    spawn = not rude and rng.random() < o.get("spawn", 0)
    src = any_src(rng, o, rude or spawn)
    if spawn:
        src[1]["spawn"] = True
        src[1].pop("rude")
    ops = []
    if rude or spawn:
        ops += any_op(rng, o, depth, True)
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth < 2 else rng.choice([1, 1, 2, 2, 3, 4])):
        ops += any_op(rng, o, depth)
    return {"src": src, "ops": ops}


def walk_pipes(p):
    """All pipelines and bare sources nested in a pipeline spec."""
    yield p
    for op in p.get("ops", []):
        a = op[1] if len(op) > 1 else {}
        for q in [a.get("other"), a.get("handler")] + list(a.get("inner", [])):
            if isinstance(q, dict):
                yield from walk_pipes(q)


def op_names(p):
    return [op[0] for q in walk_pipes(p) for op in q.get("ops", [])]
