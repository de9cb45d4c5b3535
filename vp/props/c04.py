"""C04: skip/take/slice equal Python slicing; distinct_until_changed drops repeats."""
from .. import pipes
from ..core import run_case
from ..gens import NPOOL, cold_src, elem_op, rbig, rlat, rlen, rvals
from ..kit import POOL, Case, Rec, sames, show, val
from ..runner import Out

ID = "C04"
RULE = ("every (length, start, stop, step) with length 0-7, bounds None or -9..9, step None/1/2/3, in function and "
        "bracket form; every count 0-9 for the four counted operators; random compositions and element pools; "
        "distinct: (source, operators, result)")
BUDGET = {"quick": (64000, 240), "thorough": (300000, 400)}
REQUIRED = {"values": 1000, "long": 5}


def fixed(tier):
    bounds = [None] + list(range(-9, 10))
    for n in range(0, 8):
        for a in bounds:
            for b in bounds:
                for s in (None, 1, 2, 3):
                    if tier == "quick" and s == 1 and (n + (a or 0) + (b or 0)) % 2:
                        continue
                    st = 2 if ((a or 0) + (b or 0) + n + (s or 0)) % 2 else 0
                    yield {"src": ["iter", {"v": list(range(n))}], "ops": [["slice", {"a": a, "b": b, "s": s}, st]]}
        for i in range(-9, 10):
            yield {"src": ["iter", {"v": [7] * (n // 2) + list(range(n - n // 2))}], "ops": [["index", {"i": i}, 2]]}
    weird = [7, 8, 9, 11, 13, 16, 19, 20, 23, 24, 25, 30, 30, 32]
    for n in range(0, 10):
        for op in ("skip", "skip_last", "take", "take_last"):
            for k in range(0, 12):
                for st in (0, 1, 2):
                    yield {"src": ["iter", {"v": weird[:n]}], "ops": [[op, {"n": k}, st]]}
                    yield {"src": ["aiter", {"v": weird[:n]}], "ops": [[op, {"n": k}, st]], "beh": {"lat": [["y", 1]]}}
    for x in range(NPOOL):
        for y in range(NPOOL):
            yield {"src": ["iter", {"v": [x, y, y, x]}], "ops": [["distinct_until_changed", {}, (x + y) % 3]]}
    near = [i for i, x in enumerate(POOL) if type(x).__name__ == "Near"]
    for i in range(27):
        yield {"src": ["iter", {"v": [near[i % 3], near[i // 3 % 3], near[i // 9], near[1]]}], "ops": [["distinct_until_changed", {}, i % 3]]}


def cut_op(rng):
    st = rng.randrange(3)
    r = rng.random()
    if r < 0.45:
        return [rng.choice(["skip", "skip_last", "take", "take_last"]), {"n": rng.choice([0, 1, 1, 2, 3, 4, 6, 9])}, st]
    if r < 0.8:
        b = [None] + list(range(-6, 7))
        return ["slice", {"a": rng.choice(b), "b": rng.choice(b), "s": rng.choice([None, 1, 2, 3])}, st]
    if r < 0.85:
        return ["index", {"i": rng.randrange(-6, 6)}, 2]
    return ["distinct_until_changed", {}, st]


def gen(rng, tier):
    big = rbig(rng)
    n = big or rlen(rng, 12)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ops.append(cut_op(rng))
        if big:
            a = ops[-1][1]
            for k in a:
                if k != "s" and a[k] is not None and rng.random() < 0.8:
                    a[k] = a[k] * rng.choice([n // 7, n // 20, 10, 33])
        if rng.random() < 0.2:
            ops += elem_op(rng)
    c = {"src": cold_src(rng, n, weird=rng.choice([0.0, 0.5, 0.9])), "ops": ops, "beh": {"lat": rlat(rng)}, "how": rng.randrange(3)}
    if rng.random() < 0.15:
        c["src"] = ["subject", {"v": rvals(rng, n), "id": "S"}]
    if big:
        c["beh"] = {"lat": [None, ["y", 1], ["s", 0.25]][: rng.randrange(1, 4)]}
    return c


def run(c):
    case = Case()
    r = Rec(case, "o", c.get("beh"))

    async def main():
        src = pipes.build(case, {"src": c["src"], "ops": c["ops"]})
        await r.subscribe(src, c.get("how", 0))
        if c["src"][0] == "subject":
            s = case.subjects["S"]
            for v in c["src"][1]["v"]:
                await s.asend(val(v))
            await s.aclose()

    res = run_case(main)
    vals, term = pipes.model({"src": c["src"], "ops": c["ops"]})
    bad = list(case.bad)
    if res.status != "idle" or not res.main_done:
        bad.append(f"the pipeline never comes to rest ({res.status})")
    if res.main_exc is not None:
        bad.append(f"unexpected exception {res.main_exc!r}")
    if not sames(r.values(), vals):
        bad.append(f"values {show(r.values(), 300)} instead of {show(vals, 300)} for {c['ops']}")
    if [e[0] for e in r.terminals()] != ["C"]:
        bad.append(f"terminals {[(e[0], show(e[1])) for e in r.terminals()]} instead of one completion for {c['ops']}")
    cnt = {"long": int(len(vals) > 30), "values": len(r.values()), "completions": int(r.ended)}
    for op in c["ops"]:
        cnt["op:" + op[0]] = 1
    return Out(bad, (repr(c["src"]), repr(c["ops"]), r.trace()), cnt, True, note=r.brief())
