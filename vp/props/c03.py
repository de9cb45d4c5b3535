"""C03: element-wise operators equal the list computation."""
from .. import pipes
from ..core import run_case
from ..gens import ROWS, cold_src, elem_op, rbig, rlat, rlen, rvals
from ..kit import Case, Rec, same, sames, show, val
from ..runner import Out

ID = "C03"
RULE = ("random pipelines of 1-4 element-wise operators (function, module and method forms) over random finite sources; "
        "non-trivial: at least one user-function call was observed and compared; distinct: notification trace plus call log")
BUDGET = {"quick": (104000, 240), "thorough": (400000, 400)}
REQUIRED = {"calls": 1000, "values": 1000, "long": 5, "zipped": 500}
OPS = ["map", "map_async", "mapi", "mapi_async", "starmap", "starmap_async", "filter", "filter_async", "filteri",
       "starfilter", "choose", "choose_async", "scan", "scan_async", "reduce", "reduce_async"]


def fixed(tier):
    """Every operator with every function variant, on short weird sequences, from every source kind."""
    tabs = {**{n: t for n, (t, _) in pipes.ELEM.items()}, **{n: pipes.ACCS for n in pipes.SCANS}}
    seqs = [[], [7], [8, 7], [0, 1, 2], [7, 7, 8, 9, 10], [30, 31, 32, 33, 19, 20], list(range(len(pipes.val.__globals__["POOL"])))]
    for op in OPS:
        for f in tabs[op]:
            if op in ("map", "map_async") and f in ROWS:
                continue
            for s in seqs:
                for src in ("iter", "aiter", "probe"):
                    pre = [["map", {"f": "pair"}, 0]] if op.startswith("star") else []
                    a = {"f": f, "k": 1, "init": 7}
                    sp = [src, {"v": s}] if src != "probe" else ["probe", {"ev": [[0.25 * i, "N", x] for i, x in enumerate(s)] + [[0.25 * len(s), "C"]]}]
                    yield {"src": sp, "ops": pre + [[op, a, 0]]}


def gen(rng, tier):
    big = rbig(rng)
    n = big or rlen(rng, 12)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        ops += elem_op(rng)
    if rng.random() < 0.08:
        ops.insert(0, ["zip_seq", {"n": rng.choice([0, 1, 2, 3, 5, 8, 20]), "kind": rng.randrange(5)}, 0])
    c = {"src": cold_src(rng, n), "ops": ops, "beh": {"lat": rlat(rng), "tlat": None}, "how": rng.randrange(3)}
    if rng.random() < 0.15:
        c["src"] = ["subject", {"v": rvals(rng, n), "id": "S"}]
    if rng.random() < 0.3:
        c["subs"] = 2
    if big:
        c["beh"] = {"lat": [None, ["y", 1], ["s", 0.25]][: rng.randrange(1, 4)]}
        for op in ops:
            if op[1].get("lat"):
                op[1]["lat"] = ["y", 1]
    return c


def run(c):
    case = Case()
    nsub = c.get("subs", 1)
    if c["src"][0] in ("of_async",) or (c["src"][0] == "defer" and c["src"][1].get("src", [""])[0] == "of_async"):
        nsub = 1
    recs = []

    async def main():
        src = pipes.build(case, {"src": c["src"], "ops": c["ops"]})
        for i in range(nsub):
            for f in case.__dict__.get("fns", {}).values():
                f.calls.clear()
            r = Rec(case, f"o{i}", c.get("beh"))
            recs.append(r)
            await r.subscribe(src, c.get("how", 0))
            if c["src"][0] == "subject":
                s = case.subjects["S"]
                for v in c["src"][1]["v"]:
                    await s.asend(val(v))
                await s.aclose()
                return
            await _until(r)

    async def _until(r):
        import asyncio
        for _ in range(8000):
            if r.ended and not r.active:
                return
            await asyncio.sleep(0 if _ < 200 else 0.25)

    res = run_case(main)
    exp_calls = {}
    vals, term = pipes.model({"src": c["src"], "ops": c["ops"]}, "p", exp_calls)
    bad = list(case.bad)
    if res.status != "idle" or not res.main_done:
        bad.append(f"the pipeline never comes to rest ({res.status})")
    if res.main_exc is not None:
        bad.append(f"unexpected exception {res.main_exc!r}")
    ncalls = 0
    for r in recs:
        if not sames(r.values(), vals):
            bad.append(f"values {show(r.values(), 300)} instead of {show(vals, 300)}")
        if [e[0] for e in r.terminals()] != ["C"]:
            bad.append(f"terminals {[(e[0], show(e[1])) for e in r.terminals()]} instead of one completion")
    if recs:
        for name, f in case.__dict__.get("fns", {}).items():
            want = exp_calls.get(name, [])
            ncalls += len(f.calls)
            if len(want) != len(f.calls) or not all(same(tuple(x), tuple(y)) for x, y in zip(want, f.calls)):
                bad.append(f"{name} called with {show(f.calls, 200)} instead of {show(want, 200)}")
            if f.max_active > 1:
                bad.append(f"{name}: {f.max_active} overlapping calls of one operator's function")
    zipped = any(o[0] == "zip_seq" for o in c["ops"])
    key = (tuple(r.trace() for r in recs), tuple((n, len(f.calls)) for n, f in case.__dict__.get("fns", {}).items()))
    cnt = {"calls": ncalls, "zipped": int(zipped), "values": sum(len(r.values()) for r in recs), "completions": sum(r.ended for r in recs), "long": int(any(len(v) > 39 for v in [vals] + list(exp_calls.values())))}
    for op in c["ops"]:
        cnt["op:" + op[0]] = 1
    return Out(bad, key, cnt, ncalls > 0, note=show(recs[0].brief() if recs else "", 300))
