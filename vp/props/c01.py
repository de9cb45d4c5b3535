"""C01: observers see values, then at most one terminal, and nothing after it."""
from .. import core, gens, pipes
from ..core import run_case
from ..gens import rerr, rlat, rpause
from ..kit import Case, Rec, Stage, show
from ..runner import Out

ID = "C01"
RULE = ("random pipelines over all sources and operators (nested up to two levels), observers that are slow, raise in any handler or dispose, user "
        "functions that raise, sources that keep emitting after their terminal and after dispose in front of guarding operators, subjects "
        "fed by concurrent tasks; a grammar "
        "automaton watches the observer and every boundary between two stages, per subscription; distinct: operators and observed trace")
BUDGET = {"quick": (88000, 240), "thorough": (400000, 500)}
REQUIRED = {"boundary_events": 20000, "terminals": 5000, "errors": 2000, "rude": 2000, "observer_raised": 500, "function_raised": 300,
            "extra_issued": 1000, "hub_overlaps": 800} | {"op:" + x: 100 for x in gens.GUARDED + ("catch", "retry", "delay", "slice", "scan", "map")}
KEEP = ("pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v")
OPTS = {"many": 0.01, "rude": 0.3, "hub": 0.08, "boom": 0.25, "once": True}


def gen(rng, tier):
    beh = {"lat": rlat(rng), "tlat": rpause(rng, 0.3)}
    if rng.random() < 0.25:
        beh["raise"] = {str(rng.randrange(4)): rerr(rng)}
    if rng.random() < 0.15:
        beh["traise"] = True
    if rng.random() < 0.15:
        beh["dispose"] = rng.choice([0, 1, 2, "T"])
    return {"pipe": gens.any_pipe(rng, OPTS, rng.choice([0, 1, 1, 2])), "beh": beh, "how": rng.randrange(3)}


def setup(case, c):
    """Build with a watched boundary after every stage (never behind a source that may misbehave on purpose)."""
    def stage(o, name, spec):
        if spec[0] == "probe":
            return o
        return Stage(case, o, name)

    return pipes.build(case, c["pipe"], "p", {"stage": stage})


def drive(c, horizon=12.0):
    case = Case()
    r = Rec(case, "observer", c.get("beh"), grammar=False, overlap=False)

    async def main():
        await r.subscribe(setup(case, c), c.get("how", 0))

    res = run_case(main, horizon=core.T0 + horizon, max_ticks=40000)
    return case, r, res


def counters(c, case, r):
    cnt = {"boundary_events": len(r.events) + sum(s.n for s in case.__dict__.get("stages", [])), "terminals": len(r.terminals()),
           "errors": sum(e[0] == "E" for e in r.events), "rude": int("rude" in str(c["pipe"])), "observer_raised": len(r.raised),
           "function_raised": len(case.__dict__.get("booms", [])), "extra_issued": 0,
           "hub_overlaps": case.__dict__.get("hubstat", {}).get("overlap", 0)}
    for p in case.__dict__.get("probes", []):
        ended = set()
        for q in p.issues:
            if q[4] in ended:
                cnt["extra_issued"] += 1
            elif q[2] != "N":
                ended.add(q[4])
    for x in set(gens.op_names(c["pipe"])):
        cnt["op:" + x] = 1
    return cnt


def run(c):
    case, r, res = drive(c)
    bad = []
    kinds = r.kinds()
    k = min((i for i, x in enumerate(kinds) if x != "N"), default=len(kinds))
    if len(kinds) > k + 1:
        bad.append(f"the observer got {r.brief()}: something after the terminal")
    bad += case.__dict__.get("gbad", [])[:2]
    if res.status == "livelock":
        bad.append("the pipeline does not come to rest")
    return Out(bad, (tuple(gens.op_names(c["pipe"])), r.trace()), counters(c, case, r), True, note=r.brief())
