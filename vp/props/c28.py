"""C28: nothing fails behind the scenes, and garbage collection changes nothing."""
import gc
import importlib
import json
import os
import sys
import traceback
import warnings

from .. import core
from ..kit import show
from ..runner import Out

ID = "C28"
RULE = ("the workloads of all the other checks (pipelines of every operator and source, subjects, async iteration, run, reactivex, with failing functions "
        "and sources, slow, raising and disposing observers, disposal, cancellation and time-outs at any moment) run under a monitor of what reaches "
        "the event loops' exception handlers, of tasks and futures destroyed with an exception nobody retrieved or still pending, and of coroutines "
        "never awaited, with a full garbage collection after each case; in a part of the cases also whenever nothing is ready, where the "
        "verdict of the workload's own oracle has to be the same as without; distinct: workload and its own notion of distinct")
BUDGET = {"quick": (72000, 240), "thorough": (300000, 500)}
# what the cases of a module contain, beside the library: C22's tools are test code, an iteration in C23 may be abandoned without being disposed
MODS = {"c01": 6, "c02": 3, "c03": 1, "c04": 1, "c05": 4, "c06": 3, "c07": 4, "c08": 4, "c09": 3, "c10": 4, "c11": 6, "c12": 10, "c13": 3, "c14": 5, "c15": 8, "c16": 3, "c17": 3,
        "c18": 3, "c19": 8, "c20": 3, "c24": 5, "c25": 3, "c26": 2, "c27": 2, "c29": 2, "c31": 5, "c32": 2}
REQUIRED = {"collected": 50000, "at_rest": 50000, "gc_cases": 5000, "expected": 200} | {"of:" + m: 300 for m in MODS}
KEEP = ("m", "c", "gc", "pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "how", "at", "mode", "op", "lib", "out", "beh", "prod", "prods", "sub", "subs", "disp",
        "kind", "acts", "rec", "h", "per", "node", "srcs", "k", "boom", "chains", "others", "a", "b")
NAMES = [m for m, w in MODS.items() for _ in range(w)]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = {}
warned = []
frozen = False


def module(name):
    if name not in mods:
        mods[name] = importlib.import_module("vp.props." + name)
    return mods[name]


def gen(rng, tier):
    m = rng.choice(NAMES)
    while True:
        c = module(m).gen(rng, tier)
        if m == "c23" and c.get("kind") == "iter":
            continue
        break
    return {"m": m, "c": c, "gc": rng.random() < 0.12}


def expected(e):
    """Raised by the terminal handler of an observer of the harness, which has nobody else to tell."""
    return e is not None and e.args[:1] == ("obs-terminal",)


def of_library(w):
    """Not a workflow of the harness, which an of_async that never started has not awaited."""
    name = w.split("'")[1] if "'" in w else ""
    head = name.split(".")[0]
    return not name.startswith("run.<locals>") and any(hasattr(m, head) for n, m in list(sys.modules.items()) if n.split(".")[0] in ("aioreactive", "expression"))


def describe(ctx):
    e = ctx.get("exception")
    t = ctx.get("task") or ctx.get("future")
    co = getattr(getattr(t, "get_coro", lambda: None)(), "__qualname__", "") if t is not None else ""
    where = ""
    if e is not None and e.__traceback__ is not None:
        f = traceback.extract_tb(e.__traceback__)[-1]
        where = f" at {f.filename.rsplit('/', 1)[-1]}:{f.name}"
    return f"{ctx.get('message')} {type(e).__name__ if e is not None else ''} {show(e, 60) if e is not None else ''}{where} {co}".strip()


def watched(c, collect):
    """Run the case of the other check and return what was reported meanwhile."""
    mod = module(c["m"])
    seen = {"rest": 0}
    core.REPORTS = rep = []
    warned.clear()

    def at_rest(loop):
        seen["rest"] += 1
        if collect and seen["rest"] < 60:
            gc.collect()

    core.AT_REST = at_rest
    try:
        out = mod.run(json.loads(json.dumps(c["c"])))
    finally:
        core.AT_REST = None
    bad = list(out.bad or [])
    dist = out.key
    cnt = out.cnt
    del out, mod
    gc.collect()
    core.REPORTS = None
    hits, exp = [], 0
    for ctx in rep:
        t = ctx.get("task") or ctx.get("future")
        if getattr(t, "vp_cleaned", False):
            continue
        co = getattr(t, "get_coro", lambda: None)()
        if HERE in getattr(getattr(co, "cr_code", None), "co_filename", ""):
            continue  # a task of the harness: whoever started it has been told, or has left it on purpose
        if expected(ctx.get("exception")):
            exp += 1
            continue
        hits.append(describe(ctx))
    hits += [w for w in warned if "never awaited" in w and of_library(w)]
    return hits, exp, bad, dist, seen["rest"], cnt


def run(c):
    global frozen
    if not frozen:
        for m in MODS:
            module(m)
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        warnings.simplefilter("always", RuntimeWarning)
        warnings.showwarning = lambda m, *a, **k: warned.append(str(m))
        gc.collect()
        gc.freeze()
        frozen = True
    hits, exp, own, dist, rest, cnt0 = watched(c, False)
    cnt = {"collected": 1, "at_rest": rest, "of:" + c["m"]: 1, "expected": exp, "gc_cases": 0}
    bad = [f"in the background: {h}" for h in hits[:3]]
    if c.get("gc") and not bad and not own:
        hits, _, own2, dist2, rest, _ = watched(c, True)
        cnt["gc_cases"] += 1
        cnt["at_rest"] += rest
        if hits:
            bad = [f"with garbage collections, in the background: {h}" for h in hits[:3]]
        elif own2:
            bad = [f"fails only with garbage collections: {own2[0]}"]
    return Out(bad, (c["m"], dist), cnt, True, note=show([c["m"], rest, exp], 200))
