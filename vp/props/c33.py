"""C33: diagnostics settings change nothing."""
import importlib
import json
import logging
import os
import subprocess
import sys

from .. import core
from ..kit import show
from ..runner import Out

ID = "C33"
RULE = ("the workloads of other checks run a second time with debug logging on (every record of the library is formatted) and asyncio's debug mode, or in an interpreter "
        "with assertions off (-O) and another hash seed; the complete traces and the verdicts of the workloads' own oracles must be the same; "
        "distinct: workload, setting and trace")
BUDGET = {"quick": (40000, 240), "thorough": (200000, 500)}
MODS = {"c01": 5, "c02": 2, "c03": 2, "c04": 1, "c05": 3, "c06": 2, "c07": 3, "c10": 3, "c11": 5, "c12": 5, "c13": 2, "c14": 3, "c15": 4, "c16": 2, "c17": 2,
        "c18": 2, "c19": 4, "c20": 3, "c24": 3, "c25": 2, "c26": 1, "c29": 2, "c30": 2, "c31": 3, "c32": 3}
NAMES = [m for m, w in MODS.items() for _ in range(w)]
REQUIRED = {"compared": 35000, "set:log": 10000, "set:debug": 5000, "set:optimized": 10000, "records": 100000, "steps": 500000} | {"of:" + m: 200 for m in MODS}
KEEP = ("m", "c", "set", "pipe", "src", "ops", "ev", "n", "d", "inner", "other", "handler", "s", "p", "v", "how", "at", "mode", "op", "lib", "out", "beh", "prod", "prods", "sub", "subs", "disp",
        "kind", "acts", "rec", "h", "per", "node", "srcs", "k", "boom", "chains", "others", "a", "b", "plan", "last", "odd", "cuts", "kinds")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
mods = {}
child = None
records = 0


def module(name):
    if name not in mods:
        mods[name] = importlib.import_module("vp.props." + name)
    return mods[name]


def gen(rng, tier):
    m = rng.choice(NAMES)
    return {"m": m, "c": module(m).gen(rng, tier), "set": rng.choice(["log", "log", "debug", "optimized", "optimized"])}


class Format(logging.Handler):
    def emit(self, record):
        global records
        records += 1
        try:
            self.format(record)
        except Exception:  # as Handler.handleError does, but silently
            pass


HANDLER = Format()


def observe(m, c, how=None):
    """What the case shows: the verdict of its own oracle and everything it calls its trace."""
    log = logging.getLogger("aioreactive")
    if how in ("log", "debug"):
        logging.disable(logging.NOTSET)
        logging.getLogger("asyncio").disabled = True
        log.setLevel(logging.DEBUG)
        log.propagate = False
        log.addHandler(HANDLER)
    core.DEBUG = how == "debug"
    try:
        out = module(m).run(json.loads(json.dumps(c)))
        return [len(out.bad), repr((out.key, sorted(out.cnt.items()), out.note))]
    except core.Stuck:
        raise
    except Exception as ex:
        return [1, f"{type(ex).__name__}: {ex}"]
    finally:
        core.DEBUG = False
        if how in ("log", "debug"):
            log.removeHandler(HANDLER)
            logging.disable(logging.CRITICAL)


def elsewhere(m, c):
    global child
    if child is None or child[0] != os.getpid():
        p = subprocess.Popen([sys.executable, "-O", "-B", "-W", "ignore", "-m", "vp.echo"], cwd=HERE, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                             env={**os.environ, "PYTHONHASHSEED": "4711"})
        hello = json.loads(p.stdout.readline())
        assert hello["optimized"] and hello["hash"] != hash("echo")
        child = (os.getpid(), p)
    p = child[1]
    p.stdin.write(json.dumps({"m": m, "c": c}) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def run(c):
    cnt = dict.fromkeys(["compared", "records", "steps", "unstable"], 0)
    how = c.get("set", "log")
    n = records
    a = observe(c["m"], c["c"])
    b = elsewhere(c["m"], c["c"]) if how == "optimized" else observe(c["m"], c["c"], how)
    bad = []
    if a != b:
        a2 = observe(c["m"], c["c"])
        if a2 != a:
            cnt["unstable"] = 1
        else:
            k = next((k for k, (x, y) in enumerate(zip(a[1], b[1])) if x != y), 0)
            bad.append(f"with {how}: ...{b[1][max(k - 60, 0): k + 80]} ({b[0]} complaints); otherwise ...{a[1][max(k - 60, 0): k + 80]} ({a[0]} complaints)")
    if not cnt["unstable"]:
        cnt["compared"] = 1
    cnt["records"] = records - n
    cnt["steps"] = len(a[1]) // 8
    cnt["set:" + how] = 1
    cnt["of:" + c["m"]] = 1
    return Out(bad, (c["m"], how, a[1]), cnt, True, note=show([c["m"], how, a[1]], 200))
