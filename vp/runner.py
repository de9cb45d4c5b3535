"""Check driver: python -m vp.runner C01 [--tier quick|thorough] [--replay file]

Exit 0: held on everything explored. Exit 1 + VIOLATION line: violated. Exit 3: inconclusive.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


class Out:
    """Outcome of one executed case."""

    __slots__ = ("bad", "key", "cnt", "nontrivial", "note")

    def __init__(self, bad=(), key=None, cnt=None, nontrivial=True, note=None):
        self.bad = list(bad)
        self.key = key
        self.cnt = cnt or {}
        self.nontrivial = nontrivial
        self.note = note


def digest(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def execute(mod, case):
    """Run one case; exceptions out of it count as a violation (calls that must not raise raised)."""
    from . import core

    try:
        core.watchdog(40.0)
        try:
            return mod.run(case)
        finally:
            core.watchdog_off()
    except core.Stuck:
        pass
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return Out([f"unexpected exception {type(ex).__name__}: {ex} ({where})"], key=("exc", type(ex).__name__))
    # a callback did not yield for a long time: decide on a deterministic budget of executed lines
    core.TRACE_LIMIT = 3_000_000
    try:
        try:
            return mod.run(case)
        except core.Stuck:
            return Out(["a callback never yields to the event loop (more than 3,000,000 lines executed)"], key="stuck")
    finally:
        core.TRACE_LIMIT = None


def case_rng(seed, pid, i):
    return random.Random(f"{seed}:{pid}:{i}")


def worker(mod, w, nworkers, seed, tier, outfile):
    from . import clock

    t0 = clock.real_monotonic()
    ncases, cap = mod.BUDGET[tier]
    ncases = int(ncases * float(os.environ.get("VP_SCALE", "1")))  # development only
    res = {"n": 0, "nontrivial": 0, "cnt": {}, "viol": [], "samples": [], "capped": False, "fixed": 0}
    keys = set()
    hist = []

    def one(case, origin):
        out = execute(mod, case)
        res["n"] += 1
        for k, v in out.cnt.items():
            res["cnt"][k] = res["cnt"].get(k, 0) + v
        if out.nontrivial:
            res["nontrivial"] += 1
            keys.add(digest(out.key))
        if len(res["samples"]) < 1 and out.nontrivial and out.note and res["n"] > 3:
            res["samples"].append({"case": case, "observed": out.note})
        if out.bad:
            res["viol"].append({"case": case, "origin": origin, "bad": out.bad})
            return False
        return True

    fixed = mod.fixed(tier) if hasattr(mod, "fixed") else []
    ok = True
    for i, case in enumerate(fixed):
        if i % nworkers != w:
            continue
        res["fixed"] += 1
        if not one(case, ["fixed", i]):
            ok = False
            break
        if clock.real_monotonic() - t0 > cap * 2:
            res["capped"] = True
            break
    if ok:
        for i in range(w, ncases, nworkers):
            if clock.real_monotonic() - t0 > cap:
                res["capped"] = True
                break
            case = mod.gen(case_rng(seed, mod.ID, i), tier)
            if not one(case, ["gen", i]):
                break
    res["keys"] = [k for k in keys]
    with open(outfile, "w") as f:
        json.dump(res, f, default=repr)


def isolated(fn):
    """Run fn in a forked child and return its JSON-able result (None if it died)."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = json.dumps(fn(), default=repr).encode()
        except BaseException:
            traceback.print_exc()
            data = b"null"
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


def category(bad):
    return "".join(ch for ch in bad[0] if ch.isalpha())[: 30 if bad[0].startswith("unexpected exc") else 14] if bad else ""


def shrink(mod, case, cat, budget=250):
    """Greedy structural shrinking of a JSON case that still violates in the same way."""
    spent = [0]

    def fails(c):
        if spent[0] >= budget:
            return False
        spent[0] += 1
        try:
            o = mod.run(c)
        except BaseException:
            return False
        return category(o.bad) == cat

    def variants(x):
        if isinstance(x, list):
            if not any(isinstance(y, str) for y in x[:2]):  # records such as [time, "N", value] stay whole
                for i in range(len(x)):
                    yield x[:i] + x[i + 1:]
            for i in range(len(x)):
                for v in variants(x[i]):
                    yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for k in x:
                if k not in getattr(mod, "KEEP", ()):
                    yield {a: b for a, b in x.items() if a != k}
            for k in x:
                for v in variants(x[k]):
                    yield {**x, k: v}

    improved = True
    while improved and spent[0] < budget:
        improved = False
        for v in variants(case):
            if fails(v):
                case = v
                improved = True
                break
            if spent[0] >= budget:
                break
    return case


def load_known(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line:
                out.append(line)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    sys.dont_write_bytecode = True
    from . import clock

    t0 = clock.real_monotonic()
    try:
        mod = importlib.import_module(f"vp.props.{a.prop.lower()}")
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={a.prop}: the harness could not be loaded")
        return 3

    if a.replay:
        rp = json.load(open(a.replay))
        if rp.get("case") is not None:
            out = execute(mod, rp["case"])
            for b in out.bad:
                print("  " + b)
            if out.note:
                print("  observed:", out.note)
            if out.bad:
                print(f"VIOLATION property={mod.ID} replay={a.replay}")
                return 1
            return 0
        a.seed, tier = rp["seed"], rp["tier"]

    os.makedirs(EVID, exist_ok=True)
    nw = a.workers or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="vp-")
    pids = []
    for w in range(nw):
        f = os.path.join(tmp, f"{w}.json")
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, w, nw, a.seed, tier, f)
            except BaseException:
                traceback.print_exc()
                code = 4
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids.append(pid)
    died = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            died += 1
    tot = {"n": 0, "nontrivial": 0, "cnt": {}, "viol": [], "samples": [], "fixed": 0, "capped": 0}
    keys = set()
    for w in range(nw):
        f = os.path.join(tmp, f"{w}.json")
        if not os.path.exists(f):
            continue
        r = json.load(open(f))
        tot["n"] += r["n"]
        tot["nontrivial"] += r["nontrivial"]
        tot["fixed"] += r["fixed"]
        tot["capped"] += bool(r["capped"])
        tot["viol"] += r["viol"]
        tot["samples"] += r["samples"]
        keys.update(r["keys"])
        for k, v in r["cnt"].items():
            tot["cnt"][k] = tot["cnt"].get(k, 0) + v
    shutil.rmtree(tmp, ignore_errors=True)

    viol = None
    if tot["viol"]:
        tot["viol"].sort(key=lambda v: len(json.dumps(v["case"], default=repr)))
        v = tot["viol"][0]
        again = isolated(lambda: execute(mod, v["case"]).bad)
        rp = {"property": mod.ID, "seed": a.seed, "tier": tier, "bad": v["bad"], "case": None}
        if again:
            small = isolated(lambda: shrink(mod, v["case"], category(again))) if not any("yield" in b for b in again) else None
            case = small if small is not None else v["case"]
            bad = isolated(lambda: execute(mod, case).bad) or again
            rp["case"], rp["bad"], rp["original"] = case, bad, v["case"]
        else:
            rp["note"] = "reproduces only after earlier cases in one process: replay reruns the whole seeded workload"
            rp["origin"] = v["origin"]
        path = os.path.join(EVID, f"replay-{mod.ID}.json")
        with open(path, "w") as f:
            json.dump(rp, f, indent=1, default=repr)
        viol = (path, rp["bad"])

    wall = clock.real_monotonic() - t0
    cov = {
        "evaluations": tot["n"],
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": tot["samples"][:3],
        "enumerated_cases": tot["fixed"],
        "nontrivial_executions": tot["nontrivial"],
        "observed": dict(sorted(tot["cnt"].items())),
        "workers_stopped_by_time_cap": tot["capped"],
    }
    ev = {
        "property": mod.ID, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov, "wall_s": round(wall, 3), "violations": len(tot["viol"]),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "verdicts cover the executions produced by this workload only",
            "single asyncio thread; ready callbacks run first in, first out, as asyncio guarantees",
        ],
    }
    with open(os.path.join(EVID, f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{mod.ID} {tier} seed={a.seed}: {tot['n']} executions ({tot['fixed']} enumerated), "
          f"{len(keys)} distinct traces, {wall:.1f}s")
    if a.verbose:
        print(json.dumps(cov["observed"], indent=1))
    for k in load_known(mod.ID):
        print("KNOWN-FINDING: " + k[len("finding:"):].strip())
    if viol:
        for b in viol[1][:5]:
            print("  " + str(b))
        print(f"VIOLATION property={mod.ID} replay={os.path.relpath(viol[0], HERE)}")
        return 1
    need = getattr(mod, "REQUIRED", {})
    missing = [k for k, n in need.items() if tot["cnt"].get(k, 0) < n]
    if died or missing or len(keys) < getattr(mod, "MIN_DISTINCT", 20):
        print(f"INCONCLUSIVE property={mod.ID}: died={died} missing={missing} distinct={len(keys)}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
