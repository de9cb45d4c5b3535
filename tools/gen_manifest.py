"""Writes /verif/MANIFEST.json from the property modules present."""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "online grammar monitor on observers of random pipelines, with misbehaving sources and injected failures",
    "C02": "online re-entrancy monitor on slow observers under concurrent producers; issue order vs delivery order",
    "C03": "differential monitoring of traces and user-function call logs against the list computation",
    "C04": "differential monitoring against Python slicing, enumerated small bounds plus random",
    "C05": "offline conservation/order/completion checker over recorded issue and delivery logs",
    "C06": "online concurrency-limit monitor on instrumented inner sources plus order checker",
    "C07": "offline checker of switch histories: forwarded and withheld values against the issue log",
    "C08": "offline pairing checker over recorded two-input histories",
    "C09": "fault injection at every call index of every operator and source; exactly-once error monitor by identity",
    "C10": "fault injection over scripted subscriptions; continuation model and disposal-order monitor",
    "C11": "disposal injected at every loop step; monitor of notifications after dispose",
    "C12": "resource-leak monitor on instrumented upstream subscriptions at every quiescent instant",
    "C13": "offline checker of subject histories against a sequential model, operations nested in handlers",
    "C14": "offline checker of single-subject histories against a waiting-queue model",
    "C15": "hand-over monitor: yields vs issued values, sends returned vs steps taken, consumer time-outs injected",
    "C16": "differential monitoring of every source constructor, input-use counters per subscription",
    "C17": "exact virtual-time timeline monitor",
    "C18": "timeline monitor judging every emission and every drop",
    "C19": "outcome, callback and leak monitor of run/awaitable observers with time-outs and cancellations injected",
    "C20": "differential monitoring: trace of each subscription alone vs together with disturbed siblings",
    "C21": "trace checker of the virtual-time loop under random timer programs",
    "C22": "trace comparison of the recording observer and scheduling subjects with an independent log",
    "C23": "differential monitoring of method vs function forms",
    "C24": "trace comparison across the reactivex bridge, disposal injected at every loop step, loop-error sanitizer",
    "C25": "promptness monitor: instant of the terminal on hot sources",
    "C26": "back-pressure monitor: send return vs handler exit",
    "C27": "leak and work monitor: objects known to the garbage collector, container slots, tasks, call depth and executed lines over repeated subscriptions and long streams",
    "C28": "meta-monitor over the workloads of all other checks: loop exception handler, task and future exceptions, pending-destroyed tasks, un-awaited coroutines, collection at every step",
    "C29": "timeline monitor on a virtual clock: every delivery against the instant its cause was issued (list model of every prefix, unique values)",
    "C30": "differential monitor: traces on successive event loops (virtual and asyncio's own, debug mode, any clock) against a fresh pipeline; event log of the build",
    "C31": "cancellation injection at every kind of step of a send; offline checker against a list model with lossy sends and against a replay of what got through",
    "C32": "differential monitor: timed trace with adapters inserted at random stages against the trace without; identity and equality monitor on every notification seen",
    "C33": "differential monitor: full traces with debug logging and debug mode on, and in an interpreter with -O and another hash seed, against the normal ones",
}
FAULT = {"C09", "C10", "C11", "C12", "C24"}
have = sorted(p.stem.upper() for p in (ROOT / "vp/props").glob("c[0-9][0-9].py"))
props = [json.loads(x)["id"] for x in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = []
for p in props:
    if p not in have:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "runtime monitoring: " + TECH[p],
        "level": "fault_enumeration" if p in FAULT else "exploration",
        "level_note": "The real code of /repo is executed on a deterministic virtual-time loop under generated workloads; the verdict covers "
                      "the executions observed (counted in the evidence file), not all of them. Trusted: the harness loop keeps asyncio's "
                      "FIFO order, CPython, the expression library.",
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import vp.runner, vp.core\"",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check still being built"} for p in props if p not in have],
    "notes": "No hooks in /repo are needed: all observation points are public interfaces (observers, observables, subscriptions, the event loop).",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in m["not_applicable"]])
