"""Writes known-findings.txt: one `finding:` line (suppresses exactly that behaviour, see the module) and the repairs."""
import pathlib, subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
MAP = {  # commit subject -> property
    "the reactivex bridge loses": "C24",
    "skip_last drops elements that are None": "C04", "scan keeps emitting": "C09", "catch leaks": "C10", "retry ignores": "C10",
    "disposed sources keep": "C11", "auto-detach never": "C12", "upstream subscription survives": "C12", "merge_inner leaves": "C12",
    "an inner source that cannot": "C09", "switch_latest never": "C07", "take_until leaves": "C12", "disposing one subscription of delay": "C20",
    "delay loses": "C09", "interval loses": "C09", "of_seq loses": "C09", "of_async_iterable loses": "C09", "a disposed single subject": "C14",
    "a single subject delivers more": "C14", "cancelling one producer": "C14", "async iteration blocks": "C15", "AsyncAwaitableObserver fails": "C19",
    "to_observable raises": "C24", "take(0) waits": "C25", "slice selects": "C04", "distinct_until_changed loses": "C09",
    "catch sends an error": "C01", "catch delivers what": "C11", "disposing an async iterable": "C10", "disposing interval": "C10", "disposing delay": "C10",
    "async iteration hangs": "C15", "a subscription that fails leaves": "C12",
    "unsubscribing from a subject must": "C13", "a producer that gives up": "C15",
    "a value that cannot be converted": "C19", "catch leaves its handler": "C12", "a subscription that is cancelled": "C12",
    "a disposed subscription leaves": "C27", "operators leave a task": "C27", "delay leaves a task": "C27", "delay delivers after": "C12",
    "from_async_iterable keeps": "C27", "a source that is disposed before": "C27", "leaving an async iteration": "C15", "AsyncIteratorObserver forgets": "C27",
}
out = ["finding: property=C22 AsyncTestObserver (aioreactive/testing/observer.py) calls each callback it was given twice, back to back, per "
       "notification: its constructor hands the callbacks to AsyncAwaitableObserver, whose asend/athrow/aclose it also calls"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    p = [v for k, v in MAP.items() if s.startswith(k)]
    assert p, s
    out.append(f"fixed: property={p[0]} {h} {s}")
(ROOT / "known-findings.txt").write_text("\n".join(out) + "\n")
print(len(out))
