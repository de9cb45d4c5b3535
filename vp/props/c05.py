"""C05: merging loses, duplicates and reorders nothing."""
from .. import merging

ID = "C05"
RULE = ("random outer/inner timelines (probe and library sources, synchronous and slow subscriptions, errors, ties) merged by "
        "every merging operator, slow observers; delivered values are matched one to one with the issue log; "
        "distinct: operator, issue history and notification trace")
BUDGET = {"quick": (96000, 240), "thorough": (300000, 400)}
REQUIRED = {"values": 1000, "errors": 50, "completions": 500, "long": 5, "many": 5, "many_completed": 20}
KEEP = ("op", "n", "lib", "inner", "out", "beh")


def gen(rng, tier):
    return merging.gen_case(rng, merging.UNB if rng.random() < 0.85 else merging.BND)


def run(c):
    return merging.run_merge(c, ID)
