"""C06: bounded merge and concat respect concurrency and order."""
from .. import merging

ID = "C06"
RULE = ("random timelines through merge_inner(n), concat, concat_seq and concat_map; live inner subscriptions are counted after "
        "every loop step, free slots are checked before time advances; distinct: operator, issue history and trace")
BUDGET = {"quick": (80000, 240), "thorough": (300000, 400)}
REQUIRED = {"values": 1000, "slots_full": 500, "had_to_wait": 500, "completions": 500, "long": 5, "many": 5}
KEEP = ("op", "n", "lib", "inner", "out", "beh")


def gen(rng, tier):
    return merging.gen_case(rng, merging.BND)


def run(c):
    return merging.run_merge(c, ID)
