"""Runs cases of other checks for C33 in a process of its own (python -O, another hash seed): one JSON line in, one out."""
import json
import os
import sys


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from .props import c33

    print(json.dumps({"optimized": not __debug__, "hash": hash("echo")}), file=out, flush=True)
    for line in sys.stdin:
        c = json.loads(line)
        print(json.dumps(c33.observe(c["m"], c["c"])), file=out, flush=True)


if __name__ == "__main__":
    main()
