"""Run a recorded history again on the current code and judge it."""
import json

import machine, tlc
from ctx import describe


def main(path):
    v = json.load(open(path))
    import checks
    h = checks.replay(v)
    bad, _ = tlc.judge([h])
    bad = [b for b in bad if not b[2].startswith("known ")]
    for _, j, clause in bad:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        print("  " + describe({"clause": clause, "group": v["group"], "history": h[:j + 1]}))
    if not bad:
        print("the recorded history now conforms")
    return 1 if bad else 0
