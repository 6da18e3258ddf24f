"""python -m harness.replay <file>: exit 1 if the recorded violation still happens"""
import json
import sys

from . import check, tlc
from .session import redo


def main(path):
    with open(path) as fh:
        d = json.load(fh)
    if d["property"] == "C14":
        from .history import Client, event, pristine
        hist = [[(c[0], c[1], c[2], tuple(c[3]), tuple(c[4]), c[5], c[6]) for c in h] for h in d["histories"]]
        c = d["call"]
        call = (c[0], c[1], c[2], tuple(c[3]), tuple(c[4]), c[5], c[6])
        ev = [event(call, pristine([call])[0])]
        ev += [event(x, out) for x, out in Client().run(hist + [[call]]) if x == call]
    else:
        ev = redo(d["events"])
    for e in ev:
        print("  " + check.shown(e))
    rej = tlc.validate(d["property"], [ev])[0]
    for _, i, clause in rej:
        print("%s violated by call %d: %s" % (d["property"], i + 1, clause))
    return 1 if rej else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
