"""Does the binding notice wrong records?  python -m harness.selftest [property ...]

Records sessions of a property from the library, then alters one field of one
event at a time (a character of a result, the class of a result, success into
failure, failure into success, the class of an exception) and has TLC judge
both.  The unaltered sessions must be accepted.  An altered one need not be
rejected, since a property constrains only some calls and some fields; the
numbers say how many were, and every property must reject some."""
import copy
import os
import random
import sys

from . import tlc
from .check import timed
from .gen import Gen
from .scripts import SCRIPTS


def alterations(e, r):
    """names and altered copies of an event"""
    out = []

    def alter(name, **kw):
        d = copy.deepcopy(e)
        d.update(kw)
        out.append((name, d))
    if e["k"] == "ok":
        if e["r"]:
            if e["o"] in ("eq", "ne", "eqx", "nex"):
                alter("result", r="0" if e["r"] == "1" else "1")
            else:
                i = r.randrange(len(e["r"]))
                alter("result", r=e["r"][:i] + ("1" if e["r"][i] == "0" else "0") + e["r"][i + 1:])
                alter("cut", r=e["r"][:-1])
        if e["rc"]:
            alter("class", rc="SGTIN" if e["rc"] != "SGTIN" else "SGLN")
        alter("failed", k="exc", x="ConvertException", r="", rc="")
    else:
        alter("exception", x="ValueError" if e["x"] == "ConvertException" else "ConvertException")
        alter("succeeded", k="ok", x="", r="urn:epc:id:sgtin:0614141.112345.6789", rc="SGTIN")
    return out


def run(prop, seed, n):
    g = Gen(seed, prop + "selftest")
    r = random.Random("%s %d" % (prop, seed))
    good = [s.ev for s in timed(SCRIPTS[prop](g, n))]
    wrong, kinds = [], []
    for ev in good:
        i = r.randrange(len(ev))
        for name, d in alterations(ev[i], r):
            wrong.append(ev[:i] + [d] + ev[i + 1:])
            kinds.append(name)
    bad = [x for x in tlc.validate(prop, good)[0]]
    hit = {a for a, _, c in tlc.validate(prop, wrong)[0]}
    rates = {k: (sum(1 for j in hit if kinds[j] == k), kinds.count(k)) for k in sorted(set(kinds))}
    print("%s: %d sessions, %d rejected unaltered; altered and rejected: %s" % (
        prop, len(good), len(bad), ", ".join("%s %d/%d" % (k, a, b) for k, (a, b) in rates.items())))
    sys.stdout.flush()
    return not bad and bool(hit)


def main(props):
    seed = int(os.environ.get("VERIF_SEED") or "1")
    ok = [run(p, seed, 400) for p in props or sorted(SCRIPTS)]
    return 0 if all(ok) else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
