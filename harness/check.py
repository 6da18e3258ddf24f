"""Decide one property: python -m harness.check <property>

Exit 0: held on everything explored; 1: violated (and a VIOLATION line);
2: the check itself failed."""
import json
import os
import random
import sys
import time
import traceback

from . import model, tlc
from .gen import Gen
from .scripts import SCRIPTS
from .session import Watchdog, redo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property -> tier -> (identity shares, damage identity shares, damage text shares, random sessions, big domain)
TUNE = {
    "C01": {"quick": (4, 1, 1, 2500), "thorough": (1, 1, 1, 60000)},
    "C02": {"quick": (4, 1, 1, 5000), "thorough": (1, 1, 1, 90000)},
    "C03": {"quick": (4, 1, 1, 2500), "thorough": (1, 1, 1, 60000)},
    "C04": {"quick": (4, 1, 1, 2000), "thorough": (1, 1, 1, 60000)},
    "C05": {"quick": (8, 1, 1, 2000), "thorough": (1, 1, 1, 50000)},
    "C06": {"quick": (4, 100, 10, 2000), "thorough": (1, 40, 4, 50000)},
    "C07": {"quick": (4, 100, 10, 4000), "thorough": (1, 40, 4, 90000)},
    "C08": {"quick": (4, 100, 10, 2500), "thorough": (1, 40, 4, 60000)},
    "C09": {"quick": (4, 1, 1, 3000), "thorough": (1, 1, 1, 90000)},
    "C10": {"quick": (8, 100, 20, 3000), "thorough": (2, 40, 8, 90000)},
    "C11": {"quick": (8, 100, 10, 1500), "thorough": (2, 40, 4, 40000)},
    "C12": {"quick": (8, 100, 80, 1500), "thorough": (2, 40, 10, 30000)},
    "C13": {"quick": (4, 100, 10, 3000), "thorough": (1, 40, 4, 60000)},
    "C15": {"quick": (4, 100, 1, 2500), "thorough": (1, 40, 1, 60000)},
    "C16": {"quick": (4, 100, 10, 2500), "thorough": (1, 40, 4, 60000)},
    "C18": {"quick": (12, 1, 1, 2500), "thorough": (2, 1, 1, 40000)},
    "C19": {"quick": (60, 1, 1, 2000), "thorough": (8, 1, 1, 40000)},
    "C17": {"quick": (4, 100, 10, 3000), "thorough": (1, 40, 4, 80000)},
}

# how far short identities are varied in the quick tier; thorough: all
SWEEP = {"C06": "all", "C07": "all", "C08": "all", "C15": "all", "C16": "all", "C10": "tokens", "C11": "tokens", "C12": "tokens"}


def needed(events, i):
    """the events that event i (from 0) refers to, renumbered"""
    keep, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k not in keep:
            keep.add(k)
            todo += [h - 1 for h in events[k]["h"]]
    order = sorted(keep)
    number = {k: j + 1 for j, k in enumerate(order)}
    return [dict(events[k], h=[number[h - 1] for h in events[k]["h"]]) for k in order]


def report(prop, events, i, clause, what):
    """write the replay file of a rejected event"""
    small = needed(events, i)
    again = redo(small)
    same = len(again) == len(small) and bool(tlc.validate(prop, [again])[0])
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, os.getpid()))
    with open(path, "w") as fh:
        json.dump({"property": prop, "clause": clause, "reproduces_alone": same, "context": what,
                   "events": small if same else events[:i + 1]}, fh, indent=1, ensure_ascii=True)
    e = small[-1]
    print("%s: %s" % (prop, clause))
    for x in small:
        print("  " + shown(x))
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
    sys.stdout.flush()
    return e


def shown(e):
    args = ", ".join([ascii(x) for x in e["a"]] + [str(x) for x in e["n"]] +
                     (["%s/%s" % (e["cs"], e["f"])] if e["cs"] else []) + ["#%d" % h for h in e["h"]])
    res = ascii(e["r"]) + (" as " + e["rc"] if e["rc"] else "") if e["k"] == "ok" else "raised " + e["x"]
    return "%s%s(%s) -> %s" % (e["c"] + "." if e["c"] else "", e["o"], args, res)


def timed(it):
    """the sessions, each made under a watchdog"""
    it = iter(it)
    while True:
        with Watchdog():
            try:
                s = next(it)
            except StopIteration:
                return
        if len(s):
            yield s


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = 0
        self.traces = self.judged = self.decided = 0
        self.behaviours = 0
        self.taken = "calls_taken_from_model"
        self.rejected = []
        self.samples = []
        self.distinct = set()
        self.assumptions = [
            "the specification in spec/ states what epcpy is to do; it is itself checked by TLC against the property",
            "TLC, its Json/CSV modules and the Python recorder are trusted",
        ]

    def validate(self, sessions, what):
        ss = [s.ev for s in sessions]
        if not ss:
            return
        rej, j, d, _, _ = tlc.validate(self.prop, ss)
        self.traces += len(ss)
        self.judged += j
        self.decided += d
        last = {a: b for a, b, _ in rej}    # the rest of a rejected session is not judged
        for i, s in enumerate(ss):
            for e in s[:last.get(i, len(s)) + 1]:
                self.distinct.add(hash((e["o"], e["c"], e["cs"], e["f"], tuple(e["a"]), tuple(e["n"]), tuple(e["h"]) and s[e["h"][0] - 1]["r"])))
        r = random.Random(self.seed)
        for s in r.sample(ss, min(2, len(ss))):
            self.samples.append({"from": what, "calls": [shown(e)[:300] for e in s[:6]]})
        for a, b, c in rej:
            if c.startswith("script:"):
                raise RuntimeError("inconsistent script: %s %s" % (c, [shown(e) for e in needed(ss[a], b)]))
            self.rejected.append((ss[a], b, c, what))

    def model(self):
        kinds, inv, dmg = model.CONFIG[self.prop]
        sh, dsh, dts, _ = TUNE[self.prop][self.tier]
        big = self.tier == "thorough"
        for damage, ks, n in ((False, kinds, sh), (True, dmg, dsh)):
            if not ks:
                continue
            recs, st, tr = model.explore(self.prop, ks, inv, damage, big and not damage, 1 + self.seed % n, n, dts,
                                        "no" if not damage else "all" if big else SWEEP.get(self.prop, "no"))
            if damage:
                recs = [x for x in recs if x["o"] == "bad"]
            self.states += st
            self.transitions += tr
            self.behaviours += len(recs)
            g = Gen(self.seed, self.prop + "model")
            self.validate(list(timed(model.sessions(self.prop, recs, g))),
                          "replay of damaged texts" if damage else "replay of model behaviours")

    def random(self):
        n = TUNE[self.prop][self.tier][3]
        g = Gen(self.seed, self.prop)
        part = []
        for s in timed(SCRIPTS[self.prop](g, n)):
            part.append(s)
            if len(part) >= 20000:
                self.validate(part, "recorded trace")
                part = []
        self.validate(part, "recorded trace")

    def go(self):
        self.model()
        self.random()

    def evidence(self, wall):
        return {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                self.taken: self.behaviours,
                "evaluations": self.judged, "events_constrained": self.decided,
                "distinct_nontrivial": len(self.distinct),
                "rule": "states and transitions are those of the model, without the steps of trace validation; an evaluation "
                        "is one recorded library call judged by TLC; distinct ones differ in operation, arguments or "
                        "instance; events_constrained counts evaluations about which the property says something",
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2), "violations": len(self.rejected),
        }


def main(prop):
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    if prop == "C14":
        from .history import HistoryRun
        run = HistoryRun(prop, tier, seed)
    else:
        run = Run(prop, tier, seed)
    run.go()
    if not run.decided:
        raise RuntimeError("nothing was decided")
    if run.rejected:
        clauses = {}
        for x in run.rejected:
            clauses.setdefault(x[2], x)
        x = min(run.rejected, key=lambda x: len(x[0][x[1]]["a"][0]) if x[0][x[1]]["a"] else 0)
        print("%d events rejected: %s" % (len(run.rejected), sorted(clauses)))
        run.report(x) if hasattr(run, "report") else report(prop, *x)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump(run.evidence(time.time() - t0), fh, indent=1, ensure_ascii=True)
    if not run.rejected:
        print("%s held: %d states, %d traces, %d calls judged, %d constrained, %.1f s" % (
            prop, run.states, run.traces, run.judged, run.decided, time.time() - t0))
    return 1 if run.rejected else 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.exit(code)
