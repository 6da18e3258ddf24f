"""C14: the outcome of a call is a function of the call.

Histories come from TLC's simulation of spec/History.tla and from the scripts
of the other properties.  Every distinct call is made once in a process of
its own, forked before the library was used, which gives the reference; then
the histories are run back to back, in other orders, on shared instances in
several threads, and with a second call let in at arbitrary lines of the
first.  All observations of one call form a session that starts with the
reference; the specification requires them to agree."""
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import time

from . import api, check, gen, scripts, tlc
from .session import INST_OPS, Session, Watchdog

TUNE = {"quick": dict(histories=120, calls=50, few=2, script=260, pairs=260, cuts=10, threads=6, rounds=2),
        "thorough": dict(histories=1500, calls=80, few=3, script=4000, pairs=4000, cuts=25, threads=8, rounds=6)}
PARTS = 6       # processes at a time


def text(cps):
    return "".join(map(chr, cps))


def simulate(seed, n, calls):
    """histories visited by TLC: lists of calls (op, class, uri, args, ints, coding scheme, filter)"""
    d = tempfile.mkdtemp(prefix="verif-hist-")
    try:
        out = os.path.join(d, "hist.ndjson")
        open(out, "w").close()
        cfg = "SPECIFICATION Spec\nINVARIANT PoolSane\nPROPERTY Untouched\nCONSTANTS\n  MaxCalls = %d\n  Simulating = %s\n  Few = %s\n"
        if n:
            rc, log = tlc.run("History", cfg % (calls, "TRUE", "FALSE"), {"MODEL_OUT": out}, workers=1,
                              args=["-simulate", "num=%d" % n, "-depth", str(calls + 2), "-seed", str(seed)])
            states = [int(x) for x in __import__("re").findall(r"The number of states generated: (\d+)", log)]
            st = tr = states[-1] if states else 0
        else:
            rc, log = tlc.run("History", cfg % (calls, "FALSE", "TRUE"), {"MODEL_OUT": out})
            st, tr = tlc.stats(log)
        if rc != 0 or not st:
            raise tlc.TLCError("history model failed (exit %d)\n%s" % (rc, tlc.trouble(log)))
        hs = set()
        with open(out) as fh:
            for x in fh:
                hs.add(x)
        return [[(e["o"], e["c"], text(e["u"]), tuple(map(text, e["a"])), tuple(e["n"]), e["cs"], e["f"])
                 for e in json.loads(json.loads(x))] for x in sorted(hs)], st, tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def of_session(S):
    """the calls of a recorded session"""
    out = []
    for e in S.ev:
        if e["o"] in ("eq", "ne", "eqx", "nex"):
            continue
        u = S.ev[e["h"][0] - 1]["r"] if e["o"] in INST_OPS else ""
        out.append((e["o"], e["c"], u, tuple(e["a"]), tuple(e["n"]), e["cs"], e["f"]))
    return out


class Client:
    """a process that uses the library: keeps instances by class and URI at birth"""

    def __init__(self, rnd=None):
        self.pool = {}
        self.seen = []      # (call, outcome)
        self.rnd = rnd
        self.latest = None

    def instance(self, c, u):
        have = self.pool.get((c, u))
        if have:
            return have[-1] if self.rnd is None else self.rnd.choice(have)
        v = api.outcome("new", c, a=(u,))
        if v[0] == "ok" and v[3] == c:
            self.pool[c, u] = [v[4]]
            return v[4]
        return None

    def make(self, call):
        o, c, u, a, n, cs, f = call
        obj = None
        if o in INST_OPS:
            obj = self.instance(c, u)
            if obj is None:
                return ("exc", "no instance", "", "")
        out = api.outcome(o, c, obj, (), a, n, cs, f)
        if out[0] == "ok" and out[3] in api.CLASS:
            have = self.pool.setdefault((out[3], out[2]), [])
            if len(have) < 4:
                have.append(out[4])
        return out[:4]

    def do(self, call):
        out = self.make(call)
        self.seen.append((call, out))
        return out

    def uris(self):
        """read the URI of everything held again"""
        for (c, u), objs in list(self.pool.items()):
            for obj in objs:
                self.seen.append((("uri", c, u, (), (), "", 0), api.outcome("uri", c, obj)[:4]))

    def run(self, histories):
        for h in histories:
            with Watchdog(60):
                for call in h:
                    self.do(call)
                self.uris()
            if len(self.pool) > 400:
                self.pool = {}
        return self.seen


def forked(jobs, parallel=PARTS, seconds=1200):
    """run each job (a function without arguments) in a process forked now; their results"""
    res = [None] * len(jobs)
    live = {}
    d = tempfile.mkdtemp(prefix="verif-fork-")
    k = 0
    try:
        while k < len(jobs) or live:
            while k < len(jobs) and len(live) < parallel:
                path = os.path.join(d, str(k))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        signal.alarm(seconds)
                        r = jobs[k]()
                        with open(path, "wb") as fh:
                            pickle.dump(r, fh)
                        code = 0
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                        sys.stderr.flush()
                    finally:
                        os._exit(code)
                live[pid] = (k, path)
                k += 1
            pid, status = os.wait()
            if pid in live:
                j, path = live.pop(pid)
                if status != 0:
                    raise RuntimeError("a worker process failed (status %d)" % status)
                with open(path, "rb") as fh:
                    res[j] = pickle.load(fh)
                os.remove(path)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pristine(calls):
    """each call in a process of its own; outcomes in order"""
    out = []
    for call in calls:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                signal.alarm(60)
                data = pickle.dumps(Client().make(call))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else ("exc", "Died", "", ""))
    return out


def threads_run(histories, n, rounds, seed):
    """the histories on shared instances in n threads"""
    c = Client()
    born = [x for h in histories for x in h if x[0] in ("new", "epc")]
    for x in born:
        c.make(x)
    lists = [[] for _ in range(n)]
    stop = []
    start = threading.Barrier(n)

    def work(t):
        r = random.Random(seed * 100 + t)
        seen = lists[t]
        start.wait()
        for _ in range(rounds):
            hs = list(histories)
            r.shuffle(hs)
            for h in hs:
                for call in h:
                    if stop:
                        return
                    seen.append((call, c.make(call)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
        for t in ts:
            t.start()
        end = time.time() + 900
        for t in ts:
            t.join(max(1, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    stop.append(1)
    c.uris()
    return [x for s in lists for x in s] + c.seen


def inside(first, second, cut, client):
    """make the first call and let the second run to completion, in another
    thread, at the cut-th line the first executes; outcomes of both and the
    number of lines"""
    root = os.path.realpath(os.path.dirname(api.epcpy.__file__))
    count = [0]
    got = []

    def other():
        got.append(client.make(second))

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == cut:
                t = threading.Thread(target=other, daemon=True)
                t.start()
                t.join(5)      # it may wait for the first call: then it is let go on after it
                got.append(t) if not got else None
        return local

    def tracer(frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename).startswith(root) or frame.f_code.co_filename.startswith(api.REPO):
            return local
        return None

    sys.settrace(tracer)
    try:
        out = client.make(first)
    finally:
        sys.settrace(None)
    if got and isinstance(got[0], threading.Thread):
        got[0].join(30)
        got.pop(0)
    return out, got[0] if got else None, count[0]


def interleave(pairs, cuts, seed):
    r = random.Random(seed)
    c = Client()
    seen = []
    for a, b in pairs:
        if len(c.pool) > 400:
            c.pool = {}
        out, _, lines = inside(a, b, -1, c)
        seen.append((a, out))
        if not lines:
            continue
        for k in sorted(r.sample(range(1, lines + 1), min(cuts, lines))):
            x, y, _ = inside(a, b, k, c)
            seen.append((a, x))
            if y is not None:
                seen.append((b, y))
            # and afterwards
            seen.append((a, c.make(a)))
    c.uris()
    return seen + c.seen


def event(call, out):
    o, c, u, a, n, cs, f = call
    k, x, r, rc = out
    return {"o": o, "c": c, "cs": cs, "f": f, "a": ([u] if o in INST_OPS else []) + list(a), "n": list(n), "h": [],
            "k": k, "x": x, "r": r, "rc": rc}


class HistoryRun(check.Run):
    def go(self):
        T = TUNE[self.tier]
        api.MESSAGES = True
        rnd = random.Random("C14 %d" % self.seed)
        hs, st, tr = simulate(self.seed, T["histories"], T["calls"])
        few, st2, tr2 = simulate(self.seed, 0, T["few"])
        self.states += st + st2
        self.transitions += tr + tr2
        self.behaviours = len(hs) + len(few)
        self.taken = "histories_taken_from_model"

        # calls of other kinds, as other properties make them; recorded elsewhere so that this process stays fresh
        def borrowed():
            scripts.GRIDS = False
            g = gen.Gen(self.seed, "C14")
            out = []
            for p in ("C12", "C11", "C13", "C16", "C17", "C08", "C04"):
                for S in check.timed(scripts.SCRIPTS[p](g, T["script"] // (6 if p == "C12" else 2))):
                    cs = of_session(S)
                    if len(cs) > 40:
                        cs = rnd.sample(cs, 40)
                    if cs and max(len(x) for c in cs for x in c[3] + ("",)) < 2000:
                        out.append(cs)
            return out
        extra = forked([borrowed])[0]
        few_join = [[x for h in few[i:i + 40] for x in h] for i in range(0, len(few), 40)]
        allh = hs + extra + few_join

        calls = sorted({c for h in allh for c in h})
        chunk = -(-len(calls) // (PARTS * 4))
        refs = forked([lambda i=i: pristine(calls[i:i + chunk]) for i in range(0, len(calls), chunk)], 8)
        ref = dict(zip(calls, [x for part in refs for x in part]))

        def order(k):
            r = random.Random(self.seed * 7919 + k)
            out = [list(h) for h in allh]
            if k:
                r.shuffle(out)
            if k == 1:
                out = [h[::-1] for h in out]
            if k > 1:         # the calls of several histories mixed
                out = [[x for h in out[i:i + 5] for x in h] for i in range(0, len(out), 5)]
                for h in out:
                    r.shuffle(h)
            return out
        methods = [c for h in allh for c in h]
        byc = {}
        for c in methods:
            byc.setdefault(c[1], []).append(c)
        pairs = []
        for _ in range(T["pairs"]):
            a = rnd.choice(methods)
            b = rnd.choice(byc[a[1]] if rnd.random() < .7 else methods)
            pairs.append((a, b))
        self.orders = [order(k) for k in range(4)]
        jobs = [lambda k=k: Client(random.Random(k) if k else None).run(self.orders[k]) for k in range(4)]
        for k in range(2):
            jobs.append(lambda k=k: threads_run(hs[k::2][:60 if self.tier == "quick" else 400], T["threads"], T["rounds"], self.seed + k))
        n = 4
        for k in range(n):
            jobs.append(lambda k=k: interleave(pairs[k::n], T["cuts"], self.seed + k))
        names = ["in order", "reversed", "mixed 1", "mixed 2", "threads 1", "threads 2"] + ["interleaved %d" % k for k in range(n)]
        seen = forked(jobs, 8)

        # observations that agree with one another are kept up to a number per way of making them
        obs = {}
        self.made = 0
        for name, s in zip(names, seen):
            per = {}
            for call, out in s:
                self.made += 1
                key = (call, out)
                per[key] = per.get(key, 0) + 1
                if per[key] <= 3:
                    obs.setdefault(call, []).append((name, out))
        missing = sorted(c for c in obs if c not in ref)
        ref.update(zip(missing, [x for p in forked([lambda i=i: pristine(missing[i:i + 200]) for i in range(0, len(missing), 200)], 8) for x in p]))
        self.index = []
        ss = []
        for call in sorted(obs):
            o = obs[call]
            for i in range(0, len(o), 24):
                S = Session("history")
                S.ev = [event(call, ref[call])] + [event(call, out) for _, out in o[i:i + 24]]
                S.how = [None] + [name for name, _ in o[i:i + 24]]
                S.of = call
                ss.append(S)
        self.by = {id(S.ev): S for S in ss}
        self.validate(ss, "observations of one call")

    def report(self, x):
        events, i, clause, _ = x
        S = self.by[id(events)]
        name = S.how[i]
        hist = []
        if name in ("in order", "reversed", "mixed 1", "mixed 2"):
            k = ["in order", "reversed", "mixed 1", "mixed 2"].index(name)
            for h in self.orders[k]:
                hist.append([list(map(list, h))[0:0]] and [[c[0], c[1], c[2], list(c[3]), list(c[4]), c[5], c[6]] for c in h])
                if S.of in h and len(hist) > 1:
                    break
            hist = hist[-3:]
        d = os.path.join(check.HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "C14-%d.json" % os.getpid())
        with open(path, "w") as fh:
            json.dump({"property": "C14", "clause": clause, "how": name, "call": S.of, "alone": check.shown(events[0]),
                       "in_history": check.shown(events[i]), "histories": hist, "events": [events[0], events[i]]}, fh, indent=1)
        print("C14: %s (%s)" % (clause, name))
        print("  alone:      " + check.shown(events[0]))
        print("  in history: " + check.shown(events[i]))
        print("VIOLATION property=C14 replay=%s" % os.path.relpath(path, check.HERE))

    def evidence(self, wall):
        e = super().evidence(wall)
        e["coverage"]["calls_made"] = self.made
        e["coverage"]["distinct_calls"] = len({S.of for S in self.by.values()})
        return e
