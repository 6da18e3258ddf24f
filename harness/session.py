"""Recording of sessions: sequences of library calls with their outcomes."""
import signal
import threading

from . import api

INST_OPS = {"tag", "bin", "hex", "b64", "ele", "key", "gtin", "uri"}
WATCHDOG_S = 30


class Session:
    """Events are numbered from 1, as in the specification."""

    def __init__(self, label=""):
        self.label = label
        self.ev = []
        self.obj = []

    def __len__(self):
        return len(self.ev)

    def call(self, op, c="", a=(), n=(), cs="", f=0, on=None, h=None):
        """on: event number of the instance a method is called on"""
        obj = None
        objs = ()
        if op in INST_OPS:
            obj = self.obj[on - 1]
            c = self.ev[on - 1]["rc"]
            h = [on] + list(h or [])
        elif op in ("eq", "ne", "eqx", "nex"):
            objs = [self.obj[i - 1] for i in h]
        k, x, r, rc, v = api.outcome(op, c, obj, objs, a, n, cs, f)
        self.ev.append({"o": op, "c": c, "cs": cs, "f": f, "a": list(a), "n": list(n),
                        "h": list(h or []), "k": k, "x": x, "r": r, "rc": rc})
        self.obj.append(v)
        return len(self.ev)

    def ok(self, i):
        return self.ev[i - 1]["k"] == "ok"

    def res(self, i):
        return self.ev[i - 1]["r"]

    def inst(self, i):
        """did event i give an instance of a scheme class?"""
        return self.ok(i) and self.ev[i - 1]["rc"] in api.CLASS


def encode(events, drop=()):
    """a session in the form the trace specification reads; drop: text fields
    that the property does not look at"""
    index = {}
    texts = []

    def ref(t):
        if t not in index:
            texts.append([ord(ch) for ch in t])
            index[t] = len(texts)
        return index[t]

    out = []
    for e in events:
        d = dict(e)
        d["a"] = [ref(t) for t in e["a"]] if "a" not in drop else []
        d["r"] = ref(e["r"] if "r" not in drop else "")
        out.append(d)
    return {"t": texts, "e": out}, sum(len(t) for t in texts) + 20 * len(out)


class Watchdog:
    """turns a call that does not return into a recorded outcome"""

    def __init__(self, seconds=WATCHDOG_S):
        self.seconds = seconds

    def __enter__(self):
        if threading.current_thread() is threading.main_thread():
            def fire(*_):
                raise api.Hang()
            # processor time, and much more of real time in case the machine is busy
            self.old = [signal.signal(s, fire) for s in (signal.SIGPROF, signal.SIGALRM)]
            signal.setitimer(signal.ITIMER_PROF, self.seconds)
            signal.setitimer(signal.ITIMER_REAL, 8 * self.seconds)

    def __exit__(self, *_):
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            for s, old in zip((signal.SIGPROF, signal.SIGALRM), self.old):
                signal.signal(s, old)
        return False


def redo(events):
    """make the calls of a recorded session again; its events with new outcomes.

    Arguments taken from an earlier outcome follow the new outcome."""
    s = Session()
    with Watchdog(120):
        for e in events:
            on = e["h"][0] if e["o"] in INST_OPS else None
            h = e["h"][1:] if e["o"] in INST_OPS else e["h"]
            if on is not None and not s.inst(on):
                break
            if e["o"] in ("eq", "ne", "eqx", "nex") and not all(s.ok(i) for i in h):
                break
            s.call(e["o"], e["c"], e["a"], e["n"], e["cs"], e["f"], on=on, h=h)
    return s.ev
