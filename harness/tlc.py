"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import session

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = os.environ.get("TLA_JARS", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))


class TLCError(Exception):
    pass


def run(module, cfg_text, env=None, workers=WORKERS, args=(), timeout=3000, heap="6g", keep=None):
    """run TLC on spec/<module>.tla with the given configuration; its output"""
    d = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        cfg = os.path.join(d, module + ".cfg")
        with open(cfg, "w") as fh:
            fh.write(cfg_text)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-deadlock",
               "-workers", str(workers), *args, "-config", cfg, os.path.join(d, module + ".tla")]
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trouble(out):
    """the interesting part of the output of a failed run"""
    keep = [x for x in out.splitlines() if not x.startswith(("Linting of", "Parsing file", "Semantic processing", "Progress("))]
    return "\n".join(keep)[-3000:]


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][1]), int(m[-1][0])    # distinct states, transitions (states generated)


DROP = {"C12": ("a", "r"), "C15": ("a",)}
BATCH = 5_000_000     # size of what one run of TLC is given to read


def validate(prop, sessions, timeout=3000):
    """check recorded sessions (lists of events) against the specification.

    Returns (rejected, judged, decided, states, transitions); rejected is a
    list of (session index, event index, clause)."""
    total = [[], 0, 0, 0, 0]
    batch, size, first = [], 0, 0
    for i, s in enumerate(list(sessions) + [None]):
        if s is not None:
            enc, z = session.encode(s, DROP.get(prop, ()))
            batch.append(enc)
            size += z
        if batch and (s is None or size > BATCH):
            res = _validate(prop, batch, timeout)
            total[0] += [(first + a, b, c) for a, b, c in res[0]]
            for k in range(1, 5):
                total[k] += res[k]
            first += len(batch)
            batch, size = [], 0
    return tuple(total)


def _validate(prop, batch, timeout):
    chains = min(4 * WORKERS, len(batch))
    d = tempfile.mkdtemp(prefix="verif-trace-")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as fh:
            for s in batch:
                fh.write(json.dumps(s, separators=(",", ":")) + "\n")
        cfg = "SPECIFICATION Spec\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Property = \"%s\"\n  Chains = %d\n" % (prop, chains)
        rc, out = run("Trace", cfg, {"TRACE_FILE": path}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    done = re.findall(r'<<"CHAIN", (\d+), (\d+), (\d+), (\d+)>>', out)
    rejected = [(int(a) - 1, int(b) - 1, c) for a, b, c in re.findall(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)]
    if rc != 0 or {int(x[0]) for x in done} != set(range(1, chains + 1)) or len(done) != chains:
        raise TLCError("TLC failed (exit %d)\n%s" % (rc, trouble(out)))
    if sum(int(x[3]) for x in done) != len(rejected):
        raise TLCError("lost rejections\n" + trouble(out))
    judged = sum(int(x[1]) for x in done)
    if judged != sum(len(s["e"]) for s in batch) and not rejected:
        raise TLCError("not every event was judged\n" + trouble(out))
    st, tr = stats(out)
    return sorted(rejected), judged, sum(int(x[2]) for x in done), st, tr
