"""Model checking of the specification per property, and replay into the
library of the behaviours that TLC visits."""
import json
import os
import shutil
import tempfile

from . import api, scripts, tlc
from .session import Session

# property -> (representations, invariants, representations to damage)
CONFIG = {
    "C01": (["bin"], ["RoundTrip"], []),
    "C02": (["bin"], ["Layout"], []),
    "C03": (["bin", "hex", "b64"], ["FormsAgree"], []),
    "C04": (["tag", "bin", "hex", "b64"], ["Faithful"], []),
    "C05": (["hex", "b64"], ["Views"], []),
    "C06": (["tag"], ["TagUriReads"], ["tag"]),
    "C07": (["uri"], ["UriReads", "Injective"], ["uri"]),
    "C08": (["ele"], ["ElementReads"], ["ele"]),
    "C09": (["key"], ["KeyChecks"], []),
    "C10": (["uri", "ele", "tag", "bin"], ["OneOwner"], ["uri", "ele", "tag", "bin", "hex"]),
    "C11": (["tag", "bin", "hex", "ele", "uri"], ["OneNotation"], ["uri", "tag", "ele"]),
    "C12": (["uri"], ["Judged"], ["uri", "ele", "tag", "bin", "hex", "b64", "pat"]),
    "C13": ([], ["Judged"], ["bin", "hex"]),
    "C15": (["uri"], ["UriReads"], ["uri"]),
    "C16": (["pat"], ["PatternKey"], ["pat"]),
    "C17": ([], ["Stable"], ["bin"]),
    "C18": (["style"], ["StyleFree"], []),
    "C19": (["name"], ["StyleFree"], []),
}


def text(cps):
    return "".join(map(chr, cps))


def explore(prop, kinds, invariants, damage, big, share, shares, dshares=1, sweep="no", workers=tlc.WORKERS, timeout=3000):
    """run TLC on the model; (records, distinct states, transitions)"""
    d = tempfile.mkdtemp(prefix="verif-model-")
    try:
        out = os.path.join(d, "calls.ndjson")
        open(out, "w").close()
        cfg = "SPECIFICATION Spec\nINVARIANT TypeOK\n" + "".join("INVARIANT %s\n" % i for i in invariants) + \
            "PROPERTY Preserved\nCONSTANTS\n  Property = \"%s\"\n  Big = %s\n  Kinds = {%s}\n  Damage = %s\n  Share = %d\n  Shares = %d\n  DamageShares = %d\n  Sweep = \"%s\"\n" % (
                prop, "TRUE" if big else "FALSE", ", ".join('"%s"' % k for k in kinds), "TRUE" if damage else "FALSE", share, shares, dshares, sweep)
        rc, log = tlc.run("Model", cfg, {"MODEL_OUT": out}, workers=workers, timeout=timeout)
        if rc != 0 or "No error has been found" not in log:
            raise tlc.TLCError("the specification itself lacks %s (exit %d)\n%s" % (prop, rc, tlc.trouble(log)))
        lines = set()
        with open(out) as fh:
            for x in fh:
                lines.add(x)
        recs = [json.loads(json.loads(x)) for x in sorted(lines)]
        st, tr = tlc.stats(log)
        return recs, st, tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


FROM = {"tag": "ftag", "bin": "fbin", "hex": "fhex", "b64": "fb64"}
PARSE = {"tag": "p_tag", "bin": "p_bin", "hex": "p_hex", "b64": "p_b64"}


def sessions(prop, recs, g):
    """replay: one session per identity, plus sessions of damaged texts"""
    by = {}
    bad = {}
    for x in recs:
        if x["o"] == "new":
            by.setdefault((x["c"], text(x["a"])), [])
        elif x["o"] == "bad":
            bad.setdefault((x["c"], x["of"], x["f"], text(x.get("u", []))), []).append(text(x["r"]))
        else:
            by.setdefault((x["c"], text(x["u"])), []).append(x)
    for (s, u), rs in by.items():
        S = Session("model")
        i = S.call("new", s, [u])
        if S.inst(i):
            identity(prop, S, i, s, u, rs, g)
        if len(S) > 1 or prop in ("C07", "C12"):
            yield S
    for (s, of, f, u), ts in bad.items():
        for j in range(0, len(ts), 20):
            S = Session("damaged")
            if prop == "C15":
                relatives(S, s, u, ts[j:j + 20], g)
            for t in ts[j:j + 20] if prop != "C15" else []:
                damaged(prop, S, s, of, f, t, g, bool(u))
            if len(S):
                yield S


def identity(prop, S, i, s, u, rs, g):
    r = g.r
    body = u.split(":", 4)[4]
    L = len(body.split(".", 1)[0])
    if prop == "C07":
        S.call("epc", s, [u])
        return
    if prop == "C15":
        j = S.call("epc", s, [u])
        q = S.call("p_uri", "", [u])
        for a, b in ((i, j), (j, q), (q, i)):
            if S.inst(a) and S.inst(b):
                S.call(r.choice(("eq", "ne")), h=[a, b])
        return
    if prop == "C12":
        scripts.methods(g, S, i, few=True)
        return
    if prop == "C10":
        scripts.b10(g, S, "uri", u)
    if prop == "C11":
        if s in api.KEYED_SCHEMES:
            scripts.b11(g, S, i, L)
        return
    if prop == "C18":
        for x in sorted(rs, key=lambda x: (x["op"], x["cs"], x["f"], x["st"])):
            scripts.b18(S, i, x["op"], x["cs"], x["f"], x["ecs"], x["ef"], x["st"], x["ff"])
        return
    if prop == "C19":
        for x in sorted(rs, key=lambda x: (x["op"], x["cs"], x["f"])):
            S.call(x["op"], on=i, a=[text(y) for y in x["a"]])
        return
    for x in sorted(rs, key=lambda x: (x["o"], x.get("cs", ""), x["f"])):
        o, f = x["o"], x["f"]
        cs = x.get("cs", "")
        t = text(x["r"])
        if prop == "C01":
            scripts.b01(g, S, i, cs, f)
        elif prop in ("C02", "C04"):
            S.call(o, on=i, cs=cs, f=f)
        elif prop == "C03" and t:
            v = t
            if o == "bin":
                v = t + g.trailing(len(t))
            elif o == "hex":
                v = g.mixcase(t)
            elif r.random() < .5:
                v = t.rstrip("=")
            S.call(FROM[o], s, [v])
            S.call(PARSE[o], "", [v])
        elif prop == "C05" and o == "hex":
            scripts.b05(g, S, i, cs, f)
        elif prop == "C06":
            S.call("tag", on=i, cs=cs, f=f)
            if t:
                S.call("ftag", s, [t])
                S.call("p_tag", "", [t])
        elif prop == "C08":
            S.call("ele", on=i)
            S.call("fele", s, [t], [L])
            S.call("p_ele", "", [t], [L])
            S.call("p_elestr", "", [u])
        elif prop == "C09":
            S.call("key", on=i, n=[f])
            S.call("p_key", "", [u], [f])
            if s == "SGTIN" and t:
                S.call("gtin", on=i, n=[f])
                ser = body.split(".", 2)[2]
                S.call("fgtin", "SGTIN", [t, ser], [L])
        elif prop == "C10" and t:
            scripts.b10(g, S, o, t, L)
        elif prop == "C16":
            m = r.choice([0] + list(api.GTIN_LENGTHS)) if s == "SGTIN" else 0
            h = []
            if x["k"] == "ok":
                c = [text(y) for y in x["x"]]
                j = i
                if x["w"] == "last" and s in ("GRAI", "GDTI", "GIAI", "GINC"):
                    j = S.call("new", s, [g.render(s, c[:-1] + [r.choice("09AZaz")])])
                if S.inst(j):
                    h = [S.call("key", on=j, n=[m])]
                else:
                    continue
            S.call("k_any", "", [t], [0, m], h=h)


def relatives(S, s, u, ts, g):
    """identities that differ from that of u in one place"""
    i = S.call("new", s, [u])
    for t in ts:
        j = S.call("new", s, [t])
        if S.inst(i) and S.inst(j):
            S.call(g.r.choice(("eq", "ne")), h=g.r.choice(([i, j], [j, i])))


def damaged(prop, S, s, of, f, t, g, swept=False):
    r = g.r
    if prop == "C07":
        S.call(r.choice(("new", "epc")), s, [t])
    elif prop == "C06":
        S.call("ftag", s, [t])
        S.call("p_tag", "", [t])
    elif prop == "C08":
        S.call("fele", s, [t], [f])
        S.call("p_ele", "", [t], [f])
    elif prop == "C10":
        scripts.b10(g, S, of, t, f if of == "ele" else None)
    elif prop == "C11":
        S.call("k_any", "", [t], [f if of == "ele" else 0, 0])
    elif prop == "C12" and swept:
        i = S.call("new" if of == "uri" else "fele", s, [t], [f] if of == "ele" else []) if of in ("uri", "ele") else \
            S.call("ftag", s, [t]) if of == "tag" else S.call("k_any", "", [t], [0, 0])
        if of in ("uri", "tag", "ele"):
            S.call("p_" + of, "", [t], [f] if of == "ele" else [])
        if S.inst(i):
            scripts.methods(g, S, i, few=True)
    elif prop == "C12":
        scripts.b12(g, S, of, t, s)
    elif prop == "C13":
        S.call(FROM[of], s, [t])
        S.call(PARSE[of], "", [t])
    elif prop == "C17":
        i = S.call("fbin", s, [t])
        scripts.b17(S, s, t, i)
    elif prop == "C16":
        x = t.split(":", 4)
        h = []
        if len(x) == 5 and t.startswith(scripts.PAT):
            for s2 in scripts.PAT_SCHEMES:
                if x[3] == s2.lower() and s2 in api.KEYED_SCHEMES:
                    c = x[4]
                    n = {"GRAI": 2, "GDTI": 2, "GIAI": 1, "GINC": 1}.get(s2)
                    if n and c.split(".", n)[n:] == ["*"]:
                        c = c[:-1] + "0"
                    j = S.call("new", s2, [scripts.URI_PREFIX[s2] + c])
                    if S.inst(j):
                        h = [S.call("key", on=j, n=[0])]
        S.call("k_any", "", [t], [0, 0], h=h)
