"""What to do with the library for each property.  A script yields sessions;
the specification judges their events."""
from . import api
from .gen import CPR_ALL, DIGITS, GS_ALL, LAYOUT, PARTITION, SCHEME_OF, TOTAL, URI_PREFIX, check_digit
from .session import Session

TAGCS = [cs for s in api.TAG_SCHEMES for cs in api.CODING_OF[s]]


def fitting(g, s, cs):
    """components that most likely fit coding scheme cs"""
    c = g.components(s)
    r = g.r
    if r.random() < .15 or cs not in LAYOUT:
        return c
    L = len(c[0])
    for k, x in LAYOUT[cs][2]:
        if k == "int" and s not in ("GID", "USDOD"):
            c[-1] = str(int(g.number(x)) % 2 ** x)
            if s == "CPI":
                c[-1] = c[-1][:12]
        if k == "part" and x in ("giai96", "cpi96"):
            w, n = PARTITION[x][12 - L]
            v = r.choice((int(g.number(w)), 2 ** w - 1, 10 ** n - 1, r.randrange(2 ** w)))
            c[1] = str(min(v % 2 ** w, 10 ** n - 1))
        if k == "parts":
            c[1] = g.serial(min(PARTITION[x][12 - L][1], 30 - L))
    return c


def some_filter(g, s):
    return g.r.choice(api.filters(s))


def open_identity(g, s, comp=None, lab=""):
    S = Session(lab)
    i = S.call(g.r.choice(("new", "epc")), s, [g.render(s, comp if comp is not None else g.components(s))])
    return S, i


GS_SERIAL = ("SGTIN", "SGLN", "GRAI", "GDTI", "GIAI", "GINC", "ITIP", "UPUI", "LGTIN")
GRIDS = True         # go through grids at all?


def passes(n):
    """how often a grid is gone through: once in the quick tier"""
    return 0 if not GRIDS else 8 if n >= 20000 else 1


def rounds(g, n):
    """(number, restricted to schemes that changed?) of the rounds through a grid; more if the library changed"""
    return [(p, False) for p in range(passes(n))] + ([(p, True) for p in range(3 if g.focus else 1)] if g.changed and GRIDS else [])


def more(g, n):
    """further sessions if the file of a scheme changed"""
    return n // 2 if g.focus else 0


def turn(g, xs, k, n):
    """the schemes or coding schemes in turn; after the n-th only those that changed"""
    xs = k >= n and [x for x in xs if SCHEME_OF.get(x, x) in g.focus] or xs
    return xs[k % len(xs)]


def tag_grid(g, n):
    """(scheme, coding scheme, components, filter value) for every length of prefix and last component"""
    for p, part in rounds(g, n):
        for cs in TAGCS:
            s = api.CODING[cs][0]
            if part and g.focus and s not in g.focus:
                continue
            fs = api.filters(s)
            for c, k in g.grid(s, cs if cs in LAYOUT else ""):
                yield s, cs, c, fs[(k + p) % len(fs)]
            if s in GS_SERIAL and cs in LAYOUT and LAYOUT[cs][2][-1][0] in ("str", "parts"):
                for c, k in g.words(s):
                    yield s, cs, c, fs[(k + p) % len(fs)]


def grid(g, n, schemes):
    """(scheme, components) for every length of prefix and last component"""
    for p, part in rounds(g, n):
        for s in schemes:
            if part and g.focus and s not in g.focus:
                continue
            for c, k in g.grid(s):
                if s != "CPI" or (k + p) % 4 == 0:
                    yield s, c
            if s in GS_SERIAL:
                for c, k in g.words(s):
                    yield s, c


def batches(calls, size=40):
    """sessions out of (operation, class, texts, numbers)"""
    S = Session()
    for c in calls:
        S.call(*c)
        if len(S) >= size:
            yield S
            S = Session()
    yield S


def one_of(g, s, cs=""):
    """components of some identity of s"""
    return g.r.choice(list(g.grid(s, cs)))[0]


# -------------------------------------------------------------------------
def b01(g, S, i, cs, f):
    s = S.ev[i - 1]["rc"]
    b = S.call("bin", on=i, cs=cs, f=f)
    if S.ok(b):
        t = S.res(b)
        S.call("fbin", s, [t], h=[b])
        S.call("p_bin", "", [t], h=[b])
        S.call("fbin", s, [t + g.trailing(len(t))], h=[b])
        S.call("p_bin", "", [t + g.trailing(len(t))], h=[b])


def c01(g, n):
    for s, cs, c, f in tag_grid(g, n):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            b01(g, S, i, cs, f)
        yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        S, i = open_identity(g, s, fitting(g, s, cs))
        if S.inst(i):
            for f in ([some_filter(g, s)] if k % 23 else api.filters(s)):
                b01(g, S, i, cs, f)
        yield S


def c02(g, n):
    for s, cs, c, f in tag_grid(g, n):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            S.call("bin", on=i, cs=cs, f=f)
        yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        S, i = open_identity(g, s, fitting(g, s, cs))
        if S.inst(i):
            for f in ([some_filter(g, s)] if k % 23 else api.filters(s)):
                S.call("bin", on=i, cs=cs, f=f)
        yield S


def decode_all(g, S, s, t, h=()):
    """decode the bits t in all forms, by class and generically"""
    r = g.r
    S.call("fbin", s, [t])
    S.call("p_bin", "", [t])
    hx = g.to_hex(t + "0" * ((-len(t)) % r.choice((4, 16))))
    S.call("fhex", s, [g.mixcase(hx)])
    S.call("p_hex", "", [g.mixcase(hx)])
    b6 = g.to_b64(t + "0" * ((-len(t)) % r.choice((8, 16))))
    b6 = r.choice((b6, b6.rstrip("=")))
    S.call("fb64", s, [b6])
    S.call("p_b64", "", [b6])


def c03(g, n):
    for s, cs, c, f in tag_grid(g, n):
        if cs in LAYOUT:
            t = g.lay(cs, f, c)
            S = Session()
            decode_all(g, S, s, t + g.trailing(len(t)))
            yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        t = g.tag_bits(cs, conform=True)
        S = Session()
        decode_all(g, S, s, t + g.trailing(len(t)))
        yield S


def c04(g, n):
    for s, cs, c, f in tag_grid(g, n):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            for cs in api.CODING_OF[s]:
                for op in ("tag", "bin", "hex", "b64"):
                    S.call(op, on=i, cs=cs, f=f)
        yield S
    for k in range(n + more(g, n)):
        s = turn(g, api.TAG_SCHEMES, k, n)
        cs0 = g.r.choice(api.CODING_OF[s])
        c = g.components(s) if g.r.random() < .6 else fitting(g, s, cs0)
        S, i = open_identity(g, s, c)
        if S.inst(i):
            for cs in api.CODING_OF[s]:
                f = some_filter(g, s)
                for op in ("tag", "bin", "hex", "b64"):
                    S.call(op, on=i, cs=cs, f=f)
        yield S


def b05(g, S, i, cs, f):
    s = S.ev[i - 1]["rc"]
    b = S.call("bin", on=i, cs=cs, f=f)
    x = S.call("hex", on=i, cs=cs, f=f, h=[b])
    y = S.call("b64", on=i, cs=cs, f=f, h=[b])
    if S.ok(b):
        d = S.call("fbin", s, [S.res(b)])
        if S.ok(x):
            t = S.res(x)
            for v in sorted({t, t.lower(), g.mixcase(t)}):
                S.call("fhex", s, [v], h=[d, x])
                S.call("p_hex", "", [v], h=[d, x])
        if S.ok(y):
            t = S.res(y)
            for v in sorted({t, t.rstrip("=")}):
                S.call("fb64", s, [v], h=[d, y])
                S.call("p_b64", "", [v], h=[d, y])


def c05(g, n):
    for s, cs, c, f in tag_grid(g, n):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            b05(g, S, i, cs, f)
        yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        S, i = open_identity(g, s, fitting(g, s, cs))
        if S.inst(i):
            b05(g, S, i, cs, some_filter(g, s))
        yield S


def near_tag_uri(g, s, t):
    """tag URIs that are not quite right"""
    r = g.r
    k = r.randrange(9)
    head, rest = t.split(":", 4)[3], t.split(":", 4)[4]
    if k == 0:
        return "urn:epc:tag:" + r.choice(TAGCS) + ":" + rest
    if k == 1:
        return "urn:epc:tag:" + r.choice([s.lower(), s.lower() + "-", s.lower() + "-64", head.upper(), head + "0", ""]) + ":" + rest
    if k == 2:
        p = rest.split(".", 1)
        return "urn:epc:tag:" + head + ":" + r.choice(["", "a", "00", "01", "-1", "+1", " 1", "1 ", "٣", "*", "8", "99", "16", "64"]) + \
            ("." + p[1] if len(p) > 1 else "")
    if k == 3:
        p = rest.split(".", 1)
        return "urn:epc:tag:" + head + ":" + (p[1] if len(p) > 1 else "")
    if k == 4:
        return r.choice(["urn:epc:id:", "urn:epc:idpat:", "urn:epc:tag", "URN:EPC:TAG:", "urn:epc:raw:", " urn:epc:tag:"]) + head + ":" + rest
    if k == 5:
        return t + r.choice(["\n", " ", ".", ".1", "\x00", "%", "\r"])
    if k == 6:
        c = g.near_components(s)
        body = g.render(s, c)[len(URI_PREFIX[s]):]
        return "urn:epc:tag:" + head + ":" + (rest.split(".", 1)[0] + "." if s != "GID" else "") + body
    return g.mutate(t)


def tag_text(g, s, cs):
    """a tag URI made without the library"""
    body = g.render(s, fitting(g, s, cs))[len(URI_PREFIX[s]):]
    f = some_filter(g, s)
    return "urn:epc:tag:" + cs + ":" + ("" if s == "GID" else "%d." % f) + body


def decorated_tags(g):
    for cs in TAGCS:
        s = api.CODING[cs][0]
        for x in g.decorated(tag_text(g, s, cs)):
            yield "ftag", s, [x]
            yield "p_tag", "", [x]


def c06(g, n):
    for p in range(passes(n)):
        yield from batches(decorated_tags(g))
    for s, cs, c, f in tag_grid(g, n):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            t = S.call("tag", on=i, cs=cs, f=f)
            if S.ok(t):
                S.call("ftag", s, [S.res(t)])
                S.call("p_tag", "", [S.res(t)])
        yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        S, i = open_identity(g, s, fitting(g, s, cs))
        if S.inst(i):
            t = S.call("tag", on=i, cs=cs, f=some_filter(g, s))
            u = S.res(t) if S.ok(t) else tag_text(g, s, cs)
            u2 = tag_text(g, s, cs)
            S.call("ftag", s, [u])
            S.call("p_tag", "", [u])
            S.call("ftag", s, [u2])
            S.call("p_tag", "", [u2])
            S.call("ftag", g.r.choice(api.TAG_SCHEMES), [u])
            if u.count(":") >= 4:
                m = near_tag_uri(g, s, u)
                S.call("ftag", s, [m])
                S.call("p_tag", "", [m])
        yield S


def c07(g, n):
    for p in range(passes(n)):
        yield from batches((g.r.choice(("new", "epc")), s, [g.render(s, c)]) for s in GS_SERIAL for c, _ in g.words(s))
        yield from batches((g.r.choice(("new", "epc")), s, [x]) for s in api.SCHEMES for x in g.decorated(g.render(s, one_of(g, s))))
        for s in api.SCHEMES:
            S = Session()
            for c, k in g.grid(s, "", range(5, 14), 2, 0):
                if s == "CPI" and (k + p) % 4:
                    continue
                S.call("new" if (k + p) % 3 else "epc", s, [g.render(s, c)])
                if len(S) >= 20:
                    yield S
                    S = Session()
            yield S
    for k in range(n + more(g, n)):
        s = turn(g, api.SCHEMES, k, n)
        S = Session()
        u = g.uri(s)
        S.call("new", s, [u])
        S.call("epc", s, [u])
        for _ in range(3):
            S.call(g.r.choice(("new", "epc")), s, [g.near_uri(s)])
        if k % 7 == 0:
            S.call("new", g.r.choice(api.SCHEMES), [u])
            S.call("new", s, [g.junk()])
        yield S


AI_OF = {"SGTIN": "01", "LGTIN": "01", "UPUI": "01", "SSCC": "00", "SGLN": "414", "GRAI": "8003", "GIAI": "8004",
         "GSRN": "8018", "GSRNP": "8017", "GDTI": "253", "CPI": "8010", "SGCN": "255", "GINC": "401", "GSIN": "402",
         "ITIP": "8006", "PGLN": "417"}
AI2_OF = {"SGTIN": "21", "LGTIN": "10", "UPUI": "235", "SGLN": "254", "ITIP": "21", "CPI": "8011"}


def element_text(g, s, c, bend=False):
    """an element string made without the library; bend: with one thing wrong"""
    r = g.r
    ai, ai2 = AI_OF[s], AI2_OF.get(s)
    if s in ("SGTIN", "LGTIN", "UPUI", "ITIP", "SSCC"):
        d = c[1][:1] + c[0] + c[1][1:]
    else:
        d = c[0] + c[1]
    x = c[2] if len(c) > 2 else ""
    if s == "ITIP":
        x = c[4]
    if s not in ("GIAI", "GINC", "CPI"):
        d = d + check_digit(d)
        if bend and r.random() < .2:
            d = d[:-1] + r.choice(DIGITS)
    if s == "GRAI":
        d = ("0" if not bend or r.random() < .7 else r.choice(DIGITS)) + d
    if s == "ITIP":
        d += c[2] + c[3]
    if bend:
        k = r.randrange(8)
        if k == 0:
            d = d[:-1]
        elif k == 1:
            d = d + r.choice(DIGITS + "A(")
        elif k == 2:
            ai = r.choice(sorted(set(AI_OF.values())) + ["02", "1", "001", ""])
        elif k == 3 and ai2:
            ai2 = r.choice(sorted(set(AI2_OF.values())) + ["22", ""])
        elif k == 4:
            i = r.randrange(len(d) + 1)
            d = d[:i] + r.choice(g.WEIRD + ["A"]) + d[i + 1:]
        elif k == 5:
            x = r.choice(["", x + "1" * 20, "\xe9", " ", x + " ", x + "\n", x + "#", "%2F", x + "%", "%41"])
        elif k == 6:
            x = x + r.choice(GS_ALL) * r.choice((1, 12, 20))
    return "(%s)%s%s%s" % (ai, d, "(%s)" % ai2 if ai2 else "", x)


def c08(g, n):
    r = g.r
    E = api.ELEMENT_SCHEMES
    for p in range(passes(n)):
        for s in E:
            c = one_of(g, s)
            yield from batches((op, s if op == "fele" else "", [x], [len(c[0])])
                               for x in g.decorated(element_text(g, s, c)) for op in ("fele", "p_ele"))
    for j, (s, c) in enumerate(grid(g, n, E)):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            e = S.call("ele", on=i)
            if S.ok(e):
                S.call("fele", s, [S.res(e)], [len(c[0])])
                S.call("p_ele", "", [S.res(e)], [len(c[0])])
                for m in ((len(c[0]) + 1, len(c[0]) - 1), (5, 13), (0, 14), (j % 15, j % 19))[j % 4]:
                    S.call("fele", s, [S.res(e)], [m])
                    S.call("p_ele", "", [S.res(e)], [m])
        yield S
    for k in range(n + more(g, n)):
        s = turn(g, E, k, n)
        c = g.components(s)
        S, i = open_identity(g, s, c)
        L = len(c[0])
        if S.inst(i):
            e = S.call("ele", on=i)
            S.call("p_elestr", "", [S.res(i)])
            t = S.res(e) if S.ok(e) else element_text(g, s, c)
            S.call("fele", s, [t], [L])
            S.call("p_ele", "", [t], [L])
            m = r.choice((0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20))
            S.call("fele", s, [t], [m])
            S.call("p_ele", "", [t], [m])
            S.call("fele", r.choice(E), [t], [L])
            t2 = element_text(g, s, c)
            S.call("fele", s, [t2], [L])
            S.call("p_ele", "", [t2], [L])
        b = r.choice((element_text(g, s, c, True), element_text(g, s, c, True), g.mutate(element_text(g, s, c)),
                      element_text(g, s, g.near_components(s))))
        S.call("fele", s, [b], [L])
        S.call("p_ele", "", [b], [L])
        yield S


def gtin_components(g, s):
    """components with many zero digits in front of the GTIN"""
    r = g.r
    z = r.choice((0, 1, 2, 3, 5, 6, 7))
    L = r.randrange(6, 13)
    gt = "0" * z + "".join(r.choice("0123456789") for _ in range(13 - z))
    if r.random() < .1:
        gt = "0" * 13
    return [gt[1:1 + L], gt[0] + gt[1 + L:], g.serial(20, 38)]


def c09(g, n):
    r = g.r
    K = api.KEYED_SCHEMES
    for s, c in grid(g, n, K):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            S.call("key", on=i, n=[0])
            if s == "SGTIN":
                t = S.call("gtin", on=i, n=[0])
                if S.ok(t):
                    S.call("fgtin", "SGTIN", [S.res(t), c[2]], [len(c[0])])
        yield S
    for z in range(14):                 # zeros in front of the GTIN
        for L in range(6, 13):
            for s in ("SGTIN", "LGTIN"):
                d = "0" * z + "".join(r.choice("123456789") for _ in range(13 - z))
                S, i = open_identity(g, s, [d[1:1 + L], d[0] + d[1 + L:], g.serial(20, 38)])
                if S.inst(i):
                    for m in api.GTIN_LENGTHS:
                        S.call("key", on=i, n=[m])
                        if hasattr(api.CLASS[s], "gtin"):
                            S.call("gtin", on=i, n=[m])
                            S.call("p_key", "", [S.res(i)], [m])
                d += check_digit(d)
                for cut in range(0, z + 1):
                    if d[cut:]:
                        S.call("fgtin", "SGTIN", [d[cut:], "1"], [L])
                yield S
    for k in range(n + more(g, n)):
        s = turn(g, K, k, n) if k % 3 else ("SGTIN", "LGTIN")[k % 2]
        gt = s in ("SGTIN", "LGTIN")
        c = gtin_components(g, s) if gt and r.random() < .6 else g.components(s)
        S, i = open_identity(g, s, c)
        if S.inst(i):
            for m in [0] + (list(api.GTIN_LENGTHS) if gt else []):
                S.call("key", on=i, n=[m])
                if gt:
                    S.call("gtin", on=i, n=[m])
                    S.call("p_key", "", [S.res(i)], [m])
            S.call("p_key", "", [S.res(i)], [0])
        if gt:
            d = c[1][:1] + c[0] + c[1][1:]
            d += check_digit(d)
            z = len(d) - len(d.lstrip("0"))
            for cut in sorted({0, z, r.randrange(z + 1)}):
                x = d[cut:]
                if x:
                    S.call("fgtin", "SGTIN", [x, r.choice((c[2], g.number(38), g.serial(20)))], [len(c[0])])
            x = r.choice((d, d, d[:-1], d + "0", g.mutate(d), d[:r.randrange(15)], "0" + d, d[0] + d[1:1 + len(c[0])] + "." + d[1 + len(c[0]):]))
            y = r.choice((g.render(s, c).split(".", 2)[2], c[2], g.serial(20), g.mutate(c[2]), c[2] + " ", "", "1" * 21))
            S.call("fgtin", "SGTIN", [x, y], [r.choice((len(c[0]), len(c[0]), r.randrange(0, 20)))])
        yield S


# -------------------------------------------------------------------------
def owner_of_uri(t):
    for s in api.SCHEMES:
        if t.startswith(URI_PREFIX[s]):
            return s
    return None


def owner_of_tag(t):
    if not t.startswith("urn:epc:tag:"):
        return None
    cs = t[len("urn:epc:tag:"):].split(":", 1)[0]
    return SCHEME_OF.get(cs)


HEADER = {v[0]: SCHEME_OF[cs] for cs, v in LAYOUT.items()}


def owner_of_bits(t):
    if len(t) >= 8 and all(ch in "01" for ch in t[:8]):
        return HEADER.get(int(t[:8], 2))
    return None


def owner_of_hex(t):
    if len(t) >= 2 and all(ch in "0123456789abcdefABCDEF" for ch in t):
        return HEADER.get(int(t[:2], 16))
    return None


def owner_of_b64(t):
    import base64
    try:
        b = t.rstrip("=")
        return HEADER.get(base64.b64decode(b + "=" * (-len(b) % 4))[0])
    except Exception:
        return None


def owner_of_element(t):
    """schemes whose class is asked"""
    return [s for s in api.ELEMENT_SCHEMES if t.startswith("(%s)" % AI_OF[s])]


def any_text(g, s=None):
    """(kind, text) of any notation, mostly near valid"""
    r = g.r
    s = s or r.choice(api.SCHEMES)
    k = r.randrange(12)
    if k <= 3:
        return "uri", g.uri(s) if k < 2 else g.near_uri(s)
    if k <= 5:
        s = s if s in api.TAG_SCHEMES else r.choice(api.TAG_SCHEMES)
        t = tag_text(g, s, r.choice(api.CODING_OF[s]))
        return "tag", t if k == 4 else near_tag_uri(g, s, t)
    if k <= 8:
        cs = r.choice(TAGCS)
        t = g.tag_bits(cs, wild=.1)
        if r.random() < .3:
            t = t[:r.randrange(len(t) + 1)]
        else:
            t += g.trailing(len(t))
        if k == 6:
            return "bin", t
        if k == 7:
            return "hex", g.mixcase(g.to_hex(t))
        return "b64", g.to_b64(t)
    if k <= 10:
        s = s if s in api.ELEMENT_SCHEMES else r.choice(api.ELEMENT_SCHEMES)
        return "ele", element_text(g, s, g.components(s), k == 10)
    return "junk", g.junk()


def b10(g, S, kind, t, L=None):
    r = g.r
    ops = {"uri": ["uri"], "tag": ["tag"], "bin": ["bin"], "hex": ["hex"], "b64": ["b64"], "ele": ["ele"],
           "junk": ["uri", "tag", "bin", "hex", "b64", "ele"]}[kind]
    if r.random() < .1:
        ops = ["uri", "tag", "bin", "hex", "b64", "ele"]
    if "uri" in ops:
        o = owner_of_uri(t)
        i = S.call("new", o, [t]) if o else None
        h = [i] if i else []
        for op in ("p_uri", "p_gs1el", "p_keyed", "p_tagenc"):
            S.call(op, "", [t], h=h)
        if i and S.inst(i):
            e = S.call("ele", on=i) if o in api.ELEMENT_SCHEMES else i
            S.call("p_elestr", "", [t], h=[e])
            m = r.choice(api.GTIN_LENGTHS) if o in ("SGTIN", "LGTIN") and r.random() < .6 else 0
            e = S.call("key", on=i, n=[m]) if o in api.KEYED_SCHEMES else i
            S.call("p_key", "", [t], [m], h=[e])
        else:
            S.call("p_elestr", "", [t], h=h)
            S.call("p_key", "", [t], [0], h=h)
    for kd, own in (("tag", owner_of_tag), ("bin", owner_of_bits), ("hex", owner_of_hex), ("b64", owner_of_b64)):
        if kd in ops:
            o = own(t)
            h = [S.call("f" + kd, o, [t])] if o in api.TAG_SCHEMES else []
            S.call("p_" + kd, "", [t], h=h)
    if "ele" in ops:
        if L is None:
            L = r.randrange(5, 14) if r.random() < .7 else r.randrange(0, 20)
        h = [S.call("fele", o, [t], [L]) for o in owner_of_element(t)]
        S.call("p_ele", "", [t], [L], h=h)


def c10(g, n):
    r = g.r
    for p in range(passes(n)):
        for s in api.SCHEMES:
            c = one_of(g, s)
            texts = [("uri", g.render(s, c))]
            if s in api.ELEMENT_SCHEMES:
                texts.append(("ele", element_text(g, s, c)))
            for cs in api.CODING_OF[s]:
                if cs in LAYOUT:
                    t = g.lay(cs, some_filter(g, s), one_of(g, s, cs))
                    texts += [("tag", tag_text(g, s, cs)), ("bin", t), ("hex", g.to_hex(t)), ("b64", g.to_b64(t))]
            for kind, t in texts:
                S = Session("decorated " + kind)
                for x in g.decorated(t):
                    b10(g, S, kind, x, len(c[0]))
                    if len(S) >= 40:
                        yield S
                        S = Session("decorated " + kind)
                yield S
    for s, c in grid(g, n, api.SCHEMES):
        S = Session("uri")
        b10(g, S, "uri", g.render(s, c))
        if s in api.ELEMENT_SCHEMES:
            b10(g, S, "ele", element_text(g, s, c), len(c[0]))
        yield S
    for s, cs, c, f in tag_grid(g, n):
        S = Session("tag")
        b10(g, S, "tag", "urn:epc:tag:" + cs + ":" + ("" if s == "GID" else "%d." % f) + g.render(s, c)[len(URI_PREFIX[s]):])
        if cs in LAYOUT:
            t = g.lay(cs, f, c)
            b10(g, S, "bin", t)
            b10(g, S, "hex", g.to_hex(t))
            b10(g, S, "b64", g.to_b64(t))
        yield S
    for k in range(n + more(g, n)):
        kind, t = any_text(g, turn(g, api.SCHEMES, k, n))
        if r.random() < .1 and kind in ("bin", "hex", "b64"):
            t = g.mutate(t)
        S = Session(kind)
        b10(g, S, kind, t)
        yield S


def b11(g, S, i, L, fs=None):
    r = g.r
    s = S.ev[i - 1]["rc"]
    gt = s in ("SGTIN", "LGTIN")
    m = r.choice([0] + list(api.GTIN_LENGTHS)) if gt else 0
    q = S.call("key", on=i, n=[m])
    reps = [i]
    for cs in api.CODING_OF[s]:
        for op in ("tag", "bin", "hex"):
            reps.append(S.call(op, on=i, cs=cs, f=some_filter(g, s)))
    e = S.call("ele", on=i)
    for x in reps:
        if S.ok(x):
            t = S.res(x)
            S.call("k_any", "", [t], [0, m], h=[q, x])
            if S.ev[x - 1]["o"] == "hex":
                S.call("k_any", "", [t.lower()], [0, m], h=[q, x])
            if S.ev[x - 1]["o"] == "bin":
                z = t + "0" * (-len(t) % 4)
                S.call("k_any", "", [t + g.trailing(len(t))], [0, m], h=[q])
                S.call("k_any", "", [g.to_hex(z + r.choice(("", "", "0000", "0" * (-len(z) % 8))))], [0, m], h=[q])
            if r.random() < .3:   # the prefix length is of no consequence here
                S.call("k_any", "", [t], [L, m], h=[q, x])
    if S.ok(e):
        S.call("k_any", "", [S.res(e)], [L, m], h=[q, e])
        S.call("k_any", "", [S.res(e)], [0, m])


def c11(g, n):
    r = g.r
    for p in range(passes(n)):
        for s in api.KEYED_SCHEMES:
            c = one_of(g, s)
            texts = [(0, g.render(s, c)), (len(c[0]), element_text(g, s, c))]
            for cs in api.CODING_OF[s]:
                if cs in LAYOUT:
                    t = g.lay(cs, some_filter(g, s), one_of(g, s, cs))
                    texts += [(0, tag_text(g, s, cs)), (0, t), (0, g.to_hex(t))]
            for L, t in texts:
                yield from batches(("k_any", "", [x], [L, 0]) for x in g.decorated(t))
    for s, c in grid(g, n, [s for s in api.KEYED_SCHEMES if not api.CODING_OF[s]]):
        S, i = open_identity(g, s, c)
        if S.inst(i):
            b11(g, S, i, len(c[0]))
        yield S
    for s, cs, c, f in tag_grid(g, n):
        if s in api.KEYED_SCHEMES and cs == api.CODING_OF[s][sum(map(len, c)) % len(api.CODING_OF[s])]:
            S, i = open_identity(g, s, c)
            if S.inst(i):
                b11(g, S, i, len(c[0]))
            yield S
    for k in range(n + more(g, n)):
        s = turn(g, api.KEYED_SCHEMES, k, n)
        gt = s in ("SGTIN", "LGTIN")
        cs0 = r.choice(api.CODING_OF[s]) if api.CODING_OF[s] else ""
        c = gtin_components(g, s) if gt and r.random() < .5 else fitting(g, s, cs0)
        S, i = open_identity(g, s, c)
        if S.inst(i):
            b11(g, S, i, len(c[0]))
        if k % 3 == 0:
            kind, t = any_text(g)
            if r.random() < .3:
                t = g.mutate(t)
            S.call("k_any", "", [t], [r.choice((0, 0, 6, 7, 12, 13, 3)), r.choice((0, 0, 13, 14))])
        yield S


def methods(g, S, i, few=False):
    """every conversion of the instance event i gave"""
    s = S.ev[i - 1]["rc"]
    for cs in api.CODING_OF[s]:
        for f in ([some_filter(g, s)] if few else api.filters(s)[:3] + [some_filter(g, s)]):
            for op in ("tag", "bin", "hex", "b64"):
                S.call(op, on=i, cs=cs, f=f)
    if s in api.ELEMENT_SCHEMES:
        S.call("ele", on=i)
    if s in api.KEYED_SCHEMES:
        for m in [0] + (list(api.GTIN_LENGTHS) if s in ("SGTIN", "LGTIN") else []):
            S.call("key", on=i, n=[m])
    if hasattr(api.CLASS[s], "gtin"):
        for m in [0] + list(api.GTIN_LENGTHS):
            S.call("gtin", on=i, n=[m])


def b12(g, S, kind, t, s0, gtin=False):
    r = g.r
    L = r.choice((0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 25, 100))
    own = {owner_of_uri(t) or s0, s0}
    got = []
    for s in sorted(own):
        got.append(S.call("new", s, [t]))
        S.call("epc", s, [t])
    o = {"tag": owner_of_tag, "bin": owner_of_bits, "hex": owner_of_hex, "b64": owner_of_b64}.get(kind, lambda x: None)(t)
    for s in sorted({o or r.choice(api.TAG_SCHEMES), r.choice(api.TAG_SCHEMES)} & set(api.TAG_SCHEMES)):
        for op in ("ftag", "fbin", "fhex", "fb64"):
            got.append(S.call(op, s, [t]))
    for s in sorted(set(owner_of_element(t)) | {r.choice(api.ELEMENT_SCHEMES)}):
        got.append(S.call("fele", s, [t], [L]))
    for op in ("p_uri", "p_gs1el", "p_keyed", "p_tagenc", "p_elestr", "p_tag", "p_bin", "p_hex", "p_b64"):
        got.append(S.call(op, "", [t]))
    S.call("p_key", "", [t], [r.choice((0, 8, 12, 13, 14)) if owner_of_uri(t) in ("SGTIN", "LGTIN") else 0])
    got.append(S.call("p_ele", "", [t], [L]))
    S.call("k_any", "", [t], [0, 0])
    S.call("k_any", "", [t], [L, 0])
    if gtin:
        d = r.choice((g.digits(r.randrange(0, 20)), t[:20], g.mutate(g.digits(14)), "٣" * 14))
        got.append(S.call("fgtin", "SGTIN", [d, r.choice((g.serial(20), t[-20:], ""))], [L]))
    done = set()
    for i in got:
        if S.inst(i):
            key = (S.ev[i - 1]["rc"], S.res(i))
            if key not in done:
                done.add(key)
                methods(g, S, i)


def c12(g, n):
    r = g.r
    for p in range(passes(n)):
        for s in api.SCHEMES:
            c = one_of(g, s)
            texts = [("uri", g.render(s, c)), ("junk", PAT + g.render(s, c)[len("urn:epc:id:"):])]
            if s in api.ELEMENT_SCHEMES:
                texts.append(("ele", element_text(g, s, c)))
            for cs in api.CODING_OF[s][:1]:
                if cs in LAYOUT:
                    t = g.lay(cs, some_filter(g, s), one_of(g, s, cs))
                    texts += [("tag", tag_text(g, s, cs)), ("bin", t), ("hex", g.to_hex(t)), ("b64", g.to_b64(t))]
            for kind, t in texts:
                for x in list(g.stretched(t) if kind not in ("bin", "hex", "b64") else ()) + g.r.sample(g.decorated(t), 12):
                    S = Session(kind)
                    b12(g, S, kind, x, s)
                    yield S
    for s, c in grid(g, n, api.SCHEMES):
        S = Session("uri")
        i = S.call("new", s, [g.render(s, c)])
        if S.inst(i):
            methods(g, S, i, few=True)
        yield S
    for k in range(n + more(g, n)):
        s0 = turn(g, api.SCHEMES, k, n)
        kind, t = any_text(g, s0)
        if r.random() < .35:
            t = g.mutate(t)
        if r.random() < .02:
            t = t + r.choice(["0", "9", "A", "(", "%2F", "."]) * 5000
        S = Session(kind)
        b12(g, S, kind, t, s0, k % 4 == 0)
        yield S


def overflows(g, cs):
    """tags in which exactly one numeric field has too many digits, for every partition value and field"""
    r = g.r
    header, size, fields = LAYOUT[cs]
    f = r.randrange(8)
    if not any(k == "part" for k, x in fields):
        return
    x = [x for k, x in fields if k == "part"][0]
    for P in range(7):
        M, L = PARTITION["company"][P]
        N, K = PARTITION[x][P]
        tail = "".join({"int": lambda w: any_bits(r, w), "zero": lambda w: "0" * w, "nstr": lambda w: g.bits(int("1" + g.digits(5)), w),
                        "fix2": lambda w: g.bits(r.randrange(100), 7), "str": lambda w: g.chars7(w // 7, False)}[k](w)
                       for k, w in fields[2:])
        head = g.bits(header, 8) + g.bits(f, 3) + g.bits(P, 3)
        ref = lambda: g.bits(r.randrange(min(10 ** K, 2 ** N)), N)
        for v in (10 ** L, 2 ** M - 1, r.randrange(10 ** L, 2 ** M)):
            yield head + g.bits(v, M) + ref() + tail
        if K and 10 ** K < 2 ** N:
            for v in (10 ** K, 2 ** N - 1, r.randrange(10 ** K, 2 ** N)):
                yield head + g.bits(r.randrange(10 ** L), M) + g.bits(v, N) + tail
    good = head + g.bits(r.randrange(10 ** L), M) + ref() + tail
    yield good[:11] + "111" + good[14:]


def any_bits(r, w):
    return "".join(r.choice("01") for _ in range(w))


def bad_codes(g, cs):
    """tags of whose characters exactly one is not permitted, at every place"""
    r = g.r
    header, size, fields = LAYOUT[cs]
    for k, x in fields:
        if k in ("str", "parts"):
            top = x // 7 if k == "str" else 18
            for m in range(1, top + 1):
                c = next(c for c, _ in g.grid(SCHEME_OF[cs], cs, [12]))
                c[-1] = "".join(r.choice(GS_ALL) for _ in range(m))
                t = g.lay(cs, r.randrange(8), c)
                at = len(t) - x if k == "str" else 14 + PARTITION["company"][0][0]
                for i in {m - 1, r.randrange(m), 0}:
                    bad = r.choice([v for v in range(1, 128) if chr(v) not in GS_ALL])
                    yield t[:at + 7 * i] + g.bits(bad, 7) + t[at + 7 * i + 7:]
                if m < top - 1:     # a character after the end
                    i = r.randrange(m + 1, top)
                    yield t[:at + 7 * i] + g.bits(ord(r.choice(GS_ALL)), 7) + t[at + 7 * i + 7:]


def c13(g, n):
    r = g.r
    for p in range(passes(n)):
        for cs in TAGCS:
            if cs not in LAYOUT:
                continue
            s = api.CODING[cs][0]
            for t in list(overflows(g, cs)) + list(bad_codes(g, cs)):
                S = Session()
                decode_all(g, S, s, t)
                yield S
            t = g.lay(cs, some_filter(g, s), one_of(g, s, cs))
            yield from batches((op + k, s if op == "f" else "", [x]) for k, y in (("bin", t), ("hex", g.to_hex(t)))
                               for x in g.decorated(y) for op in ("f", "p_"))
            S = Session()
            for m in range(len(t)):     # every shorter tag
                x = t[:m]
                S.call("fbin", s, [x])
                S.call("p_bin", "", [x])
                if m % 4 == 0:
                    S.call("fhex", s, [g.to_hex(x)])
                    S.call("p_hex", "", [g.to_hex(x)])
                if m % 8 == 0:
                    S.call("fb64", s, [g.to_b64(x)])
                    S.call("p_b64", "", [g.to_b64(x)])
                if len(S) > 40:
                    yield S
                    S = Session()
            yield S
            S = Session()
            for h in range(256):        # every other header
                x = g.bits(h, 8) + t[8:]
                S.call("fbin", s, [x])
                if len(S) > 40:
                    yield S
                    S = Session()
            yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        t = g.tag_bits(cs, wild=.45)
        S = Session()
        k2 = r.randrange(10)
        if k2 <= 2:     # too short
            m = r.choice((len(t) - 1, len(t) - 2, len(t) - r.randrange(1, 20), r.randrange(len(t)), 8, 7, 9, 58, 96, 0))
            t = t[:max(0, min(m, len(t)))]
        elif k2 == 3:
            s = r.choice(api.TAG_SCHEMES)
        elif k2 == 4:   # one field flipped at random
            i = r.randrange(len(t))
            w = r.choice((1, 3, 6, 7, 8))
            t = t[:i] + "".join(r.choice("01") for _ in t[i:i + w]) + t[i + w:]
        elif k2 >= 7:
            t += g.trailing(len(t))
        if t and k2 < 9:
            decode_all(g, S, s, t)
        else:
            S.call("fbin", s, [t])
            S.call("p_bin", "", [t])
        if k % 5 == 0:
            for op, x, alphabet in (("bin", t, ["2", "a", " ", "\n", "-", "_", "٠", "１"]),
                                    ("hex", g.to_hex(t), ["G", "g", " ", "\n", "-", "_", "x", "١", "."])):
                i = r.randrange(len(x) + 1)
                y = r.choice((x[:i] + r.choice(alphabet) + x[i + 1:], x[:i] + r.choice(alphabet) + x[i:]))
                S.call("f" + op, s, [y])
                S.call("p_" + op, "", [y])
        yield S


def c15(g, n):
    """equality between instances obtained along different routes"""
    r = g.r
    for p in range(passes(n)):
        for s in api.SCHEMES:           # identities that differ in one character, at every place
            every = list(g.grid(s))
            for c in (max((c for c, _ in every), key=lambda c: len("".join(c))), r.choice(every)[0]):
                S = Session()
                i = S.call("new", s, [g.render(s, c)])
                if not S.inst(i):
                    continue
                for a in range(len(c)):
                    for b in range(len(c[a])):
                        x = r.choice([v for v in (DIGITS if c[a][b].isdigit() else DIGITS + "ABZ") if v != c[a][b]])
                        y = c[a][b].swapcase()
                        for v in {x, y if y != c[a][b] and r.random() < .5 else x}:
                            d = c[:a] + [c[a][:b] + v + c[a][b + 1:]] + c[a + 1:]
                            j = S.call("new", s, [g.render(s, d)])
                            if S.inst(j):
                                S.call("eq", h=[i, j])
                                S.call("ne", h=[j, i])
                    yield S
                    S = Session()
                    i = S.call("new", s, [g.render(s, c)])
    for k in range(n + more(g, n)):
        s = turn(g, api.SCHEMES, k, n)
        c = g.components(s)
        S = Session()
        got = []
        variants = [c]
        d = list(c)      # a close relative
        j = r.randrange(len(c))
        if d[j] and r.random() < .7:
            i = r.randrange(len(d[j]))
            x = r.choice(DIGITS) if d[j][i].isdigit() else r.choice((d[j][i].swapcase(), "A", "0", d[j][i]))
            d[j] = d[j][:i] + x + d[j][i + 1:]
        elif s in TOTAL and len(c[0]) < 12:
            d[0], d[1] = c[0] + c[1][:1], c[1][1:]   # same digits, split elsewhere
        variants.append(d)
        e = list(c)      # one character more or less
        j = r.randrange(len(c))
        e[j] = r.choice((e[j] + "0", e[j] + "A", e[j][:-1], "0" + e[j], e[j][1:], e[j] + e[j][-1:], e[j].rstrip("0"), e[j].lstrip("0")))
        variants.append(e)
        if r.random() < .4:
            s2 = r.choice([x for x in api.SCHEMES if x in TOTAL] or [s])
            variants.append((s2, g.components(s2)))
            if s in TOTAL and s2 in TOTAL and TOTAL[s] == TOTAL[s2]:
                variants.append((s2, c[:len(variants[-1][1])] if len(c) >= len(variants[-1][1]) else variants[-1][1]))
        for v in variants:
            vs, vc = v if isinstance(v, tuple) else (s, v)
            i = S.call("new", vs, [g.render(vs, vc)])
            if not S.inst(i):
                continue
            got.append(i)
            routes = ["epc", "p_uri"] + ["fele"] * (vs in api.ELEMENT_SCHEMES) + ["fgtin"] * (vs == "SGTIN") + \
                ["tag", "bin", "hex", "b64"] * bool(api.CODING_OF[vs])
            for route in r.sample(routes, min(3, len(routes))):
                if route in ("epc",):
                    x = S.call("epc", vs, [S.res(i)])
                elif route == "p_uri":
                    x = S.call("p_uri", "", [S.res(i)])
                elif route == "fele":
                    e = S.call("ele", on=i)
                    x = S.call("fele", vs, [S.res(e)], [len(vc[0])]) if S.ok(e) else e
                elif route == "fgtin":
                    e = S.call("gtin", on=i, n=[0])
                    x = S.call("fgtin", "SGTIN", [S.res(e), vc[2]], [len(vc[0])]) if S.ok(e) else e
                else:
                    e = S.call(route, on=i, cs=r.choice(api.CODING_OF[vs]), f=some_filter(g, vs))
                    x = S.call(r.choice(("f", "p_")) + route, vs, [S.res(e)]) if S.ok(e) else e
                if S.inst(x):
                    got.append(x)
        for i in got:
            if r.random() < .3:
                methods(g, S, i, few=True)
        pairs = [(a, b) for a in got for b in got]
        r.shuffle(pairs)
        for a, b in pairs[:14]:
            S.call(r.choice(("eq", "ne")), h=[a, b])
        for i in got[:2]:
            for j in r.sample(range(len(api.FOREIGN)), 3):
                S.call(r.choice(("eqx", "nex")), h=[i], n=[j])
        yield S


PAT = "urn:epc:idpat:"
PAT_SCHEMES = [s for s in api.SCHEMES if s not in ("LGTIN", "BIC", "IMOVN")]
WILD = ("SGTIN", "SGLN", "GRAI", "GDTI", "GIAI", "GINC")


def b16(S, t):
    """key of a pattern, with the identity of the same text as reference if there is one"""
    x = t[len(PAT):].split(":", 1) if t.startswith(PAT) else ()
    ref = None
    for s in PAT_SCHEMES:
        if len(x) == 2 and x[0] == s.lower() and s in api.KEYED_SCHEMES:
            j = S.call("new", s, [URI_PREFIX[s] + x[1]])
            if S.inst(j):
                ref = S.call("key", on=j, n=[0])
    S.call("k_any", "", [t], [0, 0], h=[ref] if ref else [])


def c16(g, n):
    r = g.r
    for p in range(passes(n)):
        for s in PAT_SCHEMES:
            c = one_of(g, s)
            texts = [PAT + s.lower() + ":" + g.render(s, c)[len(URI_PREFIX[s]):], PAT + s.lower() + ":" + ".".join(c[:-1] + ["*"])]
            for t in texts:
                S = Session()
                for x in g.decorated(t):
                    if x.startswith(PAT):
                        b16(S, x)
                yield S
    for s, c in grid(g, n, [s for s in PAT_SCHEMES if s in api.KEYED_SCHEMES]):
        S = Session()
        i = S.call("new", s, [g.render(s, c)])
        q = S.call("key", on=i, n=[0]) if S.inst(i) else None
        if q:
            S.call("k_any", "", [PAT + s.lower() + ":" + g.render(s, c)[len(URI_PREFIX[s]):]], [0, 0], h=[q])
            w = PAT + s.lower() + ":" + ".".join(c[:-1] + ["*"])
            if s in ("SGTIN", "SGLN"):
                S.call("k_any", "", [w], [0, 0], h=[q])
            elif s in WILD:
                j = S.call("new", s, [g.render(s, c[:-1] + ["1"])])
                if S.inst(j):
                    S.call("k_any", "", [w], [0, 0], h=[S.call("key", on=j, n=[0])])
            else:
                S.call("k_any", "", [w], [0, 0])
        yield S
    for k in range(n + more(g, n)):
        s = turn(g, PAT_SCHEMES, k, n) if k % 3 else WILD[(k // 3) % len(WILD)]
        c = gtin_components(g, s) if s == "SGTIN" and r.random() < .6 else g.components(s)
        m = r.choice([0] + list(api.GTIN_LENGTHS)) if s == "SGTIN" else 0
        S = Session()
        body = [g.render(s, c)[len(URI_PREFIX[s]):]][0]
        i = S.call("new", s, [g.render(s, c)])
        q = S.call("key", on=i, n=[m]) if S.inst(i) and s in api.KEYED_SCHEMES else None
        S.call("k_any", "", [PAT + s.lower() + ":" + body], [0, m], h=[q] if q else [])
        if s in WILD:
            w = PAT + s.lower() + ":" + ".".join(c[:-1] + ["*"])
            if s in ("SGTIN", "SGLN"):
                S.call("k_any", "", [w], [0, m], h=[q] if q else [])
                j = S.call("new", s, [g.render(s, c[:-1] + [g.serial(20)])])
                q2 = S.call("key", on=j, n=[m]) if S.inst(j) else None
                if q2:
                    S.call("k_any", "", [w], [0, m], h=[q2])
            else:
                j = S.call("new", s, [g.render(s, c[:-1] + [r.choice(DIGITS + "AZaz")])])
                if S.inst(j):
                    q2 = S.call("key", on=j, n=[0])
                    S.call("k_any", "", [w], [0, 0], h=[q2])
        # wildcards elsewhere, by number and position
        cc = [c[x] for x in range(len(c))]
        mask = r.randrange(1, 2 ** len(cc))
        cc = ["*" if mask >> x & 1 else y for x, y in enumerate(cc)]
        if any(x == "*" for x in cc[:-1]) or s not in WILD:
            S.call("k_any", "", [PAT + s.lower() + ":" + ".".join(cc)], [0, m])
            u = ["*" if x == "*" else g.render(s, c)[len(URI_PREFIX[s]):].split(".", len(c) - 1)[z] for z, x in enumerate(cc)]
            S.call("k_any", "", [PAT + s.lower() + ":" + ".".join(u)], [r.choice((0, 7)), m])
        if k % 4 == 0:
            # malformed patterns
            b = g.near_uri(s)
            t = PAT + s.lower() + ":" + b.split(":", 4)[-1] if b.count(":") >= 4 else PAT + b
            t = g.mutate(t) if r.random() < .3 else t
            if t.startswith(PAT):
                b16(S, t)
        yield S


def b17(S, s, t, i):
    if S.inst(i):
        header = int(t[:8], 2)
        own = [c for c, v in LAYOUT.items() if v[0] == header]
        if own and SCHEME_OF[own[0]] == s:
            w = LAYOUT[own[0]][2][0]
            f = int(t[8:8 + w[1]], 2) if w[0] == "filter" else 0
            if f in (api.FILTER.get(s) or {0: 0}):
                b = S.call("bin", on=i, cs=own[0], f=f)
                if S.ok(b):
                    S.call("fbin", s, [S.res(b)], h=[b])


def c17(g, n):
    r = g.r
    for s, cs, c, f in tag_grid(g, n):
        if cs in LAYOUT:
            S = Session()
            t = g.lay(cs, f, c)
            i = S.call("fbin", s, [t])
            b17(S, s, t, i)
            yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        for _ in range(6):
            S = Session()
            t = g.tag_bits(cs, wild=r.choice((.1, .3, .6)))
            x = r.randrange(5)
            if x == 0:
                i = r.randrange(8, len(t))
                t = t[:i] + "".join(r.choice("01") for _ in t[i:i + 14]) + t[i + 14:]
            elif x == 1:
                t = t[:max(8, len(t) - r.randrange(1, 60))]
            elif x == 2:
                t = t[:r.randrange(8, len(t))] + "".join(r.choice("01") for _ in range(220))
            if x != 1:
                t += g.trailing(len(t))
            i = S.call("fbin", s, [t])
            if S.inst(i):
                break
        b17(S, s, t, i)
        yield S


def b18(S, i, op, cs, f, ecs, ef, st, ff):
    q = S.call(op, on=i, cs=ecs, f=ef)
    S.call(op, on=i, cs=cs, f=f, n=[st, ff], h=[q])


ONLY = ("ADI", "GID", "GSRN", "GSRNP", "SGCN", "SSCC", "USDOD")     # one coding scheme
FILTER_FIRST = ("ADI", "SGCN", "SSCC", "USDOD")


def c18(g, n):
    r = g.r
    for k in range(n + more(g, n)):
        s = turn(g, api.SCHEMES, k, n)
        cs = r.choice(api.CODING_OF[s]) if api.CODING_OF[s] else ""
        c = fitting(g, s, cs) if cs and r.random() < .8 else g.components(s)
        if s in ("SGTIN", "LGTIN") and r.random() < .3:
            c = gtin_components(g, s)
        S, i = open_identity(g, s, c)
        if not S.inst(i):
            yield S
            continue
        L = len(c[0])
        if cs:
            f = some_filter(g, s)
            for op in ("tag", "bin", "hex", "b64"):
                st = r.choice((0, 4)) | (r.random() < .5 and s in ONLY) | 2 * (r.random() < .5 and s in ("GSRN", "GSRNP"))
                if s != "GID" and r.random() < .2:
                    st = 8
                b18(S, i, op, cs, f, cs, 0 if st & 2 else f, st, int(s in FILTER_FIRST or (s == "ITIP" and op != "tag")))
        if s in ("SGTIN", "LGTIN"):
            for op in ("key", "gtin"):
                if op == "key" or hasattr(api.CLASS[s], "gtin"):
                    S.call(op, on=i, n=[0], h=[S.call(op, on=i, n=[14])])
        if s in api.ELEMENT_SCHEMES:
            e = S.call("ele", on=i)
            if S.ok(e):
                t = S.res(e)
                m = r.choice((L, L, r.randrange(0, 15)))
                S.call("fele", s, [t], [m, 1], h=[S.call("fele", s, [t], [m])])
                S.call("p_ele", "", [t], [m, 1], h=[S.call("p_ele", "", [t], [m])])
                if s in api.KEYED_SCHEMES:
                    S.call("k_any", "", [t], [L, 0, 1], h=[S.call("k_any", "", [t], [L, 0])])
        if s in api.KEYED_SCHEMES:
            t = S.res(i)
            S.call("k_any", "", [t], [0, 0, 1], h=[S.call("k_any", "", [t], [0, 0])])
        yield S


MEANING = {
    "SGTIN": {0: "ALL_OTHERS", 1: "POS_ITEM", 2: "FULL_CASE", 4: "INNER_PACK", 6: "UNIT_LOAD", 7: "COMPONENT"},
    "SSCC": {0: "ALL_OTHERS", 2: "FULL_CASE", 6: "UNIT_LOAD"},
    "GDTI": {0: "ALL_OTHERS", 1: "TRAVEL_DOCUMENT"},
    "GIAI": {0: "ALL_OTHERS", 1: "RAIL_VEHICLE"},
    "USDOD": {0: "PALLET", 1: "CASE", 2: "UNIT_PACK"},
    "ADI": {0: "ALL_OTHERS", 1: "ITEM_OTHER", 2: "CARTON", 6: "PALLET", 10: "SEAT_BELTS", 14: "LIFE_VESTS", 17: "AVIONICS",
            20: "OTHER_ROTABLES", 24: "PASSENGER_SEATS", 57: "DOCUMENTATION", 58: "TOOLS"},
}
# names that calls choose at random (the model goes through all)
FILTER_NAME = {s: list(MEANING.get(s, {0: "ALL_OTHERS"}).values()) + (["RESERVED_3"] if s != "SGTIN" else ["RESERVED_5"])
               for s in api.TAG_SCHEMES if s != "GID"}


def c19(g, n):
    r = g.r
    for s in api.TAG_SCHEMES:
        S = Session("tables")
        S.call("hdrs", s)
        S.call("names", s)
        yield S
    for k in range(n + more(g, n)):
        cs = turn(g, TAGCS, k, n)
        s = api.CODING[cs][0]
        S, i = open_identity(g, s, fitting(g, s, cs))
        if S.inst(i):
            name = cs.upper().replace("-", "_")
            for op in ("tag", "bin", "hex", "b64"):
                S.call(op, on=i, a=[name, FILTER_NAME[s][k // len(TAGCS) % len(FILTER_NAME[s])] if s in FILTER_NAME else ""])
        yield S


SCRIPTS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
