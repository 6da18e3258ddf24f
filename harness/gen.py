"""Generation of inputs.  Nothing here decides anything: texts and bits are
made to lie on and around the boundaries of the notations; what they mean and
what the library has to do with them is decided by the specification."""
import ast
import glob
import os
import random

from . import api, sources

UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
GS_PLAIN = DIGITS + UPPER + UPPER.lower() + "!'()*+,-.:;=_"
GS_ESC = "\"%&/<>?"
GS_ALL = GS_PLAIN + GS_ESC
CPR_ALL = DIGITS + UPPER + "-#/"
ADI_ALL = DIGITS + UPPER + "-/"
CAGE = "".join(ch for ch in DIGITS + UPPER if ch not in "IO")

TOTAL = {"SGTIN": 13, "SSCC": 17, "SGLN": 12, "GRAI": 12, "GSRN": 17, "GSRNP": 17, "GDTI": 12,
         "SGCN": 12, "GSIN": 16, "ITIP": 13, "UPUI": 13, "PGLN": 12, "LGTIN": 13}
SERIAL_MAX = {"SGTIN": 20, "SGLN": 20, "GRAI": 16, "GDTI": 17, "ITIP": 20, "UPUI": 28, "LGTIN": 20,
              "SGCN": 12, "CPI": 12}
SERIAL_BITS = {"SGTIN": 38, "SGLN": 41, "GRAI": 38, "GDTI": 41, "ITIP": 38, "CPI": 40, "SGCN": 41,
               "UPUI": 38, "LGTIN": 38}
ESCAPED = {"gs": GS_ESC, "cpr": "/#", "adi": "/#"}

URI_PREFIX = {s: ("urn:epc:class:" if s == "LGTIN" else "urn:epc:id:") + s.lower() + ":" for s in api.SCHEMES}

PARTITION = {  # company bits and digits; reference bits and digits by table
    "company": [(40, 12), (37, 11), (34, 10), (30, 9), (27, 8), (24, 7), (20, 6)],
    "gtin": [(4, 1), (7, 2), (10, 3), (14, 4), (17, 5), (20, 6), (24, 7)],
    "grai": [(4, 0), (7, 1), (10, 2), (14, 3), (17, 4), (20, 5), (24, 6)],
    "gln": [(1, 0), (4, 1), (7, 2), (11, 3), (14, 4), (17, 5), (21, 6)],
    "sscc": [(18, 5), (21, 6), (24, 7), (28, 8), (31, 9), (34, 10), (38, 11)],
    "giai96": [(42, 13), (45, 14), (48, 15), (52, 16), (55, 17), (58, 18), (62, 19)],
    "giai202": [(148, 18), (151, 19), (154, 20), (158, 21), (161, 22), (164, 23), (168, 24)],
    "cpi96": [(11, 3), (14, 4), (17, 5), (21, 6), (24, 7), (27, 8), (31, 9)],
}
LAYOUT = {
    "sgtin-96": (48, 96, [("filter", 3), ("part", "gtin"), ("int", 38)]),
    "sgtin-198": (54, 198, [("filter", 3), ("part", "gtin"), ("str", 140)]),
    "sscc-96": (49, 96, [("filter", 3), ("part", "sscc"), ("zero", 24)]),
    "sgln-96": (50, 96, [("filter", 3), ("part", "gln"), ("int", 41)]),
    "sgln-195": (57, 195, [("filter", 3), ("part", "gln"), ("str", 140)]),
    "grai-96": (51, 96, [("filter", 3), ("part", "grai"), ("int", 38)]),
    "grai-170": (55, 170, [("filter", 3), ("part", "grai"), ("str", 112)]),
    "giai-96": (52, 96, [("filter", 3), ("part", "giai96")]),
    "giai-202": (56, 202, [("filter", 3), ("parts", "giai202")]),
    "gid-96": (53, 96, [("int", 28), ("int", 24), ("int", 36)]),
    "gsrn-96": (45, 96, [("filter", 3), ("part", "sscc"), ("zero", 24)]),
    "gsrnp-96": (46, 96, [("filter", 3), ("part", "sscc"), ("zero", 24)]),
    "gdti-96": (44, 96, [("filter", 3), ("part", "gln"), ("int", 41)]),
    "gdti-174": (62, 174, [("filter", 3), ("part", "gln"), ("str", 119)]),
    "cpi-96": (60, 96, [("filter", 3), ("part", "cpi96"), ("int", 31)]),
    "cpi-var": (61, 0, [("filter", 3), ("part6", ""), ("int", 40)]),
    "sgcn-96": (63, 96, [("filter", 3), ("part", "gln"), ("nstr", 41)]),
    "itip-110": (64, 110, [("filter", 3), ("part", "gtin"), ("fix2", 7), ("fix2", 7), ("int", 38)]),
    "itip-212": (65, 212, [("filter", 3), ("part", "gtin"), ("fix2", 7), ("fix2", 7), ("str", 140)]),
    "usdod-96": (47, 96, [("filter", 4), ("cage8", 48), ("int", 36)]),
    "adi-var": (59, 0, [("filter", 6), ("cage6", 36), ("six", 32), ("six", 30)]),
}
SCHEME_OF = {cs: cs.split("-")[0].upper() for cs in LAYOUT}


def check_digit(d):
    s = sum((ord(ch) - 48) * (3 if (len(d) - i) % 2 else 1) for i, ch in enumerate(d))
    return str((10 - s % 10) % 10)


def esc(t, kind="gs"):
    return "".join("%%%02X" % ord(ch) if ch in ESCAPED[kind] else ch for ch in t)


def mined_constants():
    """literals of the current sources: values a change may make special"""
    nums, texts = set(), set()
    for p in glob.glob(os.path.join(api.REPO, "epcpy", "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(p, encoding="utf8").read())
        except SyntaxError:
            continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant):
                if isinstance(x.value, bool):
                    continue
                if isinstance(x.value, int) and 0 <= x.value < 10 ** 25:
                    nums.add(x.value)
                elif isinstance(x.value, str) and 0 < len(x.value) <= 20 and "\n" not in x.value:
                    texts.add(x.value)
    more = set()
    for v in nums:
        more |= {v + 1, max(0, v - 1)}
        if v <= 64:
            more |= {2 ** v, 2 ** v - 1, 10 ** min(v, 24), 10 ** min(v, 24) - 1}
    return sorted(nums | more), sorted(texts)


class Gen:
    def __init__(self, seed, salt=""):
        self.r = random.Random("%s/%s" % (seed, salt))
        self.nums, self.texts = mined_constants()
        self.gs_texts = [t for t in self.texts if all(ch in GS_ALL for ch in t)]
        nums, words, self.focus, self.changed = sources.news()
        near = {v for x in nums for v in (x - 1, x, x + 1) if v >= 0}
        near |= {v for x in nums if x <= 64 for y in (2 ** x, 10 ** min(x, 24)) for v in (y - 1, y)}
        self.new_nums = sorted(near)
        self.new_digits = sorted({str(x) for x in near if x > 9} | {w for w in words if w.isascii() and w.isdigit()})
        self.new_words = sorted(set(words) | {str(x) for x in nums})

    # -- pieces ----------------------------------------------------------
    def news(self, n, alphabet, among, most=0):
        """n characters (0: nothing else) with something new from the sources in them; nothing if there is nothing"""
        r = self.r
        if not among or r.random() < .75:
            return ""
        w = "".join(ch for ch in r.choice(among) if ch in alphabet)[:n or most]
        n = n or len(w)
        i = r.choice((0, n - len(w), r.randrange(n - len(w) + 1)))
        return w and "".join(r.choice(alphabet) for _ in range(i)) + w + "".join(r.choice(alphabet) for _ in range(n - len(w) - i))

    def digits(self, n):
        r = self.r
        if n <= 0:
            return ""
        t = self.news(n, DIGITS, self.new_digits)
        if t:
            return t
        k = r.randrange(11)
        if k == 0:
            return "0" * n
        if k == 1:
            return "9" * n
        if k == 2:
            return "0" * (n - 1) + r.choice(DIGITS)
        if k == 3:
            return "1" + "0" * (n - 1)
        if k == 4:
            m = r.randrange(n + 1)
            return "0" * m + "".join(r.choice(DIGITS) for _ in range(n - m))
        if k == 5:
            m = r.randrange(n + 1)
            return "".join(r.choice(DIGITS) for _ in range(n - m)) + "0" * m
        if k == 6:
            v = 2 ** r.randrange(1, max(2, int(n * 3.33))) + r.choice((-1, 0, 1))
            return str(v % 10 ** n).zfill(n)
        if k == 7:
            return str(r.choice(self.nums) % 10 ** n).zfill(n)
        if k == 8:
            return r.choice(DIGITS) * n
        return "".join(r.choice(DIGITS) for _ in range(n))

    def number(self, bits=None):
        """numeral without leading zeros, near powers of two and of ten"""
        r = self.r
        if self.new_nums and r.random() < .2:
            return str(r.choice(self.new_nums))
        k = r.randrange(9)
        if k == 0:
            return r.choice(["0", "1", "9", "10"])
        if k == 1 and bits:
            return str(2 ** bits - 1)
        if k == 2 and bits:
            return str(r.randrange(2 ** bits))
        if k == 3:
            return str(max(0, 2 ** r.randrange(0, 64) + r.choice((-1, 0, 1))))
        if k == 4:
            return str(max(0, 10 ** r.randrange(0, 14) + r.choice((-1, 0, 1))))
        if k == 5:
            return str(r.choice(self.nums))
        if k == 6 and bits:
            return str(max(0, 2 ** bits + r.choice((-2, -1, 0, 1))))
        if k == 7 and bits:
            return str(r.randrange(2 ** r.randrange(1, bits + 1)))
        return str(r.randrange(10 ** r.randrange(1, 13)))

    AILIKE = ["(21)", "(01)", "(10)", "(254)", "(235)", "(8011)", "(8010)", "(00)", "(414)", "(8004)",
              "(253)", "(255)", "(8003)", "(17)", "()", "(", ")", "(21", "21)"]
    ODD = ["*", ".", ":", "..", "::", "%", "%%", "%2F", "%25", "%2f", "/", "?", "<a>", "&amp", "a.b", "0.", ".0",
           "urn:epc:id:", "tag:", "-", "+", "_", "=", ";", ",", "'", "\"", "!", "0", "00", "01", "007", "1e5", "0x1F",
           "0b1", "1_0", "+1", "-1", "a", "Z", "z", "A", "%3F%3F"]

    def serial(self, maxlen, bits=None):
        """raw text of serial characters, 1..maxlen characters"""
        r = self.r
        t = self.news(r.choice((0, r.randrange(1, maxlen + 1))), r.choice((DIGITS, GS_ALL)), self.new_words, maxlen)
        if t:
            return t
        k = r.randrange(16)
        if k <= 3:
            t = self.number(bits)
        elif k == 4:
            t = self.digits(r.randrange(1, maxlen + 1))
        elif k == 5:
            t = r.choice(GS_ALL)
        elif k == 6:
            t = "".join(r.choice(GS_ESC) for _ in range(r.choice((1, 2, maxlen))))
        elif k == 7:
            t = r.choice(self.AILIKE) + "".join(r.choice(DIGITS) for _ in range(r.randrange(6)))
        elif k == 8:
            t = "".join(r.choice(DIGITS) for _ in range(r.randrange(5))) + r.choice(self.AILIKE) + r.choice(["", "1", "x"])
        elif k == 9:
            t = r.choice(self.ODD) + r.choice(["", r.choice(self.ODD)])
        elif k == 10 and self.gs_texts:
            t = r.choice(self.gs_texts)
        elif k == 11:
            t = "".join(r.choice(GS_ALL) for _ in range(maxlen))
        elif k == 12:
            t = "".join(r.choice(GS_PLAIN) for _ in range(maxlen - 1)) + r.choice(GS_ALL)
        elif k == 13:
            t = "".join(r.choice(DIGITS + UPPER) for _ in range(r.randrange(1, maxlen + 1)))
        else:
            t = "".join(r.choice(GS_ALL if r.random() < .3 else GS_PLAIN) for _ in range(r.randrange(1, maxlen + 1)))
        t = "".join(ch for ch in t if ch in GS_ALL)[:maxlen]
        return t or "0"

    def limited(self, alphabet, lo, hi):
        r = self.r
        n = r.choice((lo, hi, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)))
        t = self.news(n, alphabet, self.new_words)
        if t:
            return t
        k = r.randrange(6)
        if k == 0 and n:
            return r.choice(alphabet) * n
        if k == 1:
            return "".join(r.choice(DIGITS) for _ in range(n))
        if k == 2:
            rare = "".join(ch for ch in alphabet if not ch.isalnum())
            return "".join(r.choice(rare or alphabet) for _ in range(n))
        return "".join(r.choice(alphabet) for _ in range(n))

    def cage(self):
        r = self.r
        n = r.choice((5, 6))
        return r.choice((self.limited(CAGE, n, n), "".join(r.choice(CAGE) for _ in range(n)), "0" * n, "Z" * n))

    # -- identities ------------------------------------------------------
    def components(self, s, L=None):
        """components, resolved, of a (nearly always valid) identity of s"""
        r = self.r
        if L is None:
            L = r.randrange(6, 13)
        cp = self.digits(L)
        if s in ("SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"):
            return [cp, self.digits(TOTAL[s] - L)]
        if s in ("SGTIN", "SGLN", "GRAI", "GDTI", "UPUI", "LGTIN"):
            return [cp, self.digits(TOTAL[s] - L), self.serial(SERIAL_MAX[s], SERIAL_BITS[s])]
        if s == "ITIP":
            return [cp, self.digits(13 - L), self.digits(2), self.digits(2), self.serial(20, 38)]
        if s == "SGCN":
            return [cp, self.digits(12 - L), self.digits(r.randrange(1, 13))]
        if s in ("GIAI", "GINC"):
            if r.random() < .3:
                w, k = PARTITION["giai96"][12 - L]
                t = r.choice((str(2 ** w - 1), str(2 ** w), "9" * k, "9" * (k + 1), "1" + "0" * k, self.number(w), "0"))
                if len(t) <= 30 - L:
                    return [cp, t]
            return [cp, self.serial(30 - L, 42)]
        if s == "CPI":
            if r.random() < .4:
                w, k = PARTITION["cpi96"][12 - L]
                t = r.choice((str(2 ** w - 1), str(2 ** w), "9" * k, "9" * (k + 1), "1" + "0" * k, self.number(w), "0",
                              self.digits(r.randrange(1, k + 2))))[:30 - L]
            else:
                t = self.limited(CPR_ALL, 1, 30 - L)
            q = r.choice((self.number(31), self.number(40), str(2 ** 31 - 1), str(2 ** 31), "9" * 12, str(10 ** 11)))
            return [cp, t, q if len(q) <= 12 else q[:12]]
        if s == "GID":
            return [str(int(self.number(w)) % 2 ** w) for w in (28, 24, 36)]
        if s == "USDOD":
            return [self.cage(), str(int(self.number(36)) % 2 ** 36)]
        if s == "ADI":
            ser = self.limited(ADI_ALL, 1, 29 if r.random() < .5 else 30)
            if r.random() < .5 and len(ser) < 30:
                ser = "#" + ser
            return [self.cage(), self.limited(ADI_ALL, 0, 32), ser]
        if s == "BIC":
            return ["".join(r.choice("ABCDEFGHJKLMNPQRSTUVWXYZ") for _ in range(3)) + r.choice("JUZ") + self.digits(7)]
        if s == "IMOVN":
            return [self.digits(7)]
        raise ValueError(s)

    KIND = {"CPI": "cpr", "ADI": "adi"}

    def render(self, s, comp):
        k = self.KIND.get(s, "gs")
        return URI_PREFIX[s] + ".".join(esc(c, k) for c in comp)

    def uri(self, s, L=None):
        return self.render(s, self.components(s, L))

    # -- grids -----------------------------------------------------------
    def numeral(self, m, bits=None):
        """numeral of m digits without leading zero that fits the bits if any of that length does"""
        lo, hi = (10 ** (m - 1) if m > 1 else 0), 10 ** m - 1
        t = self.news(m, DIGITS, self.new_digits)
        if t and str(int(t)) == t and (not bits or int(t) < 2 ** bits):
            return t
        if bits and lo < 2 ** bits:
            hi = min(hi, 2 ** bits - 1)
        return str(self.r.choice((lo, hi, self.r.randint(lo, hi), self.r.randint(lo, hi), self.r.randint(lo, hi))))

    def letters(self, m, alphabet):
        t = self.news(m, alphabet, self.new_words)
        if t:
            return t
        rare = "".join(ch for ch in alphabet if not ch.isalnum()) or alphabet
        q = self.r.choice((0, .1, .5))
        return "".join(self.r.choice(rare if self.r.random() < q else alphabet) for _ in range(m))

    def plain(self, n):
        return n and self.news(n, DIGITS, self.new_digits) or "".join(self.r.choice(DIGITS) for _ in range(n)) if self.r.random() < .6 else self.digits(n)

    def last(self, s, cs, L, m):
        """a last component of m characters that fits cs if one of that length does; m from 1 on"""
        r = self.r
        if s == "SGCN":
            return self.plain(m)
        if s == "CPI":
            return self.numeral(m, 31 if cs == "cpi-96" else None)
        if s == "ADI":
            return "#" + self.letters(m - 1, ADI_ALL) if m > 1 and r.random() < .4 else self.letters(m, ADI_ALL)
        if s in ("GID", "USDOD"):
            return self.numeral(m, 36)
        if cs == "giai-96":
            return self.numeral(m, PARTITION["giai96"][min(6, max(0, 12 - L))][0])
        if cs and LAYOUT.get(cs, (0, 0, [("", 0)]))[2][-1][0] == "int":
            return self.numeral(m, LAYOUT[cs][2][-1][1])
        return self.letters(m, GS_ALL) if cs or r.random() < .6 else r.choice((self.numeral(m), self.plain(m)))

    def grid(self, s, cs="", lengths=range(6, 13), extra=0, low=1):
        """identities with every length of company prefix and of last component, the latter from low up to
        extra characters more than permitted; (components, running number)"""
        r = self.r
        if s in ("BIC", "IMOVN"):
            for k in range(24):
                yield self.components(s), k
        elif s in ("SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"):
            for L in lengths:
                n = max(0, TOTAL[s] - L)
                for d in DIGITS:
                    t = self.plain(n)
                    yield [self.plain(L), (d + t)[:n] if r.random() < .5 else (t + d)[-n:] if n else ""], L + int(d)
        elif s == "GID":
            for a in range(low, 10 + extra):
                for b in range(low, 12 + extra):
                    yield [self.numeral(a, 28), self.numeral((a + b) % 8 + 1, 24), self.numeral(b, 36)], a + b
        elif s == "USDOD":
            for k in range(4):
                for n in (5, 6):
                    for m in range(low, 12 + extra):
                        yield ["".join(r.choice(CAGE) for _ in range(n)), self.numeral(m, 36) if m else ""], k * 4 + m + n
        elif s == "ADI":
            for a in range(0, 33 + extra):
                for b in range(low, 31 + extra):
                    if (a + b) % 4 == 0 or a > 30 or b > 28 or a == 0 or b <= 1:
                        yield ["".join(r.choice(CAGE) for _ in range(5 + r.randrange(2))), self.letters(a, ADI_ALL),
                               self.last(s, cs, 0, b) if b else ""], 2 * a + b
        else:
            for L in lengths:
                cp = self.plain(L)
                top = SERIAL_MAX.get(s, 30 - L)
                if cs == "giai-96":
                    top = PARTITION["giai96"][12 - L][1]
                elif cs == "giai-202":
                    top = PARTITION["giai202"][12 - L][1]
                for m in range(low, top + extra + 1):
                    if m % 3 == 0:
                        cp = self.plain(L)
                    x = self.last(s, cs, L, m) if m else ""
                    if s in ("GIAI", "GINC"):
                        yield [cp, x], L + m
                    elif s == "CPI":
                        for j in range(low + m % 2, (PARTITION["cpi96"][12 - L][1] if cs == "cpi-96" else 30 - L) + extra + 1, 2):
                            t = self.numeral(j, PARTITION["cpi96"][12 - L][0]) if cs == "cpi-96" and j else self.letters(j, CPR_ALL)
                            yield [cp, t, x], L + m + j
                    elif s == "ITIP":
                        yield [cp, self.plain(max(0, 13 - L)), self.plain(2), self.plain(2), x], L + m
                    else:
                        yield [cp, self.plain(max(0, TOTAL[s] - L)), x], L + m

    WORDS = ["id", "tag", "idpat", "urn", "epc", "class", "raw", "pat", "urn:epc:id:", "urn:epc:tag:", "urn:epc:idpat:", ":", "::", ".", "..", ".*", "*.", "*", "**",
             "%", "%%", "%2", "%2F", "%2f", "%25", "%252F", "%00", "%7F", "%C3", "%A", "(", ")", "()", "(01)", "(21)", "(254)", "(8011)", "(10)", "0x", "0b", "0x1F", "0b1",
             "None", "True", "nan", "inf", "1e5", "1_000", "+1", "-1", "-0", "00", "000", "0.0", "1.0", "&amp;", "&lt;", "<b>", "\"", "\"\"", "''", "/", "//", "?", "??",
             "?a=b", "=", "==", "A==", "a-b", "--", "__", ",", ";", "!", "%s", "%d", "%(a)s", "L", "h", "x", "X", "E", "e"]

    def words(self, s):
        """serials that mean something elsewhere, alone and inside others"""
        w = self.WORDS + [x.lower() for x in api.SCHEMES] + list(LAYOUT) + self.gs_texts
        w = [x for x in dict.fromkeys(w) if all(ch in GS_ALL for ch in x)]
        for k, x in enumerate(w):
            L = 6 + k % 7
            top = SERIAL_MAX.get(s, 30 - L)
            y = (x, "1" + x, x + "1", "a" + x + "z", x + x)[(k + self.r.randrange(2)) % 5]
            c = self.components(s, L)
            c[-1] = (y if len(y) <= top else x)[:top]
            yield c, k

    def lay(self, cs, f, c):
        """bits of components that fit cs; says nothing if they do not"""
        header, size, fields = LAYOUT[cs]
        out, L, rest = self.bits(header, 8), len(c[0]), list(c)
        six = lambda t: "".join(self.bits(ord(ch) & 63, 6) for ch in t)
        for k, x in fields:
            if k == "filter":
                out += self.bits(f, x)
            elif k in ("part", "parts", "part6"):
                P = 12 - L
                out += self.bits(P, 3) + self.bits(int(rest.pop(0)), PARTITION["company"][P][0])
                t = rest.pop(0)
                if k == "part6":
                    out += six(t) + "000000"
                elif k == "parts":
                    out += "".join(self.bits(ord(ch), 7) for ch in t).ljust(PARTITION[x][P][0], "0")
                else:
                    out += self.bits(int(t or 0), PARTITION[x][P][0])
            elif k in ("int", "fix2"):
                out += self.bits(int(rest.pop(0)), x)
            elif k == "zero":
                out += "0" * x
            elif k == "str":
                out += "".join(self.bits(ord(ch), 7) for ch in rest.pop(0)).ljust(x, "0")
            elif k == "nstr":
                out += self.bits(int("1" + rest.pop(0)), x)
            elif k == "cage8":
                out += "".join(self.bits(ord(ch), 8) for ch in rest.pop(0).rjust(6))
            elif k == "cage6":
                out += six(rest.pop(0).rjust(6))
            else:
                out += six(rest.pop(0)) + "000000"
        return out

    # -- near misses -----------------------------------------------------
    WEIRD = ["٠", "१", "１", "²", "é", "\n", " ", "\t", "\x00", " ", "\x85", "﻿", "#", "@",
             "$", "^", "`", "{", "|", "}", "~", "[", "\\", "]", "%", "/", "I", "O", "\U0001d7d8", "\ud800"]

    def mutate(self, t):
        r = self.r
        k = r.randrange(15)
        i = r.randrange(len(t) + 1)
        if k == 0 and t:
            return t[:i - 1] + t[i:] if i else t[1:]
        if k == 1:
            return t[:i] + r.choice(DIGITS + "A.:%(") + t[i:]
        if k == 2:
            return t[:i] + r.choice(self.WEIRD) + t[i:]
        if k == 3 and t:
            i = r.randrange(len(t))
            return t[:i] + r.choice(self.WEIRD + list(DIGITS + ".:*")) + t[i + 1:]
        if k == 4:
            return t[:i]
        if k == 5:
            return t + r.choice(["\n", " ", ".", ":", "0", "\x00", "%", "%2", "%2F", "*", ".0", "\r\n", " "])
        if k == 6:
            return r.choice([" ", "\n", "urn:", "x", "U", "﻿"]) + t
        if k == 7:
            return t.upper()
        if k == 8:
            return t.lower()
        if k == 9:
            j = r.randrange(len(t) + 1)
            i, j = min(i, j), max(i, j)
            return t[:i] + t[j:]
        if k == 10:
            j = r.randrange(len(t) + 1)
            i, j = min(i, j), max(i, j)
            return t[:j] + t[i:j] + t[j:]
        if k == 11 and "." in t:
            p = t.split(".")
            i = r.randrange(len(p))
            k2 = r.randrange(3)
            if k2 == 0:
                del p[i]
            elif k2 == 1:
                p.insert(i, r.choice(["", "0", "1", "*", "A"]))
            else:
                p[i] = r.choice(["", "0", "00", "*", "A", p[i] + "0", p[i][1:], "0" + p[i], p[i] + "A"])
            return ".".join(p)
        if k == 12:
            return t.replace(r.choice([":", ".", "-", "0", "1", "(", ")"]), r.choice(["", ".", ":", "0", "０", "-"]), 1)
        if k == 13 and t:
            i = r.randrange(len(t))
            j = r.randrange(len(t))
            x = list(t)
            x[i], x[j] = x[j], x[i]
            return "".join(x)
        return t[:i] + r.choice(self.ODD + self.AILIKE + (self.texts or ["x"])) + t[i:]

    def decorated(self, t):
        """texts that someone might take for t"""
        r = self.r
        i = r.randrange(1, len(t)) if len(t) > 1 else 0
        out = [w + t for w in (" ", "\n", "\t", "\r", "\ufeff", "\x00", "0x", "0X", "0b", "0B", "+", "-", "_", "'", "\"", "(", "=", "0", "#", "\xa0",
                               "\u2003", "h", "x", "b'", "urn:", "=", "00")]
        out += [t + w for w in (" ", "\n", "\t", "\r\n", "\ufeff", "\x00", "_", "'", "\"", ")", "h", "L", "\xa0", "\u2003", "#", ";", ",", "?", "/", "\x85")]
        out += [t[:i] + w + t[i:] for w in (" ", "\n", "_", "-", "\x00", "\u200b", ",", "\xad", ":")]
        out += [t[:8] + w + t[8:] for w in (" ", "_", "\n")]
        out += ["'" + t + "'", "\"" + t + "\"", "<" + t + ">", " " + t + " ", t + t, t[::-1], t.upper(), t.lower(), t.swapcase(),
                " ".join(t[j:j + 4] for j in range(0, len(t), 4)), "_".join(t[j:j + 8] for j in range(0, len(t), 8))]
        for d in DIGITS:
            if d in t:
                out += [t.replace(d, chr(0x660 + int(d)), 1), t.replace(d, chr(0xff10 + int(d)), 1)]
        return [x for x in dict.fromkeys(out) if x != t]

    def stretched(self, t):
        """t with one run of digits or letters drawn out beyond what integers are read from"""
        import re
        for m in re.finditer("[0-9]+|[A-Za-z]+", t):
            c = m.group()
            for x in ("1" * 5000, "0" * 5000 + c) if c[0].isdigit() else (c + "a" * 5000,):
                yield t[:m.start()] + x + t[m.end():]

    def near_components(self, s):
        """components with one rule bent"""
        r = self.r
        c = self.components(s)
        k = r.randrange(8)
        i = r.randrange(len(c))
        last = len(c) - 1
        if k == 0:
            c[i] = c[i] + r.choice(DIGITS)
        elif k == 1:
            c[i] = c[i][1:]
        elif k == 2:
            c[i] = ""
        elif k == 3 and s in TOTAL:
            L = r.choice((4, 5, 6, 12, 13, 14))
            c[0] = self.digits(L)
            c[1] = self.digits(max(0, TOTAL[s] - L))
        elif k == 4:
            m = SERIAL_MAX.get(s, 31 - len(c[0]) if s in ("GIAI", "GINC") else 30)
            pool = {"CPI": DIGITS, "SGCN": DIGITS, "ADI": ADI_ALL}.get(s, GS_ALL)
            n = r.choice((m, m + 1, m + 2, m - 1))
            c[last] = "".join(r.choice(pool) for _ in range(max(0, n)))
            if s == "CPI":
                c[last] = c[last].lstrip("0")
        elif k == 5:
            c[i] = "0" + c[i]
        elif k == 6:
            j = r.randrange(len(c[i]) + 1)
            c[i] = c[i][:j] + r.choice(["a", "Z", "-", "*", "/", "#", "%", "I", "O", "_", " ", "."]) + c[i][j:]
        else:
            L = r.choice((5, 6, 12, 13))
            c[0] = self.digits(L)
            if s in ("GIAI", "GINC", "CPI"):
                c[1] = "".join(r.choice(DIGITS + "AZ-") for _ in range(r.choice((30 - L, 31 - L, 29 - L))))
        return c

    def near_uri(self, s):
        r = self.r
        if r.random() < .5:
            return self.render(s, self.near_components(s))
        t = self.uri(s)
        k = r.randrange(8)
        if k == 0:      # components unescaped, or escaped too much
            c = self.components(s)
            return URI_PREFIX[s] + ".".join(c)
        if k == 1:
            c = self.components(s)
            j = len(c) - 1
            x = r.choice(GS_ALL)
            c = [esc(y, self.KIND.get(s, "gs")) for y in c]
            c[j] = (c[j] + r.choice(["%%%02x" % ord(x), "%%%02X" % ord(x), "%" + x, "%2", "%", "%G0", "%20", "%00", "%C3%A9",
                                     "%" + r.choice(DIGITS + "ABCDEFabcdefgG") + r.choice(DIGITS + "ABCDEFabcdefgG")]))
            return URI_PREFIX[s] + ".".join(c)
        if k == 2:
            o = r.choice(api.SCHEMES)
            return URI_PREFIX[o] + t[len(URI_PREFIX[s]):]
        if k == 3:
            return r.choice(["urn:epc:idpat:", "urn:epc:tag:", "urn:epc:class:", "urn:epc:id:", "URN:EPC:ID:", "urn:epc:raw:", ""]) + \
                t.split(":", 3)[3]
        t = self.mutate(t)
        if r.random() < .2:
            t = self.mutate(t)
        return t

    JUNK = ["", " ", "0", "1", "urn", "urn:", "urn:epc:", "urn:epc:id:", "urn:epc:id:sgtin", "urn:epc:id:sgtin:", "urn:epc:tag:",
            "urn:epc:tag:sgtin-96:", "urn:epc:idpat:", "urn:epc:idpat:sgtin:", "(01)", "(", "()", "(01", "01", "(00)", "(21)1", "*", ".",
            "..", "...", "....", ":", "%", "\x00", "\ud800", "٠" * 14, "\U0001d7d8" * 14, "30", "3", "0x30", "0011", "00110000",
            "MA==", "MA", "=", "====", "A", "/", "+", "None", "nan", "inf", "-1", "1e400", "\n", "(01)\n(21)"]

    def junk(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return r.choice(self.JUNK)
        if k == 1:
            return "".join(chr(r.choice((r.randrange(128), r.randrange(0x250), r.randrange(0xd800)))) for _ in range(r.randrange(30)))
        if k == 2:
            return r.choice(["0", "1", "9", "A", ".", ":", "%", "(", "x", "01"]) * r.choice((1, 2, 30, 100, 1000, 5000))
        if k == 3:
            return r.choice(self.texts or ["x"])
        if k == 4:
            return "".join(r.choice("0123456789ABCDEFabcdef") for _ in range(r.randrange(80)))
        return "".join(r.choice("01") for _ in range(r.randrange(260)))

    # -- tags ------------------------------------------------------------
    @staticmethod
    def bits(v, w):
        return bin(v)[2:].zfill(w)[-w:] if w else ""

    def field_value(self, w, k=None):
        """value for a field of w bits that has room for k digits"""
        r = self.r
        top = 2 ** w
        lim = 10 ** k if k is not None else top
        c = [0, 1, top - 1, r.randrange(top), r.randrange(top), int(self.number(w)) % top, r.choice(self.nums) % top]
        if k is not None:
            c += [lim - 1, min(lim - 1, top - 1), r.randrange(min(lim, top)), r.randrange(min(lim, top)), lim, lim + 1, lim // 10]
        return r.choice(c) % top

    def chars7(self, n, wild):
        """n seven bit characters as bits"""
        r = self.r
        k = r.randrange(10)
        m = r.choice((n, r.randrange(1, n + 1), r.randrange(1, n + 1), 1))
        t = [ord(r.choice(GS_ALL)) for _ in range(m)]
        if k == 0:
            t = [ord(ch) for ch in self.serial(n)]
        t = t + [0] * (n - len(t))
        if wild:
            j = r.randrange(5)
            if j == 0:
                t[r.randrange(n)] = r.randrange(128)
            elif j == 1:
                t = [0] * n
            elif j == 2:
                t[r.randrange(min(n, m + 2))] = r.choice([32, 35, 36, 64, 91, 92, 93, 94, 96, 123, 124, 125, 126, 127, 1, 10, 0, 42, 46, 37])
            elif j == 3:
                t = [r.randrange(128) for _ in range(n)]
            else:
                t[-1] = r.choice((0, 1, 48, 65))
        return "".join(self.bits(v, 7) for v in t)

    def chars6(self, lo, hi, alphabet, wild):
        r = self.r
        n = r.choice((lo, hi, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)))
        t = [ord(r.choice(alphabet)) & 63 for _ in range(n)]
        if wild:
            j = r.randrange(4)
            if j == 0 and n:
                t[r.randrange(n)] = r.randrange(64)
            elif j == 1:
                t = t + [r.randrange(1, 64) for _ in range(r.randrange(1, 4))]
            elif j == 2:
                t = []
            elif n:
                t[r.randrange(n)] = r.choice([32, 33, 34, 36, 37, 27, 28, 29, 30, 31, 35, 47, 46, 58, 63, 9, 15])
        term = [0]
        if wild and r.random() < .1:
            term = []
        return "".join(self.bits(v, 6) for v in t + term)

    def tag_bits(self, cs, wild=0.25, conform=False):
        """bits of a tag of coding scheme cs; wild: probability per field of
        something a conforming encoder may not write"""
        r = self.r
        header, size, fields = LAYOUT[cs]
        w = 0 if conform else wild
        out = self.bits(header, 8)
        if r.random() < w / 8:
            out = self.bits(r.randrange(256), 8)
        L = 12
        for k, x in fields:
            z = r.random() < w
            if k == "filter":
                out += self.bits(r.randrange(2 ** x), x)
            elif k in ("part", "parts", "part6"):
                P = r.randrange(7)
                if z and r.random() < .3:
                    P = 7
                Q = P % 7
                M, L = PARTITION["company"][Q]
                cv = int(self.digits(L)) if not z else self.field_value(M, L)
                out += self.bits(P, 3) + self.bits(cv, M)
                z = r.random() < w
                if k == "part6":
                    out += self.chars6(1, 30 - L, CPR_ALL, z)
                    continue
                N, K = PARTITION[x][Q]
                if k == "parts":
                    b = self.chars7(K, z)
                    b = b + "0" * (N - len(b))
                    if z and r.random() < .2:
                        b = b[:-1] + "1"
                    out += b[:N]
                elif z:
                    out += self.bits(self.field_value(N, K), N)
                elif K == 0:
                    out += "0" * N
                elif x in ("giai96", "cpi96"):
                    out += self.bits(min(int(self.digits(r.randrange(1, K + 1))), 2 ** N - 1), N)
                else:
                    out += self.bits(int(self.digits(K)), N)
            elif k == "int":
                out += self.bits(self.field_value(x), x)
            elif k == "zero":
                out += "0" * x if not z else self.bits(self.field_value(x), x)
            elif k == "str":
                out += self.chars7(x // 7, z)
            elif k == "nstr":
                out += self.bits(int("1" + self.digits(r.randrange(1, 13))), x) if not z else self.bits(self.field_value(x, r.randrange(0, 13)), x)
            elif k == "fix2":
                out += self.bits(int(self.digits(2)), 7) if not z else self.bits(r.choice((99, 100, 101, 127, 110)), 7)
            elif k == "cage8":
                t = self.cage()
                t = t if len(t) == 6 else " " + t
                b = [ord(ch) for ch in t]
                if z:
                    b[r.randrange(6)] = r.choice((32, 0, 73, 79, 97, 255, 128, 47, 58, 64, 91, 45, r.randrange(256)))
                out += "".join(self.bits(v, 8) for v in b)
            elif k == "cage6":
                t = self.cage()
                t = t if len(t) == 6 else " " + t
                b = [ord(ch) & 63 for ch in t]
                if z:
                    b[r.randrange(6)] = r.choice((32, 0, 9, 15, 27, 35, 45, 47, 58, 63, r.randrange(64)))
                out += "".join(self.bits(v, 6) for v in b)
            elif k == "six":
                if x == 32:
                    out += self.chars6(0, 32, ADI_ALL, z)
                else:
                    h = "" if r.random() < .5 else self.bits(35, 6)
                    out += h + self.chars6(1, 29, ADI_ALL, z) if h else self.chars6(1, 30, ADI_ALL, z)
        return out

    def trailing(self, n):
        """bits to put after an encoding of n bits"""
        r = self.r
        pad = (-n) % 16
        k = r.randrange(6)
        if k == 0:
            return ""
        if k == 1:
            return "0" * pad
        if k == 2:
            return "0" * ((-n) % r.choice((4, 8, 12, 16, 24, 32, 48, 64)))
        if k == 3:
            return "".join(r.choice("01") for _ in range(r.choice((1, 4, 7, 8, 16, 33, 64))))
        if k == 4:
            return "1" * r.choice((1, 2, 7, 8, 16, 100))
        return "0" * r.choice((1, 2, 3, 5, 7, 12, 16, 128))

    @staticmethod
    def to_hex(b):
        b = b + "0" * ((-len(b)) % 4)
        return "%0*X" % (len(b) // 4, int(b, 2)) if b else ""

    @staticmethod
    def to_b64(b):
        import base64
        b = b + "0" * ((-len(b)) % 8)
        return base64.b64encode(int(b, 2).to_bytes(len(b) // 8, "big")).decode() if b else ""

    def mixcase(self, t):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            return t.lower()
        if k == 1:
            return "".join(r.choice((ch.lower(), ch.upper())) for ch in t)
        return t
