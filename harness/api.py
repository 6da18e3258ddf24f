"""Access to the library under check, through its public interface only."""
import importlib
import os
import pkgutil
import re
import sys
from enum import Enum
from types import SimpleNamespace

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import epcpy  # noqa: E402

if not os.path.realpath(epcpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError("epcpy was not imported from " + REPO)

SCHEMES = [
    "ADI", "BIC", "CPI", "GDTI", "GIAI", "GID", "GINC", "GRAI", "GSIN", "GSRN", "GSRNP",
    "IMOVN", "ITIP", "LGTIN", "PGLN", "SGCN", "SGLN", "SGTIN", "SSCC", "UPUI", "USDOD",
]


def _modules():
    out = [epcpy]
    for m in pkgutil.walk_packages(epcpy.__path__, "epcpy."):
        if ".tests" in m.name or m.name.endswith("__main__"):
            continue
        out.append(importlib.import_module(m.name))
    return out


_MODULES = _modules()


def lookup(name, first=()):
    for m in [sys.modules[x] for x in first if x in sys.modules] + _MODULES:
        if hasattr(m, name):
            return getattr(m, name)
    raise RuntimeError("public name %s not found in epcpy" % name)


ConvertException = lookup("ConvertException")
CLASS = {s: lookup(s, ("epcpy.epc_schemes",)) for s in SCHEMES}
NAME_OF = {c: s for s, c in CLASS.items()}
GTIN_TYPE = lookup("GTIN_TYPE")

CODING = {}   # "sgtin-96" -> (scheme, enum member)
FILTERS = {}  # scheme -> enum
FILTER = {}   # scheme -> {0: enum member}
for _s, _c in CLASS.items():
    _e = getattr(_c, "BinaryCodingScheme", None)
    if _e is not None and len(_e):
        for _m in _e:
            CODING[_m.name.lower().replace("_", "-")] = (_s, _m)
        try:
            _f = lookup(_s + "FilterValue", (_c.__module__,))
            FILTERS[_s] = _f
            FILTER[_s] = {int(x.value): x for x in _f if str(x.value).isdecimal()}
        except RuntimeError:
            FILTER[_s] = {}
CODING_OF = {s: [cs for cs, v in CODING.items() if v[0] == s] for s in SCHEMES}
TAG_SCHEMES = [s for s in SCHEMES if CODING_OF[s]]
ELEMENT_SCHEMES = [s for s in SCHEMES if hasattr(CLASS[s], "from_gs1_element_string")]
KEYED_SCHEMES = [s for s in SCHEMES if hasattr(CLASS[s], "gs1_key")]
_GT = {int("".join(ch for ch in m.name if ch.isdigit())): m for m in GTIN_TYPE}
GTIN_LENGTHS = sorted(_GT)

_PARSERS = ("epcpy.utils.parsers",)
GENERIC = {
    "p_uri": lookup("epc_pure_identity_to_scheme", _PARSERS),
    "p_gs1el": lookup("epc_pure_identity_to_gs1_element", _PARSERS),
    "p_keyed": lookup("epc_pure_identity_to_gs1_keyed", _PARSERS),
    "p_tagenc": lookup("epc_pure_identity_to_tag_encodable", _PARSERS),
    "p_elestr": lookup("epc_pure_identity_to_gs1_element_string", _PARSERS),
    "p_key": lookup("epc_pure_identity_to_gs1_key", _PARSERS),
    "p_tag": lookup("tag_uri_to_tag_encodable", _PARSERS),
    "p_bin": lookup("binary_to_tag_encodable", _PARSERS),
    "p_hex": lookup("hex_to_tag_encodable", _PARSERS),
    "p_b64": lookup("base64_to_tag_encodable", _PARSERS),
    "p_ele": lookup("gs1_element_string_to_gs1_element", _PARSERS),
    "k_any": lookup("get_gs1_key", _PARSERS),
}

# things that are not scheme instances, some of them made after an instance
FOREIGN = [
    lambda o: None, lambda o: 0, lambda o: 1, lambda o: "", lambda o: "x", lambda o: (), lambda o: object(), lambda o: 3.5,
    lambda o: b"x", lambda o: [], lambda o: {}, lambda o: epcpy,
    lambda o: o.epc_uri, lambda o: SimpleNamespace(epc_uri=o.epc_uri), lambda o: SimpleNamespace(**getattr(o, "__dict__", {})),
    lambda o: type(o), lambda o: [o], lambda o: (o,), lambda o: type(o.epc_uri, (), {"epc_uri": o.epc_uri})(),
    lambda o: str(o.epc_uri).encode(), lambda o: {"epc_uri": o.epc_uri}, lambda o: hash(o.epc_uri), lambda o: Label(o.epc_uri),
]


class Label(str):
    """a text that also knows a URI"""

    @property
    def epc_uri(self):
        return str(self)


class Hang(BaseException):
    """raised by the watchdog of a session"""


def _gt(n):
    return {"gtin_type": _GT[n]} if n else {}


def filters(s):
    return sorted(FILTER.get(s) or {0: None})


def _enc(o, meth, s, cs, f, a=(), n=()):
    """a: names of coding scheme and filter value; n: style of the call (see Names.tla)"""
    if a:
        kw = {"binary_coding_scheme": CLASS[s].BinaryCodingScheme[a[0]]}
        if FILTER.get(s):
            kw["filter_value"] = FILTERS[s][a[1]]
    else:
        kw = {"binary_coding_scheme": CODING[cs][1]}
        if FILTER.get(s):
            kw["filter_value"] = FILTER[s][f]
    args = []
    if n:
        if n[0] & 1:
            del kw["binary_coding_scheme"]
        if n[0] & 2:
            del kw["filter_value"]
        if n[0] == 8:
            k = "filter_value" if n[1] else "binary_coding_scheme"
            args.append(kw.pop(k))
        if n[0] & 4:
            for k in ("filter_value", "binary_coding_scheme") if n[1] else ("binary_coding_scheme", "filter_value"):
                if k not in kw:
                    break
                args.append(kw.pop(k))
    return getattr(o, meth)(*args, **kw)


TAGM = {"tag": "tag_uri", "bin": "binary", "hex": "hex", "b64": "base64"}
DECM = {"ftag": "from_tag_uri", "fbin": "from_binary", "fhex": "from_hex", "fb64": "from_base64"}


def perform(op, c, obj, objs, a, n, cs, f):
    """make one call of the library; a: texts, n: integers"""
    if op == "new":
        return CLASS[c](a[0])
    if op == "epc":
        return CLASS[c].from_epc_uri(a[0])
    if op in DECM:
        return getattr(CLASS[c], DECM[op])(a[0])
    if op == "fele":
        if len(n) > 1:
            return CLASS[c].from_gs1_element_string(gs1_element_string=a[0], company_prefix_length=n[0])
        return CLASS[c].from_gs1_element_string(a[0], n[0])
    if op == "fgtin":
        return CLASS["SGTIN"].from_gtin_plus_serial(a[0], a[1], n[0])
    if op in TAGM:
        return _enc(obj, TAGM[op], c, cs, f, a, n)
    if op == "ele":
        return obj.gs1_element_string()
    if op == "key":
        return obj.gs1_key(**_gt(n[0]))
    if op == "gtin":
        return obj.gtin(**_gt(n[0]))
    if op == "uri":
        return obj.epc_uri
    if op == "p_ele":
        if len(n) > 1:
            return GENERIC[op](gs1_element_string=a[0], company_prefix_length=n[0])
        return GENERIC[op](a[0], n[0])
    if op == "p_key":
        return GENERIC[op](a[0], **_gt(n[0]))
    if op == "k_any":
        kw = _gt(n[1])
        if len(n) > 2:
            return GENERIC[op](a[0], company_prefix_length=n[0] or None, **kw)
        return GENERIC[op](a[0], n[0], **kw) if n[0] else GENERIC[op](a[0], **kw)
    if op in GENERIC:
        return GENERIC[op](a[0])
    if op == "eq":
        return objs[0] == objs[1]
    if op == "ne":
        return objs[0] != objs[1]
    if op == "eqx":
        return objs[0] == FOREIGN[n[0]](objs[0])
    if op == "nex":
        return objs[0] != FOREIGN[n[0]](objs[0])
    if op == "hdrs":
        return ";".join("%s=%s" % (k, v.value) for k, v in sorted(CLASS[c].header_to_schemes().items()))
    if op == "names":
        return ";".join(sorted((str(x.value) for x in FILTERS.get(c, ())), key=lambda x: (len(x), x)))
    raise ValueError(op)


MESSAGES = False     # are the texts of exceptions part of an outcome?


def message(e):
    return ": " + re.sub(r"0x[0-9a-fA-F]{6,}", "0x", str(e)) if MESSAGES else ""


def outcome(op, c="", obj=None, objs=(), a=(), n=(), cs="", f=0):
    """(k, x, r, rc, value) of one call"""
    try:
        v = perform(op, c, obj, objs, a, n, cs, f)
    except Hang:
        return ("exc", "Hang", "", "", None)
    except ConvertException as e:
        return ("exc", "ConvertException" + message(e), "", "", None)
    except RecursionError:
        return ("exc", "RecursionError", "", "", None)
    except Exception as e:
        return ("exc", type(e).__name__ + message(e), "", "", None)
    if op in ("eq", "ne", "eqx", "nex"):
        if v is True or v is False:
            return ("ok", "", "1" if v else "0", "", v)
        return ("ok", "", repr(v), "", v)
    if isinstance(v, str):
        return ("ok", "", str(v), "", v)
    if type(v) in NAME_OF:
        u = v.epc_uri
        return ("ok", "", u if isinstance(u, str) else repr(u), NAME_OF[type(v)], v)
    return ("ok", "", repr(v), "?" + type(v).__name__, v)


def enums_ok():
    return isinstance(GTIN_TYPE, type) and issubclass(GTIN_TYPE, Enum)
