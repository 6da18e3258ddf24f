"""What is new in the sources of the library since the specification was last
looked at: literals and files.  Used only to direct the generation of inputs to
where something changed; says nothing about whether the change is right.

    python -m harness.sources      rewrites literals.json"""
import ast
import collections
import glob
import hashlib
import json
import os
import re

from . import api

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")


def survey():
    """per file: digest of the syntax tree, numbers and words with their multiplicity"""
    out = {}
    root = os.path.join(api.REPO, "epcpy")
    for p in sorted(glob.glob(os.path.join(root, "**", "*.py"), recursive=True)):
        try:
            tree = ast.parse(open(p, encoding="utf8").read())
        except (SyntaxError, ValueError):
            continue
        notes = {id(x.body[0].value) for x in ast.walk(tree)
                 if isinstance(x, (ast.Module, ast.ClassDef, ast.FunctionDef)) and x.body and isinstance(x.body[0], ast.Expr)}
        nums, words = collections.Counter(), collections.Counter()
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and id(x) not in notes and not isinstance(x.value, bool):
                if isinstance(x.value, int) and 0 <= x.value < 10 ** 25:
                    nums[str(x.value)] += 1
                elif isinstance(x.value, str):
                    words.update([x.value] if len(x.value) <= 20 else [])
                    words.update(w for w in re.findall(r"[0-9A-Za-z]+", x.value) if w != x.value and len(w) <= 20)
        out[os.path.relpath(p, root)] = [hashlib.sha1(ast.dump(tree).encode("utf8", "replace")).hexdigest()[:12],
                                         dict(sorted(nums.items())), dict(sorted(words.items()))]
    return out


def news():
    """(new numbers, new words, schemes whose own file changed, anything changed?)"""
    try:
        base = json.load(open(BASE, encoding="utf8"))
    except (OSError, ValueError):
        return [], [], [], False
    nums, words, schemes, other = set(), set(), set(), False
    for f, (d, n, w) in survey().items():
        d0, n0, w0 = base.get(f, ["", {}, {}])
        if d == d0:
            continue
        nums |= {int(x) for x in n if n[x] > n0.get(x, 0)}
        words |= {x for x in w if w[x] > w0.get(x, 0) and x}
        s = os.path.basename(f)[:-3].upper()
        if s in api.SCHEMES:
            schemes.add(s)
        else:
            other = True
    return sorted(nums), sorted(words), sorted(schemes) if len(schemes) <= 5 and not other else [], bool(schemes or other)


if __name__ == "__main__":
    with open(BASE, "w", encoding="utf8") as o:
        json.dump(survey(), o, indent=0, sort_keys=True)
        o.write("\n")
