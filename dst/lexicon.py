"""Names and numbers that occur in the sources under test.

Behaviour that depends on a particular name or size is most likely to depend
on one that the code mentions, so the generator draws some of its names,
integers and operand counts from here (like a fuzzer's dictionary).  Nothing
is judged by it."""

import ast
import glob
import os

NAMES = []
INTS = []
SIZES = []
FAMILIES = []  # names made from one template
FILL = ["0", "1", "2", "x", "y"]


def _docs(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            out.add(id(n.value))
    return out


def _numbers(code, out):
    for c in code.co_consts:
        if isinstance(c, bool):
            continue
        if isinstance(c, int):
            out.add(c)
        elif isinstance(c, float) and c == int(c) and abs(c) < 1e18:
            out.add(int(c))
        elif isinstance(c, (tuple, frozenset)):
            out.update(k for k in c if type(k) is int)
        elif hasattr(c, "co_consts"):
            _numbers(c, out)


def load(src):
    names, ints, families = set(), set(), set()
    for path in sorted(glob.glob(os.path.join(src, "protosym", "**", "*.py"), recursive=True)):
        try:
            with open(path, encoding="utf-8") as f:
                text = f.read()
            tree = ast.parse(text)
            _numbers(compile(text, path, "exec", dont_inherit=True, optimize=2), ints)
        except (SyntaxError, ValueError, OSError, OverflowError):
            continue
        docs = _docs(tree)
        inner = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.JoinedStr):
                parts = []
                for v in n.values:
                    if isinstance(v, ast.Constant):
                        inner.add(id(v))
                        parts.append(str(v.value))
                    else:
                        parts.append(None)
                if any(p and p.strip() for p in parts):
                    made = ["".join(k if p is None else p for p in parts) for k in FILL]
                    names.update(made)
                    if max(map(len, made)) <= 24 and "\n" not in made[0]:
                        families.add(tuple(made))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and id(n) not in inner:
                names.add(n.value)
                if "{" in n.value:
                    for k in FILL[:3]:
                        names.add(n.value.replace("{}", k).replace("%s", k).replace("%d", k))
    NAMES[:] = sorted(s for s in names if 0 < len(s) <= 24 and "\n" not in s and s.count(" ") < 2)
    FAMILIES[:] = sorted(families)
    INTS[:] = sorted(i for i in ints if abs(i) < 10**40)
    SIZES[:] = sorted({k for i in ints if 3 <= i <= 260 for k in (i, i + 1)})
