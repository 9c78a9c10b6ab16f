"""Numbers and texts which the code under test mentions: sizes and names at which it may behave differently.

Bounds of scenarios which take concrete sizes or names include the neighbourhood of these constants, read from the
current source on every run.
"""
import os
import ast
import glob

ROOT = os.path.join(os.path.abspath(os.environ.get("HICKLE_ROOT", "/repo")), "hickle")


def _fold(n):
    if isinstance(n, ast.Constant):
        if type(n.value) is int:
            return n.value
        if type(n.value) is float and n.value.is_integer() and abs(n.value) < 1e9:
            return int(n.value)
        return None
    if isinstance(n, ast.BinOp):
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None:
            return None
        op = n.op
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if 0 <= b < 64 and abs(a) < 1 << 20:
            if isinstance(op, ast.Pow):
                return a ** b
            if isinstance(op, ast.LShift):
                return a << b
    return None


def _trees(sub):
    for pattern in ("*.py", "loaders/*.py"):
        for f in sorted(glob.glob(os.path.join(ROOT, sub, pattern))):
            try:
                with open(f, "rb") as fd:
                    yield ast.parse(fd.read())
            except (OSError, SyntaxError):
                continue


def ints(limit, sub="", least=5):
    found = set()
    for t in _trees(sub):
        for n in ast.walk(t):
            if isinstance(n, ast.expr):
                v = _fold(n)
                if v is not None and least <= v <= limit:
                    found.add(v)
    found = sorted(found)
    return found[:10]


def sizes(limit, base=(), sub="", least=5):
    """base and the neighbourhood of the numbers in the source up to limit"""
    s = set(base)
    for c in ints(limit, sub, least):
        s |= {c - 1, c, c + 1}
    return sorted(s)


def texts(limit=24, sub=""):
    found = set()
    for t in _trees(sub):
        docs = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr)}
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and id(n) not in docs and isinstance(n.value, (str, bytes)):
                v = n.value if isinstance(n.value, str) else n.value.decode("latin1")
                if 0 < len(v) <= limit and not any(0xd800 <= ord(c) < 0xe000 for c in v):
                    found.add(v)
    return sorted(found)


def chunks(items, n):
    return [items[i:i + n] for i in range(0, len(items), n)]
