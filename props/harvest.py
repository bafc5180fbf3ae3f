"""Texts that the code under test itself treats specially, collected from its current source: the values that a symbolic
string of a few characters is too short to take (format fields, arguments of replace, split, startswith, ...)."""
import ast
import functools
import os
import re

METHODS = {"replace", "split", "rsplit", "partition", "rpartition", "startswith", "endswith", "strip", "lstrip", "rstrip", "find", "rfind", "index", "count", "removeprefix", "removesuffix", "join", "sub", "match", "search", "fullmatch", "findall"}
FIELDS = re.compile(r"\{\w*\}|%\(\w+\)[sdr]|%[sdr]|\$\{?\w+\}?|@\w+@|__\w+__|<\w+>")
ALWAYS = ["{", "}", "{{", "{0}", "{}", "%s", "%%", "--", "/*", "*/", "\\'", "\\n", "NULL", "$1", "?"]


@functools.lru_cache(None)
def fragments(longest=24):
    import treeno

    root = os.path.dirname(treeno.__file__)
    out = set(ALWAYS)
    for d, subs, files in os.walk(root):
        if os.path.basename(d) in ("gen", "__pycache__"):
            subs[:] = []
            continue
        for f in files:
            if not f.endswith(".py"):
                continue
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
            docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                    out.update(FIELDS.findall(n.value))
                args = []
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
                    args = n.args
                    if isinstance(n.func.value, ast.Constant):
                        args = args + [n.func.value]
                if isinstance(n, ast.Compare):
                    args = [n.left] + n.comparators
                for a in args:
                    for c in a.elts if isinstance(a, (ast.Tuple, ast.List, ast.Set)) else [a]:
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            out.add(c.value)
    return sorted(s for s in out if 0 < len(s) <= longest)
