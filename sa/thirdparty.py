"""Names that installed third-party modules define, read off their sources (nothing of them is imported or run)."""
import ast
import glob
import importlib
import os
import sys

ROOTS = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
_cache = {}


def locate(dotted):
    """-> path of the module's source, a directory for a namespace, "ext" for a compiled module, or None"""
    rel = dotted.replace(".", os.sep)
    for r in ROOTS:
        p = os.path.join(r, rel)
        if os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        if glob.glob(p + ".*.so") or os.path.exists(p + ".so"):
            return "ext"
        if os.path.isdir(p):
            return p
    return None


def installed(top):
    return locate(top) is not None


def parse(path):
    try:
        with open(path, "rb") as f:
            return ast.parse(f.read())
    except (SyntaxError, OSError, ValueError):
        return None


def statements(body):
    """module-level statements, those inside if / try / with / for included"""
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for x in statements(getattr(s, f, None) or []):
                    yield x
        for h in getattr(s, "handlers", []) or []:
            for x in statements(h.body):
                yield x


def names(dotted):
    """-> (set of names, complete?); None if the module does not exist"""
    if dotted in _cache:
        return _cache[dotted]
    _cache[dotted] = (set(), True)                       # while a cycle of star imports is open
    path = locate(dotted)
    if path is None:
        _cache[dotted] = None
        return None
    tree = parse(path) if path != "ext" and not os.path.isdir(path) else None
    if tree is None:
        _cache[dotted] = (set(), False)
        return _cache[dotted]
    out, whole = {"__name__", "__file__", "__doc__", "__path__", "__dict__", "__package__", "__spec__", "__version__"}, True
    pkg = os.path.basename(path) == "__init__.py"
    for s in statements(tree.body):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(s.name)
            if s.name == "__getattr__":
                whole = False
        elif isinstance(s, ast.Import):
            for a in s.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                parts = dotted.split(".")
                if not pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = ".".join(parts + ([s.module] if s.module else []))
            for a in s.names:
                if a.name != "*":
                    out.add(a.asname or a.name)
                    continue
                if base.split(".")[0] in sys.stdlib_module_names:
                    try:
                        out |= {n for n in dir(importlib.import_module(base)) if not n.startswith("_")}
                    except Exception:
                        whole = False
                    continue
                sub = names(base)
                if sub is None:
                    whole = False
                else:
                    out |= sub[0]
                    whole = whole and sub[1]
        else:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                        "globals", "setattr", "exec", "vars", "locals"):
                    whole = False
                elif isinstance(x, ast.Attribute) and x.attr == "modules":
                    whole = False                         # plays with sys.modules
    if pkg:
        d = os.path.dirname(path)
        for f in os.listdir(d):
            b = f.split(".")[0]
            if f.endswith((".py", ".so")) or os.path.isdir(os.path.join(d, f)):
                out.add(b)
    _cache[dotted] = (out, whole)
    return _cache[dotted]


def has(dotted, attr):
    """True / False / None (cannot tell)"""
    if dotted.split(".")[0] == "six" and dotted != "six":
        return None
    n = names(dotted)
    if n is None:
        return None
    if attr in n[0]:
        return True
    return False if n[1] else None


def module_of(dotted, attr):
    """dotted module that attr of the module dotted is, if it is a module"""
    if locate(dotted + "." + attr):
        return dotted + "." + attr
    return None
