"""C19: every module of the package resolves its imports and the package names it uses."""
import ast
import builtins
import importlib
import os
import symtable
import sys

from .common import *
from .. import thirdparty

PKG = "bpmn_python"


class Mod(object):
    def __init__(self, repo, path):
        self.path = path
        self.rel = os.path.relpath(path, repo)
        parts = os.path.relpath(path, repo)[:-3].split(os.sep)
        self.ispkg = parts[-1] == "__init__"
        if self.ispkg:
            parts.pop()
        self.name = ".".join(parts)
        with open(path, "rb") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)


def declared(repo):
    """top-level names of the declared dependencies"""
    out = set()
    p = os.path.join(repo, "requirements.txt")
    if os.path.exists(p):
        for l in open(p):
            w = "".join(ch if ch.isalnum() or ch in "_-." else " " for ch in l.split("#")[0]).split()
            if w:
                out.add(w[0].replace("-", "_").lower())
    return out


def absolute(m, node):
    """dotted base of an ImportFrom"""
    if not node.level:
        return node.module or ""
    base = m.name.split(".")
    if not m.ispkg:
        base = base[:-1]
    if node.level - 1 > len(base):
        return None
    base = base[:len(base) - (node.level - 1)]
    return ".".join(base + ([node.module] if node.module else []))


def guarded_imports(tree):
    """import statements inside a try that handles a failed import"""
    out = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try):
            ok = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "Exception")
                                           for x in ast.walk(h.type)) for h in t.handlers)
            if ok:
                for s in t.body:
                    out |= {id(x) for x in ast.walk(s)}
    return out


BUILT = set(dir(builtins)) | {"__file__", "__name__", "__class__", "__doc__", "__package__", "__path__", "__spec__", "__module__",
                              "__qualname__", "WindowsError", "unicode", "basestring", "long", "xrange", "raw_input"}


def libobj(path):
    """module object of the standard library (the installed interpreter's, never of the code under analysis)"""
    if path.split(".")[0] not in sys.stdlib_module_names or path.split(".")[0] in ("antigravity", "this", "idlelib", "turtle"):
        return None
    try:
        return importlib.import_module(path)
    except Exception:
        return None


DEPS_OF_DEPS = ("numpy", "pyparsing", "dateutil", "pytz", "PIL")


def stdlib_missing(mod, attr):
    """text if the standard library lacks it, True if that cannot be told"""
    if mod.split(".")[0] in ("__future__", "antigravity", "this", "idlelib", "turtle", "tkinter", "_tkinter"):
        return None
    try:
        v = importlib.import_module(mod)
    except ImportError:
        return "there is no module %s" % mod
    except Exception:
        return True
    if attr in (None, "*") or hasattr(v, attr):
        return None
    try:
        importlib.import_module(mod + "." + attr)
        return None
    except Exception:
        return "%s has no %s" % (mod, attr)


class Space(object):
    """Names of the modules and classes, read off the abstractly executed module bodies."""

    def __init__(self, rep, mods):
        self.mods = {m.name: m for m in mods}
        self.scn = Scn(rep.repo)

    def module_has(self, dotted, attr):
        """True / False / None (cannot tell)"""
        if dotted + "." + attr in self.mods:
            return True
        try:
            v = self.scn.mod(dotted)
        except Exception:
            return None
        o = self.scn.st.get(v.addr)
        if attr in o.slots or attr in ("__name__", "__file__", "__doc__", "__dict__", "__package__", "__path__", "__spec__"):
            return True
        if "__getattr__" in o.slots or self.stars(dotted):
            return None
        return False

    def stars(self, dotted):
        m = self.mods.get(dotted)
        return m is None or any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names)
                                for n in ast.walk(m.tree)) or \
            any(isinstance(n, ast.Name) and n.id in ("globals", "exec", "setattr") for n in ast.walk(m.tree))

    def value(self, dotted, attr):
        if dotted + "." + attr in self.mods:
            return ("mod", dotted + "." + attr)
        try:
            v = self.scn.mod(dotted)
        except Exception:
            return None
        return self.wrap(self.scn.st.get(v.addr).slots.get(attr))

    def wrap(self, x):
        if isinstance(x, V):
            x = rs(x, self.scn.st.asm)
        if isinstance(x, LibV) and x.path.split(".")[0] in sys.stdlib_module_names:
            v = libobj(x.path)
            return ("lib", v) if v is not None else None
        if isinstance(x, LibV) and thirdparty.locate(x.path):
            return ("third", x.path)
        if isinstance(x, Ref) and x.addr in self.scn.st.heap:
            o = self.scn.st.get(x.addr)
            if o.kind == "mod":
                return ("mod", o.slots["__name__"].v)
            if o.kind == "cls":
                return ("cls", x)
        return None

    def class_has(self, ref, attr):
        it, st = self.scn.it, self.scn.st
        if attr.startswith("__"):
            return None
        try:
            mro = it.mro(st, ref)
        except Exception:
            return None
        for c in mro:
            if not isinstance(c, Ref):
                if isinstance(c, LibV) and c.path in ("builtins.object", "object"):
                    continue
                return None
            o = st.get(c.addr)
            if attr in o.slots or "__getattr__" in o.slots:
                return True
            if (o.meta or {}).get("metaclass"):
                return None
        return False


def check_uses(rep, sp, m):
    """attribute chains that start at a module of the package, and names nobody defines"""
    tab = symtable.symtable(m.src.decode("utf-8", "replace"), m.path, "exec")
    # alias -> dotted module, for module-level and function-level imports
    try:
        top = sp.scn.mod(m.name)
    except Exception:
        rep.und("names", m.name, "module body not executable")
        return
    topo = sp.scn.st.get(top.addr)
    dynamic = sp.stars(m.name)
    defined = {s.get_name() for s in tab.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    defined |= set(topo.slots) | BUILT

    def declared_global(table):
        for sy in table.get_symbols():
            if sy.is_declared_global() and sy.is_assigned():
                defined.add(sy.get_name())
        for ch in table.get_children():
            declared_global(ch)
    declared_global(tab)

    def names(table, where):
        rep.funcs["%s:%s" % (m.name, where)] = 1
        for sy in table.get_symbols():
            n = sy.get_name()
            glob = sy.is_global() if table.get_type() != "module" else not (sy.is_assigned() or sy.is_imported())
            if not sy.is_referenced() or not glob:
                continue
            subj = "%s: name %s in %s" % (m.name, n, where)
            if n in defined:
                rep.ok("names", subj)
            elif dynamic:
                rep.und("names", subj, "module with computed names")
            else:
                rep.bad("names", subj, "nothing defines the name", "%s:%d" % (m.rel, table.get_lineno()))
        for ch in table.get_children():
            names(ch, ch.get_name())
    names(tab, "module")

    def scope_walk(node, table, chain):
        """chain: enclosing [(table, {name: imported module})]"""
        body = node.body if isinstance(node.body, list) else [node.body]
        local_mods, assigned = {}, {}
        stack = list(body)
        inner = []
        nodes = []
        while stack:
            x = stack.pop(0)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                inner.append(x)
                if not isinstance(x, ast.Lambda):
                    stack += x.decorator_list
                if isinstance(x, ast.ClassDef):
                    stack += x.bases + [k.value for k in x.keywords]
                else:
                    stack += x.args.defaults + [d for d in x.args.kw_defaults if d is not None]
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                nodes.append(x)
            nodes.append(x)
            stack += list(ast.iter_child_nodes(x))
        for x in nodes:
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split(".")[0] == PKG:
                        local_mods[a.asname or PKG] = a.name if a.asname else PKG
            elif isinstance(x, ast.ImportFrom):
                b = absolute(m, x)
                if b and b.split(".")[0] == PKG:
                    for a in x.names:
                        v = sp.value(b, a.name)
                        if v is not None:
                            local_mods[a.asname or a.name] = v
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                assigned[x.id] = True
            elif isinstance(x, ast.ExceptHandler) and x.name:
                assigned[x.name] = True
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                assigned[x.name] = True
        if node is not m.tree and hasattr(node, "args"):
            a = node.args
            for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]:
                assigned[y.arg] = True
        for y in inner:
            if not isinstance(y, ast.Lambda):
                assigned.setdefault(y.name, "def")

        def resolve(name):
            """what a name is bound to: ("mod"/"cls", ..), or None for anything else"""
            for k, (nd, lm, asg) in enumerate([(node, local_mods, assigned)] + chain):
                if k and isinstance(nd, ast.ClassDef):
                    continue
                if nd is m.tree:
                    break
                if name in asg and asg[name] != "def":
                    return None
                if name in lm:
                    v = lm[name]
                    return ("mod", v) if isinstance(v, str) else v
                if name in asg:
                    return None
            if name in topo.slots:
                return sp.wrap(topo.slots[name])
            return None
        for x in nodes:
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            parts, y = [], x
            while isinstance(y, ast.Attribute):
                parts.insert(0, y.attr)
                y = y.value
            if not isinstance(y, ast.Name):
                continue
            r = resolve(y.id)
            if not isinstance(r, tuple):
                continue
            cur, okpath, subj = r, y.id, "%s: %s in %s" % (m.name, ".".join([y.id] + parts), getattr(node, "name", "module"))
            bad = None
            for p in parts:
                if cur is None:
                    break
                if p.startswith("__") and not p.endswith("__") and cur[0] == "cls":
                    break
                if cur[0] == "third":
                    has = thirdparty.has(cur[1], p)
                    if has is False:
                        bad = "%s has no %s" % (cur[1], p)
                    if not has:
                        break
                    okpath += "." + p
                    nx = thirdparty.module_of(cur[1], p)
                    cur = ("third", nx) if nx else None
                    continue
                has = sp.module_has(cur[1], p) if cur[0] == "mod" else sp.class_has(cur[1], p) if cur[0] == "cls" else \
                    hasattr(cur[1], p) or (True if libobj(cur[1].__name__ + "." + p) is not None else False)
                if has is False:
                    bad = "%s has no %s" % (okpath, p)
                    break
                if has is None:
                    break
                okpath += "." + p
                cur = sp.value(cur[1], p) if cur[0] == "mod" else None if cur[0] == "cls" else \
                    ("lib", libobj(cur[1].__name__ + "." + p)) if libobj(cur[1].__name__ + "." + p) is not None else None
            if bad:
                rep.bad("attribute", subj, bad, "%s:%d" % (m.rel, x.lineno))
            else:
                rep.ok("attribute", subj)
        for y in inner:
            scope_walk(y, None, [(node, local_mods, assigned)] + chain)
    scope_walk(m.tree, tab, [])


def check_self(rep, mods):
    """methods called on self exist in the class, a base or a subclass of the package"""
    classes = {}
    for m in mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                classes.setdefault(n.name, []).append((m, n))

    def base_names(n):
        return [b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None for b in n.bases]

    def members(n):
        out = set()
        for x in n.body:
            for y in ast.walk(x) if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [x]:
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(y.name)
                elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    out.add(y.id)
        for y in ast.walk(n):
            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                out.add(y.attr)
        return out

    def dynamic(n):
        return any(isinstance(x, ast.Name) and x.id in ("setattr", "exec") for x in ast.walk(n)) or \
            any(isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__getattr__") for x in ast.walk(n)) or \
            "__getattr__" in members(n) or bool(n.decorator_list) or bool(n.keywords)
    for name, defs in classes.items():
        for m, n in defs:
            up, todo, unknown = [n], [n], dynamic(n)
            while todo:
                for b in base_names(todo.pop()):
                    if b == "object" or (b and b.endswith("Error")) or b == "Exception":
                        continue
                    if b not in classes:
                        unknown = True
                        continue
                    for _, k in classes[b]:
                        if k not in up:
                            up.append(k)
                            todo.append(k)
            for k2 in classes.values():      # subclasses may supply what a base calls
                for _, k in k2:
                    if name in base_names(k):
                        up.append(k)
            mem = set()
            for k in up:
                mem |= members(k)
                unknown = unknown or dynamic(k)
            if unknown:
                continue
            for f in n.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg not in ("self", "cls"):
                    continue
                me = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) \
                            and x.value.id == me and not (x.attr.startswith("__") and x.attr.endswith("__")):
                        subj = "%s.%s: %s.%s" % (name, f.name, me, x.attr)
                        rep.check("member", subj, x.attr in mem or hasattr(object, x.attr),
                                  "no class defines %s" % x.attr, "%s:%d" % (m.rel, x.lineno))


def c19(rep, tier):
    root = os.path.join(rep.repo, PKG)
    paths_ = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        paths_ += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
    mods = [Mod(rep.repo, p) for p in paths_]
    names = {m.name for m in mods}
    deps = declared(rep.repo)
    # every directory on the way is a package
    for m in mods:
        d = os.path.dirname(m.path)
        rep.check("package", m.name, os.path.exists(os.path.join(d, "__init__.py")),
                  "%s has no __init__.py, so an installed package misses it" % os.path.relpath(d, rep.repo))
    for m in mods:
        guarded = guarded_imports(m.tree)
        for n in ast.walk(m.tree):
            where = "%s:%d" % (m.rel, getattr(n, "lineno", 0))
            if isinstance(n, ast.Import):
                todo = [(a.name, None) for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                b = absolute(m, n)
                todo = [(b, a.name) for a in n.names]
            else:
                continue
            for mod, attr in todo:
                subj = "%s imports %s%s" % (m.name, mod, "." + attr if attr else "")
                if mod is None:
                    rep.bad("import", subj, "relative import beyond the package", where)
                    continue
                top = mod.split(".")[0]
                if top == PKG:
                    if mod not in names:
                        (rep.und if id(n) in guarded else rep.bad)("import", subj, "there is no module %s %s" % (mod, where))
                    else:
                        rep.ok("import", subj)
                elif top in sys.stdlib_module_names or top == "__future__":
                    miss = stdlib_missing(mod, attr)
                    if miss:
                        (rep.und if id(n) in guarded or miss is True else rep.bad)("import", subj, "%s %s" % (miss, where))
                    else:
                        rep.ok("import", subj)
                elif top.lower() in deps or top in DEPS_OF_DEPS:
                    if top == "six" or not thirdparty.installed(top) or top in DEPS_OF_DEPS:
                        rep.ok("import", subj) if top == "six" and (
                            attr is None or mod != "six" or thirdparty.has("six", attr)) else \
                            rep.und("import", subj, "sources of %s not examined" % top)
                        continue
                    if thirdparty.locate(mod) is None:
                        (rep.und if id(n) in guarded else rep.bad)("import", subj, "%s has no module %s %s" % (top, mod, where))
                        continue
                    has = True if attr in (None, "*") else thirdparty.has(mod, attr)
                    if has is False:
                        (rep.und if id(n) in guarded else rep.bad)("import", subj, "%s has no %s %s" % (mod, attr, where))
                    elif has is None:
                        rep.und("import", subj, "%s computes its names" % mod)
                    else:
                        rep.ok("import", subj)
                elif not deps:
                    rep.und("import", subj, "no list of dependencies")
                elif id(n) in guarded:
                    rep.und("import", subj, "optional import of an undeclared module")
                elif any(x.split(".")[-1] == mod.split(".")[-1] or x.endswith("." + mod) for x in names):
                    rep.bad("import", subj, "%s is only found as part of the package; imported under this name it fails or "
                                            "defines its classes a second time" % mod, where)
                else:
                    rep.bad("import", subj, "%s is no module of the package, of the standard library or of a declared "
                                            "dependency" % mod, where)
    # the body of each module runs when it is the first one imported
    for m in mods:
        s = Scn(rep.repo)
        out = None
        try:
            s.mod(m.name)
            err = s.it.import_errors
            if err and s.it.notes:
                rep.und("first-import", m.name, "import of %s fails" % (err[0],))
            else:
                rep.ok("first-import", m.name)
        except AbsRaise as e:
            xs = [s.exc_of(c, l) for c, l in leaves_of(e.tree) if l.k == "X"]
            c, name, loc, msg, leaf = xs[0]
            (rep.bad if not s.it.notes and c is True else rep.und)(
                "first-import", m.name, "importing it first fails with %s %s" % (name, msg), "%s:%s" % loc if loc else "")
        rep.absorb(s)
    sp = Space(rep, mods)
    for m in mods:
        allv = [n for n in m.tree.body if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets)]
        for a in allv:
            if isinstance(a.value, (ast.List, ast.Tuple)):
                for e in a.value.elts:
                    if isinstance(e, ast.Constant):
                        has = sp.module_has(m.name, e.value)
                        if has is None:
                            rep.und("all", "%s: %s" % (m.name, e.value), "?")
                        else:
                            rep.check("all", "%s: %s" % (m.name, e.value), has, "listed in __all__ but not there",
                                      "%s:%d" % (m.rel, a.lineno))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                b = absolute(m, n)
                if b in names:
                    for a in n.names:
                        if a.name == "*":
                            continue
                        has = sp.module_has(b, a.name)
                        subj = "%s takes %s from %s" % (m.name, a.name, b)
                        if has is None:
                            rep.und("import", subj, "?")
                        else:
                            rep.check("import", subj, has, "%s has no %s" % (b, a.name), "%s:%d" % (m.rel, n.lineno))
        check_uses(rep, sp, m)
    check_self(rep, mods)
    # one definition per class name within the element model
    byname = {}
    for m in mods:
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                byname.setdefault(n.name, []).append(m.name)
    for c, ms in byname.items():
        ms = [x for x in ms if x.startswith(PKG + ".graph")] if len(ms) > 1 else ms
        rep.check("one-identity", c, len(ms) <= 1 or c.startswith("_"), "class %s is defined in %s" % (c, ms))
    rep.absorb(sp.scn)
    rep.scn.append("%d modules, each imported first; all imports, names, attribute chains and self members" % len(mods))
