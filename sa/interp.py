"""Abstract interpreter over /repo's syntax trees (gated value-flow abstraction). See DESIGN.md."""
import ast
import time
import builtins as _pyb
import os

from .values import *
from .state import *

BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor", ast.LShift: "shl", ast.RShift: "shr",
          ast.MatMult: "matmul"}


def _uuids(v):
    ps = v.parts if isinstance(v, Cat) else (v,)
    return frozenset(p.name for p in ps if isinstance(p, Tok) and p.name.startswith("uuid") and p.name[4:5].isdigit())


DEADLINE = [None]       # wall-clock time after which the analysis gives up



def is_path(e):
    """a name, attribute or constant subscript chain: reading it twice gives the same thing"""
    while True:
        if isinstance(e, ast.Name):
            return True
        if isinstance(e, ast.Attribute):
            e = e.value
        elif isinstance(e, ast.Subscript) and (isinstance(e.slice, ast.Constant) or is_path(e.slice)):
            e = e.value
        else:
            return False


def _len_of(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and \
            not e.keywords and is_path(e.args[0]):
        return e.args[0]
    return None


def _own(body, kinds):
    """nodes of the given kinds in a block that belong to this loop (not to nested loops or functions)"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def while_index(s):
    """(index name, sequence expression, body without the increment) of an index loop, or None"""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.NotEq)):
        name, seq = l.id, _len_of(r)
    elif isinstance(r, ast.Name) and isinstance(op, (ast.Gt, ast.NotEq)):
        name, seq = r.id, _len_of(l)
    else:
        return None
    if seq is None:
        return None
    pos = None
    for n, x in enumerate(s.body):
        inc = isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and \
            x.target.id == name and isinstance(x.value, ast.Constant) and x.value.value == 1
        if not inc and isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                x.targets[0].id == name and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
            a, b = x.value.left, x.value.right
            inc = any(isinstance(p, ast.Name) and p.id == name and isinstance(q, ast.Constant) and q.value == 1
                      for p, q in ((a, b), (b, a)))
        if inc:
            if pos is not None:
                return None
            pos = n
    if pos is None:
        return None
    body = s.body[:pos] + s.body[pos + 1:]
    if any(True for _ in _own(s.body[:pos], ast.Continue)):
        return None
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, (ast.Store, ast.Del)):
                return None
    for x in s.body[pos + 1:]:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id == name:
                return None
    txt = ast.dump(seq)
    root = seq
    while not isinstance(root, ast.Name):
        root = root.value
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id == root.id and isinstance(y.ctx, (ast.Store, ast.Del)):
                return None
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in (
                    "append", "pop", "remove", "insert", "extend", "clear", "sort", "reverse") and \
                    ast.dump(y.func.value) == txt:
                return None
            if isinstance(y, ast.Delete):
                return None
    return name, seq, body


def while_drain(s):
    """(list expression, 0 or -1) of `while X: ... X.pop(0 or -1) ...`, or None"""
    t = s.test
    x = None
    if is_path(t):
        x = t
    elif _len_of(t) is not None:
        x = _len_of(t)
    elif isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, t.ops[0], t.comparators[0]
        c = r.value if isinstance(r, ast.Constant) else None
        if _len_of(l) is not None and ((isinstance(op, (ast.Gt, ast.NotEq)) and c == 0) or (isinstance(op, ast.GtE) and c == 1)):
            x = _len_of(l)
        elif is_path(l) and isinstance(op, ast.NotEq) and isinstance(r, ast.List) and not r.elts:
            x = l
    if x is None:
        return None
    txt = ast.dump(x)
    found = []
    for n, b in enumerate(s.body):
        for y in ast.walk(b):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("pop", "popleft") and \
                    ast.dump(y.func.value) == txt:
                if not isinstance(b, (ast.Assign, ast.Expr, ast.AnnAssign)):
                    return None
                if y.func.attr == "popleft":
                    k = 0
                elif not y.args:
                    k = -1
                elif isinstance(y.args[0], ast.Constant) and y.args[0].value == 0:
                    k = 0
                elif ast.dump(y.args[0]) == ast.dump(ast.parse("-1", mode="eval").body):
                    k = -1
                else:
                    return None
                found.append(k)
    return (x, found[0]) if len(found) == 1 else None


class Limit(Exception):
    """Analysis budget exhausted -> undecided."""


class Frame(object):
    __slots__ = ("addr", "fn", "mod", "cls", "glob", "nonloc", "locs")

    def __init__(self, addr, fn, mod, cls, glob=(), nonloc=(), locs=()):
        self.addr, self.fn, self.mod, self.cls = addr, fn, mod, cls
        self.glob, self.nonloc, self.locs = set(glob), set(nonloc), locs


class FnInfo(object):
    """Static facts on a function body, computed once."""
    cache = {}

    def __init__(self, node):
        self.locs, self.glob, self.nonloc = set(), set(), set()
        self.isgen = False
        self.has_inner = False
        body = node.body if isinstance(node.body, list) else [node.body]
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locs.add(x.arg)
        if a.vararg:
            self.locs.add(a.vararg.arg)
        if a.kwarg:
            self.locs.add(a.kwarg.arg)
        for s in body:
            self.visit(s)
        self.locs -= self.glob
        self.locs -= self.nonloc

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.locs.add(n.name)
            self.has_inner = True
            return
        if isinstance(n, ast.Lambda):
            self.has_inner = True
            for d in n.args.defaults:
                self.visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak; yields cannot occur
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    self.locs.add(m.target.id)
                if isinstance(m, ast.Lambda):
                    self.has_inner = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.isgen = True
        if isinstance(n, ast.Global):
            self.glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonloc.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locs.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locs.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locs.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locs.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.visit(c)


def fninfo(node):
    r = FnInfo.cache.get(id(node))
    if r is None or r[0] is not node:
        r = (node, FnInfo(node))
        FnInfo.cache[id(node)] = r
    return r[1]


from .lib import LibMixin  # noqa: E402


class Interp(LibMixin):
    MAXDEPTH = 70
    MAXSTEPS = 1500000

    def __init__(self, repo="/repo", package="bpmn_python"):
        self.repo = repo
        self.package = package
        self.trees = {}          # dotted module -> (path, tree) or None
        self.frames = []
        self.pend = []
        self.ctx = 0
        self._ctxs = {}
        self.notes = {}          # imprecision: (loc,msg) -> count
        self.steps = 0
        self.wlog = []           # (addr, key, loc)
        self.loc = ("?", 0)
        self.callstack = []
        self.active = set()
        self.unord_stack = []
        self.calls = {}          # qualname -> count : functions analysed
        self.hooks = {}          # optional interception: qualname -> callable
        self.uid = 0
        self.region = "fresh"
        self.importing = []
        self.import_errors = []
        self.base = State()
        self.base.put("WORLD", Obj("list", {}, [], None, "world"))
        self.orientation_uses = {}
        self.engine_errors = []
        self.deadline = DEADLINE[0]
        self.endpoint_atoms = {}
        self.dataclasses = {}    # class -> field list
        self.text_enums = {}     # class -> {member name: text}

    # ------------------------------------------------------------ utilities
    def note(self, msg):
        k = ("%s:%d" % self.loc, msg)
        self.notes[k] = self.notes.get(k, 0) + 1

    def unk(self, why=""):
        self.note(why)
        return TOP

    def unk_cond(self, why="unknown"):
        self.uid += 1
        return CAtom(App("unk", ("%s:%d" % self.loc, why)))

    def child_ctx(self, *key):
        k = (self.ctx,) + key
        r = self._ctxs.get(k)
        if r is None:
            r = len(self._ctxs) + 1
            self._ctxs[k] = r
        return r

    def alloc(self, st, obj, site):
        addr = (self.ctx, site)
        a = self._ctxs.get(("addr", addr))
        if a is None:
            a = "h%d" % (len(self._ctxs) + 1)
            self._ctxs[("addr", addr)] = a
        if obj.region == "fresh" and self.region != "fresh":
            obj.region = self.region
        st.put(a, obj)
        return Ref(a)

    def new_list(self, st, items, site, kind="list"):
        return self.alloc(st, Obj(kind, {}, list(items)), site)

    def new_dict(self, st, slots, site):
        return self.alloc(st, Obj("dict", dict(slots)), site)

    def write(self, st, addr, key=None):
        self.wlog.append((addr, key, self.loc, self.callstack[-1] if self.callstack else "<module>"))
        return st.mut(addr)

    def world(self, st, *ev):
        """Record an external effect."""
        o = st.mut("WORLD")
        o.items.append(Item(Tup([Const(x) if not isinstance(x, V) else x for x in ev] +
                                [Const("%s:%d" % self.loc)])))

    # ------------------------------------------------------------ raising
    def exc(self, st, cname, msg=None, site=None):
        o = Obj("exc", {"args": Tup([msg if isinstance(msg, V) else Const(msg or "")])}, None,
                {"cls": LibV("builtins." + cname), "loc": self.loc})
        return self.alloc(st, o, ("exc", cname, self.loc, site))

    def raise_(self, st, cname, msg=None):
        s = st.fork()
        e = self.exc(s, cname, msg)
        raise AbsRaise(Leaf("X", s, e))

    def maybe_raise(self, st, c, cname, msg=None):
        """Raise under condition c, continue under not c."""
        c = st.simp(c)
        if c is False:
            return
        if c is True:
            self.raise_(st, cname, msg)
        s = st.fork(c, True)
        e = self.exc(s, cname, msg)
        self.pend.append((c, Leaf("X", s, e)))
        cassume(st.asm, c, False)

    def strip_absent(self, st, v, cname, msg=None):
        """v may contain ABSENT leaves: raise there."""
        v = st.res(v)
        if v is ABSENT:
            self.raise_(st, cname, msg)
        if isinstance(v, Phi) and any(x is ABSENT for x in leaves(v)):
            pc = self.presence(v)
            self.maybe_raise(st, cnot(pc), cname, msg)
            v = self._drop_absent(st.res(v))
        return v

    def _drop_absent(self, v):
        if isinstance(v, Phi):
            a, b = self._drop_absent(v.a), self._drop_absent(v.b)
            if a is ABSENT:
                return b
            if b is ABSENT:
                return a
            return phi(v.c, a, b)
        return v

    def presence(self, v):
        if v is ABSENT:
            return False
        if isinstance(v, Phi):
            return cite(v.c, self.presence(v.a), self.presence(v.b))
        return True

    # ------------------------------------------------------------ branching inside expressions
    def branch(self, st, c, f1, f2):
        c = st.simp(c)
        if c is True:
            return f1(st)
        if c is False:
            return f2(st)
        res = []
        newp = []
        for val, f in ((True, f1), (False, f2)):
            s = st.fork(c, val)
            s.dead = False
            n0 = len(self.wlog)
            saved, self.pend = self.pend, []
            g = c if val else cnot(c)
            try:
                v = f(s)
                res.append((s, v))
            except AbsRaise as e:
                for pc, leaf in leaves_of(e.tree):
                    newp.append((cand(g, pc), leaf))
                res.append(None)
            for pc, leaf in self.pend:
                newp.append((cand(g, pc), leaf))
            self.pend = saved
        if res[0] is None and res[1] is None:
            t = None
            for pc, leaf in reversed(newp):
                t = leaf if t is None else Br(pc, leaf, t)
            raise AbsRaise(t)
        self.pend.extend(newp)
        if res[0] is None:
            st.become(res[1][0])
            return res[1][1]
        if res[1] is None:
            st.become(res[0][0])
            return res[0][1]
        (s1, v1), (s2, v2) = res
        if not s1.owned and not s2.owned and len(s1.heap) == len(st.heap) == len(s2.heap):
            # nothing written (forks inside reset ownership, so compare identity too)
            if all(s1.heap[k] is o and s2.heap[k] is o for k, o in st.heap.items()):
                return phi(c, v1, v2)
        st.become(join_states(c, s1, s2))
        return phi(c, v1, v2)

    def lift(self, st, v, f):
        v = st.res(v)
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.lift(s, v.a, f), lambda s: self.lift(s, v.b, f))
        return f(st, v)

    # ------------------------------------------------------------ truth / equality
    def truth(self, st, v):
        v = st.res(v)
        if isinstance(v, Phi):
            return st.simp(cite(v.c, self.truth(st, v.a), self.truth(st, v.b)))
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tok):
            if v.ty == "str":
                if v.nonempty:
                    return True
                return st.simp(cnot(CAtom(App("eq", (v, Const(""))))))
            if v.ty in ("int", "float", "bool"):
                return st.simp(CAtom(App("truthy", (v,))))
            return True
        if isinstance(v, Cat):
            for p in v.parts:
                if isinstance(p, Const) or (isinstance(p, Tok) and p.nonempty):
                    return True
            return cor(*[self.truth(st, p) for p in v.parts])
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Lin):
            return st.simp(cnot(self.num_cmp(st, "eq", v, Const(0))))
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind in ("list", "set", "et"):
                if o.kind == "list" and o.meta and o.meta.get("open"):
                    return self.unk_cond("truth of unknown list")
                return st.simp(cor(*[it.guard for it in o.items]))
            if o.kind == "dict":
                if o.meta and o.meta.get("open"):
                    return self.unk_cond("truth of unknown dict")
                return st.simp(cor(*[self.presence(x) for x in o.slots.values()]))
            if o.kind == "graph":
                return self.truth(st, o.slots["nodes"])
            if o.kind == "inst":
                for nm in ("__bool__", "__nonzero__"):
                    m = self.class_lookup(st, o.meta["cls"], nm)
                    if m is not None:
                        return self.truth(st, self.call(st, Bound(v, m), [], {}, None))
                m = self.class_lookup(st, o.meta["cls"], "__len__")
                if m is not None:
                    return self.truth(st, self.call(st, Bound(v, m), [], {}, None))
                return True
            return True
        if isinstance(v, App):
            if v.op == "range":
                return True
            if v.ty == "str":
                return st.simp(cnot(CAtom(App("eq", (v, Const(""))))))
            if v.ty in ("obj",):
                return True
            return st.simp(CAtom(App("truthy", (v,))))
        if isinstance(v, LibM) and v.name in ("nodes", "node", "edges"):
            return cor(*[i.guard for i in self.items_of(st, v)])
        if v is TOP:
            return self.unk_cond("truth of unknown")
        return True

    def tyof(self, st, v):
        """Definite type name or None."""
        if isinstance(v, Const):
            return type(v.v).__name__
        if isinstance(v, Tok):
            return v.ty
        if isinstance(v, Cat):
            return "str"
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Lin):
            return "int" if not v.isf else "float"
        if isinstance(v, Idx):
            return "int"
        if isinstance(v, App):
            return v.ty
        if isinstance(v, Ref):
            return st.get(v.addr).kind
        if isinstance(v, (Fn, Bound, LibM, LibV, Partial)):
            return "function"
        return None

    NUM = ("int", "float", "bool")

    def eq(self, st, a, b):
        a, b = st.res(a), st.res(b)
        if isinstance(a, Phi):
            return st.simp(cite(a.c, self.eq(st, a.a, b), self.eq(st, a.b, b)))
        if isinstance(b, Phi):
            return st.simp(cite(b.c, self.eq(st, a, b.a), self.eq(st, a, b.b)))
        if a is TOP or b is TOP:
            return self.unk_cond("eq")
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return bool(a.v == b.v)
            except Exception:
                return False
        if a == b:
            return True
        ta, tb = self.tyof(st, a), self.tyof(st, b)
        if ta is not None and tb is not None and ta != tb:
            if not (ta in self.NUM and tb in self.NUM) and not {ta, tb} <= {"set", "frozenset"}:
                if not ("inst" in (ta, tb)):
                    return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.eq_ref(st, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = a if isinstance(a, Ref) else b
            if st.get(r.addr).kind in ("list", "dict", "set", "dom", "et", "graph", "frame", "cls", "mod") \
                    and (ta and tb) and ta != tb:
                return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return st.simp(cand(*[self.eq(st, x, y) for x, y in zip(a.items, b.items)]))
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "edge":
            (u1, v1), (u2, v2) = a.args, b.args
            return st.simp(cor(cand(self.eq(st, u1, u2), self.eq(st, v1, v2)),
                               cand(self.eq(st, u1, v2), self.eq(st, v1, u2))))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == "str.find" and len(x.args) == 2 and y == Const(0):
                return self.truth(st, self.str_method(st, x.args[0], "startswith", [x.args[1]], {}, None))
        if (ta in self.NUM and tb in self.NUM) or isinstance(a, Lin) or isinstance(b, Lin):
            return self.num_cmp(st, "eq", a, b)
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a.group is not None and a.group == b.group:
                return False
        if isinstance(a, (Tok, Cat, Const)) and isinstance(b, (Tok, Cat, Const)) and _uuids(a) != _uuids(b):
            return False        # a random UUID never equals data that does not contain it
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and isinstance(y.v, str) and isinstance(x, App) and x.op == "strslice" and \
                    x.args[1] in (None, NONE, Const(0)) and x.args[3] in (None, NONE, Const(1)) and x.args[2] == Const(len(y.v)):
                return self.truth(st, self.str_method(st, x.args[0], "startswith", [y], {}, None))
            if isinstance(y, Const) and y.v == "" and isinstance(x, (Tok, Cat)):
                t = self.truth(st, x)
                return st.simp(cnot(t))
        pa = a.parts if isinstance(a, Cat) else (a,)
        pb = b.parts if isinstance(b, Cat) else (b,)
        if isinstance(a, Cat) or isinstance(b, Cat):
            pa, pb = list(pa), list(pb)
            while pa and pb and pa[0] == pb[0]:
                pa.pop(0)
                pb.pop(0)
            while pa and pb and pa[-1] == pb[-1]:
                pa.pop()
                pb.pop()
            # constant prefixes / suffixes
            if pa and pb and isinstance(pa[0], Const) and isinstance(pb[0], Const):
                x, y = pa[0].v, pb[0].v
                if not (x.startswith(y) or y.startswith(x)):
                    return False
            if pa and pb and isinstance(pa[-1], Const) and isinstance(pb[-1], Const):
                x, y = pa[-1].v, pb[-1].v
                if not (x.endswith(y) or y.endswith(x)):
                    return False
            if not pa or not pb:
                r = mkcat(pa or pb)
                return st.simp(cnot(self.truth(st, r)))
            if len(pa) == 1 and len(pb) == 1:
                return self.eq(st, pa[0], pb[0])
            a, b = mkcat(pa), mkcat(pb)
        x, y = sorted((a, b), key=repr)
        return st.simp(CAtom(App("eq", (x, y))))

    def eq_ref(self, st, a, b, depth=0):
        if a.addr == b.addr:
            return True
        x, y = st.get(a.addr), st.get(b.addr)
        if x.kind != y.kind:
            if x.kind == "inst" or y.kind == "inst":
                return False
            return False
        if depth > 6:
            return self.unk_cond("deep eq")
        if x.kind == "dict":
            ks = list(x.slots) + [k for k in y.slots if k not in x.slots]
            cs = []
            for k in ks:
                vx, vy = x.slots.get(k, ABSENT), y.slots.get(k, ABSENT)
                px, py = self.presence(vx), self.presence(vy)
                same = cite(px, py, cnot(py))
                if px is not False and py is not False:
                    same = cand(same, cor(cnot(px), self.eq(st, self._drop_absent(vx), self._drop_absent(vy))))
                cs.append(same)
                if same is False:
                    return False
            return st.simp(cand(*cs))
        if x.kind == "list":
            ia, ib = x.items, y.items
            if len(ia) == len(ib) and all(i.guard is True and j.guard is True and i.many == j.many
                                          for i, j in zip(ia, ib)):
                cs = []
                for i, j in zip(ia, ib):
                    r = self.eq(st, i.v, j.v)
                    if r is False:
                        return False
                    cs.append(r)
                return st.simp(cand(*cs))
            if all(i.guard is True and not i.many for i in ia + ib):
                return False
            return self.unk_cond("list eq")
        if x.kind == "set":
            if all(i.guard is True and not i.many for i in x.items + y.items):
                sa = [i.v for i in x.items]
                sb = [i.v for i in y.items]
                if all(isinstance(q, Const) for q in sa + sb):
                    return set(q.v for q in sa) == set(q.v for q in sb)
                c1 = cand(*[cor(*[self.eq(st, p, q) for q in sb]) for p in sa])
                c2 = cand(*[cor(*[self.eq(st, p, q) for q in sa]) for p in sb])
                return st.simp(cand(c1, c2))
            return self.unk_cond("set eq")
        if x.kind == "inst":
            m = self.class_lookup(st, x.meta["cls"], "__eq__")
            if m is not None:
                return self.truth(st, self.call(st, Bound(a, m), [b], {}, None))
        return False

    def to_lin(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, (int, float)):
                return Lin(v.v, {})
            return None
        if isinstance(v, (App, Tok)) and v.ty in ("int", "float", "bool", None, "num"):
            return Lin(0, {v: 1})
        if isinstance(v, Idx):
            return Lin(0, {v: 1})
        return None

    def unlin(self, l):
        if not l.terms:
            return Const(l.c)
        if l.c == 0 and len(l.terms) == 1 and l.terms[0][1] == 1 and isinstance(l.terms[0][0], V):
            return l.terms[0][0]
        return l

    def num_cmp(self, st, op, a, b):
        la, lb = self.to_lin(a), self.to_lin(b)
        if la is None or lb is None:
            x, y = a, b
            if op == "eq":
                x, y = sorted((a, b), key=repr)
            return st.simp(CAtom(App(op, (x, y))))
        t = dict(la.terms)
        for s, k in lb.terms:
            t[s] = t.get(s, 0) - k
        d = Lin(la.c - lb.c, t)
        if not d.terms:
            return {"eq": d.c == 0, "lt": d.c < 0, "le": d.c <= 0}[op]
        # all N(seg) are >= 1, lengths and degrees >= 0
        def lb_of(s):
            if isinstance(s, tuple) and s[0] == "N":
                return 1
            if isinstance(s, App) and s.op in ("deg", "len"):
                return 0
            return None
        lo = d.c
        for s, k in d.terms:
            q = lb_of(s)
            if q is None or k < 0:
                lo = None
                break
            lo += k * q
        hi = d.c
        for s, k in d.terms:
            q = lb_of(s)
            if q is None or k > 0:
                hi = None
                break
            hi += k * q
        if op == "eq":
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            # canonical sign
            if d.terms[0][1] < 0:
                d = Lin(-d.c, {s: -k for s, k in d.terms})
            if d.c == 0 and len(d.terms) == 1:
                return st.simp(CAtom(App("eq", (d.terms[0][0] if isinstance(d.terms[0][0], V) else Const(repr(d.terms[0][0])), Const(0)))))
            return st.simp(CAtom(App("eq", (d, Const(0)))))
        if op == "lt":
            if lo is not None and lo >= 0:
                return False
            if hi is not None and hi < 0:
                return True
            return st.simp(CAtom(App("lt", (d, Const(0)))))
        if op == "le":
            if lo is not None and lo > 0:
                return False
            if hi is not None and hi <= 0:
                return True
            # d <= 0  ==  not (-d < 0)
            return st.simp(cnot(CAtom(App("lt", (Lin(-d.c, {s: -k for s, k in d.terms}), Const(0))))))
        return self.unk_cond("cmp")

    def order_cmp(self, st, op, a, b):
        """op in lt, le, gt, ge"""
        a, b = st.res(a), st.res(b)
        if isinstance(a, Phi):
            return st.simp(cite(a.c, self.order_cmp(st, op, a.a, b), self.order_cmp(st, op, a.b, b)))
        if isinstance(b, Phi):
            return st.simp(cite(b.c, self.order_cmp(st, op, a, b.a), self.order_cmp(st, op, a, b.b)))
        if op in ("gt", "ge"):
            return self.order_cmp(st, {"gt": "lt", "ge": "le"}[op], b, a)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return bool(a.v < b.v) if op == "lt" else bool(a.v <= b.v)
            except TypeError:
                self.raise_(st, "TypeError", "unorderable")
        if isinstance(a, Tup) and isinstance(b, Tup):
            r = op == "le" if len(a.items) == len(b.items) else len(a.items) < len(b.items)
            for x, y in reversed(list(zip(a.items, b.items))):
                e = self.eq(st, x, y)
                r = cite(e, r, False if e is True else self.order_cmp(st, "lt", x, y))
            return st.simp(r)
        ta, tb = self.tyof(st, a), self.tyof(st, b)
        if a is TOP or b is TOP:
            return self.unk_cond("order")
        if ta == "str" and tb == "str":
            if a == b:
                return op == "le"
            if op == "lt":
                return st.simp(CAtom(App("slt", (a, b))))
            return st.simp(cnot(CAtom(App("slt", (b, a)))))
        if (ta == "str" and tb in self.NUM + ("NoneType",)) or (tb == "str" and ta in self.NUM + ("NoneType",)) \
                or "NoneType" in (ta, tb):
            self.raise_(st, "TypeError", "unorderable")
        return self.num_cmp(st, op, a, b)

    # ------------------------------------------------------------ modules
    def find_module(self, dotted):
        """(path, tree) of a repo module, or None."""
        if dotted in self.trees:
            return self.trees[dotted]
        parts = dotted.split(".")
        r = None
        if parts[0] == self.package:
            p = os.path.join(self.repo, *parts)
            for cand_ in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.isfile(cand_):
                    with open(cand_, "rb") as f:
                        src = f.read()
                    r = (cand_, ast.parse(src, cand_))
                    break
        self.trees[dotted] = r
        return r

    def import_module(self, st, dotted):
        """Return value for module `dotted` (executing its top level abstractly once)."""
        addr = "mod:" + dotted
        if addr in st.heap:
            return Ref(addr)
        if addr in self.base.heap:
            # loaded by another scenario branch: adopt
            for k, o in self.base.heap.items():
                if k not in st.heap:
                    st.heap[k] = o
            return Ref(addr)
        m = self.find_module(dotted)
        if m is None:
            return None
        path, tree = m
        st.put(addr, Obj("mod", {"__name__": Const(dotted), "__file__": Const(path)}, None,
                         {"name": dotted, "path": path}, "module"))
        saved = (self.frames, self.ctx, self.region, self.loc, self.pend, self.callstack, self.active,
                 self.unord_stack)
        self.frames = [Frame(addr, None, addr, None)]
        self.ctx = self.child_ctx0("module", dotted)
        self.region = "module"
        self.pend = []
        self.callstack = ["<module %s>" % dotted]
        self.active = set()
        self.unord_stack = []
        rel = os.path.relpath(path, self.repo)
        self.loc = (rel, 1)
        try:
            out = self.exec_block(tree.body, st)
            r = merge_kind(out, "N")
            if r is None:
                raise AbsRaise(out)
            st.become(r[0])
        finally:
            (self.frames, self.ctx, self.region, self.loc, self.pend, self.callstack, self.active,
             self.unord_stack) = saved
        return Ref(addr)

    def child_ctx0(self, *key):
        s, self.ctx = self.ctx, 0
        r = self.child_ctx(*key)
        self.ctx = s
        return r

    KNOWN_LIBS = {"os", "errno", "uuid", "networkx", "xml", "copy", "string", "re", "six", "pandas", "math",
                  "collections", "matplotlib", "pydotplus", "csv", "io", "itertools", "functools", "operator", "sys",
                  "__future__", "types", "typing", "tempfile", "shutil", "json", "contextlib", "warnings", "numbers",
                  "abc", "enum", "dataclasses", "datetime", "time", "random", "codecs", "pathlib", "decimal",
                  "fractions", "logging", "traceback", "inspect", "weakref", "heapq", "bisect", "textwrap", "hashlib",
                  "builtins", "numpy", "lxml", "stat", "glob", "secrets", "unicodedata", "struct", "ast", "threading",
                  "atexit", "gc", "locale", "html", "queue", "array", "statistics", "pprint", "reprlib"}

    def do_import(self, st, dotted):
        top = dotted.split(".")[0]
        if top == self.package:
            # parents first
            parts = dotted.split(".")
            v = None
            for i in range(1, len(parts) + 1):
                nm = ".".join(parts[:i])
                v = self.import_module(st, nm)
                if v is None:
                    self.import_errors.append((self.loc, dotted))
                    self.raise_(st, "ImportError", "no module " + dotted)
                if i > 1:
                    p = "mod:" + ".".join(parts[:i - 1])
                    o = st.get(p)
                    if parts[i - 1] not in o.slots:
                        st.mut(p).slots[parts[i - 1]] = v
            return v
        if top in self.KNOWN_LIBS:
            return LibV(dotted)
        self.import_errors.append((self.loc, dotted))
        self.raise_(st, "ImportError", "no module " + dotted)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """Returns an outcome tree."""
        residuals = []
        cur = st
        out = None
        for s in stmts:
            out = self.exec_stmt(s, cur)
            if isinstance(out, Leaf):
                if out.k == "N":
                    cur = out.st
                    out = None
                    continue
                break
            r = merge_kind(out, "N")
            if r is None:
                break
            cur = r[0]
            residuals.append(out)
            out = None
        if out is None:
            out = Leaf("N", cur)
        for res in reversed(residuals):
            out = subst(res, "N", out)
        return out

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Limit("step budget")
        if self.deadline is not None and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Limit("time budget")
        self.loc = (self.loc[0], s.lineno)
        loc = self.loc
        saved, self.pend = self.pend, []
        try:
            m = getattr(self, "x_" + s.__class__.__name__, None)
            if m is None:
                self.note("unsupported statement " + s.__class__.__name__)
                out = Leaf("N", st)
            else:
                out = m(s, st)
                if out is None:
                    out = Leaf("N", st)
        except AbsRaise as e:
            out = e.tree
        p, self.pend = self.pend, saved
        self.loc = loc
        for c, leaf in reversed(p):
            out = mkbr(c, leaf, out)
        return out

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def x_Pass(self, s, st):
        pass

    def x_Global(self, s, st):
        pass

    x_Nonlocal = x_Global

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def x_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, st)
            rhs = self.ev(s.value, st)
            new = self.augop(st, op, old, rhs, s)
            self.store_name(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            recv = self.ev(t.value, st)
            nm = self.mangle(t.attr)
            old = self.getattr_(st, recv, nm, s)
            rhs = self.ev(s.value, st)
            self.setattr_(st, recv, nm, self.augop(st, op, old, rhs, s))
        elif isinstance(t, ast.Subscript):
            recv = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            old = self.getitem(st, recv, k, s)
            rhs = self.ev(s.value, st)
            self.setitem(st, recv, k, self.augop(st, op, old, rhs, s))

    def augop(self, st, op, old, rhs, node):
        def f(s, o):
            if op == "add" and isinstance(o, Ref) and s.get(o.addr).kind == "list":
                its = self.items_of(s, rhs)
                ob = self.write(s, o.addr)
                ob.items.extend(self.mark_unord(s, o.addr, its))
                return o
            if op == "or" and isinstance(o, Ref) and s.get(o.addr).kind in ("set", "dict"):
                self.call_method(s, o, "update", [rhs], {}, node)
                return o
            return self.binop(s, op, o, rhs, node)
        return self.lift(st, old, f)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.frames[-1]
                o = self.write(st, fr.addr, t.id)
                o.slots.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                recv = self.ev(t.value, st)
                k = self.ev_index(t.slice, st)
                self.delitem(st, recv, k, s)
            elif isinstance(t, ast.Attribute):
                recv = self.ev(t.value, st)
                nm = self.mangle(t.attr)
                r = st.res(recv)
                if isinstance(r, Ref) and nm in st.get(r.addr).slots:
                    self.write(st, r.addr, nm).slots.pop(nm)
                else:
                    self.note("del attribute")
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.x_Delete(ast.copy_location(ast.Delete(targets=[e]), s), st)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return Leaf("R", st, v)

    def x_Break(self, s, st):
        return Leaf("B", st)

    def x_Continue(self, s, st):
        return Leaf("C", st)

    def x_Raise(self, s, st):
        if s.exc is None:
            fr = self.frames[-1]
            for f in reversed(self.frames):
                e = st.get(f.addr).slots.get("$exc")
                if e is not None and e is not NONE:
                    return Leaf("X", st, e)
                if f.addr == fr.addr:
                    break
            return Leaf("X", st, self.exc(st, "RuntimeError", "no active exception"))
        v = self.ev(s.exc, st)
        if s.cause is not None:
            self.ev(s.cause, st)

        def f(s2, x):
            if isinstance(x, LibV) or (isinstance(x, Ref) and s2.get(x.addr).kind == "cls"):
                return self.call(s2, x, [], {}, s)
            return x
        v = self.lift(st, v, f)
        return Leaf("X", st, v)

    def x_Assert(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        self.maybe_raise(st, cnot(c), "AssertionError")

    def x_If(self, s, st):
        c = st.simp(self.cond(s.test, st))
        return self.exec_cond(st, c, lambda q: self.exec_block(s.body, q),
                              lambda q: self.exec_block(s.orelse, q) if s.orelse else Leaf("N", q))

    def exec_cond(self, st, c, f1, f2):
        if c is True:
            return f1(st)
        if c is False:
            return f2(st)
        s1, s2 = st.fork(c, True), st.fork(c, False)
        t1 = f1(s1)
        t2 = f2(s2)
        return mkbr(c, t1, t2)

    def x_Match(self, s, st):
        subj = self.ev(s.subject, st)

        def run(i, q):
            if i == len(s.cases):
                return Leaf("N", q)
            case = s.cases[i]
            c, binds = self.match_pattern(case.pattern, subj, q)
            for nm, v in binds:
                self.store_name(nm, v, q)
            c = q.simp(c)
            if case.guard is not None and c is not False:
                c = cand(c, self.cond(case.guard, q))
            return self.exec_cond(q, q.simp(c), lambda z: self.exec_block(case.body, z), lambda z: run(i + 1, z))
        return run(0, st)

    def match_pattern(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return self.eq(st, v, self.ev(p.value, st)), []
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, v, Const(p.value)), []
        if isinstance(p, ast.MatchOr):
            cs, b = [], []
            for q in p.patterns:
                c, bb = self.match_pattern(q, v, st)
                cs.append(c)
                b += bb
            return cor(*cs), b
        if isinstance(p, ast.MatchAs):
            c, b = (True, []) if p.pattern is None else self.match_pattern(p.pattern, v, st)
            if p.name:
                b = b + [(p.name, v)]
            return c, b
        if isinstance(p, ast.MatchSequence) and isinstance(v, Tup) and len(p.patterns) == len(v.items) and \
                not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            cs, b = [], []
            for q, x in zip(p.patterns, v.items):
                c, bb = self.match_pattern(q, x, st)
                cs.append(c)
                b += bb
            return cand(*cs), b
        self.note("match pattern")
        return self.unk_cond("match"), []

    # loops
    def index_items(self, e, st):
        """items of `range(len(X))` / `range(0, len(X))` for a list X some of whose items may be absent; None if not that"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and not e.keywords and
                1 <= len(e.args) <= 2):
            return None
        if len(e.args) == 2 and not (isinstance(e.args[0], ast.Constant) and e.args[0].value == 0):
            return None
        l = e.args[-1]
        if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and len(l.args) == 1 and
                is_path(l.args[0])):
            return None
        return self.len_index(l.args[0], st)

    def len_index(self, e, st):
        v = st.res(self.ev(e, st))
        if not (isinstance(v, Ref) and st.get(v.addr).kind == "list"):
            return None
        o = st.get(v.addr)
        if (o.meta or {}).get("open"):
            return None
        items = o.items
        if all(st.simp(i.guard) is True and not i.many for i in items):
            return None
        shape = tuple(i.many for i in items)
        return [Item(Idx(n, shape), i.guard, i.many, i.unord) for n, i in enumerate(items)]

    def x_For(self, s, st):
        items = self.index_items(s.iter, st)
        if items is None:
            it = self.ev(s.iter, st)
            items = self.items_of(st, it, consume=True)

        def body(q, v):
            self.assign(s.target, v, q)
            return self.exec_block(s.body, q)

        out = self.run_loop(st, items, body, s)
        if s.orelse and has_kind(out, "N"):
            r = merge_kind(out, "N")
            out = subst(out, "N", self.exec_block(s.orelse, r[0]))
        return rekind(out, "B", "N") if has_kind(out, "B") else out

    x_AsyncFor = x_For

    def guarded_body(self, body, q, v):
        saved, self.pend = self.pend, []
        try:
            out = body(q, v)
        except AbsRaise as e:
            out = e.tree
        p, self.pend = self.pend, saved
        for c, leaf in reversed(p):
            out = mkbr(c, leaf, out)
        if has_kind(out, "C"):
            out = rekind(out, "C", "N")
        return out

    def run_loop(self, st, items, body, node):
        """N leaves of the result: loop exhausted; B leaves: break."""
        residuals = []
        cur = st
        out = None
        ctx0 = self.ctx
        for i, it in enumerate(items):
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Limit("step budget")
            g = cur.simp(it.guard)
            if g is False:
                continue
            self.ctx = ctx0
            self.ctx = self.child_ctx("loop", id(node), i)
            if it.unord:
                self.unord_stack.append((it.unord, set(cur.heap)))
            try:
                if it.many:
                    def run(q, it=it):
                        return self.loop_many(q, it, body, node)
                else:
                    def run(q, it=it):
                        return self.guarded_body(body, q, it.v)
                if g is True:
                    out = run(cur)
                else:
                    out = self.exec_cond(cur, g, run, lambda q: Leaf("N", q))
            finally:
                self.ctx = ctx0
                if it.unord:
                    self.unord_stack.pop()
            if isinstance(out, Leaf) and out.k == "N":
                cur = out.st
                out = None
                continue
            r = merge_kind(out, "N")
            if r is None:
                break
            cur = r[0]
            residuals.append(out)
            out = None
        if out is None:
            out = Leaf("N", cur)
        for res in reversed(residuals):
            out = subst(res, "N", out)
        return out

    def loop_many(self, st, it, body, node):
        seg = it.many
        base = st
        cur = st.fork()
        accel = {}
        was = seg in self.active
        self.active.add(seg)
        try:
            for k in range(5):
                s = cur.fork()
                out = self.guarded_body(body, s, it.v)
                r = merge_kind(out, "N")
                if r is None:
                    # always leaves the loop at the first element of the segment
                    return out
                nxt, changed = self.accelerate(base, cur, r[0], seg, accel, widen=(k >= 3))
                cur = nxt
                if not changed:
                    break
        finally:
            if not was:
                self.active.discard(seg)
        cur.asm = dict(base.asm)
        cur.owned = set()
        if isinstance(out, Leaf):
            return Leaf("N", cur)
        def wrap(t):
            if isinstance(t, Leaf):
                return Leaf("N", cur) if t.k == "N" else t
            a, b = wrap(t.t), wrap(t.f)
            if isinstance(a, Leaf) and isinstance(b, Leaf) and a.k == b.k == "N":
                return Leaf("N", cur)
            return Br(CAtom(App("some", (Const(seg), t.c))), a, b)
        return wrap(out)

    def accelerate(self, base, cur, s1, seg, accel, widen=False):
        nxt = State(dict(s1.heap), dict(cur.asm))
        changed = False
        for addr, o1 in s1.heap.items():
            oc = cur.heap.get(addr)
            if oc is None or oc is o1:
                continue
            ob = base.heap.get(addr)
            res = o1.clone()
            for k, v1 in o1.slots.items():
                vc = oc.slots.get(k)
                if vc is None:
                    changed = True
                    if ob is not None and o1.kind == "dict":
                        pass
                    continue
                if v1 is vc or v1 == vc:
                    continue
                l1, lc = self.to_lin(v1), self.to_lin(vc)
                key = (addr, k)
                if l1 is not None and lc is not None and not (o1.kind == "frame" and isinstance(v1, (Tok,))):
                    t = dict(l1.terms)
                    for s_, q in lc.terms:
                        t[s_] = t.get(s_, 0) - q
                    d = Lin(l1.c - lc.c, t)
                    if key in accel:
                        if accel[key] == d:
                            res.slots[k] = vc
                            continue
                    elif not any(isinstance(x, Tok) and x == v1 for x in ()):
                        # v + delta  ->  v + sum over the segment of delta
                        usable = (not d.terms and not isinstance(v1, Const)) or True
                        if usable and (not isinstance(v1, Const) or isinstance(vc, Const)) and \
                                self._additive(v1, vc):
                            accel[key] = d
                            tt = dict(lc.terms)
                            if d.c:
                                tt[("N", seg)] = tt.get(("N", seg), 0) + d.c
                            for s_, q in d.terms:
                                sym = ("S", seg, s_)
                                tt[sym] = tt.get(sym, 0) + q
                            res.slots[k] = self.unlin(Lin(lc.c, tt))
                            changed = True
                            continue
                if widen:
                    res.slots[k] = TOP
                    self.note("widened %r" % (k,))
                changed = True
            for k in oc.slots:
                if k not in o1.slots:
                    changed = True
            if o1.items is not None and oc.items is not None:
                n = len(oc.items)
                if len(o1.items) >= n and all(x.same(y) for x, y in zip(oc.items, o1.items)):
                    extra = o1.items[n:]
                    out = list(oc.items)
                    for e in extra:
                        m = e.many or seg
                        e2 = Item(e.v, e.guard, m, e.unord)
                        if any(e2.same(y) for y in out):
                            continue
                        out.append(e2)
                        changed = True
                    res.items = out
                else:
                    changed = True
                    if widen:
                        res.items = []
                        res.meta = dict(res.meta or {}, open=True)
                        self.note("widened list")
            nxt.heap[addr] = res
        return nxt, changed

    def _additive(self, v1, vc):
        # v1 must syntactically contain vc's symbols (it was computed from it)
        l1, lc = self.to_lin(v1), self.to_lin(vc)
        d1 = dict(l1.terms)
        for s, k in lc.terms:
            if d1.get(s, 0) < k:
                return False
        return True

    def x_while_index(self, s, st):
        """`while i < len(X): ...; i += 1` over a list of unknown length is `for i in range(len(X))`"""
        m = while_index(s)
        if m is None:
            return None
        name, seq, body = m
        k = st.res(self.ev(ast.copy_location(ast.Name(name, ast.Load()), s.test), st))
        if k != Const(0):
            return None
        items = self.len_index(seq, st)
        if items is None:
            return None
        n = self.len_(st, self.ev(seq, st))

        def run(q, v):
            self.store_name(name, v, q)
            return self.exec_block(body, q)
        out = self.run_loop(st, items, run, s)
        r = merge_kind(out, "N")
        if r is not None:
            self.store_name(name, n, r[0])
            end = self.exec_block(s.orelse, r[0]) if s.orelse else Leaf("N", r[0])
            out = subst(out, "N", end)
        return rekind(out, "B", "N") if has_kind(out, "B") else out

    def drain_item(self, s, st, pat):
        """`while X: ... X.pop(0) ...`: the item the next pop takes when it is a segment or may be absent"""
        if pat is None:
            return None
        v = st.res(self.ev(pat[0], st))
        if not (isinstance(v, Ref) and st.get(v.addr).kind == "list"):
            return None
        o = st.get(v.addr)
        if (o.meta or {}).get("open"):
            return None
        items = [i for i in o.items if st.simp(i.guard) is not False]
        if not items:
            return None
        it = items[0] if pat[1] == 0 else items[-1]
        if not it.many and st.simp(it.guard) is True:
            return None
        return v, it, (items[1:] if pat[1] == 0 else items[:-1])

    def x_While(self, s, st):
        out = self.x_while_index(s, st)
        if out is not None:
            return out
        drain = while_drain(s)
        drained = 0
        steps = []   # list of ('br', cond, exit leaf) / ('tree', residual)
        cur = st
        unknown = 0
        n = 0
        out = None
        ctx0 = self.ctx
        exitleaf = None
        while True:
            n += 1
            self.ctx = ctx0
            self.ctx = self.child_ctx("while", id(s), n)
            d = self.drain_item(s, cur, drain) if drained < 300 else None
            if d is not None:
                drained += 1
                box, it, rest = d
                self.write(cur, box.addr).items = list(rest)

                def one(q, v, box=box):
                    w = self.write(q, box.addr)
                    w.items = [Item(v)] + w.items if drain[1] == 0 else w.items + [Item(v)]
                    return self.exec_block(s.body, q)
                out = self.run_loop(cur, [it], one, s)
                if isinstance(out, Leaf):
                    if out.k == "N":
                        cur = out.st
                        continue
                    exitleaf = out
                    break
                r = merge_kind(out, "N")
                if r is None:
                    exitleaf = out
                    break
                steps.append(("tree", out, None))
                cur = r[0]
                continue
            c = cur.simp(self.cond(s.test, cur))
            if c is False:
                exitleaf = Leaf("N", cur)
                break
            if n > 4000:
                self.note("while bound")
                exitleaf = Leaf("N", cur)
                break
            if c is not True:
                unknown += 1
                if unknown > 3:
                    self.note("while with undecided condition")
                    cassume(cur.asm, c, False)
                    exitleaf = Leaf("N", cur)
                    break
                ex = cur.fork(c, False)
                steps.append(("br", c, Leaf("N", ex)))
                cur = cur.fork(c, True)
            out = self.guarded_body(lambda q, v: self.exec_block(s.body, q), cur, None)
            if isinstance(out, Leaf):
                if out.k == "N":
                    cur = out.st
                    continue
                exitleaf = out
                break
            r = merge_kind(out, "N")
            if r is None:
                exitleaf = out
                break
            steps.append(("tree", out, None))
            cur = r[0]
        self.ctx = ctx0
        out = exitleaf

        def els(t):
            if s.orelse and isinstance(t, Leaf) and t.k == "N":
                return self.exec_block(s.orelse, t.st)
            return t
        out = els(out)
        for k, a, b in reversed(steps):
            if k == "br":
                out = mkbr(a, out, els(b))
            else:
                out = subst(a, "N", out)
        return rekind(out, "B", "N") if has_kind(out, "B") else out

    # try / with
    def exc_matches(self, st, exc, types):
        """exc: exception value; types: value of handler type expression -> cond"""
        exc = st.res(exc)
        types = st.res(types)
        if isinstance(exc, Phi):
            return cite(exc.c, self.exc_matches(st, exc.a, types), self.exc_matches(st, exc.b, types))
        if isinstance(types, Tup):
            return cor(*[self.exc_matches(st, exc, t) for t in types.items])
        return self.isinstance_(st, exc, types)

    def x_Try(self, s, st):
        out = self.exec_block(s.body, st)
        if s.orelse and has_kind(out, "N"):
            r = merge_kind(out, "N")
            # exceptions in else are not handled by this try: mark them
            eo = self.exec_block(s.orelse, r[0])
            eo = rekind(eo, "X", "Y")
            out = subst(out, "N", eo)
        if s.handlers and has_kind(out, "X"):
            out = self.handle(out, s)
        out = rekind(out, "Y", "X") if has_kind(out, "Y") else out
        if s.finalbody:
            out = self.finalise(out, s)
        return out

    x_TryStar = x_Try

    def handle(self, t, s):
        if isinstance(t, Br):
            return mkbr(t.c, self.handle(t.t, s), self.handle(t.f, s))
        if t.k != "X":
            return t

        def run(i, q):
            if i == len(s.handlers):
                return Leaf("X", q, t.v)
            h = s.handlers[i]
            c = True
            if h.type is not None:
                c = self.exc_matches(q, t.v, self.ev(h.type, q))

            def body(z):
                fr = self.frames[-1]
                o = z.mut(fr.addr)
                old = o.slots.get("$exc", NONE)
                o.slots["$exc"] = t.v
                if h.name:
                    self.store_name(h.name, t.v, z)
                r = self.exec_block(h.body, z)
                for _, lf in leaves_of(r):
                    if fr.addr in lf.st.heap:
                        lf.st.mut(fr.addr).slots["$exc"] = old
                return r
            return self.exec_cond(q, q.simp(c), body, lambda z: run(i + 1, z))
        return run(0, t.st)

    def finalise(self, t, s):
        if isinstance(t, Br):
            return mkbr(t.c, self.finalise(t.t, s), self.finalise(t.f, s))
        r = self.exec_block(s.finalbody, t.st)
        m = merge_kind(r, "N")
        if m is None:
            return r
        return subst(r, "N", Leaf(t.k, m[0], t.v))

    def x_With(self, s, st):
        mgrs = []
        for item in s.items:
            m = self.ev(item.context_expr, st)
            v = self.enter(st, m, s)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
            mgrs.append(m)
        out = self.exec_block(s.body, st)

        def close(t):
            if isinstance(t, Br):
                return mkbr(t.c, close(t.t), close(t.f))
            for m in reversed(mgrs):
                try:
                    self.exit_(t.st, m, s)
                except AbsRaise as e:
                    return e.tree
            return t
        return close(out)

    def enter(self, st, m, node):
        m = st.res(m)
        if isinstance(m, Ref) and st.get(m.addr).kind == "inst":
            return self.call(st, self.getattr_(st, m, "__enter__", node), [], {}, node)
        if isinstance(m, Ref) and st.get(m.addr).kind == "suppress":
            return NONE
        return m

    def exit_(self, st, m, node):
        m = st.res(m)
        if isinstance(m, Ref):
            k = st.get(m.addr).kind
            if k == "inst":
                self.call(st, self.getattr_(st, m, "__exit__", node), [NONE, NONE, NONE], {}, node)
            elif k == "file":
                self.call_method(st, m, "close", [], {}, node)
            elif k in ("suppress",):
                self.note("contextlib.suppress")

    # definitions
    def x_FunctionDef(self, s, st):
        fn = self.make_fn(s, st, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            v = self.apply_decorator(st, dv, v, s)
        self.store_name(s.name, v, st)

    x_AsyncFunctionDef = x_FunctionDef

    def apply_decorator(self, st, dv, v, node):
        if isinstance(dv, LibV):
            if dv.path == "builtins.staticmethod":
                return v.with_kind("static")
            if dv.path == "builtins.classmethod":
                return v.with_kind("class")
            if dv.path in ("builtins.property", "functools.cached_property"):
                return App("property", (v,), "property")
            if dv.path in ("functools.lru_cache", "functools.cache"):
                return v
            if dv.path.startswith("functools.wraps") or dv.path.startswith("abc."):
                return v
        if isinstance(dv, App) and dv.op == "identity_decorator":
            return v
        if isinstance(dv, App) and dv.op == "prop_setter":
            return App("property", (dv.args[0].args[0], v), "property")
        return self.call(st, dv, [v], {}, node)

    def make_fn(self, node, st, name, kind=None):
        a = node.args
        defaults = tuple(self.ev(d, st) for d in a.defaults)
        kwd = tuple((x.arg, self.ev(d, st)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        fr = self.frames[-1]
        info = fninfo(node)
        cls = fr.cls
        frame = fr.addr
        if fr.addr.startswith("mod:"):
            frame = None
        elif st.get(fr.addr).kind == "cls":
            frame = (st.get(fr.addr).meta or {}).get("encl")
        return Fn(node, fr.mod, frame, cls, defaults, kwd, name, kind, info.locs, info.isgen)

    def dataclass_body(self, s, deco):
        """The methods a dataclass decorator adds, as source, so that they are analysed like any others."""
        fields = [b for b in s.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)
                  and "ClassVar" not in ast.dump(b.annotation)]
        have = {b.name for b in s.body if isinstance(b, ast.FunctionDef)}
        names = [b.target.id for b in fields]
        out = []
        if "__init__" not in have:
            sig, body = [], []
            for b in fields:
                n, dv = b.target.id, b.value
                val = n
                if isinstance(dv, ast.Call) and ast.unparse(dv.func).split(".")[-1] == "field":
                    kw = {k.arg: k.value for k in dv.keywords}
                    if "default_factory" in kw:
                        dv = ast.Constant("<default factory>")
                        val = "%s() if %s == '<default factory>' else %s" % (ast.unparse(kw["default_factory"]), n, n)
                    else:
                        dv = kw.get("default")
                sig.append(n if dv is None else "%s=%s" % (n, ast.unparse(dv)))
                body.append("    self.%s = %s" % (n, val))
            if "__post_init__" in have:
                body.append("    self.__post_init__()")
            out.append("def __init__(self, %s):\n%s" % (", ".join(sig), "\n".join(body) or "    pass"))
        opts = {k.arg: k.value for k in deco.keywords} if isinstance(deco, ast.Call) else {}
        if "__eq__" not in have and ast.unparse(opts.get("eq", ast.Constant(True))) == "True":
            out.append("def __eq__(self, other):\n    return (%s) == (%s)" % (
                "".join("self.%s, " % n for n in names), "".join("other.%s, " % n for n in names)))
        new = []
        for src in out:
            f = ast.parse(src).body[0]
            for n in ast.walk(f):
                if hasattr(n, "lineno"):
                    n.lineno = n.end_lineno = s.lineno
            new.append(f)
        return [b for b in s.body if not (b in fields)] + new

    def x_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        if any(isinstance(b, LibV) and b.path == "typing.NamedTuple" for b in bases):
            fields = [b for b in s.body if isinstance(b, ast.AnnAssign)]
            if all(isinstance(b, (ast.AnnAssign, ast.Expr, ast.Pass)) for b in s.body):
                self.store_name(s.name, App("namedtuple", (Const(tuple(b.target.id for b in fields)),
                                                           Tup([self.ev(b.value, st) for b in fields if b.value is not None]))), st)
                return
            self.note("named tuple with methods")
        body = s.body
        for d in s.decorator_list:
            f = self.ev(d.func if isinstance(d, ast.Call) else d, st)
            if isinstance(f, LibV) and f.path == "dataclasses.dataclass":
                if s not in self.dataclasses:
                    self.dataclasses[s] = self.dataclass_body(s, d)
                body = self.dataclasses[s]
        enums = [b.path for b in bases if isinstance(b, LibV) and b.path.startswith("enum.")]
        fr = self.frames[-1]
        modname = st.get(fr.mod).meta["name"]
        qual = s.name
        addr = "cls:%s.%s" % (modname, qual) if fr.addr == fr.mod else None
        encl = None if fr.addr == fr.mod else fr.addr
        obj = Obj("cls", {"__name__": Const(s.name)}, None,
                  {"name": s.name, "mod": modname, "bases": tuple(bases), "encl": encl}, self.region)
        if addr is None:
            addr = self.alloc(st, obj, ("cls", id(s))).addr
        else:
            st.put(addr, obj)
        self.frames.append(Frame(addr, fr.fn, fr.mod, addr))
        try:
            out = self.exec_block(body, st)
        finally:
            self.frames.pop()
        r = merge_kind(out, "N")
        if r is None:
            raise AbsRaise(out)
        st.become(r[0])
        v = Ref(addr)
        if enums:
            text = "enum.StrEnum" in enums or any(b == LibV("builtins.str") for b in bases)
            o = st.mut(addr)
            for b in s.body:
                for n in ([x for x in b.targets if isinstance(x, ast.Name)] if isinstance(b, ast.Assign) else []):
                    x = o.slots[n.id]
                    if text and isinstance(x, Const):
                        self.text_enums[x] = Const(n.id)
                    elif isinstance(x, (Const, Tup)):
                        o.slots[n.id] = App("enummember", (v, Const(n.id), x))
                    else:
                        self.note("enum member")
        for d in reversed(s.decorator_list):
            if body is not s.body:
                continue
            dv = self.ev(d, st)
            if isinstance(dv, LibV) and dv.path.startswith(("functools.", "six.python_2_unicode")):
                continue
            self.note("class decorator")
        self.store_name(s.name, v, st)

    def x_Import(self, s, st):
        for al in s.names:
            v = self.do_import(st, al.name)
            if al.asname:
                self.store_name(al.asname, v, st)
            else:
                top = al.name.split(".")[0]
                if top == self.package:
                    self.store_name(top, Ref("mod:" + top), st)
                else:
                    self.store_name(top, LibV(top), st)

    def x_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            cur = st.get(self.frames[-1].mod).meta
            parts = cur["name"].split(".")
            if not cur["path"].endswith("__init__.py"):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return
        mv = self.do_import(st, mod)
        for al in s.names:
            if al.name == "*":
                if isinstance(mv, Ref):
                    for k, v in list(st.get(mv.addr).slots.items()):
                        if not k.startswith("_"):
                            self.store_name(k, v, st)
                else:
                    self.note("star import")
                continue
            if isinstance(mv, Ref):
                o = st.get(mv.addr)
                if al.name in o.slots:
                    v = o.slots[al.name]
                elif self.find_module(mod + "." + al.name):
                    v = self.do_import(st, mod + "." + al.name)
                else:
                    self.import_errors.append((self.loc, mod + "." + al.name))
                    self.raise_(st, "ImportError", "cannot import %s from %s" % (al.name, mod))
            else:
                v = self.lib_attr(st, mv, al.name)
            self.store_name(al.asname or al.name, v, st)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr_(st, self.ev(t.value, st), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            recv = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                self.setslice(st, recv, t.slice, v)
                return
            self.setitem(st, recv, self.ev_index(t.slice, st), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, t)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note("assign target")

    def setslice(self, st, recv, sl, v):
        recv = st.res(recv)
        if isinstance(recv, Ref) and st.get(recv.addr).kind == "list" and sl.lower is None and sl.upper is None:
            its = self.items_of(st, v)
            self.write(st, recv.addr).items = list(its)
            return
        self.note("slice assignment")

    def unpack(self, st, v, t):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        v = st.res(v)
        if isinstance(v, Phi):
            a = self.unpack_leafy(st, v, t)
            if a is not None:
                return a
        if isinstance(v, Tup):
            items = [Item(x) for x in v.items]
        elif v is TOP or isinstance(v, App):
            self.note("unpack of unknown")
            return [TOP] * n
        else:
            items = self.items_of(st, v, consume=True)
        if any(i.many or st.simp(i.guard) is not True for i in items):
            if all(st.simp(i.guard) is not True and not i.many for i in items):
                self.note("unpack of guarded sequence")
                return [TOP] * n
            self.note("unpack of unbounded sequence")
            return [TOP] * n
        vals = [i.v for i in items]
        if star:
            i = star[0]
            k = len(vals) - (n - 1)
            if k < 0:
                self.raise_(st, "ValueError", "unpack")
            mid = self.new_list(st, [Item(x) for x in vals[i:i + k]], ("star", id(t)))
            return vals[:i] + [mid] + vals[i + k:]
        if len(vals) != n:
            self.raise_(st, "ValueError", "unpack %d into %d" % (len(vals), n))
        return vals

    def unpack_leafy(self, st, v, t):
        n = len(t.elts)
        if any(isinstance(e, ast.Starred) for e in t.elts):
            return None
        if all(isinstance(x, Tup) and len(x.items) == n for x in leaves(v)):
            return [pmap(v, lambda x, i=i: x.items[i]) for i in range(n)]
        def f(s, x):
            return Tup(self.unpack(s, x, t))
        r = self.lift(st, v, f)
        r = st.res(r)
        return [pmap(r, lambda x, i=i: x.items[i]) for i in range(n)]

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__") and self.frames and self.frames[-1].cls:
            cn = self.frames[-1].cls
            nm = self.clsname(cn)
            return "_%s%s" % (nm.lstrip("_"), name)
        return name

    def clsname(self, addr):
        if addr.startswith("cls:"):
            return addr.rsplit(".", 1)[1]
        return self._clsnames.get(addr, "C") if hasattr(self, "_clsnames") else "C"

    def store_name(self, name, v, st):
        name = self.mangle(name)
        fr = self.frames[-1]
        if name in fr.glob:
            self.write(st, fr.mod, name).slots[name] = v
            return
        if name in fr.nonloc:
            a = (st.get(fr.addr).meta or {}).get("parent")
            while a is not None:
                o = st.get(a)
                if name in o.slots:
                    st.mut(a).slots[name] = v
                    return
                a = (o.meta or {}).get("parent")
        o = st.mut(fr.addr)
        o.slots[name] = v

    def load_name(self, name, st):
        name = self.mangle(name)
        fr = self.frames[-1]
        if name not in fr.glob:
            o = st.heap[fr.addr]
            v = o.slots.get(name)
            if v is not None:
                if isinstance(v, Phi) or v is ABSENT:
                    return self.strip_absent(st, v, "UnboundLocalError", name)
                return v
            if name in fr.locs:
                self.raise_(st, "UnboundLocalError", name)
            a = (o.meta or {}).get("parent") if o.kind == "frame" else (o.meta or {}).get("encl")
            while a is not None:
                o = st.heap[a]
                v = o.slots.get(name)
                if v is not None:
                    return self.strip_absent(st, v, "NameError", name)
                a = (o.meta or {}).get("parent")
        m = st.heap[fr.mod]
        v = m.slots.get(name)
        if v is not None:
            return self.strip_absent(st, v, "NameError", name)
        if name in self.BUILTINS or hasattr(_pyb, name):
            if name == "__name__":
                return Const(m.meta["name"])
            if name in ("True", "False", "None"):
                return Const(getattr(_pyb, name))
            return LibV("builtins." + name)
        if name in ("unicode", "basestring"):
            return LibV("builtins.str")
        self.raise_(st, "NameError", name)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            return self.unk("unsupported expression " + e.__class__.__name__)
        return m(e, st)

    def cond(self, e, st):
        """Evaluate as condition (bool or Cnd)."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cs = []

            def rec(i, s):
                c = s.simp(self.cond(e.values[i], s))
                if i == len(e.values) - 1:
                    return Const(True) if c is True else Const(False) if c is False else phi(c, TRUE, FALSE)
                if isand:
                    return self.branch(s, c, lambda q: rec(i + 1, q), lambda q: FALSE)
                return self.branch(s, c, lambda q: TRUE, lambda q: rec(i + 1, q))
            return self.truth(st, rec(0, st))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return cnot(self.cond(e.operand, st))
        return self.truth(st, self.ev(e, st))

    def boolv(self, c):
        if c is True:
            return TRUE
        if c is False:
            return FALSE
        return phi(c, TRUE, FALSE)

    def e_Constant(self, e, st):
        return Const(e.value)

    def e_Name(self, e, st):
        return self.load_name(e.id, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.store_name(e.target.id, v, st)
        return v

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for it in self.items_of(st, self.ev(x.value, st), consume=True):
                    if it.many or it.guard is not True:
                        self.note("star in tuple")
                    out.append(it.v)
            else:
                out.append(self.ev(x, st))
        return Tup(out)

    def seq_items(self, elts, st):
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items.extend(self.items_of(st, self.ev(x.value, st), consume=True))
            else:
                items.append(Item(self.ev(x, st)))
        return items

    def e_List(self, e, st):
        return self.new_list(st, self.seq_items(e.elts, st), ("list", id(e)))

    def e_Set(self, e, st):
        return self.mkset(st, self.seq_items(e.elts, st), ("set", id(e)))

    def mkset(self, st, items, site, kind="set"):
        out = []
        for it in items:
            dup = False
            for j in out:
                if it.guard is True or j.guard == it.guard:
                    if j.guard is True and self.eq(st, it.v, j.v) is True:
                        dup = True
                        break
            if not dup:
                out.append(Item(it.v, it.guard, it.many))
        return self.alloc(st, Obj("set", {}, out, {"loc": "%s:%d" % self.loc}), site)

    def e_Dict(self, e, st):
        r = self.alloc(st, Obj("dict", {}), ("dict", id(e)))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st)
                self.call_method(st, r, "update", [src], {}, e)
            else:
                kv = self.ev(k, st)
                vv = self.ev(v, st)
                self.dict_set(st, r.addr, kv, vv, log=False)
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Const(x.value))
            else:
                v = self.ev(x.value, st)
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    r = st.res(v)
                    if isinstance(r, Const) and x.conversion in (-1, 115):
                        spec = st.res(self.ev(x.format_spec, st)) if x.format_spec is not None else Const("")
                        if isinstance(spec, Const):
                            parts.append(Const(format(r.v if x.conversion == -1 else str(r.v), spec.v)))
                            continue
                    spec = st.res(self.ev(x.format_spec, st)) if x.format_spec is not None else Const("")
                    ty = self.tyof(st, r)
                    if x.conversion in (-1, 115) and isinstance(spec, Const) and (
                            spec.v == "" or (spec.v == "s" and ty == "str") or (spec.v == "d" and ty == "int")):
                        parts.append(self.str_(st, v))
                    else:
                        parts.append(App("unk", ("fmt",), "str"))
                else:
                    parts.append(self.str_(st, v))
        return self.cat(st, parts)

    def e_FormattedValue(self, e, st):
        return self.str_(st, self.ev(e.value, st))

    def cat(self, st, parts):
        for i, p in enumerate(parts):
            p = st.res(p)
            if isinstance(p, Phi):
                pre, post = parts[:i], parts[i + 1:]
                return phi(p.c, self.cat(st, pre + [p.a] + post), self.cat(st, pre + [p.b] + post))
        parts = [st.res(p) for p in parts]
        if any(p is TOP for p in parts):
            return App("unk", ("cat",), "str")
        return mkcat(parts)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            v = self.ev(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = s.simp(self.truth(s, v))
            if isand:
                return self.branch(s, c, lambda q: rec(i + 1, q), lambda q: q.res(v))
            return self.branch(s, c, lambda q: q.res(v), lambda q: rec(i + 1, q))
        return rec(0, st)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        return self.branch(st, c, lambda q: self.ev(e.body, q), lambda q: self.ev(e.orelse, q))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return self.boolv(cnot(self.cond(e.operand, st)))
        v = self.ev(e.operand, st)

        def f(s, x):
            if isinstance(x, Const):
                try:
                    return Const(-x.v if isinstance(e.op, ast.USub) else +x.v if isinstance(e.op, ast.UAdd) else ~x.v)
                except TypeError:
                    self.raise_(s, "TypeError", "unary")
            if isinstance(e.op, ast.UAdd):
                return x
            if isinstance(e.op, ast.USub):
                return self.binop(s, "mul", x, Const(-1), e)
            return App("unk", ("unary",))
        return self.lift(st, v, f)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(st, BINOPS[type(e.op)], a, b, e)

    def binop(self, st, op, a, b, node):
        a, b = st.res(a), st.res(b)
        if isinstance(a, Phi):
            return self.branch(st, a.c, lambda s: self.binop(s, op, a.a, b, node),
                               lambda s: self.binop(s, op, a.b, b, node))
        if isinstance(b, Phi):
            return self.branch(st, b.c, lambda s: self.binop(s, op, a, b.a, node),
                               lambda s: self.binop(s, op, a, b.b, node))
        if isinstance(a, Const) and isinstance(b, Const):
            import operator as o
            f = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "floordiv": o.floordiv, "mod": o.mod,
                 "pow": o.pow, "or": o.or_, "and": o.and_, "xor": o.xor, "shl": o.lshift, "shr": o.rshift}.get(op)
            try:
                return Const(f(a.v, b.v))
            except ZeroDivisionError:
                self.raise_(st, "ZeroDivisionError", "division by zero")
            except TypeError:
                self.raise_(st, "TypeError", "operands %s %s" % (type(a.v).__name__, type(b.v).__name__))
            except Exception:
                return self.unk("binop")
        ta, tb = self.tyof(st, a), self.tyof(st, b)
        if op == "mod" and ta == "str":
            return self.percent(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.get(a.addr), st.get(b.addr)
            if op == "add" and oa.kind == ob.kind == "list":
                return self.new_list(st, oa.items + ob.items, ("ladd", id(node)))
            if oa.kind == "set" and ob.kind == "set":
                nm = {"or": "union", "and": "intersection", "sub": "difference",
                      "xor": "symmetric_difference"}.get(op)
                if nm:
                    return self.call_method(st, a, nm, [b], {}, node)
            if op == "or" and oa.kind == ob.kind == "dict":
                r = self.call_method(st, a, "copy", [], {}, node)
                self.call_method(st, r, "update", [b], {}, node)
                return r
        if isinstance(a, Ref) and st.get(a.addr).kind == "inst":
            m = self.class_lookup(st, st.get(a.addr).meta["cls"], "__%s__" % {"div": "truediv"}.get(op, op))
            if m is not None:
                return self.call(st, Bound(a, m), [b], {}, node)
        if op == "add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Const) and isinstance(y.v, int) and not isinstance(x, Const):
                    if isinstance(x, Tup):
                        return Tup(x.items * y.v)
                    if isinstance(x, Ref) and st.get(x.addr).kind == "list":
                        return self.new_list(st, st.get(x.addr).items * y.v, ("lmul", id(node)))
                    if self.tyof(st, x) == "str":
                        return self.cat(st, [x] * y.v) if 0 <= y.v <= 64 else self.unk("string repeat")
                if isinstance(x, Ref) and st.get(x.addr).kind == "list" and isinstance(y, Lin) and y.shape and \
                        len(st.get(x.addr).items) == 1:
                    it = st.get(x.addr).items[0]
                    return self.new_list(st, [Item(it.v, True, m) for m in y.shape], ("lmul", id(node)))
        if op == "add" and (ta == "str" or tb == "str"):
            for t in (ta, tb):
                if t is not None and t != "str" and t != "inst":
                    self.raise_(st, "TypeError", "can only concatenate str (not %s)" % t)
            return self.cat(st, [a, b])
        if a is TOP or b is TOP:
            return TOP
        if ta == "NoneType" or tb == "NoneType":
            self.raise_(st, "TypeError", "None operand")
        la, lb = self.to_lin(a), self.to_lin(b)
        if la is not None and lb is not None:
            if op in ("add", "sub"):
                sg = 1 if op == "add" else -1
                t = dict(la.terms)
                for s, k in lb.terms:
                    t[s] = t.get(s, 0) + sg * k
                return self.unlin(Lin(la.c + sg * lb.c, t))
            if op == "mul" and (not la.terms or not lb.terms):
                k, l = (la.c, lb) if not la.terms else (lb.c, la)
                return self.unlin(Lin(l.c * k, {s: q * k for s, q in l.terms}))
            if op in ("div", "floordiv", "mod"):
                z = self.num_cmp(st, "eq", b, Const(0))
                if z is True:
                    self.raise_(st, "ZeroDivisionError", "division by zero")
                if z is not False:
                    self.maybe_raise(st, z, "ZeroDivisionError", "division by zero")
                if op == "div" and la.terms == () and la.c == 0:
                    return Const(0.0)
                return App(op, (a, b), "float" if op == "div" else "int")
            return App(op, (a, b), "int")
        if op in ("add", "sub", "mul", "div", "floordiv", "pow") and ta in ("str", "list", "dict", "tuple") and \
                tb in self.NUM and op != "mul":
            self.raise_(st, "TypeError", "unsupported operand types")
        return App(op, (a, b), None)

    def percent(self, st, a, b):
        if isinstance(a, Const):
            args = list(b.items) if isinstance(b, Tup) else [b]
            import re
            toks = re.split(r"(%[sdr%])", a.v)
            parts = []
            i = 0
            for t in toks:
                if t == "%%":
                    parts.append(Const("%"))
                elif t in ("%s", "%d"):
                    if i >= len(args):
                        self.raise_(st, "TypeError", "not enough arguments for format string")
                    parts.append(self.str_(st, args[i]))
                    i += 1
                elif t == "%r":
                    parts.append(App("repr", (args[i],), "str"))
                    i += 1
                elif "%" in t:
                    return App("unk", ("percent",), "str")
                elif t:
                    parts.append(Const(t))
            return self.cat(st, parts)
        return App("unk", ("percent",), "str")

    CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)

        def rec(i, s, lv):
            rv = self.ev(e.comparators[i], s)
            c = self.compare(s, e.ops[i], lv, rv)
            if i == len(e.ops) - 1:
                return self.boolv(c)
            return self.branch(s, c, lambda q: rec(i + 1, q, rv), lambda q: FALSE)
        return rec(0, st, left)

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return st.simp(self.eq(st, a, b))
        if isinstance(op, ast.NotEq):
            return st.simp(cnot(self.eq(st, a, b)))
        if isinstance(op, ast.Is):
            return st.simp(self.is_(st, a, b))
        if isinstance(op, ast.IsNot):
            return st.simp(cnot(self.is_(st, a, b)))
        if isinstance(op, ast.In):
            return st.simp(self.contains(st, b, a))
        if isinstance(op, ast.NotIn):
            return st.simp(cnot(self.contains(st, b, a)))
        x, y = st.res(a), st.res(b)
        if isinstance(x, Ref) and isinstance(y, Ref) and st.get(x.addr).kind == "set" == st.get(y.addr).kind:
            nm = {"lt": "issubset", "le": "issubset", "gt": "issuperset", "ge": "issuperset"}[self.CMP[type(op)]]
            return self.truth(st, self.call_method(st, x, nm, [y], {}, None))
        return st.simp(self.order_cmp(st, self.CMP[type(op)], a, b))

    def is_(self, st, a, b):
        a, b = st.res(a), st.res(b)
        if isinstance(a, Phi):
            return cite(a.c, self.is_(st, a.a, b), self.is_(st, a.b, b))
        if isinstance(b, Phi):
            return cite(b.c, self.is_(st, a, b.a), self.is_(st, a, b.b))
        if a is TOP or b is TOP:
            return self.unk_cond("is")
        if isinstance(a, Const) and isinstance(b, Const):
            return type(a.v) is type(b.v) and a.v == b.v
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None:
                t = self.tyof(st, y)
                if t is None and isinstance(y, App):
                    return CAtom(App("isnone", (y,)))
                return False
            if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, App) and y.ty in (None, "bool"):
                return CAtom(App("eq", (y, x)))
        if isinstance(a, (Tok, Cat, App)) and isinstance(b, (Const, Tok, Cat, App)):
            # identity of strings: not decided by value
            r = self.eq(st, a, b)
            if r is False:
                return False
            return self.unk_cond("string identity")
        return False

    def contains(self, st, box, x):
        box = st.res(box)
        x = st.res(x)
        if isinstance(box, Phi):
            return cite(box.c, self.contains(st, box.a, x), self.contains(st, box.b, x))
        if isinstance(x, Phi):
            return cite(x.c, self.contains(st, box, x.a), self.contains(st, box, x.b))
        if isinstance(box, Tup):
            return st.simp(cor(*[self.eq(st, i, x) for i in box.items]))
        if isinstance(box, Const):
            if isinstance(box.v, str):
                if isinstance(x, Const):
                    try:
                        return x.v in box.v
                    except TypeError:
                        self.raise_(st, "TypeError", "in <string>")
                return CAtom(App("substr", (x, box)))
            if box.v is None:
                self.raise_(st, "TypeError", "argument of type NoneType is not iterable")
            self.raise_(st, "TypeError", "not a container")
        if isinstance(box, (Tok, Cat)) or isinstance(box, App) and self.tyof(st, box) == "str":
            if x == Const(""):
                return True
            while isinstance(x, Const) and isinstance(x.v, str) and x.v.strip() == x.v and isinstance(box, App) and \
                    box.op == "str.strip" and len(box.args) == 1:
                box = st.res(box.args[0])
            if isinstance(box, (Phi, Const)):
                return self.contains(st, box, x)
            if isinstance(x, Const) and isinstance(box, Cat) and any(isinstance(p, Const) and isinstance(x.v, str) and
                                                                      x.v in p.v for p in box.parts):
                return True
            return CAtom(App("substr", (x, box)))
        if isinstance(box, Ref):
            o = st.get(box.addr)
            if o.kind == "dict":
                return self.dict_has(st, box.addr, x)
            if o.kind == "graph":
                return self.dict_has(st, o.slots["nodes"].addr, x)
            if o.kind in ("list", "set"):
                if o.meta and o.meta.get("open"):
                    return self.unk_cond("in unknown list")
                cs = []
                for it in o.items:
                    c = self.eq(st, it.v, x)
                    if it.many and c is not True and c is not False:
                        c = CAtom(App("some", (Const(it.many), c)))
                    cs.append(cand(it.guard, c))
                return st.simp(cor(*cs))
            if o.kind == "iter":
                its = self.items_of(st, box, consume=True)
                return st.simp(cor(*[cand(i.guard, self.eq(st, i.v, x)) for i in its]))
            if o.kind == "inst":
                m = self.class_lookup(st, o.meta["cls"], "__contains__")
                if m is not None:
                    return self.truth(st, self.call(st, Bound(box, m), [x], {}, None))
            if o.kind == "dom":
                self.note("in dom")
                return self.unk_cond("in")
        if isinstance(box, LibM):
            r = self.view_contains(st, box, x)
            if r is not None:
                return r
        if isinstance(box, App) and box.op == "adj":
            return self.dict_has(st, st.get(st.get(box.args[0].addr).slots["edges"].addr) and
                                 st.get(box.args[0].addr).slots["edges"].addr, self.edge_key(box.args[1], x))
        if isinstance(box, App) and box.op == "range":
            return self.unk_cond("in range")
        self.note("in unknown container %r" % (box,))
        return self.unk_cond("in unknown")

    # comprehension
    def comp(self, e, st, elt, site):
        """Run generators; elt(state) is called in the innermost scope. Returns nothing."""
        fr = self.frames[-1]
        parent = fr.addr
        if parent.startswith("mod:"):
            parent = None
        elif st.get(fr.addr).kind == "cls":
            parent = None
        faddr = self.alloc(st, Obj("frame", {}, None, {"parent": parent}), ("compframe", id(e))).addr
        self.frames.append(Frame(faddr, fr.fn, fr.mod, fr.cls))
        try:
            def gen(i, s):
                if i == len(e.generators):
                    elt(s)
                    return
                g = e.generators[i]
                if i == 0:
                    # first iterable is evaluated in the enclosing scope
                    self.frames.append(fr)
                    try:
                        items = self.index_items(g.iter, s)
                        it = self.ev(g.iter, s) if items is None else None
                    finally:
                        self.frames.pop()
                else:
                    items = self.index_items(g.iter, s)
                    it = self.ev(g.iter, s) if items is None else None
                if items is None:
                    items = self.items_of(s, it, consume=True)

                def body(q, v):
                    self.assign(g.target, v, q)
                    c = True

                    def conds(j, z):
                        if j == len(g.ifs):
                            gen(i + 1, z)
                            return NONE
                        cc = self.cond(g.ifs[j], z)
                        return self.branch(z, cc, lambda y: conds(j + 1, y), lambda y: NONE)
                    conds(0, q)
                    return Leaf("N", q)
                out = self.run_loop(s, items, body, g)
                r = merge_kind(out, "N")
                if r is None:
                    raise AbsRaise(out)
                for pc, leaf in leaves_of(out):
                    if leaf.k == "X":
                        self.pend.append((pc, leaf))
                s.become(r[0])
            gen(0, st)
        finally:
            self.frames.pop()

    def e_ListComp(self, e, st, kind="list"):
        r = self.alloc(st, Obj(kind, {}, [], {} if kind != "iter" else None), ("comp", id(e)))

        def elt(s):
            v = self.ev(e.elt, s)
            self.append_item(s, r.addr, v)
        self.comp(e, st, elt, None)
        return r

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st, "iter")

    def e_SetComp(self, e, st):
        r = self.e_ListComp(e, st)
        return self.mkset(st, st.get(r.addr).items, ("setcomp", id(e)))

    def e_DictComp(self, e, st):
        r = self.alloc(st, Obj("dict", {}), ("comp", id(e)))

        def elt(s):
            k = self.ev(e.key, s)
            v = self.ev(e.value, s)
            self.dict_set(s, r.addr, k, v, log=False)
        self.comp(e, st, elt, None)
        return r

    def e_Lambda(self, e, st):
        return self.make_fn(e, st, "<lambda>")

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        fr = self.frames[-1]
        o = st.get(fr.addr)
        y = o.slots.get("$yield")
        if y is None:
            return self.unk("yield")
        self.append_item(st, y.addr, v)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        fr = self.frames[-1]
        y = st.get(fr.addr).slots.get("$yield")
        its = self.items_of(st, v, consume=True)
        st.mut(y.addr).items.extend(its)
        return NONE

    def e_Await(self, e, st):
        return self.unk("await")

    def e_Attribute(self, e, st):
        v = self.ev(e.value, st)
        return self.getattr_(st, v, self.mangle(e.attr), e)

    def ev_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, st)
            return App("slice", (f(sl.lower), f(sl.upper), f(sl.step)), "slice")
        return self.ev(sl, st)

    def e_Subscript(self, e, st):
        v = self.ev(e.value, st)
        k = self.ev_index(e.slice, st)
        return self.getitem(st, v, k, e)

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            recv = None
            if fr.fn is not None and fr.fn.node.args.args:
                recv = st.get(fr.addr).slots.get(fr.fn.node.args.args[0].arg)
            return SuperV(Ref(fr.cls), recv) if fr.cls and recv is not None else self.unk("super")
        fv = self.ev(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                for it in self.items_of(st, self.ev(a.value, st), consume=True):
                    if it.many or st.simp(it.guard) is not True:
                        self.note("star args of unknown length")
                        continue
                    args.append(it.v)
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            if k.arg is None:
                d = st.res(self.ev(k.value, st))
                if isinstance(d, Ref) and st.get(d.addr).kind == "dict":
                    for kk, vv in st.get(d.addr).slots.items():
                        if isinstance(kk, Const):
                            vv = st.res(vv)
                            if vv is ABSENT:
                                continue
                            if any(x is ABSENT for x in leaves(vv)):
                                self.note("** with optional key")
                                vv = self._drop_absent(vv)
                            kwargs[kk.v] = vv
                else:
                    self.note("** of unknown")
            else:
                kwargs[k.arg] = self.ev(k.value, st)
        ln = self.loc
        self.loc = (self.loc[0], e.lineno)
        r = self.call(st, fv, args, kwargs, e)
        self.loc = ln
        return r

    # ------------------------------------------------------------ calls
    def call(self, st, fv, args, kwargs, node):
        fv = st.res(fv)
        if isinstance(fv, Fn):
            return self.call_fn(st, fv, args, kwargs, node)
        if isinstance(fv, Bound):
            return self.call(st, fv.fn, [fv.recv] + list(args), kwargs, node)
        if isinstance(fv, Partial):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            return self.call(st, fv.fn, list(fv.args) + list(args), kw, node)
        if isinstance(fv, LibV):
            return self.call_lib(st, fv.path, list(args), kwargs, node)
        if isinstance(fv, LibM):
            return self.lift(st, fv.recv, lambda s, r: self.call_method(s, r, fv.name, list(args), kwargs, node))
        if isinstance(fv, Phi):
            return self.branch(st, fv.c, lambda s: self.call(s, fv.a, args, kwargs, node),
                               lambda s: self.call(s, fv.b, args, kwargs, node))
        if isinstance(fv, Ref):
            o = st.get(fv.addr)
            if o.kind == "cls":
                return self.instantiate(st, fv, args, kwargs, node)
            if o.kind == "inst":
                m = self.class_lookup(st, o.meta["cls"], "__call__")
                if m is not None:
                    return self.call(st, Bound(fv, m), args, kwargs, node)
            self.raise_(st, "TypeError", "%s object is not callable" % o.kind)
        if isinstance(fv, (Const, Tok, Cat, Tup, Lin)):
            self.raise_(st, "TypeError", "not callable: %r" % (fv,))
        if isinstance(fv, App) and fv.op == "attrgetter":
            v = args[0]
            for nm in fv.args[0].v.split("."):
                v = self.getattr_(st, v, nm, node)
            return v
        if isinstance(fv, App) and fv.op == "itemgetter":
            if len(fv.args) == 1:
                return self.getitem(st, args[0], fv.args[0], node)
            return Tup([self.getitem(st, args[0], k, node) for k in fv.args])
        if isinstance(fv, App) and fv.op == "methodcaller":
            return self.call(st, self.getattr_(st, args[0], fv.args[0].v, node), list(fv.args[1:]), {}, node)
        if isinstance(fv, App) and fv.op == "namedtuple":
            names, dfl = fv.args[0].v, fv.args[1].items
            vals = dict(zip(names[len(names) - len(dfl):], dfl))
            vals.update(zip(names, args))
            if len(args) > len(names) or set(kwargs) - set(names[len(args):]):
                self.raise_(st, "TypeError", "named tuple arguments")
            vals.update(kwargs)
            if len(vals) != len(names):
                self.raise_(st, "TypeError", "named tuple arguments")
            return Tup([vals[n] for n in names], names)
        return self.opaque_call(st, repr(fv)[:60], args, kwargs)

    def opaque_call(self, st, name, args, kwargs):
        self.note("unmodelled call " + name)
        vs = [a for a in list(args) + list(kwargs.values())]
        for a in vs:
            for l in leaves(st.res(a)):
                if isinstance(l, Ref):
                    self.note("reference escapes to unmodelled call " + name)
        return App("call", (name,) + tuple(v for v in vs if isinstance(v, V)))

    def qual(self, fn):
        m = fn.mod[4:]
        c = self.clsname(fn.cls) + "." if fn.cls else ""
        return "%s.%s%s" % (m, c, fn.name)

    def call_fn(self, st, fn, args, kwargs, node):
        q = self.qual(fn)
        h = self.hooks.get(q) or self.hooks.get(fn.name)
        if h is not None:
            r = h(self, st, fn, args, kwargs, node)
            if r is not None:
                return r
        if len(self.callstack) > self.MAXDEPTH:
            self.note("call depth")
            raise Limit("call depth in " + q)
        slots = self.bind(st, fn, args, kwargs)
        self.calls[q] = self.calls.get(q, 0) + 1
        info = fninfo(fn.node)
        savedctx = self.ctx
        self.ctx = self.child_ctx("call", id(node) if node is not None else ("x", q), id(fn.node))
        faddr = self.alloc(st, Obj("frame", slots, None, {"parent": fn.frame}), ("frame", q)).addr
        if info.isgen:
            y = self.new_list(st, [], ("yield", q))
            st.mut(faddr).slots["$yield"] = y
        fr = Frame(faddr, fn, fn.mod, fn.cls, info.glob, info.nonloc, info.locs)
        self.frames.append(fr)
        self.callstack.append(q)
        savedloc, savedpend = self.loc, self.pend
        self.pend = []
        self.loc = (os.path.relpath(st.get(fn.mod).meta["path"], self.repo), fn.node.lineno)
        sreg = self.region
        if not self.importing and sreg == "module" and self.callstack[0] != "<import>":
            pass
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.ev(fn.node.body, st)
                    out = Leaf("R", st, v)
                except AbsRaise as e:
                    out = e.tree
                for c, leaf in reversed(self.pend):
                    out = mkbr(c, leaf, out)
            else:
                out = self.exec_block(fn.node.body, st)
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.loc, self.pend = savedloc, savedpend
            self.ctx = savedctx
        r = merge_kind(out, "NR")
        if r is None:
            raise AbsRaise(out)
        if not isinstance(out, Leaf):
            for pc, leaf in leaves_of(out):
                if leaf.k == "X":
                    self.pend.append((pc, leaf))
        s, v = r
        if isinstance(out, Leaf) and out.k == "N":
            v = NONE
        if info.isgen:
            yv = s.get(faddr).slots["$yield"]
            items = list(s.get(yv.addr).items)
            self.ctx = self.child_ctx("genres", id(node) if node is not None else q)
            v = self.alloc(s, Obj("iter", {}, items), ("gen", q))
            self.ctx = savedctx
        st.become(s)
        if not info.has_inner and faddr in st.heap:
            del st.heap[faddr]
        return v

    def bind(self, st, fn, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        slots = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, nm in enumerate(pos):
            if i < len(args):
                slots[nm] = args[i]
                if nm in kwargs:
                    self.raise_(st, "TypeError", "%s() got multiple values for %s" % (fn.name, nm))
        rest = args[len(pos):]
        if rest and not a.vararg:
            self.raise_(st, "TypeError", "%s() takes %d arguments, %d given" % (fn.name, len(pos), len(args)))
        if a.vararg:
            slots[a.vararg.arg] = Tup(rest)
        nd = len(fn.defaults)
        for i, nm in enumerate(pos):
            if nm in slots:
                continue
            if nm in kwargs:
                slots[nm] = kwargs.pop(nm)
            else:
                j = i - (len(pos) - nd)
                if j >= 0:
                    slots[nm] = fn.defaults[j]
                else:
                    self.raise_(st, "TypeError", "%s() missing argument %s" % (fn.name, nm))
        kwd = dict(fn.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                slots[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwd:
                slots[x.arg] = kwd[x.arg]
            else:
                self.raise_(st, "TypeError", "missing keyword argument " + x.arg)
        if a.kwarg:
            d = self.new_dict(st, {Const(k): v for k, v in kwargs.items()}, ("kwargs", id(fn.node)))
            slots[a.kwarg.arg] = d
        elif kwargs:
            self.raise_(st, "TypeError", "%s() got an unexpected keyword argument %s" % (fn.name, sorted(kwargs)[0]))
        return slots

    # classes
    def mro(self, st, cls):
        out = []

        def rec(c):
            if c in out:
                return
            out.append(c)
            if isinstance(c, Ref):
                for b in st.get(c.addr).meta["bases"]:
                    rec(b)
        rec(cls)
        return out

    def class_lookup(self, st, cls, name):
        for c in self.mro(st, cls):
            if isinstance(c, Ref):
                v = st.get(c.addr).slots.get(name)
                if v is not None:
                    return v
        return None

    def lib_bases(self, st, cls):
        return [c for c in self.mro(st, cls) if isinstance(c, LibV)]

    def instantiate(self, st, cls, args, kwargs, node):
        nm = st.get(cls.addr).meta["name"]
        for b in self.lib_bases(st, cls):
            if b.path not in ("builtins.object",) and not self.is_exc_lib(b):
                self.note("class with library base " + b.path)
        r = self.alloc(st, Obj("inst", {}, None, {"cls": cls, "loc": self.loc}), ("inst", nm, id(node)))
        init = self.class_lookup(st, cls, "__init__")
        if init is not None:
            self.call(st, Bound(r, init), args, kwargs, node)
        else:
            if any(self.is_exc_lib(b) for b in self.lib_bases(st, cls)):
                st.mut(r.addr).slots["args"] = Tup(args)
            elif args or kwargs:
                self.raise_(st, "TypeError", "%s() takes no arguments" % nm)
        return r

    def is_exc_lib(self, v):
        if not isinstance(v, LibV):
            return False
        if v.path.startswith("builtins."):
            c = getattr(_pyb, v.path[9:], None)
            return isinstance(c, type) and issubclass(c, BaseException)
        return v.path.split(".")[-1].endswith(("Error", "Exception", "error"))

    def isinstance_(self, st, v, cls):
        v, cls = st.res(v), st.res(cls)
        if isinstance(v, Phi):
            return st.simp(cite(v.c, self.isinstance_(st, v.a, cls), self.isinstance_(st, v.b, cls)))
        if isinstance(cls, Tup):
            return cor(*[self.isinstance_(st, v, c) for c in cls.items])
        if isinstance(cls, LibV):
            p = cls.path
            if p in ("six.string_types", "six.text_type"):
                p = "builtins.str"
            if p == "builtins.object":
                return True
            if p == "builtins.BaseException":
                p = "builtins.Exception"
            if isinstance(v, Ref):
                o = st.get(v.addr)
                if o.kind == "exc":
                    return self.exc_sub(o.meta["cls"], LibV(p))
                if o.kind == "inst":
                    return any(b == LibV(p) or (self.is_exc_lib(b) and self.exc_sub(b, LibV(p)))
                               for b in self.lib_bases(st, o.meta["cls"]))
                return {"list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set"}.get(o.kind) == p or \
                    p in self.ABCS.get(o.kind, ())
            t = self.tyof(st, v)
            if t is None:
                return CAtom(App("isinst", (v, Const(p))))
            if t == "bool" and p == "builtins.int":
                return True
            if t == "NoneType":
                return p == "builtins.NoneType"
            if p in self.ABCS.get(t, ()):
                return True
            return p == "builtins." + t
        if isinstance(cls, Ref):
            if isinstance(v, Ref):
                o = st.get(v.addr)
                if o.kind == "inst":
                    return cls in self.mro(st, o.meta["cls"])
                return False
            if v is TOP or (isinstance(v, App) and v.ty is None):
                return CAtom(App("isinst", (v if v is not TOP else Const("?"), Const(cls.addr))))
            return False
        return self.unk_cond("isinstance")

    ABCS = {"list": ("collections.abc.Sequence", "collections.abc.Iterable", "collections.abc.MutableSequence",
                     "collections.Sequence", "typing.List"),
            "tuple": ("collections.abc.Sequence", "collections.abc.Iterable"),
            "dict": ("collections.abc.Mapping", "collections.abc.MutableMapping", "collections.abc.Iterable",
                     "collections.Mapping", "collections.OrderedDict"),
            "str": ("collections.abc.Sequence", "collections.abc.Iterable"),
            "int": ("numbers.Number", "numbers.Integral", "numbers.Real"),
            "float": ("numbers.Number", "numbers.Real"),
            "set": ("collections.abc.Set", "collections.abc.Iterable")}

    def exc_sub(self, a, b):
        """library exception class a is subclass of b ?"""
        def pc(x):
            n = x.path
            n = {"os.error": "builtins.OSError", "builtins.IOError": "builtins.OSError"}.get(n, n)
            if n.startswith("builtins."):
                return getattr(_pyb, n[9:], None)
            return None
        ca, cb = pc(a), pc(b)
        if ca is not None and cb is not None:
            return issubclass(ca, cb)
        if a == b:
            return True
        if cb in (Exception, BaseException):
            return True
        return False
