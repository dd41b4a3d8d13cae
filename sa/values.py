"""Abstract values and conditions of the value-flow domain.

A value is an immutable term.  User data is never a concrete string: it is a
`Tok` (opaque provenance token standing for *every* string that may occur at
that place).  Values that depend on an undecided branch are gated (`Phi`), as
in gated-SSA value-flow graphs; control-flow merges join states slot by slot.
"""


import hashlib

REPR_CAP = 6000
MARKS = ("orient(", "mkdirfails", "direxists")


class V(object):
    __slots__ = ("_h", "_r", "_u")

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((self.__class__.__name__,) + self.key())
            return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if self.__class__ is not o.__class__:
            return False
        return hash(self) == hash(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        """Terms share sub-terms: the text is cached, and beyond a size replaced by its head and a digest."""
        try:
            return self._r
        except AttributeError:
            r = self._repr()
            if len(r) > REPR_CAP:
                r = "%s...#%s%s" % (r[:300], hashlib.md5(r.encode("utf8", "replace")).hexdigest(),
                                    "".join(" ~" + m for m in MARKS if m in r))
            self._r = r
            return r


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, self.v)

    def _repr(self):
        return repr(self.v)


class Tok(V):
    """Opaque datum.  `group`: tokens of one group with different names are known to be different
    (XML ids, uuids).  `seg`: name of the unbounded segment the token ranges over, or None."""
    __slots__ = ("name", "ty", "nonempty", "group", "seg")

    def __init__(self, name, ty="str", nonempty=False, group=None, seg=None):
        self.name, self.ty, self.nonempty, self.group, self.seg = name, ty, nonempty, group, seg

    def key(self):
        return (self.name, self.ty)

    def _repr(self):
        return "<%s>" % self.name


class Cat(V):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return (self.parts,)

    def _repr(self):
        return "+".join(map(repr, self.parts))


class App(V):
    """Uninterpreted term: result of an operation the domain does not look into."""
    __slots__ = ("op", "args", "ty")

    def __init__(self, op, args=(), ty=None):
        self.op, self.args, self.ty = op, tuple(args), ty

    def key(self):
        return (self.op, self.args)

    def _repr(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Lin(V):
    """c + sum coef*sym ; syms are hashable V terms or ('N', seg)."""
    __slots__ = ("c", "terms", "shape", "isf")

    def __init__(self, c, terms, shape=None, isf=False):
        self.c = c
        self.terms = tuple(sorted(((s, k) for s, k in dict(terms).items() if k != 0), key=repr))
        self.shape = shape
        self.isf = isf

    def key(self):
        return (self.c, self.terms, self.isf)

    def _repr(self):
        t = ["%s*%r" % (k, s) if k != 1 else repr(s) for s, k in self.terms]
        if self.c or not t:
            t.append(repr(self.c))
        return "(" + " + ".join(t) + ")" + ("f" if self.isf else "")


class Idx(V):
    """Index of the pos-th item of a sequence of the given shape."""
    __slots__ = ("pos", "shape")

    def __init__(self, pos, shape):
        self.pos, self.shape = pos, shape

    def key(self):
        return (self.pos, self.shape)

    def _repr(self):
        return "idx(%d/%r)" % (self.pos, self.shape)


class Tup(V):
    __slots__ = ("items", "names")

    def __init__(self, items, names=None):
        self.items = tuple(items)
        self.names = names          # field names of a named tuple; not part of its identity

    def key(self):
        return (self.items,)

    def _repr(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Ref(V):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def key(self):
        return (self.addr,)

    def _repr(self):
        return "@%s" % (self.addr,)


class Fn(V):
    __slots__ = ("node", "mod", "frame", "cls", "defaults", "kwdefaults", "name", "kind", "locs", "isgen")

    def __init__(self, node, mod, frame, cls, defaults, kwdefaults, name, kind, locs, isgen):
        self.node, self.mod, self.frame, self.cls = node, mod, frame, cls
        self.defaults, self.kwdefaults, self.name, self.kind = defaults, kwdefaults, name, kind
        self.locs, self.isgen = locs, isgen

    def with_kind(self, kind):
        return Fn(self.node, self.mod, self.frame, self.cls, self.defaults, self.kwdefaults, self.name, kind,
                  self.locs, self.isgen)

    def key(self):
        return (id(self.node), self.frame, self.kind, self.defaults)

    def _repr(self):
        return "<fn %s>" % self.name


class Bound(V):
    __slots__ = ("recv", "fn")

    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn

    def key(self):
        return (self.recv, self.fn)

    def _repr(self):
        return "<bound %r.%r>" % (self.recv, self.fn)


class Partial(V):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(sorted(kwargs.items()))

    def key(self):
        return (self.fn, self.args, self.kwargs)

    def _repr(self):
        return "<partial %r>" % (self.fn,)


class LibV(V):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def key(self):
        return (self.path,)

    def _repr(self):
        return "<lib %s>" % self.path


class LibM(V):
    """Bound method `name` of a modelled receiver."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def key(self):
        return (self.recv, self.name)

    def _repr(self):
        return "<libm %r.%s>" % (self.recv, self.name)


class SuperV(V):
    __slots__ = ("cls", "recv")

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv

    def key(self):
        return (self.cls, self.recv)

    def _repr(self):
        return "<super>"


class Phi(V):
    __slots__ = ("c", "a", "b", "size")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.size = 1 + getattr(a, "size", 1) + getattr(b, "size", 1)

    def key(self):
        return (self.c, self.a, self.b)

    def _repr(self):
        return "if[%r ? %r : %r]" % (self.c, self.a, self.b)


class _Sing(V):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def key(self):
        return (self.n,)

    def _repr(self):
        return self.n


TOP = _Sing("TOP")
ABSENT = _Sing("ABSENT")
NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)

PHI_CAP = 600


# ---------------------------------------------------------------- conditions
class Cnd(V):
    __slots__ = ()


class CAtom(Cnd):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return (self.t,)

    def _repr(self):
        return repr(self.t)


class CNot(Cnd):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def key(self):
        return (self.c,)

    def _repr(self):
        return "not %r" % (self.c,)


class CAnd(Cnd):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    def key(self):
        return (self.cs,)

    def _repr(self):
        return "(" + " and ".join(sorted(map(repr, self.cs))) + ")"


class COr(Cnd):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    def key(self):
        return (self.cs,)

    def _repr(self):
        return "(" + " or ".join(sorted(map(repr, self.cs))) + ")"


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if isinstance(c, CNot):
        return c.c
    return CNot(c)


def cand(*cs):
    out = set()
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if isinstance(c, CAnd):
            out |= c.cs
        else:
            out.add(c)
    for c in out:
        if cnot(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out))
    return CAnd(frozenset(out))


def cor(*cs):
    out = set()
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if isinstance(c, COr):
            out |= c.cs
        else:
            out.add(c)
    for c in out:
        if cnot(c) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return next(iter(out))
    return COr(frozenset(out))


def cite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return cnot(c)
    return cor(cand(c, a), cand(cnot(c), b))


def csimp(c, asm, memo=None):
    """Simplify condition under assumption map."""
    if c is True or c is False or not asm:
        return c
    r = asm.get(c)
    if r is not None:
        return r
    if isinstance(c, (CAnd, COr)):
        if memo is None:
            memo = {}
        elif id(c) in memo:
            return memo[id(c)]
        xs = [csimp(x, asm, memo) for x in c.cs]
        r = memo[id(c)] = (cand if isinstance(c, CAnd) else cor)(*xs)
        return r
    if isinstance(c, CAtom):
        t = c.t
        if isinstance(t, App) and t.op == "eq":
            a, b = t.args
            # eq(x, const) is decided by a different constant already assumed equal
            x, k = (a, b) if isinstance(b, Const) else (b, a)
            if isinstance(k, Const):
                known = known_text(x, asm)
                if known is not None:
                    return known == k
                for op, y in asm.get(("text", x), ()):
                    if not text_test(op, k, y):
                        return False
        elif isinstance(t, App) and t.op in TEXT_TESTS and len(t.args) == 2:
            x, y = text_args(t)
            if isinstance(y, Const):
                known = known_text(x, asm)
                if known is not None and isinstance(known.v, str) and isinstance(y.v, str):
                    return text_test(t.op, known, y)
        return c
    if isinstance(c, CNot):
        return cnot(csimp(c.c, asm, memo))
    return c


TEXT_TESTS = ("substr", "str.startswith", "str.endswith")


def text_args(t):
    """(the text, what is looked for in it) of a text test"""
    return (t.args[1], t.args[0]) if t.op == "substr" else (t.args[0], t.args[1])


def text_test(op, k, y):
    if not (isinstance(k.v, str) and isinstance(y.v, str)):
        return False
    return y.v in k.v if op == "substr" else k.v.startswith(y.v) if op == "str.startswith" else k.v.endswith(y.v)


def known_text(x, asm):
    """the constant a term is assumed to equal, also through strip / lower / upper"""
    k = asm.get(("val", x))
    if k is None and isinstance(x, App) and len(x.args) == 1 and x.op in ("str.strip", "str.lower", "str.upper"):
        k = known_text(x.args[0], asm)
        if k is not None:
            k = Const(getattr(k.v, x.op[4:])()) if isinstance(k.v, str) else None
    return k


def cassume(asm, c, val):
    """Return asm extended with c == val (mutates a copy given by caller)."""
    if c is True or c is False:
        return
    if isinstance(c, CNot):
        cassume(asm, c.c, not val)
        return
    asm[c] = val
    if isinstance(c, CAnd) and val:
        for x in c.cs:
            cassume(asm, x, True)
    elif isinstance(c, COr) and not val:
        for x in c.cs:
            cassume(asm, x, False)
    elif isinstance(c, CAtom) and val:
        t = c.t
        if isinstance(t, App) and t.op == "eq":
            a, b = t.args
            x, k = (a, b) if isinstance(b, Const) else (b, a)
            if isinstance(k, Const):
                asm[("val", x)] = k
        elif isinstance(t, App) and t.op in TEXT_TESTS and len(t.args) == 2:
            x, y = text_args(t)
            if isinstance(y, Const) and isinstance(y.v, str):
                asm[("text", x)] = asm.get(("text", x), ()) + ((t.op, y),)


def catoms(c, out=None):
    """The atoms of a condition, in a deterministic order."""
    if out is None:
        out = []
    have, seen = set(out), set()

    def go(c):
        if isinstance(c, CAtom):
            if c not in have:
                have.add(c)
                out.append(c)
        elif isinstance(c, CNot):
            go(c.c)
        elif isinstance(c, (CAnd, COr)) and id(c) not in seen:
            seen.add(id(c))
            for x in sorted(c.cs, key=repr):
                go(x)
    go(c)
    return out


def phi(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(c, CNot):
        c, a, b = c.c, b, a
    while isinstance(a, Phi) and a.c == c:
        a = a.a
    while isinstance(b, Phi) and b.c == c:
        b = b.b
    if a == b:
        return a
    p = Phi(c, a, b)
    if p.size > PHI_CAP:
        return TOP
    return p


def leaves(v):
    if isinstance(v, Phi):
        for x in leaves(v.a):
            yield x
        for x in leaves(v.b):
            yield x
    else:
        yield v


def pmap(v, f):
    if isinstance(v, Phi):
        return phi(v.c, pmap(v.a, f), pmap(v.b, f))
    return f(v)


def resolve(v, asm):
    if isinstance(v, Phi):
        r = csimp(v.c, asm)
        if r is True:
            return resolve(v.a, asm)
        if r is False:
            return resolve(v.b, asm)
        return phi(r, resolve(v.a, asm), resolve(v.b, asm))
    if asm and isinstance(v, (Tok, App)):
        k = asm.get(("val", v))
        if k is not None:
            return k
    return v


def mkcat(parts):
    out = []
    for p in parts:
        if isinstance(p, Cat):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, Const) and isinstance(q.v, str):
                if q.v == "":
                    continue
                if out and isinstance(out[-1], Const):
                    out[-1] = Const(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return Const("")
    if len(out) == 1:
        return out[0]
    return Cat(out)


def segs_of(v, acc=None):
    if acc is None:
        acc = set()
    if isinstance(v, Tok):
        if v.seg:
            acc.add(v.seg)
    elif isinstance(v, Cat):
        for p in v.parts:
            segs_of(p, acc)
    elif isinstance(v, (App,)):
        for p in v.args:
            if isinstance(p, V):
                segs_of(p, acc)
    elif isinstance(v, Tup):
        for p in v.items:
            segs_of(p, acc)
    return acc


def contains_unknown(v):
    """True when the term is not fully understood (TOP or opaque call inside)."""
    if v is TOP:
        return True
    if isinstance(v, App):
        if v.op in ("call", "unk"):
            return True
        return any(contains_unknown(a) for a in v.args if isinstance(a, V))
    if isinstance(v, Cat):
        return any(contains_unknown(a) for a in v.parts)
    if isinstance(v, Tup):
        return any(contains_unknown(a) for a in v.items)
    if isinstance(v, Phi):
        return contains_unknown(v.a) or contains_unknown(v.b)
    if isinstance(v, Lin):
        return any(contains_unknown(s) for s, _ in v.terms if isinstance(s, V))
    return False
