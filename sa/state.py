"""Abstract heap: allocation-site objects, copy-on-write states, gated joins."""
from .values import *


class Item(object):
    """Element of an abstract sequence. guard: presence condition; many: unbounded segment name;
    unord: mark of a hash-ordered iteration that produced it."""
    __slots__ = ("v", "guard", "many", "unord")

    def __init__(self, v, guard=True, many=None, unord=None):
        self.v, self.guard, self.many, self.unord = v, guard, many, unord

    def same(self, o):
        return self is o or (self.v == o.v and self.guard == o.guard and self.many == o.many)

    def with_(self, v=None, guard=None, many="", unord=""):
        return Item(self.v if v is None else v, self.guard if guard is None else guard,
                    self.many if many == "" else many, self.unord if unord == "" else unord)

    def __repr__(self):
        s = repr(self.v)
        if self.many:
            s = "{%s}*%s" % (s, self.many)
        if self.guard is not True:
            s += "?%r" % (self.guard,)
        return s


class Obj(object):
    """kind in dict,list,set,inst,cls,mod,frame,graph,dom,et,file,iter,exc,...
    slots: ordered mapping key -> V ; items: list of Item or None ; meta: immutable python data."""
    __slots__ = ("kind", "slots", "items", "meta", "region", "uslots")

    def __init__(self, kind, slots=None, items=None, meta=None, region="fresh"):
        self.kind = kind
        self.slots = {} if slots is None else slots
        self.items = items
        self.meta = meta
        self.region = region
        self.uslots = None  # key -> unord mark

    def clone(self):
        o = Obj(self.kind, dict(self.slots), None if self.items is None else list(self.items), self.meta, self.region)
        o.uslots = None if self.uslots is None else dict(self.uslots)
        return o

    def __repr__(self):
        return "Obj(%s,%r,%r)" % (self.kind, self.slots, self.items)


class State(object):
    __slots__ = ("heap", "asm", "owned", "dead")

    def __init__(self, heap=None, asm=None):
        self.heap = {} if heap is None else heap
        self.asm = {} if asm is None else asm
        self.owned = set()
        self.dead = False

    def fork(self, c=None, val=True):
        s = State(dict(self.heap), dict(self.asm))
        self.owned = set()
        if c is not None:
            cassume(s.asm, c, val)
        return s

    def become(self, o):
        self.heap, self.asm, self.owned = o.heap, o.asm, set()
        o.owned = set()

    def get(self, addr):
        return self.heap[addr]

    def mut(self, addr):
        o = self.heap[addr]
        if addr not in self.owned:
            o = o.clone()
            self.heap[addr] = o
            self.owned.add(addr)
        return o

    def put(self, addr, obj):
        self.heap[addr] = obj
        self.owned.add(addr)

    def res(self, v):
        if isinstance(v, (Phi, Tok, App)):
            return resolve(v, self.asm)
        return v

    def simp(self, c):
        return csimp(c, self.asm)


def join_items(c, a, b):
    if a is b:
        return a
    n = min(len(a), len(b))
    i = 0
    while i < n and a[i].same(b[i]):
        i += 1
    if i == len(a) and i == len(b):
        return a
    out = list(a[:i])
    ra, rb = a[i:], b[i:]
    if len(ra) == len(rb) and all(x.guard == y.guard and x.many == y.many for x, y in zip(ra, rb)):
        for x, y in zip(ra, rb):
            out.append(Item(phi(c, x.v, y.v), x.guard, x.many, x.unord or y.unord))
        return out
    # common suffix
    j = 0
    while j < min(len(ra), len(rb)) and ra[-1 - j].same(rb[-1 - j]):
        j += 1
    suf = ra[len(ra) - j:]
    ra, rb = ra[:len(ra) - j], rb[:len(rb) - j]
    nc = cnot(c)
    for x in ra:
        g = cand(x.guard, c)
        if g is not False:
            out.append(Item(x.v, g, x.many, x.unord))
    for x in rb:
        g = cand(x.guard, nc)
        if g is not False:
            out.append(Item(x.v, g, x.many, x.unord))
    out.extend(suf)
    return out


def join_obj(c, a, b):
    if a is b:
        return a
    if a.kind != b.kind:
        return Obj("top", {}, None, None, a.region)
    slots = {}
    bs = b.slots
    for k, v in a.slots.items():
        w = bs.get(k, ABSENT)
        slots[k] = v if v is w else phi(c, v, w)
    for k, w in bs.items():
        if k not in a.slots:
            slots[k] = phi(c, ABSENT, w)
    if a.items is None or b.items is None:
        items = a.items if b.items is None else b.items
    else:
        items = join_items(c, a.items, b.items)
    o = Obj(a.kind, slots, items, a.meta, a.region)
    if a.uslots or b.uslots:
        o.uslots = dict(a.uslots or {})
        o.uslots.update(b.uslots or {})
    return o


def join_states(c, s1, s2):
    if s1 is s2:
        return s1
    c1 = c
    if c1 is True:
        return s1
    if c1 is False:
        return s2
    s = State()
    h1, h2 = s1.heap, s2.heap
    if h1 is h2:
        heap = h1
    else:
        heap = dict(h1)
        for k, o2 in h2.items():
            o1 = heap.get(k)
            if o1 is None:
                heap[k] = o2
            elif o1 is not o2:
                heap[k] = join_obj(c, o1, o2)
    s.heap = heap
    a1, a2 = s1.asm, s2.asm
    s.asm = {k: v for k, v in a1.items() if k in a2 and a2[k] == v}
    s1.owned = set()
    s2.owned = set()
    return s


# ------------------------------------------------------------ outcome trees
class Leaf(object):
    __slots__ = ("k", "st", "v")

    def __init__(self, k, st, v=None):
        self.k, self.st, self.v = k, st, v   # k: N normal, R return, X raise, B break, C continue


class Br(object):
    __slots__ = ("c", "t", "f")

    def __init__(self, c, t, f):
        self.c, self.t, self.f = c, t, f


def mkbr(c, t, f):
    if c is True:
        return t
    if c is False:
        return f
    if t is f:
        return t
    if isinstance(t, Leaf) and isinstance(f, Leaf) and t.k == f.k == "N":
        return Leaf("N", join_states(c, t.st, f.st))
    return Br(c, t, f)


def has_kind(t, ks):
    seen, stack = set(), [t]
    while stack:
        n = stack.pop()
        if isinstance(n, Leaf):
            if n.k in ks:
                return True
        elif id(n) not in seen:
            seen.add(id(n))
            stack.append(n.f)
            stack.append(n.t)
    return False


def all_kind(t, ks):
    seen, stack = set(), [t]
    while stack:
        n = stack.pop()
        if isinstance(n, Leaf):
            if n.k not in ks:
                return False
        elif id(n) not in seen:
            seen.add(id(n))
            stack.append(n.f)
            stack.append(n.t)
    return True


def merge_kind(t, ks, memo=None):
    """Join all leaves whose kind is in ks. Returns (state, value) or None."""
    if isinstance(t, Leaf):
        return (t.st, t.v if t.v is not None else NONE) if t.k in ks else None
    memo = {} if memo is None else memo
    if id(t) in memo:
        return memo[id(t)]
    a = merge_kind(t.t, ks, memo)
    b = merge_kind(t.f, ks, memo)
    if a is None:
        r = b
    elif b is None:
        r = a
    else:
        r = join_states(t.c, a[0], b[0]), phi(t.c, a[1], b[1])
    memo[id(t)] = r
    return r


def subst(t, ks, new, memo=None):
    if isinstance(t, Leaf):
        return new if t.k in ks else t
    memo = {} if memo is None else memo
    r = memo.get(id(t))
    if r is None:
        a = subst(t.t, ks, new, memo)
        b = subst(t.f, ks, new, memo)
        r = memo[id(t)] = a if a is b else t if a is t.t and b is t.f else Br(t.c, a, b)
    return r


def rekind(t, ks, k, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(id(t))
    if r is None:
        if isinstance(t, Leaf):
            r = Leaf(k, t.st, t.v) if t.k in ks else t
        else:
            r = Br(t.c, rekind(t.t, ks, k, memo), rekind(t.f, ks, k, memo))
        memo[id(t)] = r
    return r


def leaves_of(t, cond=True):
    """The leaves of an outcome tree with the condition of reaching each; shared subtrees are visited once."""
    if isinstance(t, Leaf):
        return [(cond, t)]
    post, seen, stack = [], set(), [(t, False)]
    while stack:
        n, done = stack.pop()
        if done:
            post.append(n)
            continue
        if id(n) in seen:
            continue
        seen.add(id(n))
        stack.append((n, True))
        if isinstance(n, Br):
            stack.append((n.t, False))      # popped last: leaves come out left to right below
            stack.append((n.f, False))
    conds, out = {id(t): cond}, []
    for n in reversed(post):
        c = conds.pop(id(n))
        if isinstance(n, Leaf):
            out.append((c, n))
            continue
        for x, g in ((n.t, cand(c, n.c)), (n.f, cand(c, cnot(n.c)))):
            conds[id(x)] = cor(conds[id(x)], g) if id(x) in conds else g
    return out


class AbsRaise(Exception):
    """A certain exception of the analysed program: outcome tree with X leaves only."""

    def __init__(self, tree):
        self.tree = tree
