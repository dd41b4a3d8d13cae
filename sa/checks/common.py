"""Helpers shared by the rules on diagrams in memory."""
from ..values import *
from ..state import *
from ..core import *

DIAG = ("diagram_graph", "sequence_flows", "process_elements", "diagram_attributes", "plane_attributes",
        "collaboration")


def refs_in(v, out):
    if isinstance(v, Ref):
        out.append(v.addr)
    elif isinstance(v, Phi):
        refs_in(v.a, out)
        refs_in(v.b, out)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_in(x, out)
    elif isinstance(v, (App, Cat)):
        for x in (v.args if isinstance(v, App) else v.parts):
            if isinstance(x, V):
                refs_in(x, out)
    elif isinstance(v, Fn):
        out.append("fn")
    return out


SKIP = ("mod", "cls", "frame")


def reach(st, roots):
    """addresses of the mutable data reachable from the values"""
    todo = []
    for r in roots:
        refs_in(r, todo)
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen or a not in st.heap:
            continue
        o = st.heap[a]
        if o.kind in SKIP:
            continue
        seen.add(a)
        for k, v in o.slots.items():
            if isinstance(v, V):
                refs_in(v, todo)
            if isinstance(k, V):
                refs_in(k, todo)
        for i in o.items or ():
            refs_in(i.v, todo)
    return seen


def data_roots(scn, dg):
    o = scn.st.get(dg.addr)
    return [dg] + [v for v in o.slots.values() if isinstance(v, V)]


def paths(st, dg):
    """addr -> readable access path"""
    out, todo = {}, [(dg, "diagram")]
    while todo:
        v, p = todo.pop(0)
        for a in refs_in(v, []):
            if a in out or a not in st.heap or st.heap[a].kind in SKIP:
                continue
            out[a] = p
            o = st.heap[a]
            for k, x in o.slots.items():
                if isinstance(x, V):
                    todo.append((x, "%s.%s" % (p, k.v if isinstance(k, Const) else k)))
            for n, i in enumerate(o.items or ()):
                todo.append((i.v, "%s[%d]" % (p, n)))
    return out


class Change(object):
    def __init__(self, addr, key, old, new, diffs):
        self.addr, self.key, self.old, self.new, self.diffs = addr, key, old, new, diffs

    def __repr__(self):
        return "%s[%s]: %s -> %s" % (self.addr, show(self.key) if isinstance(self.key, V) else self.key,
                                     show(self.old), show(self.new))


def items_equal(st, a, b):
    a = [i for i in a if csimp(i.guard, st.asm) is not False]
    b = [i for i in b if csimp(i.guard, st.asm) is not False]
    return len(a) == len(b) and all(
        rs(x.v, st.asm) == rs(y.v, st.asm) and csimp(x.guard, st.asm) == csimp(y.guard, st.asm) and x.many == y.many
        for x, y in zip(a, b))


def changes(snap, st, addrs):
    """Changed slots of the objects, as Change records (diffs: [Diff] deciding how definite they are)."""
    out = []
    for a in sorted(addrs, key=repr):
        o0, o1 = snap.heap.get(a), st.heap.get(a)
        if o0 is o1 or o0 is None or o1 is None:
            continue
        keys = list(o0.slots) + [k for k in o1.slots if k not in o0.slots]
        for k in keys:
            v0, v1 = o0.slots.get(k, ABSENT), o1.slots.get(k, ABSENT)
            if v0 is v1 or not isinstance(v1, V):
                continue
            v0, v1 = rs(v0, st.asm), rs(v1, st.asm)
            if v0 == v1:
                continue
            ds = Cmp(st).run(v1, v0, str(k))
            if ds:
                out.append(Change(a, k, v0, v1, ds))
        if o0.items is not None and o1.items is not None and not items_equal(st, o0.items, o1.items):
            new = [i for i in o1.items if not any(i.same(j) for j in o0.items)]
            d = Diff("items", Tup([i.v for i in o1.items]), Tup([i.v for i in o0.items]), {})
            if any(cond_unclean(i.guard) for i in new):
                d.note = "? guarded by an unknown condition"
            out.append(Change(a, "items", Tup([i.v for i in o0.items]), Tup([i.v for i in o1.items]), [d]))
        elif (o0.items is None) != (o1.items is None) or o0.kind != o1.kind:
            out.append(Change(a, "kind", Const(o0.kind), Const(o1.kind),
                              [Diff("kind", TOP, Const(o0.kind), {}, "? lost object")]))
        # insertion order of dictionaries is observable as file order
        if o0.kind == "dict" and list(o0.slots) != list(o1.slots) and set(o0.slots) == set(o1.slots):
            out.append(Change(a, "order", Tup(list(o0.slots)), Tup(list(o1.slots)),
                              [Diff("order", Tup(list(o1.slots)), Tup(list(o0.slots)), {})]))
    return out


def untouched(rep, scn, rule, subject, snap, addrs, allowed=lambda ch: False, names=None):
    """No object in addrs changed, except allowed changes."""
    bad = [c for c in changes(snap, scn.st, addrs) if not allowed(c)]
    if not bad:
        rep.ok(rule, subject)
        return True
    bad.sort(key=lambda c: not any(d.definite for d in c.diffs))
    c = bad[0]
    nm = (names or {}).get(c.addr, str(c.addr))
    ds = [d for d in c.diffs if d.definite] or c.diffs
    txt = "%s.%s was %s and becomes %s" % (nm, show(c.key) if isinstance(c.key, V) else c.key, show(c.old), show(c.new))
    d = ds[0]
    if d.definite and not scn.it.notes:
        rep.bad(rule, subject, txt + " [%s]" % show_asm(d.asm),
                scn.where(c.addr, c.key if isinstance(c.key, V) else None))
    else:
        rep.und(rule, subject, txt)
    return False


def node_of(scn, dg, i):
    return scn.st.get(scn.nodes(dg).addr).slots.get(i, ABSENT)


def attr_of(scn, dg, i, key):
    v = rs(node_of(scn, dg, i), scn.st.asm)
    if isinstance(v, Ref):
        return scn.st.get(v.addr).slots.get(scn.const(key), ABSENT)
    return TOP


def id_parts(v):
    return list(v.parts) if isinstance(v, Cat) else [v]


def fresh_id(v, uuids):
    """v is <letter prefix><complete uuid drawn in uuids>: returns (verdict, text); verdict True/False/None"""
    if term_unclean(v):
        return None, "unknown value %r" % (v,)
    ps = id_parts(v)
    toks = [p for p in ps if isinstance(p, Tok) and p.name.startswith("uuid") and p.name[4:5].isdigit()]
    if not toks:
        return False, "%r does not contain a newly drawn random UUID" % (v,)
    if len(toks) > 1:
        return None, "more than one UUID"
    if toks[0].name.split(".")[0] not in uuids:
        return False, "%r uses a UUID that was not drawn by this call" % (v,)
    if not isinstance(ps[0], Const) or not (ps[0].v[0].isalpha() or ps[0].v[0] == "_"):
        return False, "%r does not start with a letter and is no valid XML id" % (v,)
    for p in ps:
        if p is not toks[0] and not isinstance(p, Const):
            return False, "%r is derived from other data" % (v,)
    return True, ""


def uuids_since(scn, n0):
    out = set()
    for w in scn.world()[n0:]:
        if w.v.items[0] == Const("uuid"):
            out.add(w.v.items[1].v)
    return out
