"""Scenario driver, gated comparison and reporting shared by all rules."""
import json
import os
import time

from .values import *
from .state import *
import traceback

from .interp import Interp, AbsRaise, Limit


# ------------------------------------------------------------------ cleanliness of terms
def term_unclean(t):
    """Term mentions something the analysis does not understand."""
    if not isinstance(t, V):
        return False
    try:
        return t._u
    except AttributeError:
        r = t._u = _unclean(t)
        return r


def _unclean(t):
    if t is TOP:
        return True
    if isinstance(t, CAtom):
        return term_unclean(t.t)
    if isinstance(t, CNot):
        return term_unclean(t.c)
    if isinstance(t, (CAnd, COr)):
        return any(term_unclean(x) for x in t.cs)
    if isinstance(t, App):
        return t.op in ("call", "unk") or any(term_unclean(a) for a in t.args)
    if isinstance(t, Cat):
        return any(term_unclean(a) for a in t.parts)
    if isinstance(t, Tup):
        return any(term_unclean(a) for a in t.items)
    if isinstance(t, Phi):
        return term_unclean(t.c) or term_unclean(t.a) or term_unclean(t.b)
    if isinstance(t, Lin):
        return any(term_unclean(s) for s, _ in t.terms)
    return False


def cond_unclean(c):
    if c is True or c is False:
        return False
    return term_unclean(c)


def asm_unclean(asm):
    return any(isinstance(k, Cnd) and cond_unclean(k) for k in asm)


def rs(v, asm):
    """Deep resolution of a term under assumptions."""
    if not asm:
        return v
    if isinstance(v, Phi):
        r = csimp(v.c, asm)
        if r is True:
            return rs(v.a, asm)
        if r is False:
            return rs(v.b, asm)
        return phi(r, rs(v.a, asm), rs(v.b, asm))
    if isinstance(v, Tup):
        return Tup([rs(x, asm) for x in v.items])
    if isinstance(v, Cat):
        return mkcat([rs(x, asm) for x in v.parts])
    if isinstance(v, (Tok, App)):
        k = asm.get(("val", v))
        if k is not None:
            return k
    return v


def has_phi(v):
    if isinstance(v, Phi):
        return v
    if isinstance(v, Tup):
        for x in v.items:
            r = has_phi(x)
            if r is not None:
                return r
    if isinstance(v, Cat):
        for x in v.parts:
            r = has_phi(x)
            if r is not None:
                return r
    return None


def gleaves(v, asm, g=True):
    """The alternatives of a gated value: (leaf, condition), conditions simplified under asm."""
    g = csimp(g, asm)
    if g is False:
        return
    if isinstance(v, Phi):
        for x in gleaves(v.a, asm, cand(g, v.c)):
            yield x
        for x in gleaves(v.b, asm, cand(g, cnot(v.c))):
            yield x
    else:
        yield v, g


def show_asm(asm):
    out = []
    for k, v in asm.items():
        if isinstance(k, CAtom):
            out.append(("" if v else "not ") + repr(k.t))
    return " and ".join(out[:8]) or "always"


# ------------------------------------------------------------------ expectations
class ED(object):
    """Expected dict: keys given; exact -> no other keys."""

    def __init__(self, d, exact=False, forbid=()):
        self.d, self.exact, self.forbid = d, exact, forbid


class EL(object):
    """Expected list of items (V, ED, EL or Many)."""

    def __init__(self, items, ordered=True):
        self.items, self.ordered = items, ordered


class Many(object):
    def __init__(self, v, seg):
        self.v, self.seg = v, seg


class EAny(object):
    """Anything present."""


class EPred(object):
    def __init__(self, f, txt):
        self.f, self.txt = f, txt

    def __repr__(self):
        return self.txt


class EGone(object):
    """must be absent"""


class Diff(object):
    def __init__(self, path, got, exp, asm, note=""):
        self.path, self.got, self.exp, self.asm, self.note = path, got, exp, dict(asm), note

    @property
    def definite(self):
        if asm_unclean(self.asm):
            return False
        if isinstance(self.got, V) and term_unclean(self.got):
            return False
        return not self.note.startswith("?")

    def __str__(self):
        return "%s: got %s, expected %s [%s]%s" % (
            self.path, show(self.got), show(self.exp), show_asm(self.asm), " " + self.note if self.note else "")


def show(x):
    if isinstance(x, ED):
        return "{%s}" % ", ".join("%s: %s" % (k, show(v)) for k, v in list(x.d.items())[:6])
    if isinstance(x, EL):
        return "[%s]" % ", ".join(show(i) for i in x.items[:8])
    if isinstance(x, Many):
        return "{%s}*" % show(x.v)
    if isinstance(x, (EAny, EGone)):
        return "present" if isinstance(x, EAny) else "absent"
    r = repr(x)
    return r if len(r) < 300 else r[:300] + "..."


class Cmp(object):
    def __init__(self, st, limit=4000, depth=14):
        self.st, self.out, self.n, self.limit, self.maxd = st, [], 0, limit, depth
        self.bound = set()   # segments bound by an enclosing representative

    def diff(self, path, got, exp, asm, note=""):
        if len(self.out) < 60:
            self.out.append(Diff(path, got, exp, asm, note))

    def split(self, c, asm, f, path, depth):
        ats = catoms(c)
        for a in ats:
            if csimp(a, asm) is a or csimp(a, asm) not in (True, False):
                for val in (True, False):
                    asm2 = dict(asm)
                    cassume(asm2, a, val)
                    f(asm2, depth + 1)
                return
        # all atoms decided yet not simplified: evaluate by cases on the whole condition
        for val in (True, False):
            asm2 = dict(asm)
            asm2[c] = val
            f(asm2, depth + 1)

    def run(self, got, exp, path="", asm=None):
        self.cmp(got, exp, dict(self.st.asm if asm is None else asm), path, 0)
        return self.out

    def cmp(self, got, exp, asm, path, depth):
        self.n += 1
        if self.n > self.limit or depth > self.maxd:
            self.diff(path, TOP, exp, asm, "? comparison budget")
            return
        got = rs(got, asm)
        p = has_phi(got)
        if p is None and isinstance(exp, V):
            exp = rs(exp, asm)
            p = has_phi(exp)
        if p is not None:
            self.split(p.c, asm, lambda a, d: self.cmp(got, exp, a, path, d), path, depth)
            return
        if isinstance(exp, EAny):
            if got is ABSENT:
                self.diff(path, got, exp, asm)
            return
        if isinstance(exp, EGone):
            if got is not ABSENT:
                self.diff(path, got, exp, asm)
            return
        if isinstance(exp, EPred):
            r = exp.f(got, asm)
            if r is None:
                self.diff(path, got, exp, asm, "? value of an unrecognised form")
            elif not r:
                self.diff(path, got, exp, asm)
            return
        if isinstance(exp, V):
            if got == exp:
                return
            if isinstance(got, Const) and isinstance(exp, Const) and got.v == exp.v and \
                    type(got.v) in (int, float) and type(exp.v) in (int, float):
                return
            if isinstance(got, Tup) and isinstance(exp, Tup) and len(got.items) == len(exp.items):
                for i, (a, b) in enumerate(zip(got.items, exp.items)):
                    self.cmp(a, b, asm, "%s[%d]" % (path, i), depth)
                return
            self.diff(path, got, exp, asm)
            return
        if isinstance(exp, ED):
            o = self.st.heap.get(got.addr) if isinstance(got, Ref) else None
            if o is None or o.kind != "dict":
                self.diff(path, got, exp, asm)
                return
            if o.meta and o.meta.get("open"):
                self.diff(path, TOP, exp, asm, "? dictionary with unknown keys")
                return
            for k, e in exp.d.items():
                kk = k if isinstance(k, V) else Const(k)
                self.cmp(o.slots.get(kk, ABSENT), e, asm, "%s[%s]" % (path, show(kk)), depth)
            if exp.exact:
                want = {k if isinstance(k, V) else Const(k) for k in exp.d}
                for k, v in o.slots.items():
                    if k not in want:
                        self.cmp(v, EGone(), asm, "%s[%s]" % (path, show(k)), depth)
            for k in exp.forbid:
                kk = k if isinstance(k, V) else Const(k)
                self.cmp(o.slots.get(kk, ABSENT), EGone(), asm, "%s[%s]" % (path, show(kk)), depth)
            return
        if isinstance(exp, EL):
            items = self.list_items(got)
            if items is None:
                self.diff(path, got, exp, asm)
                return
            if items == "open":
                self.diff(path, TOP, exp, asm, "? list with unknown content")
                return
            for it in items:
                g = csimp(it.guard, asm)
                if g is not True and g is not False:
                    self.split(g, asm, lambda a, d: self.cmp(got, exp, a, path, d), path, depth)
                    return
            items = [i for i in items if csimp(i.guard, asm) is True]
            for it in items:
                p = has_phi(rs(it.v, asm))
                if p is not None:
                    self.split(p.c, asm, lambda a, d: self.cmp(got, exp, a, path, d), path, depth)
                    return
            self.cmp_items(items, exp, asm, path, depth)
            return
        raise TypeError(exp)

    def list_items(self, got):
        if isinstance(got, Tup):
            return [Item(x) for x in got.items]
        if isinstance(got, Ref):
            o = self.st.heap.get(got.addr)
            if o is not None and o.kind in ("list", "set", "iter"):
                if o.meta and o.meta.get("open"):
                    return "open"
                return o.items
        return None

    def cmp_items(self, items, exp, asm, path, depth):
        es = list(exp.items)
        gs = [(rs(i.v, asm), i.many if i.many not in self.bound else None) for i in items]

        def seg(e):
            return e.seg if isinstance(e, Many) else None

        def val(e):
            return e.v if isinstance(e, Many) else e
        if exp.ordered:
            marks = [i.unord for i in items if i.unord]
            if len(marks) > 1 or any(i.unord and i.many for i in items):
                self.diff(path, Tup([g if m is None else App("each", (g,)) for g, m in gs]), exp, asm,
                          "order decided by %s" % marks[0])
                return
            if len(gs) != len(es) or any(m != seg(e) for (_, m), e in zip(gs, es)):
                self.diff(path, Tup([g if m is None else App("each", (g,)) for g, m in gs]), exp, asm)
                return
            for i, ((g, m), e) in enumerate(zip(gs, es)):
                self.cmp(g, val(e), asm, "%s[%d]" % (path, i), depth)
            return
        rest = list(gs)
        for e in es:
            for r in rest:
                if r[1] != seg(e):
                    continue
                c = Cmp(self.st, 200, self.maxd)
                c.bound = self.bound
                c.cmp(r[0], val(e), asm, path, depth)
                if not c.out:
                    rest.remove(r)
                    break
            else:
                self.diff(path, Tup([g if m is None else App("each", (g,)) for g, m in gs]), e, asm, "missing item")
                return
        for r in rest:
            self.diff(path, r[0], EGone(), asm, "unexpected item")


# ------------------------------------------------------------------ exported XML tree
class XN(object):
    __slots__ = ("tag", "o", "kids", "guard", "many", "parent", "addr", "loc", "qname")

    def __init__(self, tag, o, guard, many, parent, addr):
        self.tag, self.o, self.guard, self.many, self.parent, self.addr = tag, o, guard, many, parent, addr
        self.kids = []
        self.loc = (o.meta or {}).get("loc")

    def attr(self, n):
        return self.o.slots.get(("a", n), ABSENT)

    def attrs(self):
        return {k[1]: v for k, v in self.o.slots.items() if isinstance(k, tuple)}

    @property
    def text(self):
        return self.o.slots.get("text", NONE)

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x

    def full_guard(self):
        g, n = self.guard, self.parent
        while n is not None:
            g = cand(g, n.guard)
            n = n.parent
        return g

    def els(self, tag):
        return [k for k in self.kids if k.tag == tag]

    def __repr__(self):
        return "<%s id=%r>" % (self.tag, self.attr("id"))


def local(tag):
    if isinstance(tag, Const) and isinstance(tag.v, str):
        return tag.v.split(":")[-1].split("}")[-1]
    return None


def xml_view(st, ref, asm=None, problems=None):
    asm = st.asm if asm is None else asm
    problems = [] if problems is None else problems
    stack = set()

    def build(v, guard, many, parent):
        v = rs(v, asm)
        if isinstance(v, Phi):
            build(v.a, cand(guard, v.c), many, parent)
            build(v.b, cand(guard, cnot(v.c)), many, parent)
            return
        if not isinstance(v, Ref) or st.get(v.addr).kind != "et":
            problems.append("child is not an element: %r" % (v,))
            return
        if v.addr in stack:
            problems.append("cyclic tree")
            return
        o = st.get(v.addr)
        t = rs(o.slots["tag"], asm)
        alts = []

        def tags(t, g):
            if isinstance(t, Phi):
                tags(t.a, cand(g, t.c))
                tags(t.b, cand(g, cnot(t.c)))
            else:
                alts.append((t, g))
        tags(t, guard)
        for tg, g in alts:
            if g is False:
                continue
            l = local(tg)
            if l is None:
                problems.append("element with unknown tag %r" % (tg,))
            n = XN(l, o, g, many, parent, v.addr)
            n.qname = tg.v if isinstance(tg, Const) else None
            if parent is not None:
                parent.kids.append(n)
            else:
                roots.append(n)
            stack.add(v.addr)
            for i in o.items:
                ig = csimp(i.guard, asm)
                if ig is False:
                    continue
                build(i.v, ig, i.many, n)
            stack.discard(v.addr)
    roots = []
    build(ref, True, None, None)
    return roots[0] if roots else None


# ------------------------------------------------------------------ scenario
class Out(object):
    def __init__(self, value, raises, dead):
        self.value, self.raises, self.dead = value, raises, dead   # raises: [(cond, excname, loc, msg, leaf)]


class Scn(object):
    def __init__(self, repo, package="bpmn_python"):
        self.it = Interp(repo=repo, package=package)
        self.st = self.it.base
        self.n = 0
        self.K = {}

    def mod(self, dotted):
        self.it.ctx = 0
        self.it.do_import(self.st, dotted)
        return Ref("mod:" + dotted)

    def attr(self, v, name):
        return self.it.getattr_(self.st, v, name)

    def const(self, name):
        """Key of the diagram model, as the package's own constants class defines it."""
        if name not in self.K:
            m = self.mod("bpmn_python.bpmn_python_consts")
            c = self.attr(m, "Consts")
            self.K[name] = self.attr(c, name)
        return self.K[name]

    def call(self, fv, *args, **kw):
        """Abstract call; the state continues on the normal outcome."""
        self.n += 1
        it = self.it
        it.ctx = 0
        it.ctx = it.child_ctx("scn", self.n)
        it.pend = []
        raises = []
        val, dead = None, False
        saved = (list(it.frames), list(it.callstack), set(it.active), list(it.unord_stack), it.region, list(it.importing))
        try:
            if isinstance(fv, tuple):
                fv = it.getattr_(self.st, fv[0], fv[1])
            val = it.call(self.st, fv, list(args), kw, None)
        except AbsRaise as e:
            dead = True
            for c, leaf in leaves_of(e.tree):
                if leaf.k == "X":
                    raises.append(self.exc_of(c, leaf))
        except Exception as e:
            # the analysis could not follow this call: no verdict that rests on it
            it.note("analysis of the call given up: %s: %s" % (type(e).__name__, e))
            if not isinstance(e, Limit):
                it.engine_errors.append(traceback.format_exc())
            it.frames, it.callstack, it.active, it.unord_stack, it.region, it.importing = saved
            it.pend = []
            it.ctx = 0
            return Out(None, [(it.unk_cond("given up"), "?", None, str(e), None)], True)
        for c, leaf in it.pend:
            for cc, l in leaves_of(leaf):
                raises.append(self.exc_of(cand(c, cc), l))
        it.pend = []
        it.ctx = 0
        return Out(val, raises, dead)

    def exc_of(self, c, leaf):
        v = leaf.v
        name, msg, loc = "?", "", None
        v = rs(v, leaf.st.asm) if v is not None else None
        if isinstance(v, Ref):
            o = leaf.st.get(v.addr)
            m = o.meta or {}
            cl = m.get("cls")
            if isinstance(cl, LibV):
                name = cl.path.split(".")[-1]
            elif isinstance(cl, Ref):
                name = cl.addr.split(".")[-1]
            loc = m.get("loc")
            msg = repr(o.slots.get("args", ""))
        elif isinstance(v, LibV):
            name = v.path.split(".")[-1]
        return (c, name, loc, msg, leaf)

    def diagram(self):
        m = self.mod("bpmn_python.bpmn_diagram_rep")
        out = self.call((m, "BpmnDiagramGraph"))
        return out.value

    def graph(self, dg):
        g = self.attr(dg, "diagram_graph")
        return self.st.res(g)

    def nodes(self, dg):
        """address of the node dict"""
        g = self.graph(dg)
        return self.st.get(g.addr).slots["nodes"]

    def edges(self, dg):
        g = self.graph(dg)
        return self.st.get(g.addr).slots["edges"]

    def world(self):
        return self.st.get("WORLD").items

    def where(self, addr, key=None, default="?"):
        """Site of the last write to an object."""
        for a, k, loc, fn in reversed(self.it.wlog):
            if a == addr and (key is None or k == key):
                return "%s:%d (%s)" % (loc[0], loc[1], fn)
        return default


# ------------------------------------------------------------------ report
class Report(object):
    def __init__(self, prop, repo):
        self.prop, self.repo = prop, repo
        self.obl = []          # (rule, subject, verdict, detail)
        self.scn = []
        self.t0 = time.time()
        self.funcs = {}
        self.notes = {}
        self.errors = []
        self.rules = {}

    def ok(self, rule, subject):
        self.obl.append((rule, subject, "proved", ""))

    def bad(self, rule, subject, detail, where=""):
        self.obl.append((rule, subject, "refuted", detail + (" @ " + where if where else "")))

    def und(self, rule, subject, detail, where=""):
        self.obl.append((rule, subject, "undecided", detail))

    def absorb(self, scn):
        self.errors.extend(scn.it.engine_errors)
        scn.it.engine_errors = []
        for q, n in scn.it.calls.items():
            self.funcs[q] = self.funcs.get(q, 0) + n
        for k, n in scn.it.notes.items():
            self.notes[k] = self.notes.get(k, 0) + n

    def diffs(self, rule, subject, ds, scn, where=""):
        """Turn comparison results into one obligation."""
        if not ds:
            self.ok(rule, subject)
            return True
        d = next((x for x in ds if x.definite), None)
        if d is not None and not scn.it.notes:
            self.bad(rule, subject, str(d), where)
        else:
            d = d or ds[0]
            self.und(rule, subject, str(d) + (" (imprecise run: %s)" % (list(scn.it.notes)[:3],) if scn.it.notes
                                              else ""))
        return False

    def no_raise(self, rule, subject, out, scn, allowed=()):
        """The call has no failing outcome except those in `allowed` (cond predicate)."""
        probs = []
        for c, name, loc, msg, leaf in out.raises:
            if any(f(c, name, loc) for f in allowed):
                continue
            probs.append((c, name, loc, msg))
        if not probs:
            self.ok(rule, subject)
            return True
        clean = [p for p in probs if not cond_unclean(p[0])]
        if clean and not scn.it.notes:
            c, name, loc, msg = clean[0]
            self.bad(rule, subject, "fails with %s %s when %s" % (name, msg, "always" if c is True else show(c)),
                     "%s:%s" % loc if loc else "")
        else:
            c, name, loc, msg = probs[0]
            self.und(rule, subject, "may fail with %s %s at %s when %s" % (name, msg, loc, show(c)))
        return False

    def check(self, rule, subject, cond, detail, where=""):
        if cond:
            self.ok(rule, subject)
        else:
            self.bad(rule, subject, detail, where)
