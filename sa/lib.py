"""Models of builtins and of the libraries bpmn-python uses."""
import builtins as _pyb
import errno as _errno
import importlib
import math as _math
import re as _re
import itertools as _itertools
import string as _string

from .values import *
from .state import *

MODCONST = {"string": _string, "errno": _errno, "math": _math, "re": _re}
DOMCONST = {"ELEMENT_NODE": 1, "ATTRIBUTE_NODE": 2, "TEXT_NODE": 3, "CDATA_SECTION_NODE": 4,
            "PROCESSING_INSTRUCTION_NODE": 7, "COMMENT_NODE": 8, "DOCUMENT_NODE": 9}


class PyObj(V):
    """Concrete immutable helper object (compiled regex, match of constants)."""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def key(self):
        return (id(self.o),)

    def __repr__(self):
        return "<py %r>" % (self.o,)


class LibMixin(object):
    BUILTINS = set(dir(_pyb))
    set_order = None     # 0/1: two ways of iterating a set of strings (rule C21)
    csv_rows = None      # scenario input for pandas.read_csv / csv readers
    doc_root = None      # scenario input for minidom.parse

    # ================================================================ attributes
    def getattr_(self, st, v, name, node=None):
        v = st.res(v)
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.getattr_(s, v.a, name, node),
                               lambda s: self.getattr_(s, v.b, name, node))
        if isinstance(v, Ref):
            return self.getattr_ref(st, v, name, node)
        if isinstance(v, LibV):
            return self.lib_attr(st, v, name)
        if isinstance(v, SuperV):
            recv = st.res(v.recv)
            cls = st.get(recv.addr).meta["cls"] if st.get(recv.addr).kind == "inst" else recv
            mro = self.mro(st, cls)
            i = mro.index(v.cls) if v.cls in mro else -1
            for c in mro[i + 1:]:
                if isinstance(c, Ref):
                    x = st.get(c.addr).slots.get(name)
                    if x is not None:
                        return self.bindattr(st, x, recv, cls)
                elif name == "__init__":
                    return LibM(recv, "__object_init__")
            if name == "__init__":
                return LibM(recv, "__object_init__")
            self.raise_(st, "AttributeError", name)
        if isinstance(v, Tup) and v.names and name in v.names:
            return v.items[v.names.index(name)]
        if isinstance(v, Tup) and v.names and name.startswith("_"):
            return self.unk("named tuple method " + name)
        if isinstance(v, App) and v.op == "enummember" and name in ("value", "name"):
            return v.args[2 if name == "value" else 1]
        if isinstance(v, Const) and v in self.text_enums and name in ("value", "name"):
            return v if name == "value" else self.text_enums[v]
        if isinstance(v, (Const, Tok, Cat, Lin, Idx, Tup)) or (isinstance(v, App) and v.ty in ("str", "int", "float", "bytes")):
            t = self.tyof(st, v)
            if t == "uuid":
                if name in ("hex", "int", "urn"):
                    if name == "hex":
                        return Tok(v.name + ".hex", "str", True, "id", v.seg)
                    return self.str_(st, v) if name == "urn" else App("uuid" + name, (v,), "int")
                return LibM(v, name)
            c = getattr(_pyb, t, None) if t != "NoneType" else type(None)
            if c is not None and not hasattr(c, name):
                self.raise_(st, "AttributeError", "%s has no attribute %s" % (t, name))
            return LibM(v, name)
        if isinstance(v, PyObj):
            if hasattr(v.o, name):
                x = getattr(v.o, name)
                if isinstance(x, (str, int, float, bool, type(None))):
                    return Const(x)
                return LibM(v, name)
            self.raise_(st, "AttributeError", name)
        if isinstance(v, LibM):
            return LibM(v, name)
        if isinstance(v, Fn):
            if name == "__name__":
                return Const(v.name)
            return self.unk("function attribute " + name)
        if isinstance(v, App) and v.op == "property" and name in ("setter", "getter", "deleter"):
            return App("prop_setter", (v,))
        if isinstance(v, App) and v.ty == "pyobj":
            return App("attr", (v, Const(name)), "pyobj")
        return LibM(v, name)

    def bindattr(self, st, x, recv, cls):
        x = st.res(x)
        if isinstance(x, Phi):
            return phi(x.c, self.bindattr(st, x.a, recv, cls), self.bindattr(st, x.b, recv, cls))
        if isinstance(x, Fn):
            if x.kind == "static":
                return x
            if x.kind == "class":
                return Bound(cls, x)
            if recv is not None:
                return Bound(recv, x)
            return x
        if isinstance(x, App) and x.op == "property" and recv is not None:
            return self.call(st, x.args[0], [recv], {}, None)
        return x

    def getattr_ref(self, st, v, name, node):
        o = st.get(v.addr)
        k = o.kind
        if k == "inst":
            cls = o.meta["cls"]
            cv = self.class_lookup(st, cls, name)
            if isinstance(cv, App) and cv.op == "property":
                return self.bindattr(st, cv, v, cls)
            if name in o.slots:
                return self.strip_absent(st, o.slots[name], "AttributeError", name)
            if cv is not None:
                return self.bindattr(st, cv, v, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return self.unk("__dict__")
            if name == "__init__":
                return LibM(v, "__object_init__")
            ga = self.class_lookup(st, cls, "__getattr__")
            if ga is not None:
                return self.call(st, Bound(v, ga), [Const(name)], {}, node)
            if any(b.path not in ("builtins.object",) and not self.is_exc_lib(b) for b in self.lib_bases(st, cls)):
                return self.unk("attribute of library base")
            if name in ("args", "message") and any(self.is_exc_lib(b) for b in self.lib_bases(st, cls)):
                return self.unk("exception args")
            self.raise_(st, "AttributeError", "%s has no attribute %s" % (st.get(cls.addr).meta["name"], name))
        if k == "cls":
            x = self.class_lookup(st, v, name)
            if x is not None:
                if isinstance(x, Fn) and x.kind == "class":
                    return Bound(v, x)
                return self.strip_absent(st, x, "AttributeError", name)
            if name in ("__name__", "__qualname__"):
                return Const(o.meta["name"])
            if name == "__module__":
                return Const(o.meta["mod"])
            if name == "__init__":
                return LibM(v, "__object_init__")
            if name in ("__doc__", "__dict__"):
                return self.unk(name)
            self.raise_(st, "AttributeError", "class %s has no attribute %s" % (o.meta["name"], name))
        if k == "mod":
            if name in o.slots:
                return self.strip_absent(st, o.slots[name], "AttributeError", name)
            if self.find_module(o.meta["name"] + "." + name) and ("mod:" + o.meta["name"] + "." + name) in st.heap:
                return Ref("mod:" + o.meta["name"] + "." + name)
            if name in ("__name__",):
                return Const(o.meta["name"])
            if name == "__doc__":
                return Const("")
            self.raise_(st, "AttributeError", "module %s has no attribute %s" % (o.meta["name"], name))
        if k == "dom":
            return self.dom_attr(st, v, o, name)
        if k == "et":
            if name in ("text", "tail", "tag"):
                return o.slots.get(name, NONE)
            return LibM(v, name)
        if k == "ettree":
            return LibM(v, name)
        if k == "exc":
            if name in o.slots:
                return o.slots[name]
            if name in ("message", "strerror", "filename"):
                return App("excinfo", (v,), "str")
            if name == "errno":
                return NONE
            if name == "__class__":
                return o.meta["cls"]
            return LibM(v, name)
        if k == "graph":
            if name == "name":
                return Const("")
            if name in ("nodes", "node", "edges", "degree", "adj", "_node"):
                return LibM(v, {"_node": "node"}.get(name, name))
            return LibM(v, name)
        if k in ("list", "dict", "set"):
            base = {"list": list, "dict": dict, "set": set}[k]
            if not hasattr(base, name) and not (o.meta and (o.meta.get("counter") or o.meta.get("extra"))) and \
                    name not in ("item", "length"):
                self.raise_(st, "AttributeError", "%s has no attribute %s" % (k, name))
            if name == "length" and k == "list":
                return self.len_(st, v)
            return LibM(v, name)
        if k == "iter" and name in ("next", "__next__"):
            return LibM(v, "__next__")
        if name in o.slots:
            return o.slots[name]
        return LibM(v, name)

    def setattr_(self, st, v, name, val):
        v = st.res(v)
        if isinstance(v, Phi):
            def f(s, x):
                self.setattr_(s, x, name, val)
                return NONE
            self.lift(st, v, f)
            return
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind == "inst":
                cv = self.class_lookup(st, o.meta["cls"], name)
                if isinstance(cv, App) and cv.op == "property":
                    if len(cv.args) > 1:
                        self.call(st, cv.args[1], [v, val], {}, None)
                        return
                    self.raise_(st, "AttributeError", "can't set attribute")
                self.write(st, v.addr, name).slots[name] = val
                return
            if o.kind in ("cls", "mod", "exc"):
                self.write(st, v.addr, name).slots[name] = val
                return
            if o.kind == "et" and name in ("text", "tail", "tag"):
                self.write(st, v.addr, name).slots[name] = val
                return
            self.note("attribute store on " + o.kind)
            return
        if isinstance(v, LibV):
            self.note("attribute store on library")
            self.world(st, "libstore", v.path, name)
            return
        if isinstance(v, Const) and v.v is None:
            self.raise_(st, "AttributeError", "None has no attribute " + name)
        self.note("attribute store on unknown")

    # ================================================================ DOM
    def dom_attr(self, st, v, o, name):
        m = o.meta
        if name in DOMCONST:
            return Const(DOMCONST[name])
        if name == "nodeType":
            return Const(m["type"])
        if name in ("tagName", "nodeName", "localName", "prefix", "namespaceURI"):
            if m["type"] != 1:
                if name == "nodeName":
                    return Const({3: "#text", 8: "#comment", 9: "#document", 7: "pi"}[m["type"]])
                if name == "tagName":
                    self.raise_(st, "AttributeError", "%s node has no attribute tagName" %
                                {3: "Text", 8: "Comment", 9: "Document", 7: "ProcessingInstruction"}[m["type"]])
                return NONE
            t = m["tag"]
            if name == "localName":
                return Const(t.split(":")[-1])
            if name == "prefix":
                return Const(t.split(":")[0]) if ":" in t else NONE
            if name == "namespaceURI":
                return Tok("ns", nonempty=True)
            return Const(t)
        if name in ("firstChild", "lastChild"):
            if not o.items:
                return NONE
            return o.items[0 if name == "firstChild" else -1].v
        if name in ("nextSibling", "previousSibling"):
            if m["parent"] is None:
                return NONE
            i = m["index"] + (1 if name == "nextSibling" else -1)
            sib = st.get(m["parent"]).items
            if 0 <= i < len(sib):
                return sib[i].v
            return NONE
        if name == "parentNode":
            return NONE if m["parent"] is None else Ref(m["parent"])
        if name == "ownerDocument":
            return Ref(self.doc_root)
        if name == "documentElement":
            for it in o.items:
                if st.get(it.v.addr).meta["type"] == 1:
                    return it.v
            return NONE
        if name == "childNodes":
            return self.new_list(st, o.items, ("childNodes", v.addr))
        if name in ("nodeValue", "data", "wholeText"):
            if m["type"] in (3, 8, 7):
                return m["value"]
            if name == "nodeValue":
                return NONE
            self.raise_(st, "AttributeError", name)
        if name == "attributes":
            if m["type"] != 1:
                return NONE
            return LibM(v, "attributes")
        if m["type"] in (3, 8, 7) and name in ("getAttribute", "hasAttribute", "getElementsByTagName",
                                               "getElementsByTagNameNS", "setAttribute", "getAttributeNode",
                                               "getAttributeNS", "hasAttributeNS"):
            self.raise_(st, "AttributeError", "%s node has no attribute %s" % (
                {3: "Text", 8: "Comment", 7: "ProcessingInstruction"}[m["type"]], name))
        return LibM(v, name)

    def dom_desc(self, st, addr, out, pred, many=None):
        for it in st.get(addr).items:
            m = st.get(it.v.addr).meta
            if m["type"] == 1:
                mm = it.many or many
                if pred(m["tag"]):
                    out.append(Item(it.v, True, mm if (mm and mm not in self.active) else None))
                self.dom_desc(st, it.v.addr, out, pred, mm)

    def dom_method(self, st, v, name, args, kwargs, node):
        o = st.get(v.addr)
        m = o.meta
        if name == "getAttribute":
            a = st.res(args[0])
            if isinstance(a, Const):
                x = m["attrs"].get(a.v, ABSENT)
                return pmap(st.res(x), lambda q: Const("") if q is ABSENT else q)
            return self.unk("getAttribute of unknown name")
        if name == "hasAttribute":
            a = st.res(args[0])
            if isinstance(a, Const):
                return self.boolv(st.simp(self.presence(m["attrs"].get(a.v, ABSENT))))
            return self.unk("hasAttribute")
        if name in ("getAttributeNS", "hasAttributeNS"):
            return self.dom_method(st, v, name[:-2], args[1:], kwargs, node)
        if name == "hasAttributes":
            return self.boolv(cor(*[self.presence(x) for x in m["attrs"].values()]))
        if name == "getAttributeNode":
            return self.unk("getAttributeNode")
        if name in ("getElementsByTagName", "getElementsByTagNameNS"):
            a = st.res(args[-1] if args else kwargs.get("localName", kwargs.get("name", TOP)))
            if not isinstance(a, Const):
                return self.unk(name)
            if name.endswith("NS"):
                pred = lambda t: a.v == "*" or t.split(":")[-1] == a.v
            else:
                pred = lambda t: a.v == "*" or t == a.v
            out = []
            self.dom_desc(st, v.addr, out, pred)
            return self.alloc(st, Obj("list", {}, out, {"extra": True}), ("ebtn", id(node), v.addr))
        if name == "hasChildNodes":
            return Const(bool(o.items))
        if name in ("normalize", "unlink"):
            return NONE
        return self.opaque_call(st, "dom." + name, [v] + args, kwargs)

    # ================================================================ lists, dicts
    def mark_unord(self, st, addr, items):
        if not self.unord_stack:
            return items
        for mark, snap in reversed(self.unord_stack):
            if addr in snap:
                return [Item(i.v, i.guard, i.many, i.unord or mark) for i in items]
        return items

    def append_item(self, st, addr, v, guard=True, log=True):
        many = None
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if o is not None and o.kind == "dom" and o.meta.get("seg") and o.meta["seg"] not in self.active:
                many = o.meta["seg"]
        its = self.mark_unord(st, addr, [Item(v, guard, many)])
        ob = self.write(st, addr) if log else st.mut(addr)
        ob.items.append(its[0])

    def many_of_key(self, k):
        s = segs_of(k) - self.active
        return "+".join(sorted(s)) if s else None

    def dict_lookup(self, st, addr, k):
        """Value or ABSENT / Phi with ABSENT. k is not a Phi."""
        o = st.get(addr)
        v = o.slots.get(k)
        if v is not None:
            return v
        if isinstance(k, Const):
            # numeric/bool equality between constants
            if isinstance(k.v, (int, float)):
                for kk, vv in o.slots.items():
                    if isinstance(kk, Const) and kk.v == k.v:
                        return vv
        if o.meta and o.meta.get("open"):
            return TOP
        r = ABSENT
        if k is TOP:
            self.note("lookup with unknown key")
            return TOP
        for kk, vv in reversed(list(o.slots.items())):
            if isinstance(k, Const) and isinstance(kk, Const):
                continue
            c = self.eq(st, k, kk)
            if c is False:
                continue
            r = phi(c, vv, r)
        return r

    def dict_has(self, st, addr, k):
        k = st.res(k)
        if isinstance(k, Phi):
            return st.simp(cite(k.c, self.dict_has(st, addr, k.a), self.dict_has(st, addr, k.b)))
        v = self.dict_lookup(st, addr, k)
        if v is TOP:
            return self.unk_cond("in dict")
        return st.simp(self.presence(st.res(v)))

    def hashable_key(self, st, k):
        if isinstance(k, Ref):
            o = st.get(k.addr)
            if o.kind in ("list", "dict") or (o.kind == "set" and not (o.meta or {}).get("frozen")):
                self.raise_(st, "TypeError", "unhashable type: %s" % o.kind)

    def dict_set(self, st, addr, k, v, log=True):
        k = st.res(k)
        if isinstance(k, Phi):
            def f(s, x):
                self.dict_set(s, addr, x, v, log)
                return NONE
            self.lift(st, k, f)
            return
        self.hashable_key(st, k)
        if k is TOP:
            self.note("store with unknown key")
            o = self.write(st, addr, k)
            o.meta = dict(o.meta or {}, open=True)
            return
        if isinstance(k, Const) and isinstance(k.v, (bool, float)):
            for kk in st.get(addr).slots:
                if isinstance(kk, Const) and kk.v == k.v:
                    k = kk
                    break
        o = st.get(addr)
        if k in o.slots:
            self.write(st, addr, k).slots[k] = v
            return
        upd = []
        anyc = False
        for kk, vv in o.slots.items():
            if isinstance(k, Const) and isinstance(kk, Const):
                continue
            c = self.eq(st, k, kk)
            if c is False:
                continue
            c = cand(c, self.presence(vv))
            if c is False:
                continue
            upd.append((kk, phi(c, v, vv)))
            anyc = cor(anyc, c)
        w = self.write(st, addr, k)
        for kk, nv in upd:
            w.slots[kk] = nv
        w.slots[k] = phi(anyc, ABSENT, v)
        if self.unord_stack:
            for mark, snap in reversed(self.unord_stack):
                if addr in snap:
                    if w.uslots is None:
                        w.uslots = {}
                    w.uslots[k] = mark
                    break

    def nth(self, st, items, k, _depth=0):
        if not items:
            return ABSENT
        it = items[0]
        g = st.simp(it.guard)
        if g is False:
            return self.nth(st, items[1:], k)
        if k == 0:
            if g is True:
                return it.v
            return phi(g, it.v, self.nth(st, items[1:], 0))
        if it.many:
            return self.unk("index past an unbounded segment")
        if g is True:
            return self.nth(st, items[1:], k - 1)
        return phi(g, self.nth(st, items[1:], k - 1), self.nth(st, items[1:], k))

    def seq_index(self, st, items, k):
        if isinstance(k, Idx):
            if len(items) == len(k.shape) and all((i.many or None) == s for i, s in zip(items, k.shape)):
                return items[k.pos].v
            return self.unk("index of another sequence")
        if isinstance(k, Const) and isinstance(k.v, int):
            if k.v >= 0:
                return self.nth(st, items, k.v)
            return self.nth(st, list(reversed(items)), -k.v - 1)
        if isinstance(k, Const):
            self.raise_(st, "TypeError", "list indices must be integers")
        # symbolic
        live = [i for i in items if st.simp(i.guard) is not False]
        if len(live) == 1 and live[0].guard is True and not live[0].many:
            return live[0].v
        return self.unk("symbolic index")

    def shape_of(self, st, items):
        if all(st.simp(i.guard) is True for i in items):
            return tuple(i.many for i in items)
        return None

    def len_items(self, st, items):
        n, terms = 0, {}
        gs = []
        for i in items:
            g = st.simp(i.guard)
            if g is False:
                continue
            if g is not True:
                gs.append((g, i))
                continue
            if i.many:
                terms[("N", i.many)] = terms.get(("N", i.many), 0) + 1
            else:
                n += 1
        def mk(n, terms, gs):
            if gs:
                g, i = gs[0]
                t2 = dict(terms)
                n2 = n
                if i.many:
                    t2[("N", i.many)] = t2.get(("N", i.many), 0) + 1
                else:
                    n2 += 1
                if len(gs) > 8:
                    return TOP
                return phi(g, mk(n2, t2, gs[1:]), mk(n, terms, gs[1:]))
            if terms:
                return Lin(n, terms, shape=self.shape_of(st, items))
            return Const(n)
        return mk(n, terms, gs)

    def len_(self, st, v):
        v = st.res(v)
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.len_(s, v.a), lambda s: self.len_(s, v.b))
        if isinstance(v, Const):
            if isinstance(v.v, (str, bytes)):
                return Const(len(v.v))
            self.raise_(st, "TypeError", "object of type %s has no len()" % type(v.v).__name__)
        if isinstance(v, Tup):
            return Const(len(v.items))
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if (o.meta or {}).get("open"):
                return App("unk", ("len", v), "int")
            if o.kind in ("list", "set", "et"):
                return self.len_items(st, o.items)
            if o.kind == "dict":
                return self.len_items(st, self.dict_items(st, v.addr, 0))
            if o.kind == "graph":
                return self.len_(st, o.slots["nodes"])
            if o.kind == "inst":
                m = self.class_lookup(st, o.meta["cls"], "__len__")
                if m is not None:
                    return self.call(st, Bound(v, m), [], {}, None)
            if o.kind in ("iter", "dom", "inst", "cls", "file"):
                self.raise_(st, "TypeError", "object of type %s has no len()" % o.kind)
        if isinstance(v, LibM) and v.name in ("nodes", "node", "edges", "adj", "attrib"):
            return self.len_items(st, self.items_of(st, v))
        if isinstance(v, (Tok, Cat, App)) and self.tyof(st, v) == "str":
            return App("len", (v,), "int")
        if isinstance(v, App) and v.op == "range":
            return v.args[1] if v.args[0] == Const(0) and v.args[2] == Const(1) else App("len", (v,), "int")
        if v is TOP:
            return App("unk", ("len",), "int")
        return App("len", (v,), "int")

    def dict_items(self, st, addr, mode):
        """mode 0 keys, 1 values, 2 items"""
        o = st.get(addr)
        out = []
        if (o.meta or {}).get("open"):
            self.note("iteration over unknown dict")
        for k, v in o.slots.items():
            v = st.res(v)
            g = st.simp(self.presence(v))
            if g is False:
                continue
            v = self._drop_absent(v)
            x = k if mode == 0 else v if mode == 1 else Tup((k, v))
            out.append(Item(x, g, self.many_of_key(k), (o.uslots or {}).get(k)))
        return out

    def edge_key(self, u, v):
        a, b = sorted((u, v), key=repr)
        return App("edge", (a, b), "edge")

    def degree_of(self, st, g, k):
        """number of edge ends at node k, counted from the edges of the abstract graph"""
        o = st.get(g.addr)
        if not isinstance(k, (Tok, Const, Cat)) or (o.meta or {}).get("open") or k not in st.get(o.slots["nodes"].addr).slots:
            return App("deg", (k,), "int")
        n, terms = 0, {}
        for i in self.dict_items(st, o.slots["edges"].addr, 0):
            e = i.v
            if st.simp(i.guard) is False:
                continue
            if st.simp(i.guard) is not True or not (isinstance(e, App) and e.op == "edge"):
                return App("deg", (k,), "int")
            c = sum(1 for x in e.args if x == k)
            if not c:
                continue
            if i.many and i.many != getattr(k, "seg", None):
                terms[("N", i.many)] = terms.get(("N", i.many), 0) + c
            else:
                n += c
        return Lin(n, terms) if terms else Const(n)

    def items_of(self, st, v, consume=False):
        v = st.res(v)
        if isinstance(v, Phi):
            a = self.items_of(st, v.a, consume)
            b = self.items_of(st, v.b, consume)
            return join_items(v.c, a, b)
        if isinstance(v, Tup):
            return [Item(x) for x in v.items]
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [Item(Const(c)) for c in v.v]
            self.raise_(st, "TypeError", "%s object is not iterable" % type(v.v).__name__)
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind in ("list", "et"):
                if (o.meta or {}).get("open"):
                    self.note("iteration over unknown list")
                return list(o.items)
            if o.kind == "set":
                if (o.meta or {}).get("open"):
                    self.note("iteration over unknown set")
                mark = "set:" + str((o.meta or {}).get("loc", "?")) if len(o.items) > 1 else None
                if mark and all(isinstance(i.v, Const) and isinstance(i.v.v, (int, bool)) for i in o.items):
                    mark = None
                out = [Item(i.v, i.guard, i.many, mark) for i in o.items]
                return out[::-1] if mark and self.set_order == 1 else out
            if o.kind == "dict":
                return self.dict_items(st, v.addr, 2 if (o.meta or {}).get("degview") else 0)
            if o.kind == "iter":
                its = list(o.items)
                if consume:
                    st.mut(v.addr).items = []
                return its
            if o.kind == "graph":
                return self.dict_items(st, o.slots["nodes"].addr, 0)
            if o.kind == "inst":
                m = self.class_lookup(st, o.meta["cls"], "__iter__")
                if m is not None:
                    return self.items_of(st, self.call(st, Bound(v, m), [], {}, None), consume)
                m = self.class_lookup(st, o.meta["cls"], "__getitem__")
                if m is None:
                    self.raise_(st, "TypeError", "object is not iterable")
            if o.kind == "file":
                return self.file_lines(st, v)
            self.note("iteration over " + o.kind)
            return []
        if isinstance(v, App) and v.op == "range":
            return self.range_items(st, v)
        if isinstance(v, LibM):
            r = self.view_items(st, v)
            if r is not None:
                return r
        if isinstance(v, Lin) or isinstance(v, Fn):
            self.raise_(st, "TypeError", "not iterable")
        if isinstance(v, (Tok, Cat)) and self.tyof(st, v) == "str":
            self.note("iteration over characters of unknown string")
            return []
        self.note("iteration over unknown")
        return []

    def file_lines(self, st, v):
        self.note("reading a file")
        return []

    def prefix_items(self, st, items, m):
        """the first m items of a sequence with unbounded segments; a cut segment is a segment of its own"""
        out = []
        for i in items:
            if m <= 0:
                break
            if i.many:
                out.append(Item(i.v, i.guard, "%s[:%d]" % (i.many, m), i.unord))
                break
            out.append(i)
            if st.simp(i.guard) is True:
                m -= 1
            else:
                self.note("prefix of a list with optional items")
                m -= 1
        return out

    def range_items(self, st, v):
        a, b, c = [st.res(x) for x in v.args]
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(c, Const):
            r = range(a.v, b.v, c.v)
            if len(r) > 500:
                self.note("long range")
                return []
            return [Item(Const(i)) for i in r]
        if isinstance(b, Lin) and b.shape and a == Const(0) and c == Const(1):
            return [Item(Idx(i, b.shape), True, m) for i, m in enumerate(b.shape)]
        if isinstance(b, App) and b.op == "min" and a == Const(0) and c == Const(1) and len(b.args) == 2:
            n, l = sorted(b.args, key=lambda x: not isinstance(x, Const))
            if isinstance(n, Const) and isinstance(l, Lin) and l.shape:
                its = [Item(Idx(i, l.shape), True, m) for i, m in enumerate(l.shape)]
                return self.prefix_items(st, its, n.v)
        if isinstance(a, Const) and isinstance(c, Const) and isinstance(b, Phi):
            # guarded: enumerate up to the largest constant leaf
            ls = list(leaves(b))
            if all(isinstance(x, Const) for x in ls):
                mx = max(x.v for x in ls)
                out = []
                for i in range(a.v, mx, c.v):
                    g = self.order_cmp(st, "lt", Const(i), b)
                    out.append(Item(Const(i), g))
                return out
        self.note("range over unknown bound")
        return []

    # views of networkx graphs etc.
    def view_items(self, st, v):
        r = st.res(v.recv)
        if isinstance(r, Phi):
            a = self.view_items(st, LibM(r.a, v.name))
            b = self.view_items(st, LibM(r.b, v.name))
            return None if a is None or b is None else join_items(r.c, a, b)
        if isinstance(r, Ref):
            o = st.get(r.addr)
            if o.kind == "graph":
                if v.name in ("nodes", "node", "adj"):
                    return self.dict_items(st, o.slots["nodes"].addr, 0)
                if v.name == "edges":
                    return self.edge_items(st, r, False)
                if v.name == "degree":
                    return [Item(Tup((i.v, self.degree_of(st, r, i.v))), i.guard, i.many)
                            for i in self.dict_items(st, o.slots["nodes"].addr, 0)]
            if o.kind == "et" and v.name == "attrib":
                return [Item(Const(k[1]), self.presence(x)) for k, x in o.slots.items() if isinstance(k, tuple)]
            if o.kind == "dom" and v.name == "attributes":
                return [Item(Const(k), self.presence(x)) for k, x in o.meta["attrs"].items()]
        return None

    def view_contains(self, st, v, x):
        r = st.res(v.recv)
        if isinstance(r, Ref):
            o = st.get(r.addr)
            if o.kind == "graph":
                if v.name in ("nodes", "node", "adj", "degree"):
                    return self.dict_has(st, o.slots["nodes"].addr, x)
                if v.name == "edges":
                    if isinstance(x, Tup) and len(x.items) >= 2:
                        return self.dict_has(st, o.slots["edges"].addr, self.edge_key(x.items[0], x.items[1]))
            if o.kind == "et" and v.name == "attrib" and isinstance(x, Const):
                return self.presence(o.slots.get(("a", x.v), ABSENT))
            if o.kind == "dom" and v.name == "attributes" and isinstance(x, Const):
                return self.presence(o.meta["attrs"].get(x.v, ABSENT))
        return None

    def edge_items(self, st, g, data):
        o = st.get(g.addr)
        out = []
        for it in self.dict_items(st, o.slots["edges"].addr, 2):
            k, dv = it.v.items
            u, w = k.args
            c = CAtom(App("orient", (k,)))
            a, b = phi(c, u, w), phi(c, w, u)
            if data is False:
                val = Tup((a, b))
            elif data is True:
                val = Tup((a, b, dv))
            else:
                x = pmap(st.res(self.dict_lookup(st, dv.addr, data[0])), lambda q: data[1] if q is ABSENT else q)
                val = Tup((a, b, x))
            out.append(Item(val, it.guard, it.many))
        return out

    # ================================================================ subscripts
    def getitem(self, st, v, k, node):
        v, k = st.res(v), st.res(k)
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.getitem(s, v.a, k, node),
                               lambda s: self.getitem(s, v.b, k, node))
        if isinstance(k, Phi):
            return self.branch(st, k.c, lambda s: self.getitem(s, v, k.a, node),
                               lambda s: self.getitem(s, v, k.b, node))
        if isinstance(k, App) and k.op == "slice":
            return self.getslice(st, v, k, node)
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind == "dict":
                self.hashable_key(st, k)
                r = self.dict_lookup(st, v.addr, k)
                if (o.meta or {}).get("default") is not None and r is ABSENT:
                    d = self.call(st, o.meta["default"], [], {}, node)
                    self.dict_set(st, v.addr, k, d)
                    return d
                if (o.meta or {}).get("counter") and r is ABSENT:
                    return Const(0)
                return self.strip_absent(st, r, "KeyError", k)
            if o.kind == "list":
                r = self.seq_index(st, o.items, k)
                if (o.meta or {}).get("open"):
                    return self.unk("element of an unknown list")
                return self.strip_absent(st, r, "IndexError", "list index out of range")
            if o.kind == "et":
                r = self.seq_index(st, o.items, k)
                return self.strip_absent(st, r, "IndexError", "child index out of range")
            if o.kind == "graph":
                c = self.dict_has(st, o.slots["nodes"].addr, k)
                self.maybe_raise(st, cnot(c), "KeyError", k)
                return App("adj", (v, k), "adj")
            if o.kind == "inst":
                m = self.class_lookup(st, o.meta["cls"], "__getitem__")
                if m is not None:
                    return self.call(st, Bound(v, m), [k], {}, node)
            if o.kind in ("iter", "set", "inst"):
                self.raise_(st, "TypeError", "%s object is not subscriptable" % o.kind)
            return self.unk("subscript of " + o.kind)
        if isinstance(v, Tup):
            if isinstance(k, Const) and isinstance(k.v, int):
                if -len(v.items) <= k.v < len(v.items):
                    return v.items[k.v]
                self.raise_(st, "IndexError", "tuple index out of range")
            if isinstance(k, Const):
                self.raise_(st, "TypeError", "tuple indices must be integers")
            return self.strip_absent(st, self.seq_index(st, [Item(x) for x in v.items], k), "IndexError")
        if isinstance(v, Const):
            if isinstance(v.v, str) and isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return Const(v.v[k.v])
                except IndexError:
                    self.raise_(st, "IndexError", "string index out of range")
            if isinstance(v.v, str) and not isinstance(k, Const):
                return App("at", (v, k), "str")
            self.raise_(st, "TypeError", "%s object is not subscriptable" % type(v.v).__name__)
        if isinstance(v, App) and v.op == "adj":
            g = st.get(v.args[0].addr)
            r = self.dict_lookup(st, g.slots["edges"].addr, self.edge_key(v.args[1], k))
            return self.strip_absent(st, r, "KeyError", k)
        if isinstance(v, LibM):
            r = st.res(v.recv)
            if isinstance(r, Ref):
                o = st.get(r.addr)
                if o.kind == "graph":
                    if v.name in ("nodes", "node"):
                        return self.getitem(st, o.slots["nodes"], k, node)
                    if v.name == "adj":
                        return self.getitem(st, r, k, node)
                    if v.name == "edges":
                        if isinstance(k, Tup):
                            q = self.dict_lookup(st, o.slots["edges"].addr, self.edge_key(k.items[0], k.items[1]))
                            return self.strip_absent(st, q, "KeyError", k)
                    if v.name == "degree":
                        return self.degree_of(st, r, k)
                if o.kind == "et" and v.name == "attrib" and isinstance(k, Const):
                    return self.strip_absent(st, o.slots.get(("a", k.v), ABSENT), "KeyError", k)
                if o.kind == "dom" and v.name == "attributes" and isinstance(k, Const):
                    x = self.strip_absent(st, o.meta["attrs"].get(k.v, ABSENT), "KeyError", k)
                    return App("domattr", (x,), "pyobj")
        if isinstance(v, (Cat, Tok)) or (isinstance(v, App) and v.ty == "str"):
            if isinstance(k, Const):
                return App("at", (v, k), "str")
            return App("at", (v, k), "str")
        if v is TOP:
            return TOP
        self.note("subscript of unknown")
        return App("unk", ("subscript",))

    def getslice(self, st, v, k, node):
        lo, hi, step = [st.res(x) for x in k.args]
        allc = all(isinstance(x, Const) for x in (lo, hi, step))
        if isinstance(v, Const) and isinstance(v.v, str) and allc:
            return Const(v.v[lo.v:hi.v:step.v])
        if isinstance(v, Tup) and allc:
            return Tup(v.items[lo.v:hi.v:step.v])
        if isinstance(v, Ref) and st.get(v.addr).kind == "list":
            items = [i for i in st.get(v.addr).items if st.simp(i.guard) is not False]
            simple = all(st.simp(i.guard) is True and not i.many for i in items)
            site = ("slice", id(node))
            if allc:
                if lo.v in (None, 0) and hi.v is None and step.v in (None, 1):
                    return self.new_list(st, items, site)
                if lo.v in (None, 0) and hi.v is None and step.v == -1:
                    return self.new_list(st, list(reversed(items)), site)
                if simple:
                    return self.new_list(st, items[lo.v:hi.v:step.v], site)
                if step.v in (None, 1):
                    # peel definite ends
                    l = list(items)
                    n = lo.v or 0
                    if n >= 0 and all(st.simp(i.guard) is True and not i.many for i in l[:n]):
                        l = l[n:]
                        if hi.v is None:
                            return self.new_list(st, l, site)
                        if hi.v < 0 and all(st.simp(i.guard) is True and not i.many for i in l[hi.v:]):
                            return self.new_list(st, l[:hi.v], site)
                        if hi.v >= 0:
                            m = hi.v - n
                            if all(st.simp(i.guard) is True and not i.many for i in l[:m]) and len(l) >= m:
                                return self.new_list(st, l[:max(m, 0)], site)
                            # a proper prefix: items past the bound are lost
                            if m > 0:
                                return self.new_list(st, self.prefix_items(st, l, m), site)
                    if hi.v is not None and hi.v < 0 and n == 0:
                        # drops the last -hi items; last is an unbounded segment: not the whole list
                        self.note("suffix slice of an unbounded list")
                        return self.new_list(st, l, site)
            r = self.new_list(st, [], site)
            st.mut(r.addr).meta = {"open": True}
            self.note("slice of unknown bounds")
            return r
        if self.tyof(st, v) == "str":
            return App("strslice", (v, lo, hi, step), "str")
        if isinstance(v, Const):
            self.raise_(st, "TypeError", "not subscriptable")
        return self.unk("slice")

    def setitem(self, st, v, k, val):
        v, k = st.res(v), st.res(k)
        if isinstance(v, Phi) or isinstance(k, Phi):
            p, which = (v, 0) if isinstance(v, Phi) else (k, 1)

            def f(s, x):
                self.setitem(s, x if which == 0 else v, x if which else k, val)
                return NONE
            self.lift(st, p, f)
            return
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind == "dict":
                self.dict_set(st, v.addr, k, val)
                return
            if o.kind == "list":
                items = o.items
                if isinstance(k, Const) and isinstance(k.v, int) and \
                        all(st.simp(i.guard) is True and not i.many for i in items):
                    if -len(items) <= k.v < len(items):
                        w = self.write(st, v.addr, k)
                        w.items[k.v] = Item(val)
                        return
                    self.raise_(st, "IndexError", "list assignment index out of range")
                if isinstance(k, Idx) and len(items) == len(k.shape):
                    w = self.write(st, v.addr, k)
                    w.items[k.pos] = Item(val, True, items[k.pos].many)
                    return
                w = self.write(st, v.addr, k)
                w.meta = dict(w.meta or {}, open=True)
                self.note("list store at unknown index")
                return
            if o.kind == "inst":
                m = self.class_lookup(st, o.meta["cls"], "__setitem__")
                if m is not None:
                    self.call(st, Bound(v, m), [k, val], {}, None)
                    return
            if o.kind == "graph":
                self.raise_(st, "TypeError", "Graph does not support item assignment")
            self.note("item store on " + o.kind)
            return
        if isinstance(v, LibM):
            r = st.res(v.recv)
            if isinstance(r, Ref):
                o = st.get(r.addr)
                if o.kind == "et" and v.name == "attrib" and isinstance(k, Const):
                    self.write(st, r.addr, ("a", k.v)).slots[("a", k.v)] = val
                    return
        if isinstance(v, Tup) or isinstance(v, (Tok, Cat)):
            self.raise_(st, "TypeError", "object does not support item assignment")
        if isinstance(v, Const):
            self.raise_(st, "TypeError", "object does not support item assignment")
        self.note("item store on unknown")

    def delitem(self, st, v, k, node):
        v, k = st.res(v), st.res(k)
        if isinstance(v, Phi) or isinstance(k, Phi):
            p, which = (v, 0) if isinstance(v, Phi) else (k, 1)

            def f(s, x):
                self.delitem(s, x if which == 0 else v, x if which else k, node)
                return NONE
            self.lift(st, p, f)
            return
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind == "dict":
                if k in o.slots:
                    self.strip_absent(st, o.slots[k], "KeyError", k)
                    self.write(st, v.addr, k).slots.pop(k)
                    return
                r = self.dict_lookup(st, v.addr, k)
                if r is ABSENT:
                    self.raise_(st, "KeyError", k)
                self.note("del with unknown key")
                return
            if o.kind == "list" and isinstance(k, Const) and \
                    all(st.simp(i.guard) is True and not i.many for i in o.items):
                if isinstance(k.v, int) and -len(o.items) <= k.v < len(o.items):
                    self.write(st, v.addr, k).items.pop(k.v)
                    return
                self.raise_(st, "IndexError", "del index")
            if o.kind == "list" and isinstance(k, App) and k.op == "slice" and k.args[0] in (NONE, Const(0)) and \
                    k.args[1] == NONE:
                self.write(st, v.addr).items[:] = []
                return
        self.note("del item")

    # ================================================================ strings
    def str_(self, st, v):
        v = st.res(v)
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.str_(s, v.a), lambda s: self.str_(s, v.b))
        if isinstance(v, Const):
            return Const(str(v.v))
        if isinstance(v, Tok):
            if v.ty == "str":
                return v
            if v.ty == "uuid":
                return Tok(v.name + ".str", "str", True, "id", v.seg)
            return App("str", (v,), "str")
        if isinstance(v, Cat):
            return v
        if isinstance(v, App) and v.ty == "str":
            return v
        if isinstance(v, Ref):
            o = st.get(v.addr)
            if o.kind in ("inst",):
                for nm in ("__str__", "__repr__"):
                    m = self.class_lookup(st, o.meta["cls"], nm)
                    if m is not None:
                        return self.call(st, Bound(v, m), [], {}, None)
            c = self.concrete(st, v)
            if c is not None:
                return Const(str(c[0]))
            return App("str", (v,), "str")
        if v is TOP:
            return App("unk", ("str",), "str")
        return App("str", (v,), "str")

    def concrete(self, st, v, depth=0):
        """(python value,) of a container of constants, or None"""
        v = st.res(v)
        if isinstance(v, Const):
            return (v.v,)
        if isinstance(v, Tup):
            xs = [self.concrete(st, x, depth + 1) for x in v.items]
            return None if None in xs else (tuple(x[0] for x in xs),)
        if isinstance(v, Ref) and depth < 5:
            o = st.get(v.addr)
            if o.meta and o.meta.get("open"):
                return None
            if o.kind == "list" and o.items is not None and all(not i.many and st.simp(i.guard) is True and not i.unord
                                                                for i in o.items):
                xs = [self.concrete(st, i.v, depth + 1) for i in o.items]
                return None if None in xs else ([x[0] for x in xs],)
            if o.kind == "dict":
                out = {}
                for k, x in o.slots.items():
                    x = self.concrete(st, x, depth + 1)
                    if not isinstance(k, Const) or x is None:
                        return None
                    out[k.v] = x[0]
                return (out,)
        return None

    def str_method(self, st, v, name, args, kwargs, node):
        args = [st.res(a) for a in args]
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                return self.branch(st, a.c,
                                   lambda s: self.str_method(s, v, name, args[:i] + [a.a] + args[i + 1:], kwargs, node),
                                   lambda s: self.str_method(s, v, name, args[:i] + [a.b] + args[i + 1:], kwargs, node))
        if name == "join":
            its = self.items_of(st, args[0], consume=True)
            if any(i.many or st.simp(i.guard) is not True for i in its):
                return App("join", tuple(i.v for i in its) + (v,), "str")
            parts = []
            for n, i in enumerate(its):
                if n:
                    parts.append(v)
                x = st.res(i.v)
                for l in leaves(x):
                    t = self.tyof(st, l)
                    if t is not None and t != "str":
                        self.raise_(st, "TypeError", "sequence item: expected str, %s found" % t)
                parts.append(x)
            return self.cat(st, parts)
        if name == "format":
            return self.str_format(st, v, args, kwargs)
        if isinstance(v, Const):
            py = []
            ok = True
            for a in args:
                if isinstance(a, Const):
                    py.append(a.v)
                elif isinstance(a, Tup) and all(isinstance(x, Const) for x in a.items):
                    py.append(tuple(x.v for x in a.items))
                else:
                    ok = False
            kw = {}
            for k, a in kwargs.items():
                a = st.res(a)
                if isinstance(a, Const):
                    kw[k] = a.v
                else:
                    ok = False
            if ok:
                try:
                    r = getattr(v.v, name)(*py, **kw)
                except Exception as e:
                    self.raise_(st, type(e).__name__, str(e))
                return self.wrap_py(st, r, node)
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], Const) and \
                isinstance(args[0].v, str) and isinstance(v, Cat):
            p = v.parts[0] if name == "startswith" else v.parts[-1]
            if isinstance(p, Const):
                if getattr(p.v, name)(args[0].v):
                    return TRUE
                if len(p.v) >= len(args[0].v):
                    return FALSE
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, str) \
                and isinstance(v, App) and v.op in ("str.casefold", "str.upper") and args[0].v.isascii():
            # letter case of an ASCII word: one canonical form
            if args[0].v != getattr(args[0].v, v.op[4:])():
                return FALSE
            return self.str_method(st, self.str_method(st, v.args[0], "lower", [], {}, node), name,
                                   [Const(args[0].v.lower())], {}, node)
        if name in ("startswith", "endswith") and args and (args[0] == v or args[0] == Const("")):
            return TRUE
        if name == "startswith" and args and isinstance(v, Cat) and isinstance(args[0], (Tok, Cat)):
            a = list(args[0].parts) if isinstance(args[0], Cat) else [args[0]]
            if list(v.parts)[:len(a)] == a:
                return TRUE
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower",
                    "isnumeric", "isdecimal"):
            return self.boolv(st.simp(CAtom(App("str." + name, (v,) + tuple(args)))))
        if name == "encode":
            return App("encode", (v,) + self.codec(st, args, kwargs), "bytes")
        if name in ("find", "index", "count", "rfind", "rindex"):
            return App("str." + name, (v,) + tuple(args), "int")
        if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            if name in ("partition", "rpartition"):
                return Tup([App("str." + name, (v,) + tuple(args) + (Const(i),), "str") for i in range(3)])
            sep = args[0] if args else None
            if name != "splitlines" and isinstance(sep, Const) and isinstance(sep.v, str) and sep.v and not kwargs:
                cut = st.simp(CAtom(App("substr", (sep, v))))
                one = self.new_list(st, [Item(v)], ("split1", id(node)))
                q = "str." + name
                x = (v,) + tuple(args)
                ends = [Item(App(q + ".first", x, "str")), Item(App(q + ".last", x, "str"))]
                if not (len(args) > 1 and args[1] == Const(1)):
                    ends.insert(1, Item(App(q + ".mid", x, "str"), CAtom(App(q + ".more", x)), "split%d" % id(node)))
                many = self.new_list(st, ends, ("split2", id(node)))
                return phi(cut, many, one)
            x = (v,) + tuple(a for a in args if isinstance(a, V))
            return self.new_list(st, [Item(App("str." + name + ".part", x, "str"), CAtom(App("str." + name + ".any", x)),
                                           "split%d" % id(node))], ("split", id(node)))
        if name in ("lower", "upper", "casefold") and isinstance(v, App) and v.op == "strslice":
            # letter case does not change positions: the slice is moved outside
            inner = self.str_method(st, v.args[0], name, [], {}, node)
            return App("strslice", (inner,) + tuple(v.args[1:]), "str")
        return App("str." + name, (v,) + tuple(a for a in args if isinstance(a, V)), "str")

    def codec(self, st, args, kwargs):
        """(codec, error handling) of an encode or decode call, with the names normalised"""
        c = st.res(args[0] if args else kwargs.get("encoding", Const("utf-8")))
        e = st.res(args[1] if len(args) > 1 else kwargs.get("errors", Const("strict")))
        if isinstance(c, Const):
            c = Const(str(c.v).lower().replace("_", "-").replace("utf8", "utf-8"))
        return c, e

    def bytes_method(self, st, v, name, args, kwargs):
        if name == "decode" and isinstance(v, App) and v.op == "encode":
            c, e = self.codec(st, args, kwargs)
            if c == v.args[1] and c in (Const("utf-8"), Const("utf-16"), Const("utf-32")):
                return v.args[0]
            return App("decode", (v, c, e), "str")
        if name == "decode":
            return App("decode", (v,) + self.codec(st, args, kwargs), "str")
        return self.unk("bytes." + name)

    def str_format(self, st, v, args, kwargs):
        if not isinstance(v, Const):
            return App("unk", ("format",), "str")
        parts = []
        auto = 0
        try:
            pieces = list(_string.Formatter().parse(v.v))
        except ValueError:
            return App("unk", ("format",), "str")
        for lit, fld, spec, conv in pieces:
            if lit:
                parts.append(Const(lit))
            if fld is None:
                continue
            if spec not in ("", None, "s") or conv not in (None, "s"):
                parts.append(App("unk", ("format",), "str"))
                continue
            m = _re.match(r"^(\w*)((?:\[[^\]]*\]|\.\w+)*)$", fld)
            if not m:
                parts.append(App("unk", ("format",), "str"))
                continue
            key = m.group(1)
            if key == "":
                x = args[auto] if auto < len(args) else None
                auto += 1
            elif key.isdigit():
                x = args[int(key)] if int(key) < len(args) else None
            else:
                x = kwargs.get(key)
            if x is None:
                self.raise_(st, "IndexError", "format")
            for acc in _re.findall(r"\[([^\]]*)\]|\.(\w+)", m.group(2)):
                if acc[0]:
                    x = self.getitem(st, x, Const(int(acc[0]) if acc[0].isdigit() else acc[0]), None)
                else:
                    x = self.getattr_(st, x, acc[1])
            parts.append(self.str_(st, x))
        return self.cat(st, parts)

    def wrap_py(self, st, r, node, tag="py"):
        if isinstance(r, (str, int, float, bool, type(None), bytes)):
            return Const(r)
        if isinstance(r, tuple):
            return Tup([self.wrap_py(st, x, node, (tag, i)) for i, x in enumerate(r)])
        if isinstance(r, list):
            return self.new_list(st, [Item(self.wrap_py(st, x, node, (tag, i))) for i, x in enumerate(r)],
                                 ("wrap", tag, id(node)))
        if isinstance(r, dict):
            return self.new_dict(st, {self.wrap_py(st, k, node): self.wrap_py(st, x, node, (tag, str(k)))
                                      for k, x in r.items()}, ("wrap", tag, id(node)))
        return PyObj(r)

    # ================================================================ method dispatch
    def call_method(self, st, v, name, args, kwargs, node):
        if isinstance(v, Phi):
            return self.lift(st, v, lambda s, x: self.call_method(s, x, name, args, kwargs, node))
        if isinstance(v, Ref):
            o = st.get(v.addr)
            k = o.kind
            if name == "__object_init__":
                if args and k == "inst" and any(self.is_exc_lib(b) for b in self.lib_bases(st, o.meta["cls"])):
                    st.mut(v.addr).slots["args"] = Tup(args)
                return NONE
            f = getattr(self, "m_" + k, None)
            if f is not None:
                return f(st, v, o, name, args, kwargs, node)
            if k == "dom":
                return self.dom_method(st, v, name, args, kwargs, node)
            return self.opaque_call(st, "%s.%s" % (k, name), [v] + args, kwargs)
        if isinstance(v, (Const, Tok, Cat, App)) and self.tyof(st, v) == "str":
            return self.str_method(st, v, name, args, kwargs, node)
        if isinstance(v, App) and v.ty == "bytes":
            return self.bytes_method(st, v, name, args, kwargs)
        if isinstance(v, Tup):
            if name == "index" and args:
                for i, x in enumerate(v.items):
                    if self.eq(st, x, args[0]) is True:
                        return Const(i)
            if name == "count":
                return App("unk", ("count",), "int")
            return self.unk("tuple." + name)
        if isinstance(v, PyObj):
            py = []
            for a in args:
                a = st.res(a)
                if isinstance(a, Const):
                    py.append(a.v)
                else:
                    if isinstance(v.o, _re.Pattern):
                        flags = v.o.flags & ~_re.UNICODE
                        return self.call_lib(st, "re." + name, [Const(v.o.pattern)] + list(args) +
                                             ([Const(int(flags))] if flags else []), kwargs, node)
                    return self.unk("call on constant object")
            try:
                r = getattr(v.o, name)(*py)
                if not isinstance(r, (str, int, tuple, list, dict, type(None))) and hasattr(r, "__next__"):
                    r = list(r)
            except Exception as e:
                self.raise_(st, type(e).__name__, str(e))
            return self.wrap_py(st, r, node)
        if isinstance(v, LibM):
            return self.call_view_method(st, v, name, args, kwargs, node)
        if isinstance(v, App) and v.op == "adj":
            if name in ("keys", "items", "values", "get"):
                g = st.get(v.args[0].addr)
                if name == "get":
                    r = self.dict_lookup(st, g.slots["edges"].addr, self.edge_key(v.args[1], st.res(args[0])))
                    return pmap(st.res(r), lambda q: (args[1] if len(args) > 1 else NONE) if q is ABSENT else q)
                return self.unk("adjacency iteration")
        if isinstance(v, (Const, Tok, Lin, App)) and self.tyof(st, v) in ("int", "float", "bool", "uuid"):
            if isinstance(v, Const):
                try:
                    return self.wrap_py(st, getattr(v.v, name)(*[a.v for a in args]), node)
                except Exception:
                    pass
            if name == "__str__":
                return self.str_(st, v)
            if name in ("is_integer",):
                return self.boolv(CAtom(App(name, (v,))))
            return App("num." + name, (v,) + tuple(args))
        if isinstance(v, App) and v.ty == "pyobj":
            return App("call", (name, v) + tuple(a for a in args if isinstance(a, V)))
        return self.opaque_call(st, "?.%s" % name, ([v] if isinstance(v, V) else []) + args, kwargs)

    def call_view_method(self, st, v, name, args, kwargs, node):
        """methods of views: LibM(graph,'nodes').data() etc."""
        r = st.res(v.recv)
        if isinstance(r, Ref):
            o = st.get(r.addr)
            if o.kind == "graph":
                if v.name in ("nodes", "node", "adj"):
                    if name == "data":
                        return self.m_graph(st, r, o, "nodes", [args[0] if args else TRUE] + args[1:], kwargs, node)
                    if v.name != "adj":
                        return self.m_dict(st, o.slots["nodes"], st.get(o.slots["nodes"].addr), name, args, kwargs,
                                           node)
                if v.name == "edges" and name == "data":
                    return self.m_graph(st, r, o, "edges", [args[0] if args else TRUE], {}, node)
            if o.kind == "et" and v.name == "attrib":
                if name == "get":
                    return self.m_et(st, r, o, "get", args, kwargs, node)
                if name == "update":
                    src = st.res(args[0]) if args else None
                    if isinstance(src, Ref) and st.get(src.addr).kind == "dict":
                        for k, x in st.get(src.addr).slots.items():
                            self.setitem(st, v, k, x)
                    for k, x in kwargs.items():
                        self.setitem(st, v, Const(k), x)
                    return NONE
                if name in ("items", "keys"):
                    return self.m_et(st, r, o, name, args, kwargs, node)
            if o.kind == "dom" and v.name == "attributes":
                if name in ("keys", "items", "values"):
                    d = self.new_dict(st, {Const(k): x for k, x in o.meta["attrs"].items()}, ("nnm", id(node)))
                    return self.m_dict(st, d, st.get(d.addr), name, args, kwargs, node)
                if name in ("get", "getNamedItem") and isinstance(st.res(args[0]), Const):
                    x = o.meta["attrs"].get(st.res(args[0]).v, ABSENT)
                    return pmap(st.res(x), lambda q: NONE if q is ABSENT else App("domattr", (q,), "pyobj"))
        return self.opaque_call(st, "view.%s.%s" % (v.name, name), args, kwargs)

    # list ------------------------------------------------------------
    def m_list(self, st, v, o, name, args, kwargs, node):
        if name == "append":
            self.append_item(st, v.addr, args[0])
            return NONE
        if name == "extend":
            its = self.items_of(st, args[0], consume=True)
            its = self.mark_unord(st, v.addr, its)
            self.write(st, v.addr).items.extend(its)
            return NONE
        if name == "insert":
            k = st.res(args[0])
            w = self.write(st, v.addr)
            if isinstance(k, Const) and k.v == 0:
                w.items.insert(0, self.mark_unord(st, v.addr, [Item(args[1])])[0])
            elif isinstance(k, Const) and all(i.guard is True and not i.many for i in w.items):
                w.items.insert(k.v, Item(args[1]))
            elif isinstance(k, Lin) and k == self.len_items(st, w.items):
                w.items.append(Item(args[1]))
            else:
                self.note("insert at unknown position")
                w.items.append(Item(args[1], True, None, "unk:insert"))
            return NONE
        if name in ("popleft", "appendleft", "extendleft"):
            if name == "popleft":
                return self.m_list(st, v, o, "pop", [Const(0)], {}, node)
            if name == "appendleft":
                return self.m_list(st, v, o, "insert", [Const(0), args[0]], {}, node)
            its = self.items_of(st, args[0], consume=True)
            w = self.write(st, v.addr)
            w.items = list(reversed(its)) + w.items
            return NONE
        if name == "pop":
            k = st.res(args[0]) if args else Const(-1)
            items = [i for i in o.items if st.simp(i.guard) is not False]
            opened = (o.meta or {}).get("open")
            if not items and not opened:
                self.raise_(st, "IndexError", "pop from empty list")
            if isinstance(k, Const) and not opened:
                idx = k.v if k.v >= 0 else len(items) + k.v
                side = items[:idx + 1] if k.v >= 0 else items[idx:]
                if 0 <= idx < len(items) and all(st.simp(i.guard) is True and not i.many for i in side):
                    w = self.write(st, v.addr)
                    w.items = items[:idx] + items[idx + 1:]
                    return items[idx].v
                if not (0 <= idx < len(items)):
                    self.raise_(st, "IndexError", "pop index out of range")
                if k.v in (0, -1):
                    # exact for items that may be absent, up to the first segment
                    seq = items if k.v == 0 else items[::-1]
                    taken, res, out = False, [], []
                    for n, i in enumerate(seq):
                        g = st.simp(i.guard)
                        if taken is True:
                            out.append(i)
                            continue
                        if i.many:
                            break
                        res.append((cand(g, cnot(taken)), i.v))
                        ng = st.simp(cand(g, taken))
                        if ng is not False:
                            out.append(Item(i.v, ng, None, i.unord))
                        taken = st.simp(cor(taken, g))
                    else:
                        self.maybe_raise(st, cnot(taken), "IndexError", "pop from empty list")
                        r = res[-1][1]
                        for c, x in reversed(res[:-1]):
                            r = phi(c, x, r)
                        self.write(st, v.addr).items = out if k.v == 0 else out[::-1]
                        return r
            self.note("pop of unknown position")
            w = self.write(st, v.addr)
            w.meta = dict(w.meta or {}, open=True)
            return TOP
        if name == "remove":
            x = args[0]
            items = list(o.items)
            out = []
            found = False
            for n, it in enumerate(items):
                c = cand(it.guard, self.eq(st, it.v, x)) if found is not True else False
                c = st.simp(cand(c, cnot(found)))
                if c is True:
                    found = True
                    if it.many:
                        # removing the representative: the remaining elements stay
                        if segs_of(x) & {it.many}:
                            pass
                        out.append(Item(it.v, CAtom(App("rest", (Const(it.many),))), it.many, it.unord))
                    continue
                if c is False:
                    out.append(it)
                else:
                    out.append(Item(it.v, cand(it.guard, cnot(c)), it.many, it.unord))
                    found = cor(found, c)
            if found is False:
                self.raise_(st, "ValueError", "list.remove(x): x not in list")
            if found is not True:
                self.maybe_raise(st, cnot(found), "ValueError", "list.remove(x): x not in list")
            self.write(st, v.addr).items = out
            return NONE
        if name == "clear":
            self.write(st, v.addr).items = []
            return NONE
        if name == "copy":
            return self.new_list(st, o.items, ("lcopy", id(node)))
        if name == "reverse":
            w = self.write(st, v.addr)
            w.items = list(reversed(w.items))
            return NONE
        if name == "sort":
            r = self.sorted_(st, v, kwargs, node)
            its = st.get(r.addr).items
            self.write(st, v.addr).items = list(its)
            return NONE
        if name == "index":
            its = [i for i in o.items]
            if all(st.simp(i.guard) is True and not i.many for i in its):
                r = ABSENT
                for n in reversed(range(len(its))):
                    r = phi(self.eq(st, its[n].v, args[0]), Const(n), r)
                return self.strip_absent(st, r, "ValueError", "not in list")
            return App("unk", ("index",), "int")
        if name == "count":
            n = Const(0)
            for i in o.items:
                c = st.simp(cand(i.guard, self.eq(st, i.v, args[0])))
                if c is False:
                    continue
                if i.many:
                    return App("unk", ("count",), "int")
                n = self.binop(st, "add", n, phi(c, Const(1), Const(0)), node)
            return n
        if name == "item":
            return self.getitem(st, v, args[0], node)
        if name == "__len__":
            return self.len_(st, v)
        if name == "__contains__":
            return self.boolv(self.contains(st, v, args[0]))
        if name == "__iter__":
            return self.alloc(st, Obj("iter", {}, list(o.items)), ("iter", id(node)))
        return self.opaque_call(st, "list." + name, [v] + args, kwargs)

    def m_iter(self, st, v, o, name, args, kwargs, node):
        if name == "__next__":
            return self.call_lib(st, "builtins.next", [v], {}, node)
        if name == "close":
            return NONE
        return self.opaque_call(st, "iter." + name, [v] + args, kwargs)

    # set -------------------------------------------------------------
    def m_set(self, st, v, o, name, args, kwargs, node):
        if name == "add":
            c = self.contains(st, v, args[0])
            if c is True:
                return NONE
            w = self.write(st, v.addr)
            w.items.append(Item(args[0], cnot(c)))
            return NONE
        if name == "update":
            for a in args:
                for i in self.items_of(st, a, consume=True):
                    c = self.contains(st, v, i.v)
                    g = st.simp(cand(i.guard, cnot(c)))
                    if g is not False:
                        self.write(st, v.addr).items.append(Item(i.v, g, i.many))
            return NONE
        if name in ("remove", "discard"):
            c = self.contains(st, v, args[0])
            if name == "remove":
                self.maybe_raise(st, cnot(c), "KeyError", args[0])
            out = []
            for i in st.get(v.addr).items:
                e = self.eq(st, i.v, args[0])
                g = st.simp(cand(i.guard, cnot(e)))
                if g is not False:
                    out.append(Item(i.v, g, i.many))
            self.write(st, v.addr).items = out
            return NONE
        if name == "pop":
            live = [i for i in o.items if st.simp(i.guard) is not False]
            if not live:
                self.raise_(st, "KeyError", "pop from an empty set")
            if len(live) == 1 and not live[0].many:
                self.maybe_raise(st, cnot(st.simp(live[0].guard)), "KeyError", "pop from an empty set")
                self.write(st, v.addr).items = []
                return live[0].v
            if self.set_order is not None and all(st.simp(i.guard) is True and not i.many for i in live):
                at = -1 if self.set_order == 1 else 0
                x = live.pop(at)
                self.write(st, v.addr).items = live
                return x.v
            # exactly-one reasoning: guards may be exclusive
            r = ABSENT
            for i in reversed(live):
                r = phi(i.guard, i.v, r)
            self.world(st, "setpop", Const("%s:%d" % self.loc), Const(len(live)))
            self.write(st, v.addr).items = []
            if all(st.simp(i.guard) is True for i in live):
                return App("setpop", tuple(i.v for i in live), "str")
            return self.strip_absent(st, r, "KeyError", "pop")
        if name == "copy":
            return self.alloc(st, Obj("set", {}, list(o.items), dict(o.meta or {})), ("scopy", id(node)))
        if name == "clear":
            self.write(st, v.addr).items = []
            return NONE
        if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset",
                    "isdisjoint"):
            others = [self.items_of(st, a, consume=True) for a in args]

            def inn(x, its):
                return cor(*[cand(j.guard, self.eq(st, x, j.v)) for j in its])
            if name == "union":
                its = list(o.items)
                for q in others:
                    its = its + q
                return self.mkset(st, [Item(i.v, i.guard, i.many) for i in its], ("union", id(node)))
            if name in ("intersection", "difference"):
                out = []
                for i in o.items:
                    g = i.guard
                    for q in others:
                        c = inn(i.v, q)
                        g = cand(g, c if name == "intersection" else cnot(c))
                    g = st.simp(g)
                    if g is not False:
                        out.append(Item(i.v, g, i.many))
                return self.alloc(st, Obj("set", {}, out, {"loc": "%s:%d" % self.loc}), (name, id(node)))
            q = others[0]
            if name == "issubset":
                return self.boolv(st.simp(cand(*[cor(cnot(i.guard), inn(i.v, q)) for i in o.items])))
            if name == "issuperset":
                return self.boolv(st.simp(cand(*[cor(cnot(i.guard), inn(i.v, o.items)) for i in q])))
            if name == "isdisjoint":
                return self.boolv(st.simp(cnot(cor(*[cand(i.guard, inn(i.v, q)) for i in o.items]))))
        return self.opaque_call(st, "set." + name, [v] + args, kwargs)

    # dict ------------------------------------------------------------
    def m_dict(self, st, v, o, name, args, kwargs, node):
        if name == "get":
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)

            def f(s, k):
                r = s.res(self.dict_lookup(s, v.addr, k))
                return pmap(r, lambda q: d if q is ABSENT else q)
            return self.lift(st, args[0], f)
        if name in ("items", "keys", "values", "iteritems", "iterkeys", "itervalues"):
            mode = {"k": 0, "v": 1, "i": 2}[name.replace("iter", "")[0]]
            its = self.dict_items(st, v.addr, mode)
            return self.alloc(st, Obj("list", {}, its, {"extra": True, "view": v.addr}), ("dview", name, id(node)))
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE

            def f(s, k):
                r = s.res(self.dict_lookup(s, v.addr, k))
                if r is ABSENT:
                    self.dict_set(s, v.addr, k, d)
                    return d
                c = self.presence(r)
                if c is not True:
                    nv = pmap(r, lambda q: d if q is ABSENT else q)
                    self.dict_set(s, v.addr, k, nv)
                    return nv
                return r
            return self.lift(st, args[0], f)
        if name == "update":
            for a in args:
                a = st.res(a)
                def f(s, x):
                    if isinstance(x, Ref) and s.get(x.addr).kind == "dict":
                        for k, val in list(s.get(x.addr).slots.items()):
                            val = s.res(val)
                            c = self.presence(val)
                            if c is False:
                                continue
                            if c is True:
                                self.dict_set(s, v.addr, k, val)
                            else:
                                old = s.res(self.dict_lookup(s, v.addr, k))
                                self.dict_set(s, v.addr, k, phi(c, self._drop_absent(val), old))
                    elif isinstance(x, LibM) and x.name == "attributes":
                        rr = s.get(s.res(x.recv).addr)
                        for k, val in rr.meta["attrs"].items():
                            old = s.res(self.dict_lookup(s, v.addr, Const(k)))
                            self.dict_set(s, v.addr, Const(k), phi(self.presence(val), self._drop_absent(val), old))
                    else:
                        for it in self.items_of(s, x, consume=True):
                            if isinstance(it.v, Tup) and len(it.v.items) == 2:
                                self.dict_set(s, v.addr, it.v.items[0],
                                              phi(s.simp(it.guard), it.v.items[1],
                                                  self.dict_lookup(s, v.addr, it.v.items[0])))
                            else:
                                self.note("dict.update from unknown")
                    return NONE
                self.lift(st, a, f)
            for k, val in kwargs.items():
                self.dict_set(st, v.addr, Const(k), val)
            return NONE
        if name == "pop":
            def f(s, k):
                r = s.res(self.dict_lookup(s, v.addr, k))
                if len(args) > 1:
                    out = pmap(r, lambda q: args[1] if q is ABSENT else q)
                else:
                    out = self.strip_absent(s, r, "KeyError", k)
                ob = s.get(v.addr)
                if k in ob.slots:
                    self.write(s, v.addr, k).slots.pop(k)
                else:
                    for kk in list(ob.slots):
                        c = self.eq(s, k, kk)
                        if c is not False:
                            w = self.write(s, v.addr, kk)
                            w.slots[kk] = phi(c, ABSENT, w.slots[kk])
                return out
            return self.lift(st, args[0], f)
        if name == "popitem":
            ks = list(o.slots)
            if not ks:
                self.raise_(st, "KeyError", "popitem")
            k = ks[-1]
            val = self.strip_absent(st, o.slots[k], "KeyError", k)
            self.write(st, v.addr, k).slots.pop(k)
            return Tup((k, val))
        if name == "copy":
            n = Obj("dict", dict(o.slots), None, o.meta)
            return self.alloc(st, n, ("dcopy", id(node)))
        if name == "clear":
            self.write(st, v.addr).slots.clear()
            return NONE
        if name in ("has_key", "__contains__"):
            return self.boolv(self.dict_has(st, v.addr, args[0]))
        if name == "__getitem__":
            return self.getitem(st, v, args[0], node)
        if name == "__setitem__":
            self.setitem(st, v, args[0], args[1])
            return NONE
        if name == "__len__":
            return self.len_(st, v)
        if name == "fromkeys":
            r = self.alloc(st, Obj("dict", {}), ("fromkeys", id(node)))
            for i in self.items_of(st, args[0], consume=True):
                self.dict_set(st, r.addr, i.v, args[1] if len(args) > 1 else NONE, log=False)
            return r
        if name == "most_common" and (o.meta or {}).get("counter"):
            its = self.dict_items(st, v.addr, 2)
            n = st.res(args[0]) if args else st.res(kwargs.get("n", NONE))
            cs = [st.res(i.v.items[1]) if isinstance(i.v, Tup) and i.guard is True and not i.many else None for i in its]
            if all(isinstance(c, Const) and type(c.v) in (int, float) for c in cs) and \
                    (n == NONE or isinstance(n, Const) and type(n.v) is int):
                order = sorted(range(len(its)), key=lambda k: -cs[k].v)
                order = order if n == NONE else order[:max(n.v, 0)]
                return self.new_list(st, [its[k] for k in order], ("mostcommon", id(node)))
            return self.new_list(st, [Item(i.v, i.guard, i.many, "sorted:counter") for i in its],
                                 ("mostcommon", id(node)))
        return self.opaque_call(st, "dict." + name, [v] + args, kwargs)

    # ElementTree -----------------------------------------------------
    def m_et(self, st, v, o, name, args, kwargs, node):
        if name == "set":
            def f(s, k):
                if isinstance(k, Const):
                    self.write(s, v.addr, ("a", k.v)).slots[("a", k.v)] = args[1]
                else:
                    self.note("attribute with unknown name")
                return NONE
            self.lift(st, args[0], f)
            return NONE
        if name == "get":
            k = st.res(args[0])
            d = args[1] if len(args) > 1 else NONE
            if isinstance(k, Const):
                return pmap(st.res(o.slots.get(("a", k.v), ABSENT)), lambda q: d if q is ABSENT else q)
            return TOP
        if name == "append":
            self.append_item(st, v.addr, args[0])
            return NONE
        if name == "extend":
            its = self.items_of(st, args[0], consume=True)
            self.write(st, v.addr).items.extend(self.mark_unord(st, v.addr, its))
            return NONE
        if name == "insert":
            return self.m_list(st, v, o, "insert", args, kwargs, node)
        if name == "remove":
            return self.m_list(st, v, o, "remove", args, kwargs, node)
        if name in ("keys", "items"):
            its = []
            for k, x in o.slots.items():
                if isinstance(k, tuple):
                    g = self.presence(x)
                    its.append(Item(Const(k[1]) if name == "keys" else Tup((Const(k[1]), self._drop_absent(x))), g))
            return self.new_list(st, its, ("etk", id(node)))
        if name == "clear":
            w = self.write(st, v.addr)
            w.items = []
            w.slots = {"tag": w.slots["tag"], "text": NONE, "tail": NONE}
            return NONE
        if name in ("iter", "getiterator", "itertext"):
            out = []

            def rec(r, g, m):
                tag = args[0] if args else NONE
                c = True if tag == NONE or tag == Const("*") else self.eq(st, st.get(r.addr).slots["tag"], tag)
                out.append(Item(r, cand(g, c), m))
                for i in st.get(r.addr).items:
                    rec(i.v, cand(g, i.guard), i.many or m)
            rec(v, True, None)
            return self.alloc(st, Obj("iter", {}, [i for i in out if i.guard is not False]), ("etiter", id(node)))
        if name in ("find", "findall", "iterfind"):
            t = st.res(args[0])
            out = []
            for i in o.items:
                c = cand(i.guard, self.eq(st, st.get(i.v.addr).slots["tag"], t))
                if c is not False:
                    out.append(Item(i.v, c, i.many))
            if name == "find":
                r = self.nth(st, out, 0)
                return pmap(r, lambda q: NONE if q is ABSENT else q)
            return self.new_list(st, out, ("etfind", id(node)))
        if name == "makeelement":
            return self.call_lib(st, "xml.etree.ElementTree.Element", args, kwargs, node)
        if name in ("getchildren",):
            return self.new_list(st, o.items, ("etch", id(node)))
        return self.opaque_call(st, "Element." + name, [v] + args, kwargs)

    def et_check(self, st, root):
        """serialisation requires strings"""
        seen = set()

        def rec(r, g):
            if r.addr in seen:
                return
            seen.add(r.addr)
            o = st.get(r.addr)
            for k, x in o.slots.items():
                if isinstance(k, tuple) or k in ("tag",):
                    chk(x, g, "attribute %s" % (k[1] if isinstance(k, tuple) else k), False)
                elif k in ("text", "tail"):
                    chk(x, g, k, True)
            for i in o.items:
                for l in leaves(st.res(i.v)):
                    if isinstance(l, Ref):
                        rec(l, cand(g, i.guard))

        def chk(x, g, what, none_ok):
            def f(l, c):
                l = st.res(l)
                if isinstance(l, Phi):
                    f(l.a, cand(c, l.c))
                    f(l.b, cand(c, cnot(l.c)))
                    return
                if l is ABSENT:
                    return
                t = self.tyof(st, l)
                if t is None or t == "str" or (none_ok and t == "NoneType"):
                    return
                cc = st.simp(c)
                if cc is not False:
                    self.maybe_raise(st, cc, "TypeError", "cannot serialize %s of type %s" % (what, t))
            f(x, g)
        rec(root, True)

    def et_snapshot(self, st, root, node):
        return self.deepcopy(st, root, ("etsnap", id(node)), freeze=True)

    def m_ettree(self, st, v, o, name, args, kwargs, node):
        if name == "write":
            path = args[0] if args else kwargs.get("file_or_filename", kwargs.get("file", TOP))
            enc = args[1] if len(args) > 1 else kwargs.get("encoding", NONE)
            decl = args[2] if len(args) > 2 else kwargs.get("xml_declaration", NONE)
            root = st.res(o.slots["root"])
            # the file is opened before serialisation
            p = st.res(path)
            if isinstance(p, Ref) and st.get(p.addr).kind == "file":
                self.et_check(st, root)
                snap = self.et_snapshot(st, root, node)
                self.write(st, p.addr).items.append(Item(App("xml", (snap, enc, decl), "str")))
                return NONE
            snap = self.et_snapshot(st, root, node) if isinstance(root, Ref) else root
            self.world(st, "xmlwrite", path, snap, enc, decl)
            if isinstance(root, Ref):
                self.et_check(st, root)
            return NONE
        if name == "getroot":
            return o.slots["root"]
        if name in ("iter", "find", "findall"):
            return self.call_method(st, st.res(o.slots["root"]), name, args, kwargs, node)
        return self.opaque_call(st, "ElementTree." + name, [v] + args, kwargs)

    # files -----------------------------------------------------------
    def m_file(self, st, v, o, name, args, kwargs, node):
        if name == "write":
            if o.slots.get("closed") == TRUE:
                self.raise_(st, "ValueError", "I/O operation on closed file")
            for l in leaves(st.res(args[0])):
                t = self.tyof(st, l)
                if t is not None and t not in ("str", "bytes"):
                    self.raise_(st, "TypeError", "write() argument must be str, not %s" % t)
            self.append_item(st, v.addr, args[0])
            return NONE
        if name == "writelines":
            its = self.items_of(st, args[0], consume=True)
            self.write(st, v.addr).items.extend(its)
            return NONE
        if name == "close":
            self.write(st, v.addr).slots["closed"] = TRUE
            return NONE
        if name in ("flush", "fileno", "__enter__"):
            return v if name == "__enter__" else NONE
        if name == "getvalue":
            its = o.items
            if all(i.guard is True and not i.many for i in its):
                return self.cat(st, [i.v for i in its])
            return App("filecontent", (v,), "str")
        return self.opaque_call(st, "file." + name, [v] + args, kwargs)

    def m_csvw(self, st, v, o, name, args, kwargs, node):
        f = o.slots["file"]
        d = o.meta["opts"]
        if name in ("writerow", "writerows", "writeheader"):
            fields = o.slots.get("fields")
            if name == "writeheader":
                self.append_item(st, st.res(f).addr, App("csvrow", tuple(i.v for i in self.items_of(st, fields)) + (Const(d),), "str"))
                return NONE

            def row(s, x):
                if fields is not None:
                    vals = []
                    for fi in self.items_of(s, fields):
                        vals.append(self.call_method(s, s.res(x), "get", [fi.v, Const("")], {}, node))
                else:
                    vals = [i.v for i in self.items_of(s, x, consume=True)]
                self.append_item(s, s.res(f).addr, App("csvrow", tuple(vals) + (Const(d),), "str"))
                return NONE
            if name == "writerow":
                row(st, args[0])
            else:
                its = self.items_of(st, args[0], consume=True)

                def body(q, x):
                    row(q, x)
                    return Leaf("N", q)
                out = self.run_loop(st, its, body, node)
                st.become(merge_kind(out, "N")[0])
            return NONE
        return self.opaque_call(st, "csv." + name, [v] + args, kwargs)

    # networkx --------------------------------------------------------
    def m_graph(self, st, v, o, name, args, kwargs, node):
        nd, ed = o.slots["nodes"], o.slots["edges"]
        if name == "add_node":
            def f(s, k):
                self.ensure_node(s, v, k, node)
                r = self.getitem(s, nd, k, node)
                for a, x in kwargs.items():
                    self.setitem(s, r, Const(a), x)
                return NONE
            return self.lift(st, args[0], f)
        if name == "add_edge":
            def f(s, u):
                def g(s2, w):
                    self.ensure_node(s2, v, u, node)
                    self.ensure_node(s2, v, w, node)
                    k = self.edge_key(u, w)
                    c = self.dict_has(s2, ed.addr, k)
                    if c is not True:
                        d = self.alloc(s2, Obj("dict", {}, None, {"endpoints": (u, w)}), ("edge", id(node), repr(k)))
                        if c is False:
                            self.dict_set(s2, ed.addr, k, d)
                        else:
                            old = s2.res(self.dict_lookup(s2, ed.addr, k))
                            self.dict_set(s2, ed.addr, k, pmap(old, lambda q: d if q is ABSENT else q))
                    r = self.getitem(s2, ed, k, node)
                    for a, x in kwargs.items():
                        self.setitem(s2, r, Const(a), x)
                    return NONE
                return self.lift(s, args[1], g)
            return self.lift(st, args[0], f)
        if name in ("nodes", "node"):
            data = args[0] if args else kwargs.get("data", FALSE)
            data = st.res(data)
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            its = self.dict_items(st, nd.addr, 2)
            out = []
            for i in its:
                k, dv = i.v.items
                if isinstance(data, Const) and data.v is False:
                    val = k
                elif isinstance(data, Const) and data.v is True:
                    val = Tup((k, dv))
                else:
                    x = st.res(self.dict_lookup(st, dv.addr, data))
                    val = Tup((k, pmap(x, lambda q: dflt if q is ABSENT else q)))
                out.append(Item(val, i.guard, i.many))
            return self.alloc(st, Obj("list", {}, out, {"extra": True, "nodeview": v.addr}), ("nodes", id(node)))
        if name == "edges":
            if args and not isinstance(st.res(args[0]), Const):
                return self.unk("edges(nbunch)")
            data = st.res(args[0] if args else kwargs.get("data", FALSE))
            if "nbunch" in kwargs:
                return self.unk("edges(nbunch)")
            dd = data.v if isinstance(data, Const) and isinstance(data.v, bool) else (data, kwargs.get("default", NONE))
            if isinstance(data, Const) and data.v is None:
                dd = False
            its = self.edge_items(st, v, dd)
            return self.alloc(st, Obj("list", {}, its, {"extra": True, "edgeview": v.addr}), ("edges", id(node)))
        if name in ("has_node", "__contains__"):
            return self.boolv(self.dict_has(st, nd.addr, args[0]))
        if name == "has_edge":
            def f(s, u):
                return self.lift(s, args[1], lambda s2, w: self.boolv(self.dict_has(s2, ed.addr, self.edge_key(u, w))))
            return self.lift(st, args[0], f)
        if name == "get_edge_data":
            def f(s, u):
                def g(s2, w):
                    r = s2.res(self.dict_lookup(s2, ed.addr, self.edge_key(u, w)))
                    return pmap(r, lambda q: kwargs.get("default", NONE) if q is ABSENT else q)
                return self.lift(s, args[1], g)
            return self.lift(st, args[0], f)
        if name == "remove_node":
            def f(s, k):
                c = self.dict_has(s, nd.addr, k)
                self.maybe_raise(s, cnot(c), "KeyError", k)
                self.delitem(s, nd, k, node)
                for ek in list(s.get(ed.addr).slots):
                    cc = cor(self.eq(s, ek.args[0], k), self.eq(s, ek.args[1], k))
                    if cc is True:
                        self.write(s, ed.addr, ek).slots.pop(ek)
                    elif cc is not False:
                        w = self.write(s, ed.addr, ek)
                        w.slots[ek] = phi(cc, ABSENT, w.slots[ek])
                return NONE
            return self.lift(st, args[0], f)
        if name == "remove_edge":
            def f(s, u):
                def g(s2, w):
                    self.delitem(s2, ed, self.edge_key(u, w), node)
                    return NONE
                return self.lift(s, args[1], g)
            return self.lift(st, args[0], f)
        if name in ("number_of_nodes", "order", "__len__"):
            return self.len_(st, nd)
        if name in ("number_of_edges", "size"):
            return self.len_(st, ed)
        if name == "degree":
            if args and not (isinstance(st.res(args[0]), Const) and st.res(args[0]).v is None):
                a = st.res(args[0])
                if not isinstance(a, Ref):
                    return self.degree_of(st, v, a)
                its = self.items_of(st, a, consume=True)
                return self.alloc(st, Obj("dict", {i.v: phi(i.guard, self.degree_of(st, v, i.v), ABSENT) for i in its},
                                          None, {"degview": True}), ("deg", id(node)))
            its = self.dict_items(st, nd.addr, 0)
            return self.alloc(st, Obj("dict", {i.v: phi(i.guard, self.degree_of(st, v, i.v), ABSENT) for i in its},
                                      None, {"degview": True}), ("deg", id(node)))
        if name in ("add_nodes_from", "add_edges_from", "remove_nodes_from", "remove_edges_from"):
            its = self.items_of(st, args[0], consume=True)
            m = {"add_nodes_from": "add_node", "add_edges_from": "add_edge", "remove_nodes_from": "remove_node",
                 "remove_edges_from": "remove_edge"}[name]
            for i in its:
                x = st.res(i.v)
                if m in ("add_edge", "remove_edge"):
                    if not isinstance(x, Tup):
                        return self.unk(name)
                    kw = dict(kwargs)
                    if len(x.items) > 2 and isinstance(x.items[2], Ref):
                        for a, b in st.get(x.items[2].addr).slots.items():
                            kw[a.v] = b
                    self.m_graph(st, v, st.get(v.addr), m, list(x.items[:2]), kw, node)
                elif isinstance(x, Tup) and m == "add_node":
                    kw = {a.v: b for a, b in st.get(x.items[1].addr).slots.items()}
                    self.m_graph(st, v, st.get(v.addr), m, [x.items[0]], kw, node)
                else:
                    self.m_graph(st, v, st.get(v.addr), m, [x], kwargs if m == "add_node" else {}, node)
            return NONE
        if name == "clear":
            self.write(st, nd.addr).slots.clear()
            self.write(st, ed.addr).slots.clear()
            return NONE
        if name == "neighbors":
            def f(s, k):
                its = []
                for i in self.dict_items(s, ed.addr, 0):
                    u, w = i.v.args
                    for a, b in ((u, w), (w, u)):
                        g = s.simp(cand(i.guard, self.eq(s, a, k)))
                        if g is not False:
                            its.append(Item(b, g, i.many))
                return self.alloc(s, Obj("list", {}, its), ("nbr", id(node), repr(k)))
            return self.lift(st, args[0], f)
        if name in ("adjacency", "successors", "predecessors"):
            return self.unk("neighbors")
        if name == "copy":
            def cp(addr, tag):
                d = {}
                for k, x in st.get(addr).slots.items():
                    def one(q, k=k):
                        if q is ABSENT or not isinstance(q, Ref):
                            return q
                        return self.alloc(st, Obj("dict", dict(st.get(q.addr).slots), None,
                                                  dict(st.get(q.addr).meta or {})), (tag, id(node), repr(k), q.addr))
                    d[k] = pmap(st.res(x), one)
                return self.alloc(st, Obj("dict", d), (tag, id(node)))
            return self.alloc(st, Obj("graph", {"nodes": cp(nd.addr, "cpn"), "edges": cp(ed.addr, "cpe")}, None,
                                      dict(o.meta or {})), ("gcopy", id(node)))
        if name == "subgraph":
            its = self.items_of(st, args[0], consume=True)
            if its is None:
                return self.unk("subgraph")

            def inside(k):
                c = False
                for i in its:
                    c = cor(c, cand(i.guard, self.eq(st, i.v, k)))
                return st.simp(c)
            ns = {k: phi(inside(k), x, ABSENT) for k, x in st.get(nd.addr).slots.items()}
            es = {k: phi(cand(inside(k.args[0]), inside(k.args[1])), x, ABSENT) for k, x in st.get(ed.addr).slots.items()}
            sub = {"nodes": self.alloc(st, Obj("dict", {k: x for k, x in ns.items() if x is not ABSENT}), ("sn", id(node))),
                   "edges": self.alloc(st, Obj("dict", {k: x for k, x in es.items() if x is not ABSENT}), ("se", id(node)))}
            return self.alloc(st, Obj("graph", sub, None, dict(o.meta or {})), ("sub", id(node)))
        return self.opaque_call(st, "Graph." + name, [v] + args, kwargs)

    def ensure_node(self, st, g, k, node):
        nd = st.get(g.addr).slots["nodes"]
        if k is TOP or contains_unknown(k):
            self.note("node with unknown id")
            if k is TOP:
                return
        c = self.dict_has(st, nd.addr, k)
        if c is True:
            return
        d = self.alloc(st, Obj("dict", {}), ("node", id(node), repr(k)))
        if c is False:
            self.dict_set(st, nd.addr, k, d)
        else:
            old = st.res(self.dict_lookup(st, nd.addr, k))
            self.dict_set(st, nd.addr, k, pmap(old, lambda q: d if q is ABSENT else q))

    # data frames ------------------------------------------------------
    def m_df(self, st, v, o, name, args, kwargs, node):
        if name == "fillna":
            a = st.res(args[0]) if args else st.res(kwargs.get("value", NONE))
            n = o.clone()
            n.meta = dict(o.meta, fill=a)
            return self.alloc(st, n, ("fillna", id(node)))
        if name == "to_dict":
            orient = st.res(args[0] if args else kwargs.get("orient", Const("dict")))
            if orient == Const("index") and o.meta.get("index"):
                fill = o.meta.get("fill")
                d = self.alloc(st, Obj("dict", {}), ("df", id(node)))
                for rk, cells in o.meta["rows"]:
                    row = {}
                    for c, x in cells:
                        if fill is not None:
                            x = pmap(x, lambda q: fill if q is ABSENT else q)
                        else:
                            x = pmap(x, lambda q: App("nan", (), "float") if q is ABSENT else q)
                        row[Const(c)] = x
                    r = self.alloc(st, Obj("dict", row), ("dfrow", id(node), repr(rk)))
                    st.mut(d.addr).slots[rk] = r
                return d
        if name in ("astype", "copy"):
            if name == "astype" and not (o.meta.get("text") and args and self.is_str_type(st, args[0])):
                self.note("DataFrame.astype")
            return v
        return self.opaque_call(st, "DataFrame." + name, [v] + args, kwargs)

    # drawing ----------------------------------------------------------
    def m_dot(self, st, v, o, name, args, kwargs, node):
        if name in ("add_node", "add_edge"):
            self.append_item(st, v.addr, Tup((Const(name), args[0])))
            return NONE
        if name.startswith("write"):
            fm = name[6:] or kwargs.get("format", args[2] if len(args) > 2 else Const("raw"))
            self.world(st, "dotwrite", args[0] if args else kwargs.get("path", TOP), v,
                       Const(fm) if isinstance(fm, str) else fm)
            return TRUE
        if name.startswith("set"):
            return NONE
        if name in ("get_node", "get_edge", "get_node_list", "get_nodes", "get_edge_list", "get_edges") and \
                (not args or not isinstance(st.res(args[0]), (Ref, Tup))):
            want = "add_node" if "node" in name else "add_edge"
            keys = ("name",) if want == "add_node" else ("src", "dst")
            out = []
            for i in o.items:
                x = st.res(i.v)
                if not isinstance(x, Tup) or not isinstance(st.res(x.items[1]), Ref):
                    self.note("elements of a drawing")
                    continue
                if x.items[0] != Const(want):
                    continue
                if i.many and args:
                    self.note("search among the elements drawn by an unbounded loop")
                g = i.guard
                for k, a in zip(keys, args):
                    g = cand(g, self.eq(st, a, st.get(st.res(x.items[1]).addr).slots.get(k, NONE)))
                if st.simp(g) is not False:
                    out.append(Item(x.items[1], g, i.many, i.unord))
            return self.alloc(st, Obj("list", {}, out), ("dotget", id(node)))
        return self.opaque_call(st, "Dot." + name, [v] + args, kwargs)

    def m_exc(self, st, v, o, name, args, kwargs, node):
        if name == "with_traceback":
            return v
        return App("call", (name, v), "str")

    # ================================================================ deepcopy
    def deepcopy(self, st, v, site, freeze=False, memo=None, shallow=False):
        memo = {} if memo is None else memo

        def cp(x):
            if isinstance(x, Phi):
                return phi(x.c, cp(x.a), cp(x.b))
            if isinstance(x, Tup):
                return Tup([cp(i) for i in x.items])
            if isinstance(x, Ref):
                o = st.heap.get(x.addr)
                if o is None or o.kind in ("cls", "mod", "dom", "frame"):
                    return x
                if x.addr in memo:
                    return memo[x.addr]
                n = Obj(o.kind, {}, None, o.meta)
                if o.meta and "view" in o.meta:
                    n.meta = {"extra": True}
                r = self.alloc(st, n, site + (x.addr,))
                memo[x.addr] = r
                slots = {k: cp(y) for k, y in o.slots.items()}
                items = None if o.items is None else [Item(cp(i.v), i.guard, i.many, i.unord) for i in o.items]
                nn = st.mut(r.addr)
                nn.slots = slots
                nn.items = items
                nn.uslots = None if o.uslots is None else dict(o.uslots)
                return r
            return x
        return cp(st.res(v))

    # ================================================================ library attributes
    def lib_attr(self, st, v, name):
        p = v.path
        if p in MODCONST and hasattr(MODCONST[p], name):
            x = getattr(MODCONST[p], name)
            if p == "re" and isinstance(x, int):
                return Const(int(x))
            if isinstance(x, (str, int, float)):
                return Const(x)
        if p in ("os", "os.path") and name in ("sep", "linesep", "curdir", "pardir", "altsep"):
            import os
            return Const(getattr(os, name))
        if p == "sys":
            if name == "version_info":
                return Tup([Const(3), Const(6), Const(8)])
            if name == "maxsize":
                return Const(2 ** 63 - 1)
        if p == "xml.dom" and name == "Node":
            return LibV("xml.dom.Node")
        if p in ("xml.dom.Node", "xml.dom.minidom.Node") and name in DOMCONST:
            return Const(DOMCONST[name])
        if p == "six" and name in ("PY2", "PY3"):
            return Const(name == "PY3")
        if p == "six" and name == "string_types":
            return Tup([LibV("builtins.str")])
        if p == "re" and name.isupper():
            import re
            if hasattr(re, name):
                return Const(int(getattr(re, name)))
        return LibV(p + "." + name)

    # ================================================================ library calls
    ET = ("xml.etree.cElementTree.", "xml.etree.ElementTree.")

    def call_lib(self, st, path, args, kwargs, node):
        for e in self.ET:
            if path.startswith(e):
                return self.et_lib(st, path[len(e):], args, kwargs, node)
        if path.startswith("builtins."):
            nm = path[9:]
            f = getattr(self, "b_" + nm, None)
            if f is not None:
                return f(st, args, kwargs, node)
            if self.is_exc_lib(LibV(path)):
                o = Obj("exc", {"args": Tup(args)}, None, {"cls": LibV(path), "loc": self.loc})
                if args and nm in ("OSError", "IOError", "EnvironmentError") and len(args) > 1:
                    o.slots["errno"] = args[0]
                return self.alloc(st, o, ("exc", nm, id(node)))
            if "." in nm:
                # unbound method such as str.lower, dict.fromkeys, list.append
                t, meth = nm.split(".", 1)
                if t == "dict" and meth == "fromkeys":
                    d = self.new_dict(st, {}, ("dfk", id(node)))
                    return self.m_dict(st, d, st.get(d.addr), "fromkeys", args, kwargs, node)
                if t in ("str", "list", "dict", "set", "object") and args:
                    if meth == "__init__":
                        return NONE
                    return self.lift(st, args[0], lambda s, x: self.call_method(s, x, meth, list(args[1:]), kwargs,
                                                                                node))
            return self.opaque_call(st, path, args, kwargs)
        f = getattr(self, "l_" + path.replace(".", "_"), None)
        if f is not None:
            return f(st, args, kwargs, node)
        for pre, fn in self.PREFIX:
            if path.startswith(pre):
                return getattr(self, fn)(st, path, args, kwargs, node)
        if self.is_exc_lib(LibV(path)):
            o = Obj("exc", {"args": Tup(args)}, None, {"cls": LibV(path), "loc": self.loc})
            return self.alloc(st, o, ("exc", path, id(node)))
        return self.opaque_call(st, path, args, kwargs)

    PREFIX = [("math.", "p_math"), ("operator.", "p_operator"), ("itertools.", "p_itertools"), ("re.", "p_re"),
              ("matplotlib.", "p_draw"), ("networkx.draw", "p_draw"), ("time.", "p_time"), ("datetime.", "p_time"),
              ("random.", "p_time"), ("logging.", "p_log"), ("warnings.", "p_log"), ("os.", "p_os"),
              ("shutil.", "p_os"), ("typing.", "p_typing")]

    def p_typing(self, st, path, args, kwargs, node):
        if path == "typing.cast":
            return args[1]
        return LibV(path)

    def p_log(self, st, path, args, kwargs, node):
        if path.endswith("getLogger"):
            return LibV("logging.logger")
        return NONE

    def p_time(self, st, path, args, kwargs, node):
        self.uid += 1
        return App("nondet", (path, self.ctx), None)

    def p_os(self, st, path, args, kwargs, node):
        if path in ("os.getcwd",):
            return Tok("cwd", nonempty=True)
        if path.startswith("os.path."):
            a = [st.res(x) for x in args]
            fn = path[8:]
            if fn in ("dirname", "basename", "normpath", "splitext", "split", "isabs", "commonprefix", "normcase") and \
                    all(isinstance(x, Const) for x in a):
                import os
                r = getattr(os.path, fn)(*[x.v for x in a])
                return Tup([Const(x) for x in r]) if isinstance(r, tuple) else Const(r)
            return App(path, tuple(a for a in args if isinstance(a, V)), "str")
        self.world(st, "fs", Const(path), *args)
        self.note("file-system call " + path)
        return App("call", (path,))

    def p_draw(self, st, path, args, kwargs, node):
        vals = []
        for a in args:
            vals.append(a)
        kv = [Tup((Const(k), x)) for k, x in sorted(kwargs.items())]
        self.world(st, "draw", Const(path.split(".")[-1]), Tup(vals), Tup(kv))
        return App("drawn", (path,), "obj")

    def p_math(self, st, path, args, kwargs, node):
        a = [st.res(x) for x in args]
        if all(isinstance(x, Const) for x in a):
            try:
                return Const(getattr(_math, path[5:])(*[x.v for x in a]))
            except Exception as e:
                self.raise_(st, type(e).__name__, str(e))
        return App(path, a, "float" if path not in ("math.floor", "math.ceil") else "int")

    def p_operator(self, st, path, args, kwargs, node):
        nm = path[9:]
        if nm in ("itemgetter", "attrgetter", "methodcaller"):
            return App(nm, tuple(st.res(a) for a in args))
        m = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "floordiv": "floordiv", "mod": "mod"}
        if nm in m:
            return self.binop(st, m[nm], args[0], args[1], node)
        if nm == "eq":
            return self.boolv(self.eq(st, args[0], args[1]))
        if nm == "ne":
            return self.boolv(cnot(self.eq(st, args[0], args[1])))
        if nm in ("lt", "le", "gt", "ge"):
            return self.boolv(self.order_cmp(st, nm, args[0], args[1]))
        if nm == "getitem":
            return self.getitem(st, args[0], args[1], node)
        if nm == "contains":
            return self.boolv(self.contains(st, args[0], args[1]))
        if nm == "setitem":
            self.setitem(st, *args)
            return NONE
        return self.opaque_call(st, path, args, kwargs)

    def p_itertools(self, st, path, args, kwargs, node):
        nm = path[10:]
        if nm in ("chain", "chain.from_iterable"):
            its = []
            src = args
            if nm != "chain":
                src = [i.v for i in self.items_of(st, args[0], consume=True)]
            for a in src:
                its.extend(self.items_of(st, a, consume=True))
            return self.alloc(st, Obj("iter", {}, its), ("chain", id(node)))
        if nm == "islice":
            l = self.new_list(st, self.items_of(st, args[0], consume=True), ("islice", id(node)))
            b = args[1:] if len(args) > 2 else [NONE] + list(args[1:])
            b = list(b) + [NONE] * (3 - len(b))
            r = self.getslice(st, l, App("slice", tuple(st.res(x) for x in b)), node)
            return self.alloc(st, Obj("iter", {}, list(st.get(r.addr).items)), ("islice2", id(node)))
        if nm == "count":
            return self.unk("itertools.count")
        if nm in ("takewhile", "dropwhile", "filterfalse"):
            if nm == "filterfalse":
                return self.filter_(st, args[0], args[1], node, True)
            its = self.items_of(st, args[1], consume=True)
            if not self.plain(st, its):
                return self.unk(nm)
            k = 0
            while k < len(its):
                c = st.simp(self.truth(st, self.call(st, args[0], [its[k].v], {}, node)))
                if c not in (True, False):
                    return self.unk(nm)
                if not c:
                    break
                k += 1
            return self.alloc(st, Obj("iter", {}, its[:k] if nm == "takewhile" else its[k:]), (nm, id(node)))
        if nm == "pairwise":
            its = self.items_of(st, args[0], consume=True)
            return self.b_zip(st, [self.new_list(st, its, ("pw1", id(node))), self.new_list(st, its[1:], ("pw2", id(node)))], {}, node)
        if nm in ("accumulate", "combinations", "product", "permutations", "zip_longest"):
            ls = [self.items_of(st, a, consume=True) for a in (args[:1] if nm in ("accumulate", "combinations", "permutations") else args)]
            if not all(self.plain(st, l) for l in ls):
                return self.unk(nm)
            vs = [[i.v for i in l] for l in ls]
            out = []
            if nm == "accumulate":
                f = args[1] if len(args) > 1 else kwargs.get("func", NONE)
                acc = st.res(kwargs.get("initial", NONE))
                seq = ([acc] if acc != NONE else []) + vs[0]
                for k, v in enumerate(seq):
                    if k == 0:
                        acc = v
                    elif st.res(f) == NONE:
                        acc = self.binop(st, "add", acc, v, node)
                    else:
                        acc = self.call(st, f, [acc, v], {}, node)
                    out.append(acc)
            elif nm == "zip_longest":
                fill = kwargs.get("fillvalue", NONE)
                out = [Tup(t) for t in _itertools.zip_longest(*vs, fillvalue=fill)]
            elif nm == "product":
                rep = st.res(kwargs.get("repeat", Const(1)))
                if not isinstance(rep, Const):
                    return self.unk(nm)
                out = [Tup(t) for t in _itertools.product(*vs, repeat=rep.v)]
            else:
                r = st.res(args[1] if len(args) > 1 else kwargs.get("r", NONE))
                if not isinstance(r, Const):
                    return self.unk(nm)
                out = [Tup(t) for t in getattr(_itertools, nm)(vs[0], *([] if r == NONE else [r.v]))]
            return self.alloc(st, Obj("iter", {}, [Item(v) for v in out]), (nm, id(node)))
        return self.opaque_call(st, path, args, kwargs)

    def p_re(self, st, path, args, kwargs, node):
        nm = path[3:]
        a = [st.res(x) for x in args]
        kwargs = {k: st.res(x) for k, x in kwargs.items()}
        if nm in ("compile", "match", "search", "fullmatch", "findall", "finditer") and "flags" in kwargs:
            a = a + [kwargs.pop("flags")]
        if nm == "compile" and isinstance(a[0], Const):
            return PyObj(self.recache(a[0].v, a[1].v if len(a) > 1 and isinstance(a[1], Const) else 0))
        if a and isinstance(a[0], PyObj):
            return self.call_method(st, a[0], nm, a[1:], kwargs, node)
        for i, x in enumerate(a):
            if isinstance(x, Phi):
                return self.branch(st, x.c, lambda s: self.p_re(s, path, a[:i] + [x.a] + a[i + 1:], kwargs, node),
                                   lambda s: self.p_re(s, path, a[:i] + [x.b] + a[i + 1:], kwargs, node))
        if all(isinstance(x, Const) for x in a):
            try:
                r = getattr(_re, nm)(*[x.v for x in a])
                if nm == "finditer":
                    r = list(r)
            except Exception as e:
                self.raise_(st, type(e).__name__, str(e))
            return self.wrap_py(st, r, node)
        if nm in ("match", "search", "fullmatch") and isinstance(a[0], Const) and len(a) >= 2:
            flags = a[2].v if len(a) > 2 and isinstance(a[2], Const) else 0 if len(a) == 2 else None
            if flags is None:
                return self.unk("re flags")
            m = _re.match(r"^(\(\?i\))?\^?([A-Za-z0-9 ]+)$", a[0].v)
            if nm == "match" and m and flags in (0, int(_re.I)) and self.tyof(st, a[1]) == "str":
                # a literal at the start of the text
                x, lit = a[1], m.group(2)
                if flags or m.group(1):
                    x, lit = self.str_method(st, x, "lower", [], {}, node), lit.lower()
                c = self.truth(st, self.str_method(st, x, "startswith", [Const(lit)], {}, node))
            else:
                c = st.simp(CAtom(App("re." + nm, tuple(a))))
            return phi(c, App("rematch", (Const(nm),) + tuple(a), "obj"), NONE)
        if nm == "escape":
            return App("re.escape", tuple(a), "str")
        if nm in ("sub", "subn"):
            return App("re.sub", tuple(x for x in a if isinstance(x, V)), "str")
        return self.unk("re." + nm)

    _recache = {}

    def recache(self, p, f):
        k = (p, f)
        if k not in self._recache:
            self._recache[k] = _re.compile(p, f)
        return self._recache[k]

    # ---- uuid / copy / os / csv / pandas / misc
    def l_uuid_uuid4(self, st, args, kwargs, node):
        nm = "uuid%d" % self.child_ctx("uuid", id(node))
        seg = None
        if self.active:
            seg = sorted(self.active)[-1]
        self.world(st, "uuid", Const(nm))
        return Tok(nm, "uuid", True, "uuid", seg)

    def l_uuid_uuid1(self, st, args, kwargs, node):
        return Tok("u1uuid_%d" % self.child_ctx("uuid", id(node)), "uuid1", True, None, None)

    # derived from names or from the clock: an identifier, but not a random one
    l_uuid_uuid3 = l_uuid_uuid5 = l_uuid_uuid1

    def l_copy_deepcopy(self, st, args, kwargs, node):
        return self.deepcopy(st, args[0], ("deepcopy", id(node)))

    def l_copy_copy(self, st, args, kwargs, node):
        def f(s, x):
            if isinstance(x, Ref):
                o = s.get(x.addr)
                if o.kind in ("cls", "mod", "dom"):
                    return x
                n = o.clone()
                n.region = "fresh"
                return self.alloc(s, n, ("copy", id(node), x.addr))
            return x
        return self.lift(st, args[0], f)

    def l_os_makedirs(self, st, args, kwargs, node):
        p = args[0] if args else kwargs.get("name", TOP)
        self.world(st, "makedirs", p)
        ok = self.truth(st, kwargs.get("exist_ok", args[2] if len(args) > 2 else FALSE))
        c = CAtom(App("direxists", (st.res(p),)))
        cc = st.simp(cand(c, cnot(ok)))
        self.os_raise(st, cc, Const(_errno.EEXIST), "FileExistsError")
        self.os_raise(st, CAtom(App("mkdirfails", (st.res(p),))), Const(_errno.EACCES), "PermissionError")
        return NONE

    def l_os_mkdir(self, st, args, kwargs, node):
        p = args[0] if args else kwargs.get("path", TOP)
        self.world(st, "mkdir", p)
        self.os_raise(st, CAtom(App("direxists", (st.res(p),))), Const(_errno.EEXIST), "FileExistsError")
        self.os_raise(st, CAtom(App("noparent", (st.res(p),))), Const(_errno.ENOENT), "FileNotFoundError")
        self.os_raise(st, CAtom(App("mkdirfails", (st.res(p),))), Const(_errno.EACCES), "PermissionError")
        return NONE

    def os_raise(self, st, c, eno, cname):
        c = st.simp(c)
        if c is False:
            return
        s = st.fork(c if c is not True else None, True)
        e = self.exc(s, cname, "os error")
        s.mut(e.addr).slots["errno"] = eno
        if c is True:
            raise AbsRaise(Leaf("X", s, e))
        self.pend.append((c, Leaf("X", s, e)))
        cassume(st.asm, c, False)

    def l_os_path_join(self, st, args, kwargs, node):
        for i, a in enumerate(args):
            a = st.res(a)
            if isinstance(a, Phi):
                return self.branch(st, a.c,
                                   lambda s: self.l_os_path_join(s, args[:i] + [a.a] + args[i + 1:], kwargs, node),
                                   lambda s: self.l_os_path_join(s, args[:i] + [a.b] + args[i + 1:], kwargs, node))
        a = [st.res(x) for x in args]
        if all(isinstance(x, Const) for x in a):
            import os
            return Const(os.path.join(*[x.v for x in a]))
        flat = []
        for x in a:
            if isinstance(x, App) and x.op == "pathjoin":
                flat.extend(x.args)
            elif isinstance(x, Const) and x.v == "":
                continue
            else:
                flat.append(x)
        if len(flat) == 1 and a[-1] != Const(""):
            return flat[0]
        return App("pathjoin", flat, "str")

    def l_os_path_exists(self, st, args, kwargs, node):
        return self.boolv(st.simp(CAtom(App("direxists", (st.res(args[0]),)))))

    l_os_path_isdir = l_os_path_exists

    def l_os_path_isfile(self, st, args, kwargs, node):
        return self.boolv(st.simp(CAtom(App("isfile", (st.res(args[0]),)))))

    def l_csv_writer(self, st, args, kwargs, node):
        opts = ",".join("%s=%r" % (k, v) for k, v in sorted(kwargs.items()))
        return self.alloc(st, Obj("csvw", {"file": args[0]}, None, {"opts": opts}), ("csvw", id(node)))

    def l_csv_DictWriter(self, st, args, kwargs, node):
        kwargs = dict(kwargs)
        f = args[1] if len(args) > 1 else kwargs.pop("fieldnames", TOP)
        opts = ",".join("%s=%r" % (k, v) for k, v in sorted(kwargs.items()))
        return self.alloc(st, Obj("csvw", {"file": args[0], "fields": f}, None, {"opts": opts}), ("csvw", id(node)))

    # words that pandas reads as "not a number" by default
    NAWORDS = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A",
               "NA", "NULL", "NaN", "None", "n/a", "nan", "null"}

    def is_str_type(self, st, v):
        v = st.res(v)
        return v in (Const("str"), Const("object"), Const("string")) or (
            isinstance(v, LibV) and v.path.split(".")[-1] in ("str", "object", "text_type"))

    def l_pandas_read_csv(self, st, args, kwargs, node):
        """The rows of the scenario hold the text of each cell (ABSENT for an empty one); what pandas makes of the text
        depends on the options: without dtype=str a column of numbers is read as numbers, and unless told otherwise the
        words of NAWORDS are read as missing."""
        if self.csv_rows is None:
            return self.opaque_call(st, "pandas.read_csv", args, kwargs)
        idx = st.res(kwargs.get("index_col", NONE))
        extra = set(kwargs) - {"index_col", "dtype", "encoding", "sep", "skipinitialspace", "keep_default_na", "na_filter"}
        if extra or len(args) > 1:
            self.note("read_csv options %s" % sorted(extra))
        ok = idx in (Const(0), Const("Order"))
        filt = st.res(kwargs.get("na_filter", TRUE)) != FALSE
        words = filt and st.res(kwargs.get("keep_default_na", TRUE)) != FALSE
        text = "dtype" in kwargs and self.is_str_type(st, kwargs["dtype"])
        if "dtype" in kwargs and not text:
            self.note("read_csv dtype")
        rows = self.csv_rows
        numeric = set()
        if not text:
            for n in range(len(rows[0][1]) if rows else 0):
                cells = [l for r in rows for l in leaves(r[1][n][1])]
                if not any(isinstance(c, Const) for c in cells) and any(isinstance(c, (Tok, App)) for c in cells):
                    numeric.add(rows[0][1][n][0])
        out = []
        for rk, cells in rows:
            if not text and all(isinstance(r[0], Const) and r[0].v.strip().isdigit() for r in rows):
                rk = Const(int(rk.v))
            row = []
            for c, x in cells:
                def conv(q, c=c):
                    if q is ABSENT:
                        return q if words else Const("")
                    if isinstance(q, Const):
                        return ABSENT if words and q.v in self.NAWORDS else q
                    if c in numeric:
                        q = phi(CAtom(App("numbers", (Const(c),))), App("number", (q,), "float"), q)
                    if words:
                        q = phi(CAtom(App("naword", (q,))), ABSENT, q)
                    return q
                row.append((c, pmap(x, conv)))
            out.append((rk, row))
        if "skipinitialspace" in kwargs:
            self.note("skipinitialspace")
        return self.alloc(st, Obj("df", {}, None, {"index": ok, "rows": out, "text": text}), ("df", id(node)))

    def _csv_cells(self, rows):
        cols = ["Order"] + [c for c, _ in rows[0][1]]
        return cols, [[rk] + [pmap(x, lambda q: Const("") if q is ABSENT else q) for _, x in cells] for rk, cells in rows]

    def l_csv_DictReader(self, st, args, kwargs, node):
        if self.csv_rows is None:
            return self.opaque_call(st, "csv.DictReader", args, kwargs)
        if len(args) > 1 or kwargs:
            self.note("DictReader options")
        cols, rows = self._csv_cells(self.csv_rows)
        its = [Item(self.new_dict(st, {Const(c): x for c, x in zip(cols, r)}, ("csvd", id(node), n)))
               for n, r in enumerate(rows)]
        return self.alloc(st, Obj("iter", {}, its), ("csvit", id(node)))

    def l_csv_reader(self, st, args, kwargs, node):
        if self.csv_rows is None:
            return self.opaque_call(st, "csv.reader", args, kwargs)
        if len(args) > 1 or kwargs:
            self.note("csv.reader options")
        cols, rows = self._csv_cells(self.csv_rows)
        its = [Item(self.new_list(st, [Item(x) for x in r], ("csvl", id(node), n)))
               for n, r in enumerate([[Const(c) for c in cols]] + rows)]
        return self.alloc(st, Obj("iter", {}, its), ("csvit", id(node)))

    def l_xml_dom_minidom_parse(self, st, args, kwargs, node):
        if self.doc_root is None:
            return self.opaque_call(st, "minidom.parse", args, kwargs)
        return Ref(self.doc_root)

    l_xml_dom_minidom_parseString = l_xml_dom_minidom_parse

    def l_networkx_Graph(self, st, args, kwargs, node):
        if args or kwargs:
            self.note("Graph with arguments")
        nd = self.alloc(st, Obj("dict", {}), ("gnodes", id(node)))
        ed = self.alloc(st, Obj("dict", {}), ("gedges", id(node)))
        return self.alloc(st, Obj("graph", {"nodes": nd, "edges": ed}), ("graph", id(node)))

    def l_networkx_set_node_attributes(self, st, args, kwargs, node):
        self.note("set_node_attributes")
        return NONE

    def l_networkx_get_node_attributes(self, st, args, kwargs, node):
        g, name = st.res(args[0] if args else kwargs["G"]), args[1] if len(args) > 1 else kwargs["name"]
        if not isinstance(g, Ref) or st.get(g.addr).kind != "graph":
            return self.opaque_call(st, "networkx.get_node_attributes", args, kwargs)
        d = {}
        for i in self.dict_items(st, st.get(g.addr).slots["nodes"].addr, 2):
            k, dv = i.v.items
            d[k] = phi(i.guard, st.res(self.dict_lookup(st, dv.addr, name)), ABSENT)
        return self.alloc(st, Obj("dict", {k: x for k, x in d.items() if x is not ABSENT}), ("nattr", id(node)))

    def l_networkx_get_edge_attributes(self, st, args, kwargs, node):
        g, name = st.res(args[0] if args else kwargs["G"]), args[1] if len(args) > 1 else kwargs["name"]
        if not isinstance(g, Ref) or st.get(g.addr).kind != "graph":
            return self.opaque_call(st, "networkx.get_edge_attributes", args, kwargs)
        d = {}
        for i in self.edge_items(st, g, True):
            a, b, dv = i.v.items
            d[Tup((a, b))] = phi(i.guard, st.res(self.dict_lookup(st, dv.addr, name)), ABSENT)
        return self.alloc(st, Obj("dict", {k: x for k, x in d.items() if x is not ABSENT}), ("eattr", id(node)))

    def l_networkx_drawing_nx_pydot_write_dot(self, st, args, kwargs, node):
        g = args[0] if args else kwargs.get("G", TOP)
        self.world(st, "write_dot", g, args[1] if len(args) > 1 else kwargs.get("path", TOP))
        return NONE

    l_networkx_nx_pydot_write_dot = l_networkx_drawing_nx_pydot_write_dot
    l_networkx_drawing_nx_agraph_write_dot = l_networkx_drawing_nx_pydot_write_dot

    def l_pydotplus_Dot(self, st, args, kwargs, node):
        return self.alloc(st, Obj("dot", {}, []), ("dot", id(node)))

    def _dotel(self, st, kind, names, args, kwargs, node):
        d = dict(kwargs)
        for n, a in zip(names, args):
            d[n] = a
        return self.alloc(st, Obj("dotel", d, None, {"kind": kind}), ("dotel", id(node)))

    def l_pydotplus_Node(self, st, args, kwargs, node):
        return self._dotel(st, "node", ["name"], args, kwargs, node)

    def l_pydotplus_Edge(self, st, args, kwargs, node):
        return self._dotel(st, "edge", ["src", "dst"], args, kwargs, node)

    def l_collections_Counter(self, st, args, kwargs, node):
        r = self.alloc(st, Obj("dict", {}, None, {"counter": True}), ("counter", id(node)))
        if args:
            its = self.items_of(st, args[0], consume=True)
            for i in its:
                inc = Lin(0, {("N", i.many): 1}) if i.many else Const(1)
                def f(s, k):
                    old = s.res(self.dict_lookup(s, r.addr, k))
                    old = pmap(old, lambda q: Const(0) if q is ABSENT else q)
                    new = self.binop(s, "add", old, inc, node)
                    self.dict_set(s, r.addr, k, phi(s.simp(i.guard), new, self.dict_lookup(s, r.addr, k)), log=False)
                    return NONE
                self.lift(st, i.v, f)
        return r

    def l_collections_OrderedDict(self, st, args, kwargs, node):
        return self.b_dict(st, args, kwargs, node)

    def l_collections_defaultdict(self, st, args, kwargs, node):
        return self.alloc(st, Obj("dict", {}, None, {"default": args[0] if args else None, "extra": True}),
                          ("ddict", id(node)))

    def l_collections_deque(self, st, args, kwargs, node):
        r = self.b_list(st, args[:1], {}, node)
        st.mut(r.addr).meta = {"extra": True}
        return r

    def l_collections_namedtuple(self, st, args, kwargs, node):
        f = st.res(args[1]) if len(args) > 1 else st.res(kwargs.get("field_names", NONE))
        if isinstance(f, Const) and isinstance(f.v, str):
            names = tuple(f.v.replace(",", " ").split())
        else:
            vs = [st.res(x) for x in self.plain_items(st, f)] if isinstance(f, (Tup, Ref)) else []
            names = tuple(x.v for x in vs if isinstance(x, Const))
            if not vs or len(names) != len(vs):
                return self.unk("namedtuple fields")
        d = st.res(kwargs["defaults"]) if "defaults" in kwargs else None
        return App("namedtuple", (Const(names), Tup(self.plain_items(st, d) if d is not None else ())))

    def plain_items(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        o = st.get(v.addr)
        if o.kind != "list" or any(i.guard is not True or i.many for i in o.items):
            self.note("items of an unknown list")
            return []
        return [i.v for i in o.items]

    def l_dataclasses_field(self, st, args, kwargs, node):
        return self.unk("dataclass field")

    def l_functools_partial(self, st, args, kwargs, node):
        return Partial(args[0], args[1:], kwargs)

    def l_functools_reduce(self, st, args, kwargs, node):
        its = self.items_of(st, args[1], consume=True)
        if any(i.many or st.simp(i.guard) is not True for i in its):
            return self.unk("reduce over unbounded")
        vals = [i.v for i in its]
        acc = args[2] if len(args) > 2 else vals.pop(0)
        for x in vals:
            acc = self.call(st, args[0], [acc, x], {}, node)
        return acc

    def l_functools_lru_cache(self, st, args, kwargs, node):
        return App("identity_decorator", ())

    l_functools_wraps = l_functools_lru_cache

    def l_contextlib_suppress(self, st, args, kwargs, node):
        self.note("contextlib.suppress")
        return self.alloc(st, Obj("suppress", {}), ("suppress", id(node)))

    def l_io_open(self, st, args, kwargs, node):
        return self.b_open(st, args, kwargs, node)

    l_codecs_open = l_io_open

    def l_io_StringIO(self, st, args, kwargs, node):
        return self.alloc(st, Obj("file", {"path": NONE}, [Item(a) for a in args]), ("sio", id(node)))

    l_io_BytesIO = l_io_StringIO

    def l_types_SimpleNamespace(self, st, args, kwargs, node):
        self.note("SimpleNamespace")
        return TOP

    # ---- ElementTree functions
    def et_lib(self, st, name, args, kwargs, node):
        if name in ("Element", "SubElement"):
            args = list(args)
            parent = None
            kw = dict(kwargs)
            if name == "SubElement":
                parent = args.pop(0) if args else kw.pop("parent")
            tag = args.pop(0) if args else kw.pop("tag", TOP)
            attrib = args.pop(0) if args else kw.pop("attrib", None)
            slots = {"tag": tag, "text": NONE, "tail": NONE}
            if attrib is not None:
                a = st.res(attrib)
                if isinstance(a, Ref) and st.get(a.addr).kind == "dict":
                    for k, x in st.get(a.addr).slots.items():
                        if isinstance(k, Const):
                            slots[("a", k.v)] = x
                        else:
                            self.note("attribute with unknown name")
                else:
                    self.note("attrib of unknown")
            for k, x in kw.items():
                slots[("a", k)] = x
            r = self.alloc(st, Obj("et", slots, [], {"loc": self.loc}), ("et", id(node)))
            if parent is not None:
                def f(s, p):
                    if isinstance(p, Ref) and s.get(p.addr).kind == "et":
                        self.append_item(s, p.addr, r)
                    else:
                        self.raise_(s, "TypeError", "SubElement parent")
                    return NONE
                self.lift(st, parent, f)
            return r
        if name == "ElementTree":
            return self.alloc(st, Obj("ettree", {"root": args[0] if args else kwargs.get("element", NONE)}),
                              ("ettree", id(node)))
        if name == "tostring":
            root = st.res(args[0])
            self.et_check(st, root)
            snap = self.et_snapshot(st, root, node)
            return App("xml", (snap, args[1] if len(args) > 1 else kwargs.get("encoding", NONE),
                               kwargs.get("xml_declaration", NONE)), "str")
        if name == "indent":
            return NONE
        if name == "Comment":
            return self.alloc(st, Obj("et", {"tag": App("Comment", (), "str"), "text": args[0] if args else NONE,
                                             "tail": NONE}, [], {"loc": self.loc}), ("etc", id(node)))
        if name == "iselement":
            return self.boolv(isinstance(st.res(args[0]), Ref))
        if name == "register_namespace":
            return NONE
        return self.opaque_call(st, "ElementTree." + name, args, kwargs)

    # ---- builtins
    def b_len(self, st, args, kwargs, node):
        return self.len_(st, args[0])

    def b_print(self, st, args, kwargs, node):
        if "file" in kwargs:
            f = st.res(kwargs["file"])
            if isinstance(f, Ref) and st.get(f.addr).kind == "file":
                sep = kwargs.get("sep", Const(" "))
                end = kwargs.get("end", Const("\n"))
                parts = []
                for i, a in enumerate(args):
                    if i:
                        parts.append(sep)
                    parts.append(self.str_(st, a))
                self.append_item(st, f.addr, self.cat(st, parts + [end]))
                return NONE
        self.world(st, "print")
        return NONE

    def b_range(self, st, args, kwargs, node):
        a = [st.res(x) for x in args]
        for x in a:
            for l in leaves(x):
                t = self.tyof(st, l)
                if t is not None and t not in ("int", "bool"):
                    self.raise_(st, "TypeError", "range() needs integers, got %s" % t)
        if len(a) == 1:
            return App("range", (Const(0), a[0], Const(1)), "range")
        if len(a) == 2:
            return App("range", (a[0], a[1], Const(1)), "range")
        return App("range", tuple(a), "range")

    b_xrange = b_range

    def b_list(self, st, args, kwargs, node):
        its = self.items_of(st, args[0], consume=True) if args else []
        r = self.new_list(st, its, ("list()", id(node)))
        return r

    def b_tuple(self, st, args, kwargs, node):
        if not args:
            return Tup(())
        its = self.items_of(st, args[0], consume=True)
        if any(i.many or st.simp(i.guard) is not True for i in its):
            return self.new_list(st, its, ("tuple()", id(node)))
        return Tup([i.v for i in its])

    def b_set(self, st, args, kwargs, node):
        its = self.items_of(st, args[0], consume=True) if args else []
        return self.mkset(st, its, ("set()", id(node)))

    def b_frozenset(self, st, args, kwargs, node):
        r = self.b_set(st, args, kwargs, node)
        st.mut(r.addr).meta = dict(st.get(r.addr).meta, frozen=True)
        return r

    def b_dict(self, st, args, kwargs, node):
        r = self.alloc(st, Obj("dict", {}), ("dict()", id(node)))
        if args:
            a = st.res(args[0])
            if isinstance(a, Ref) and st.get(a.addr).kind == "dict":
                st.mut(r.addr).slots = dict(st.get(a.addr).slots)
            elif isinstance(a, LibM) and a.name in ("nodes", "node"):
                g = st.get(st.res(a.recv).addr)
                st.mut(r.addr).slots = dict(st.get(g.slots["nodes"].addr).slots)
            else:
                self.m_dict(st, r, st.get(r.addr), "update", [a], {}, node)
        for k, v in kwargs.items():
            self.dict_set(st, r.addr, Const(k), v, log=False)
        return r

    def b_str(self, st, args, kwargs, node):
        return self.str_(st, args[0]) if args else Const("")

    b_unicode = b_str

    def b_repr(self, st, args, kwargs, node):
        v = st.res(args[0])
        c = self.concrete(st, v)
        if c is not None:
            return Const(repr(c[0]))
        return App("repr", (v,), "str")

    def num(self, st, args, cast, ty):
        def f(s, v):
            if isinstance(v, Const):
                try:
                    return Const(cast(v.v))
                except Exception as e:
                    self.raise_(s, type(e).__name__, str(e))
            if isinstance(v, App) and v.op == "str" and s is not None and self.tyof(s, v.args[0]) in self.NUM:
                return self.num(s, [v.args[0]], cast, ty)
            t = self.tyof(s, v)
            if t == "int" or (t == "float" and ty == "float"):
                return v
            if t == "bool":
                return v
            if t in ("list", "dict", "tuple"):
                self.raise_(s, "TypeError", "%s() argument" % ty)
            if v is TOP:
                return App("unk", (ty,), ty)
            return App(ty, (v,), ty)
        return self.lift(st, args[0], f)

    def b_int(self, st, args, kwargs, node):
        return self.num(st, args, int, "int") if args else Const(0)

    def b_float(self, st, args, kwargs, node):
        return self.num(st, args, float, "float") if args else Const(0.0)

    def b_bool(self, st, args, kwargs, node):
        return self.boolv(self.truth(st, args[0])) if args else FALSE

    def b_isinstance(self, st, args, kwargs, node):
        return self.boolv(st.simp(self.isinstance_(st, args[0], args[1])))

    def b_issubclass(self, st, args, kwargs, node):
        a, b = st.res(args[0]), st.res(args[1])
        if isinstance(a, Ref):
            bs = b.items if isinstance(b, Tup) else (b,)
            return Const(any(x in self.mro(st, a) for x in bs))
        return self.unk("issubclass")

    def b_type(self, st, args, kwargs, node):
        def f(s, v):
            if isinstance(v, Ref):
                o = s.get(v.addr)
                if o.kind in ("inst", "exc"):
                    return o.meta["cls"]
                if o.kind in ("list", "dict", "set"):
                    return LibV("builtins." + o.kind)
            t = self.tyof(s, v)
            if t is not None:
                return LibV("builtins." + t)
            return self.unk("type()")
        return self.lift(st, args[0], f)

    def b_super(self, st, args, kwargs, node):
        if len(args) == 2:
            return SuperV(st.res(args[0]), args[1])
        return self.unk("super")

    def b_object(self, st, args, kwargs, node):
        return self.alloc(st, Obj("obj", {}), ("object", id(node)))

    def b_getattr(self, st, args, kwargs, node):
        n = st.res(args[1])
        if isinstance(n, Const):
            if len(args) > 2:
                saved, self.pend = self.pend, []
                try:
                    s = st.fork()
                    r = self.getattr_(s, args[0], n.v, node)
                    self.pend = saved
                    return self.getattr_(st, args[0], n.v, node)
                except AbsRaise:
                    self.pend = saved
                    return args[2]
            return self.getattr_(st, args[0], n.v, node)
        if isinstance(n, Phi):
            return self.branch(st, n.c, lambda s: self.b_getattr(s, [args[0], n.a] + list(args[2:]), kwargs, node),
                               lambda s: self.b_getattr(s, [args[0], n.b] + list(args[2:]), kwargs, node))
        return self.unk("getattr with unknown name")

    def b_hasattr(self, st, args, kwargs, node):
        n = st.res(args[1])
        if isinstance(n, Const):
            saved, self.pend = self.pend, []
            try:
                self.getattr_(st.fork(), args[0], n.v, node)
                return TRUE
            except AbsRaise:
                return FALSE
            finally:
                self.pend = saved
        return self.unk("hasattr")

    def b_setattr(self, st, args, kwargs, node):
        n = st.res(args[1])
        if isinstance(n, Const):
            self.setattr_(st, args[0], n.v, args[2])
        else:
            self.note("setattr with unknown name")
        return NONE

    def b_callable(self, st, args, kwargs, node):
        return Const(isinstance(st.res(args[0]), (Fn, Bound, LibV, LibM, Partial)))

    def b_id(self, st, args, kwargs, node):
        return App("nondet", ("id", args[0]), "int")

    def b_hash(self, st, args, kwargs, node):
        return App("nondet", ("hash", args[0]), "int")

    def b_iter(self, st, args, kwargs, node):
        v = st.res(args[0])
        if isinstance(v, Ref) and st.get(v.addr).kind == "iter":
            return v
        return self.alloc(st, Obj("iter", {}, self.items_of(st, v)), ("iter()", id(node)))

    def b_next(self, st, args, kwargs, node):
        v = st.res(args[0])
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.b_next(s, [v.a] + list(args[1:]), kwargs, node),
                               lambda s: self.b_next(s, [v.b] + list(args[1:]), kwargs, node))
        if not (isinstance(v, Ref) and st.get(v.addr).kind == "iter"):
            if isinstance(v, Ref) and st.get(v.addr).kind in ("list", "dict", "set"):
                self.raise_(st, "TypeError", "object is not an iterator")
            return self.unk("next")
        items = st.get(v.addr).items
        r = self.nth(st, items, 0)
        if items and items[0].guard is True and not items[0].many:
            st.mut(v.addr).items = list(items[1:])
        elif items:
            pass
        r = st.res(r)
        if items and items[0].unord and len(items) > 1:
            self.world(st, "setpop", Const("%s:%d" % self.loc), Const(len(items)))
        if len(args) > 1:
            return pmap(r, lambda q: args[1] if q is ABSENT else q)
        return self.strip_absent(st, r, "StopIteration", "")

    def sorted_(self, st, v, kwargs, node):
        its = self.items_of(st, v, consume=True)
        key = kwargs.get("key")
        rev = st.res(kwargs.get("reverse", FALSE))
        ks = []
        ok = isinstance(rev, Const)
        for i in its:
            if st.simp(i.guard) is not True or i.many:
                ok = False
                break
            k = st.res(self.call(st, key, [i.v], {}, node)) if key is not None and key != NONE else st.res(i.v)
            if isinstance(k, Const):
                ks.append(k.v)
            elif isinstance(k, Tup) and all(isinstance(x, Const) for x in k.items):
                ks.append(tuple(x.v for x in k.items))
            else:
                ok = False
                break
        if ok:
            try:
                order = sorted(range(len(its)), key=lambda n: ks[n], reverse=bool(rev.v))
                return self.new_list(st, [Item(its[n].v) for n in order], ("sorted", id(node)))
            except TypeError:
                self.raise_(st, "TypeError", "unorderable")
        # guarded constants: sort by key, keep guards
        if all(isinstance(st.res(i.v), Const) for i in its) and key is None and isinstance(rev, Const):
            try:
                order = sorted(its, key=lambda i: st.res(i.v).v, reverse=bool(rev.v))
                return self.new_list(st, [Item(i.v, i.guard, i.many) for i in order], ("sorted", id(node)))
            except TypeError:
                pass
        if self.set_order is not None:
            # distinct strings have one sorted order; equal keys keep the order they came in
            kk = [repr(st.res(self.call(st, key, [i.v], {}, node)) if key is not None and key != NONE else st.res(i.v)) for i in its]
            order = sorted(range(len(its)), key=lambda n: kk[n])
            return self.new_list(st, [Item(its[n].v, its[n].guard, its[n].many) for n in order], ("sorted", id(node)))
        mark = "sorted:%s:%d" % self.loc
        if len(its) < 2 and not any(i.many for i in its):
            mark = None
        # the keys are opaque: the result is some permutation, and the reverse order is a feasible one
        return self.new_list(st, [Item(i.v, i.guard, i.many, mark) for i in reversed(its)], ("sorted", id(node)))

    def b_sorted(self, st, args, kwargs, node):
        return self.sorted_(st, args[0], kwargs, node)

    def b_reversed(self, st, args, kwargs, node):
        its = self.items_of(st, args[0])
        return self.alloc(st, Obj("iter", {}, list(reversed(its))), ("reversed", id(node)))

    def b_enumerate(self, st, args, kwargs, node):
        its = self.items_of(st, args[0], consume=True)
        start = st.res(args[1] if len(args) > 1 else kwargs.get("start", Const(0)))
        out = []
        simple = all(st.simp(i.guard) is True and not i.many for i in its) and isinstance(start, Const)
        shape = self.shape_of(st, its)
        for n, i in enumerate(its):
            if simple:
                k = Const(n + start.v)
            elif any(j.many for j in its):
                k = Idx(n, shape if shape is not None else tuple(j.many for j in its))
                if start != Const(0):
                    k = self.binop(st, "add", k, start, node)
            else:
                k = App("unk", ("enumerate",), "int")
            out.append(Item(Tup((k, i.v)), i.guard, i.many, i.unord))
        return self.alloc(st, Obj("iter", {}, out), ("enum", id(node)))

    def b_zip(self, st, args, kwargs, node):
        ls = [self.items_of(st, a, consume=True) for a in args]
        if not ls:
            return self.alloc(st, Obj("iter", {}, []), ("zip", id(node)))
        shapes = [self.shape_of(st, l) for l in ls]
        n = min(len(l) for l in ls)
        out = []
        simple = all(all(not i.many and st.simp(i.guard) is True for i in l) for l in ls)
        if simple or (all(s is not None for s in shapes) and len(set(shapes)) == 1):
            for i in range(n):
                out.append(Item(Tup([l[i].v for l in ls]), True, ls[0][i].many))
        elif len({tuple((i.guard, i.many) for i in l) for l in ls}) == 1:
            for i in range(n):
                out.append(Item(Tup([l[i].v for l in ls]), ls[0][i].guard, ls[0][i].many))
        elif len(ls) == 2 and len(ls[0]) == len(ls[1]) + 1 and self.plain(st, ls[0][:1]) and \
                all(a.same(b) for a, b in zip(ls[0][1:], ls[1])):
            # neighbours of one sequence: zip(l, l[1:])
            for a, b in zip(ls[0], ls[1]):
                known = self.plain(st, [a, b])
                out.append(Item(Tup([a.v if known else App("unk", ("zip",), None), b.v]), b.guard, b.many))
        else:
            self.note("zip of different shapes")
        return self.alloc(st, Obj("iter", {}, out), ("zip", id(node)))

    def plain(self, st, its):
        return all(not i.many and not i.unord and st.simp(i.guard) is True for i in its)

    def filter_(self, st, fn, it, node, neg=False):
        its = self.items_of(st, it, consume=True)
        r = self.alloc(st, Obj("iter", {}, []), ("filter", id(node)))

        def body(q, v):
            x = v if fn == NONE else self.call(q, fn, [v], {}, node)
            c = self.truth(q, x)
            if neg:
                c = cnot(c)
            def yes(z):
                self.append_item(z, r.addr, v, log=False)
                return NONE
            self.branch(q, c, yes, lambda z: NONE)
            return Leaf("N", q)
        self.loop_into(st, its, body, node)
        return r

    def loop_into(self, st, its, body, node):
        out = self.run_loop(st, its, body, node if node is not None else body)
        m = merge_kind(out, "N")
        if m is None:
            raise AbsRaise(out)
        for pc, leaf in leaves_of(out):
            if leaf.k == "X":
                self.pend.append((pc, leaf))
        st.become(m[0])

    def b_filter(self, st, args, kwargs, node):
        return self.filter_(st, st.res(args[0]), args[1], node)

    def b_map(self, st, args, kwargs, node):
        r = self.alloc(st, Obj("iter", {}, []), ("map", id(node)))
        if len(args) == 2:
            its = self.items_of(st, args[1], consume=True)

            def body(q, v):
                self.append_item(q, r.addr, self.call(q, args[0], [v], {}, node), log=False)
                return Leaf("N", q)
        else:
            z = self.b_zip(st, args[1:], {}, node)
            its = self.items_of(st, z, consume=True)

            def body(q, v):
                self.append_item(q, r.addr, self.call(q, args[0], list(v.items), {}, node), log=False)
                return Leaf("N", q)
        self.loop_into(st, its, body, node)
        return r

    def b_sum(self, st, args, kwargs, node):
        acc = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
        for i in self.items_of(st, args[0], consume=True):
            v = i.v
            g = st.simp(i.guard)
            if g is False:
                continue
            if i.many:
                l = self.to_lin(st.res(v))
                if l is None:
                    if isinstance(st.res(v), Phi):
                        v = App("S", (Const(i.many), st.res(v)), "int")
                    else:
                        return self.unk("sum over segment")
                else:
                    t = {}
                    if l.c:
                        t[("N", i.many)] = l.c
                    for s_, q in l.terms:
                        t[("S", i.many, s_)] = q
                    v = self.unlin(Lin(0, t))
            new = self.binop(st, "add", acc, v, node)
            acc = phi(g, new, acc)
        return acc

    def b_any(self, st, args, kwargs, node):
        cs = []
        for i in self.items_of(st, args[0], consume=True):
            c = self.truth(st, i.v)
            if i.many and c is not True and c is not False:
                c = CAtom(App("some", (Const(i.many), c)))
            cs.append(cand(i.guard, c))
        return self.boolv(st.simp(cor(*cs)))

    def b_all(self, st, args, kwargs, node):
        cs = []
        for i in self.items_of(st, args[0], consume=True):
            c = self.truth(st, i.v)
            if i.many and c is not True and c is not False:
                c = cnot(CAtom(App("some", (Const(i.many), cnot(c)))))
            cs.append(cor(cnot(i.guard), c))
        return self.boolv(st.simp(cand(*cs)))

    def minmax(self, st, args, kwargs, node, which):
        if len(args) == 1:
            its = self.items_of(st, args[0], consume=True)
            if not its:
                if "default" in kwargs:
                    return kwargs["default"]
                self.raise_(st, "ValueError", "%s() arg is an empty sequence" % which)
            if any(i.many or st.simp(i.guard) is not True for i in its):
                return App("unk", (which,), None)
            vals = [i.v for i in its]
            if self.set_order is not None:
                vals = sorted((st.res(x) for x in vals), key=repr)
        else:
            vals = list(args)
        key = st.res(kwargs.get("key", NONE))
        if key != NONE:
            if len(args) == 1 and any(i.unord for i in its):
                return App("unk", (which,), None)
            acc, kacc = vals[0], self.call(st, key, [vals[0]], {}, node)
            for x in vals[1:]:
                kx = self.call(st, key, [x], {}, node)
                c = st.simp(self.order_cmp(st, "lt" if which == "min" else "gt", kx, kacc))
                acc, kacc = phi(c, x, acc), phi(c, kx, kacc)
            return acc
        acc = vals[0]
        for x in vals[1:]:
            c = self.order_cmp(st, "lt", x, acc) if which == "min" else self.order_cmp(st, "gt", x, acc)
            acc = phi(c, x, acc)
        return acc

    def b_min(self, st, args, kwargs, node):
        return self.minmax(st, args, kwargs, node, "min")

    def b_max(self, st, args, kwargs, node):
        return self.minmax(st, args, kwargs, node, "max")

    def b_abs(self, st, args, kwargs, node):
        v = st.res(args[0])
        return Const(abs(v.v)) if isinstance(v, Const) else App("abs", (v,), self.tyof(st, v))

    def b_round(self, st, args, kwargs, node):
        v = st.res(args[0])
        if isinstance(v, Const):
            return Const(round(v.v, *[st.res(a).v for a in args[1:]]))
        return App("round", (v,), "int")

    def b_divmod(self, st, args, kwargs, node):
        return Tup([self.binop(st, "floordiv", args[0], args[1], node), self.binop(st, "mod", args[0], args[1], node)])

    def b_ord(self, st, args, kwargs, node):
        v = st.res(args[0])
        return Const(ord(v.v)) if isinstance(v, Const) else App("ord", (v,), "int")

    def b_chr(self, st, args, kwargs, node):
        v = st.res(args[0])
        return Const(chr(v.v)) if isinstance(v, Const) else App("chr", (v,), "str")

    def b_vars(self, st, args, kwargs, node):
        return self.unk("vars")

    def b_open(self, st, args, kwargs, node):
        mode = args[1] if len(args) > 1 else kwargs.get("mode", Const("r"))
        path = args[0] if args else kwargs.get("file", TOP)
        f = self.alloc(st, Obj("file", {"path": path, "mode": mode}, [],
                               {"kw": tuple(sorted((k, repr(v)) for k, v in kwargs.items()))}), ("open", id(node)))
        self.world(st, "open", path, mode, f)
        return f

    def b_property(self, st, args, kwargs, node):
        return App("property", tuple(args), "property")

    def b_staticmethod(self, st, args, kwargs, node):
        v = st.res(args[0])
        return v.with_kind("static") if isinstance(v, Fn) else v

    def b_classmethod(self, st, args, kwargs, node):
        v = st.res(args[0])
        return v.with_kind("class") if isinstance(v, Fn) else v

    def b_format(self, st, args, kwargs, node):
        return self.str_(st, args[0])
