"""Abstract BPMN XML documents.

A document describes a *family* of files: every identifier, name, number and expression is an opaque token, every
optional attribute is present-or-absent (gated), and `many` children stand for any positive number of siblings of that
shape.  The same description is the oracle the analysed exporter is compared with.
"""
from .values import *
from .state import Obj, Item


def has(name):
    return CAtom(App("has", (Const(name),)))


def opt(name, v):
    """Attribute that the file may omit."""
    return Phi(has(name), v, ABSENT)


class El(object):
    """Element description. kids: list of El / text V / '#comment' / '#ws'."""

    def __init__(self, tag, attrs=None, kids=None, many=None, **kw):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.kids = list(kids or [])
        self.many = many
        self.__dict__.update(kw)

    def els(self, tag=None):
        return [k for k in self.kids if isinstance(k, El) and (tag is None or k.tag == tag)]

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, El):
                for x in k.walk():
                    yield x

    def text(self):
        for k in self.kids:
            if isinstance(k, V):
                return k
        return None


def prefix_of(tag, prefixes):
    if tag in ("BPMNDiagram", "BPMNPlane", "BPMNShape", "BPMNEdge", "BPMNLabel"):
        return prefixes[1]
    if tag == "Bounds":
        return prefixes[2]
    if tag == "waypoint":
        return prefixes[3]
    return prefixes[0]


def install(it, st, root, prefixes=("", "bpmndi:", "omgdc:", "omgdi:"), noise=("ws",)):
    """Put the document on the abstract heap; returns its address."""
    n = [0]
    k = it.ndocs = getattr(it, "ndocs", 0) + 1

    def addr():
        n[0] += 1
        return "dom%d" % n[0] if k == 1 else "dom%d_%d" % (k, n[0])

    def noise_nodes(i):
        out = []
        if "ws" in noise:
            out.append((3, Const("\n    ")))
        if "comment" in noise:
            out.append((8, Tok("comment%d" % i)))
            out.append((3, Const("\n    ")))
        if "pi" in noise:
            out.append((7, Tok("pi%d" % i)))
        return out

    def put(el, parent, index, seg):
        a = addr()
        seg = el.many or seg
        items = []
        pf = el.__dict__.get("prefix")
        if pf is None:
            pf = prefix_of(el.tag, prefixes)
            if isinstance(pf, (list, tuple)):      # the same namespace bound to several prefixes
                pf = pf[n[0] % len(pf)]
        meta = {"type": 1, "tag": pf + el.tag, "attrs": dict(el.attrs), "parent": parent,
                "index": index, "seg": seg, "value": NONE}
        el.addr = a
        st.put(a, Obj("dom", {}, items, meta, "dom"))

        def raw(ty, val):
            b = addr()
            st.put(b, Obj("dom", {}, [], {"type": ty, "tag": None, "attrs": {}, "parent": a, "index": len(items),
                                          "seg": seg, "value": val}, "dom"))
            items.append(Item(Ref(b)))
        has_el = any(isinstance(k, El) for k in el.kids)
        for k in el.kids:
            if isinstance(k, El):
                if has_el:
                    for ty, val in noise_nodes(n[0]):
                        raw(ty, val)
                b = put(k, a, len(items), seg)
                items.append(Item(Ref(b), True, k.many))
            else:
                raw(3, k)
        if has_el and "ws" in noise:
            raw(3, Const("\n  "))
        return a

    doc = addr()
    items = []
    st.put(doc, Obj("dom", {}, items, {"type": 9, "tag": None, "attrs": {}, "parent": None, "index": 0, "seg": None,
                                       "value": NONE}, "dom"))
    if "comment" in noise:
        b = addr()
        st.put(b, Obj("dom", {}, [], {"type": 8, "tag": None, "attrs": {}, "parent": doc, "index": 0, "seg": None,
                                      "value": Tok("comment0")}, "dom"))
        items.append(Item(Ref(b)))
    items.append(Item(Ref(put(root, doc, len(items), None))))
    it.doc_root = doc
    return doc


# ------------------------------------------------------------------ the universal family
TASKS = ("task", "userTask", "serviceTask", "manualTask")
GATES = ("exclusiveGateway", "inclusiveGateway", "parallelGateway", "complexGateway", "eventBasedGateway")
EVENTS = ("startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent", "boundaryEvent")
KINDS = TASKS + ("subProcess", "dataObject") + GATES + EVENTS

DEFS = {
    "startEvent": ("messageEventDefinition", "timerEventDefinition", "conditionalEventDefinition",
                   "escalationEventDefinition", "signalEventDefinition"),
    "intermediateCatchEvent": ("messageEventDefinition", "timerEventDefinition", "signalEventDefinition",
                               "conditionalEventDefinition", "escalationEventDefinition"),
    "endEvent": ("messageEventDefinition", "signalEventDefinition", "escalationEventDefinition",
                 "errorEventDefinition", "compensateEventDefinition", "terminateEventDefinition"),
    "intermediateThrowEvent": ("messageEventDefinition", "signalEventDefinition", "escalationEventDefinition",
                               "compensateEventDefinition"),
    "boundaryEvent": ("messageEventDefinition", "timerEventDefinition", "signalEventDefinition",
                      "conditionalEventDefinition", "escalationEventDefinition", "errorEventDefinition"),
}
# attribute -> BPMN default when omitted (None: left out)
ATTRS = {
    "default": (TASKS + ("subProcess", "exclusiveGateway", "inclusiveGateway", "complexGateway"), None),
    "gatewayDirection": (GATES, "Unspecified"),
    "instantiate": (("eventBasedGateway",), "false"),
    "eventGatewayType": (("eventBasedGateway",), "Exclusive"),
    "triggeredByEvent": (("subProcess",), "false"),
    "isCollection": (("dataObject",), "false"),
    "parallelMultiple": (("startEvent", "intermediateCatchEvent", "boundaryEvent"), "false"),
    "isInterrupting": (("startEvent",), "true"),
    "cancelActivity": (("boundaryEvent",), "true"),
}
PROC_ATTRS = {"isClosed": "false", "isExecutable": "false", "processType": "None"}


def kind_attrs(kind):
    return {a: d for a, (ks, d) in ATTRS.items() if kind in ks}


class Family(object):
    """Builds one document family and remembers what it contains."""

    def __init__(self, full=True, listed=True, flows_first=False, di_first=False, coll_first=True, many=True,
                 extras=False, shuffled=False, wide=0):
        self.wide = wide     # how many of everything, nesting included (instead of arbitrarily many)
        self.listed, self.flows_first = listed, flows_first
        self.extras, self.shuffled = extras, shuffled
        self.nodes = []      # dicts
        self.flows = []
        self.mflows = []
        self.procs = []
        self.lanes = []
        self.parts = []
        self.shapes = []
        self.edges = []
        self.n = 0
        self.many = many
        self.build(full, di_first, coll_first)

    def tok(self, name, ty="str", nonempty=False, seg=None, group=None):
        return Tok(name, ty, nonempty, group, seg)

    def id(self, name, seg=None):
        return Tok(name, "str", True, "id", seg)

    def lsid(self, name, seg=None):
        """id of a lane set: optional in the schema"""
        return opt(name, self.id(name, seg)) if self.extras else self.id(name, seg)

    # ---- parts
    def noise(self, nid, seg=None):
        """content a BPMN file may have and the library does not read"""
        return [El("documentation", {"id": self.id(nid + ".doc", seg)}, [self.tok(nid + ".doctext", seg=seg)]),
                El("extensionElements", {}, [El("property", {"name": self.tok(nid + ".extn", seg=seg),
                                                             "id": self.id(nid + ".ext", seg)}, [],
                                                prefix="vendor:")])]

    def node(self, kind, nid, owner, proc, many=None, gated=True, seg=None, kids=None, twice=False, only=None):
        seg = many or seg
        i = self.id(nid, seg)
        attrs = {"id": i}
        if gated:
            attrs["name"] = opt("%s.name" % nid, self.tok(nid + ".name", seg=seg))
        else:
            attrs["name"] = self.tok(nid + ".name", seg=seg)
        for a in kind_attrs(kind):
            v = self.tok("%s.%s" % (nid, a), seg=seg, nonempty=True)
            attrs[a] = opt("%s.%s" % (nid, a), v) if gated else v
        if kind == "boundaryEvent":
            attrs["attachedToRef"] = self.tok("%s.att" % nid, seg=seg, nonempty=True)
        el = El(kind, attrs, many=many)
        defs = []
        if self.extras:
            el.kids += self.noise(nid, seg)
        for d in DEFS.get(kind, ()) if only is None else only:
            did = self.id("%s.%s" % (nid, d), seg)
            de = El(d, {"id": did})
            el.kids.append(de)
            defs.append((d, did))
            if twice:            # a second definition of the same type, and two without an id
                did = self.id("%s.%s.2" % (nid, d), seg)
                el.kids.append(El(d, {"id": did}))
                el.kids += [El(d, {}), El(d, {})]
                defs += [(d, did), (d, ABSENT), (d, ABSENT)]
                if self.many and not seg and kind in ("startEvent", "endEvent", "boundaryEvent"):
                    sg = "%s.%s.defs" % (nid, d)
                    did = self.id("%s.%s.m" % (nid, d), sg)
                    el.kids.append(El(d, {"id": did}, many=sg))
                    defs.append((d, did, sg))
                if d in (DEFS[kind][0], DEFS[kind][-1]):
                    for w in range(self.wide):
                        did = self.id("%s.%s.w%d" % (nid, d, w), seg)
                        el.kids.append(El(d, {"id": did}))
                        defs.append((d, did))
        nd = {"id": i, "kind": kind, "el": el, "owner": owner, "proc": proc, "many": many, "seg": seg, "defs": defs,
              "in": [], "out": [], "attrs": attrs, "nid": nid}
        self.nodes.append(nd)
        return nd

    def flow(self, fid, src, dst, owner, cond=0, many=None, seg=None, gated=True, mflow=False):
        seg = many or seg
        i = self.id(fid, seg)
        nm = self.tok(fid + ".name", seg=seg)
        attrs = {"id": i, "name": opt(fid + ".name", nm) if gated else nm, "sourceRef": src["id"],
                 "targetRef": dst["id"]}
        el = El("messageFlow" if mflow else "sequenceFlow", attrs, many=many)
        ce = None
        if cond:
            ct = self.tok(fid + ".cond", seg=seg, nonempty=True)
            ci = self.id(fid + ".condid", seg)
            ce = El("conditionExpression", {"id": opt(fid + ".condid", ci) if gated else ci}, [ct])
            el.kids.append(ce)
        fl = {"id": i, "src": src, "dst": dst, "owner": owner, "el": el, "many": many, "seg": seg, "cond": ce,
              "attrs": attrs, "fid": fid, "listed": self.listed}
        (self.mflows if mflow else self.flows).append(fl)
        src["out"].append(fl)
        dst["in"].append(fl)
        return fl

    def shape(self, i, sid, many=None, seg=None, **attrs):
        seg = many or seg
        b = El("Bounds", {k: self.tok("%s.%s" % (sid, k), seg=seg, nonempty=True)
                          for k in ("x", "y", "width", "height")})
        a = {"id": self.id(sid + "_di", seg), "bpmnElement": i}
        a.update(attrs)
        kids = [b]
        if self.extras:
            kids.append(El("BPMNLabel", {"id": self.id(sid + "_lab", seg)},
                           [El("Bounds", {k: self.tok("%s.lab.%s" % (sid, k), seg=seg, nonempty=True)
                                          for k in ("x", "y", "width", "height")})]))
        s = El("BPMNShape", a, kids, many=many)
        self.shapes.append({"ref": i, "el": s, "bounds": b, "many": many, "seg": seg, "sid": sid})
        return s

    def edge(self, i, fid, many=None, seg=None, nway=2, manyway=False):
        seg = many or seg
        ws = []
        for k in range(nway):
            ws.append(El("waypoint", {"x": self.tok("%s.w%d.x" % (fid, k), seg=seg, nonempty=True),
                                      "y": self.tok("%s.w%d.y" % (fid, k), seg=seg, nonempty=True)}))
        if manyway:
            w = "W." + fid
            ws.insert(1, El("waypoint", {"x": self.tok("%s.wm.x" % fid, seg=w, nonempty=True),
                                         "y": self.tok("%s.wm.y" % fid, seg=w, nonempty=True)}, many=w))
        kids = list(ws)
        if self.extras:
            kids.append(El("BPMNLabel", {"id": self.id(fid + "_lab", seg)},
                           [El("Bounds", {k: self.tok("%s.lab.%s" % (fid, k), seg=seg, nonempty=True)
                                          for k in ("x", "y", "width", "height")})]))
        e = El("BPMNEdge", {"id": self.id(fid + "_di", seg), "bpmnElement": i}, kids, many=many)
        self.edges.append({"ref": i, "el": e, "ways": ws, "many": many, "seg": seg, "fid": fid})
        return e

    def lane(self, lid, refs, children=None, many=None, seg=None, manyref=False, childset_seg=None):
        seg = many or seg
        i = self.id(lid, seg)
        el = El("lane", {"id": i, "name": opt(lid + ".name", self.tok(lid + ".name", seg=seg))}, many=many)
        for r in refs:
            el.kids.append(El("flowNodeRef", {}, [r["id"]], many=r["many"]))
        ln = {"id": i, "el": el, "lid": lid, "many": many, "seg": seg, "refs": refs, "children": children}
        if children is not None:
            cs = El("childLaneSet", {"id": self.lsid(lid + ".cls", seg)}, [c["el"] for c in children])
            if self.shuffled:
                el.kids.insert(0, cs)
            else:
                el.kids.append(cs)
            ln["cs"] = cs
        self.lanes.append(ln)
        return ln

    def contents(self, owner, proc, tag, nodes, flows):
        kids = [n["el"] for n in nodes]
        fk = [f["el"] for f in flows]
        return fk + kids if self.flows_first else kids + fk

    # ---- the family
    def build(self, full, di_first, coll_first):
        M = (lambda s: s) if self.many else (lambda s: None)
        p1, p2, p3 = self.id("P1"), self.id("P2"), self.id("P3")
        all_p = []

        def process(pid, attrs_gated=True, many=None, seg=None):
            seg = many or seg
            i = self.id(pid, seg)
            at = {"id": i}
            for a in ("name", "isClosed", "isExecutable", "processType"):
                t = self.tok("%s.%s" % (pid, a), seg=seg, nonempty=(a != "name"))
                at[a] = opt("%s.%s" % (pid, a), t) if attrs_gated else t
            pe = {"id": i, "attrs": at, "el": El("process", at, many=many), "many": many, "seg": seg, "pid": pid,
                  "lanes": None}
            self.procs.append(pe)
            all_p.append(pe)
            return pe

        def fill(owner_id, proc_id, pre, kinds, depth, seg=None, hub=True):
            """one node of each kind in a container, flows chaining them; returns nodes, flows."""
            ns, fs = [], []
            for k in kinds:
                nd = self.node(k, "%s.%s" % (pre, k), owner_id, proc_id, seg=seg, only=() if pre in ("t", "u") else None)
                ns.append(nd)
            conn = [n for n in ns if n["kind"] not in ("dataObject",)]
            for a, b in zip(conn, conn[1:]):
                fs.append(self.flow("%s.f%d" % (pre, len(fs)), a, b, owner_id, cond=len(fs) % 2, seg=seg))
            return ns, fs

        P1 = process("P1")
        ns, fs = fill(p1, p1, "a", KINDS, 0)
        by = {n["kind"]: n for n in ns}
        # a second node of every kind, not connected
        ns2 = [self.node(k, "b.%s" % k, p1, p1, twice=True) for k in KINDS]
        # unbounded branches between two gateways
        if self.many:
            t = self.node("userTask", "m.task", p1, p1, many="K")
            fs.append(self.flow("m.in", by["exclusiveGateway"], t, p1, cond=1, many="K"))
            fs.append(self.flow("m.out", t, by["inclusiveGateway"], p1, many="K"))
            ns2.append(t)
        wn = []
        for w in range(self.wide):
            t = self.node(("userTask", "manualTask", "task")[w % 3], "w.task%d" % w, p1, p1)
            fs.append(self.flow("w.in%d" % w, by["exclusiveGateway"], t, p1, cond=w % 2))
            fs.append(self.flow("w.out%d" % w, t, by["inclusiveGateway"], p1))
            wn.append(t)
        ns2 += wn
        # extra flows so that list order matters
        fs.append(self.flow("x.1", by["task"], by["exclusiveGateway"], p1, cond=1))
        fs.append(self.flow("x.2", by["task"], by["endEvent"], p1))
        fs.append(self.flow("x.self", by["userTask"], by["userTask"], p1, cond=1))      # a loop on one element
        # nested sub-processes
        sp = by["subProcess"]
        sns, sfs = fill(sp["id"], p1, "s", KINDS, 1)
        sp2 = [n for n in sns if n["kind"] == "subProcess"][0]
        tns, tfs = fill(sp2["id"], p1, "t", KINDS, 2)
        if self.many:
            d = self.node("task", "t.many", sp2["id"], p1, many="D")
            tns.append(d)
            tfs.append(self.flow("t.mf", tns[0], d, sp2["id"], many="D"))
        deep = []
        for w in range(self.wide // 2):
            o = deep[-1]["id"] if deep else sp2["id"]
            deep.append(self.node("subProcess", "deep%d" % w, o, p1))
        for w, d in enumerate(deep):
            tk = [self.node("task", "deep%d.t" % w, d["id"], p1), self.node("endEvent", "deep%d.e" % w, d["id"], p1)]
            f = self.flow("deep%d.f" % w, tk[0], tk[1], d["id"], cond=1)
            d["el"].kids += self.contents(d["id"], p1, "", tk + deep[w + 1:w + 2], [f])
        tns += deep[:1]
        sp2["el"].kids += self.contents(sp2["id"], p1, "", tns, tfs)
        sp["el"].kids += self.contents(sp["id"], p1, "", sns, sfs)
        # second sub-process with a little content of its own
        spb = [n for n in ns2 if n["kind"] == "subProcess"][0]
        un, uf = fill(spb["id"], p1, "u", ("startEvent", "task", "endEvent"), 1)
        spb["el"].kids += self.contents(spb["id"], p1, "", un, uf)
        # lanes
        l111 = self.lane("l111", [by["task"]])
        l11 = self.lane("l11", [by["userTask"], by["startEvent"]], [l111])
        l12 = self.lane("l12", [by["endEvent"]] + ([t] if self.many else []) + wn)
        inner = [self.lane("lw%d" % w, []) for w in range(self.wide)]
        dl = None
        for w in range(self.wide // 2):
            dl = self.lane("ldeep%d" % w, [], [dl] if dl else None)
        l1 = self.lane("l1", [by["serviceTask"]], [l11, l12] + inner + ([dl] if dl else []))
        l2 = self.lane("l2", [])
        top = [l1, l2]
        if self.many:
            top.append(self.lane("lm", [], many="L"))
        top += [self.lane("ltop%d" % w, []) for w in range(self.wide)]
        ls = El("laneSet", {"id": self.lsid("laneset1")}, [x["el"] for x in top])
        P1["lanes"] = ls
        P1["toplanes"] = top
        # lane sets of sub-processes, one inside the other
        s1, s2 = self.lane("ls1", [n for n in sns if n["kind"] == "task"]), self.lane("ls2", [])
        s3 = self.lane("ls3", [n for n in tns if n["kind"] in ("userTask", "endEvent")], [self.lane("ls31", [])])
        for sub, lanes in ((sp, [s1, s2]), (sp2, [s3]), (spb, [])):
            sub["lanes"] = El("laneSet", {"id": self.lsid("laneset." + sub["nid"])}, [x["el"] for x in lanes])
            sub["toplanes"] = lanes
            sub["el"].kids.insert(len(sub["el"].kids) if self.shuffled else 0, sub["lanes"])
        body = self.contents(p1, p1, "", ns + ns2, fs)
        P1["el"].kids = body + [ls] if self.shuffled else [ls] + body
        other = []
        if self.extras:      # elements of kinds the library does not support
            note, call = self.id("note1"), self.id("call1")
            assoc = El("association", {"id": self.id("assoc1"), "sourceRef": by["task"]["id"], "targetRef": note})
            P1["el"].kids = self.noise("P1") + P1["el"].kids + [
                El("textAnnotation", {"id": note}, [El("text", {}, [self.tok("note1.text")])]), assoc,
                El("callActivity", {"id": call, "name": self.tok("call1.name")})]
            other = [(note, "note1"), (call, "call1")]

        P2 = process("P2")
        n3, f3 = fill(p2, p2, "c", KINDS, 0)
        if self.extras:      # events with one definition each
            n3 = n3 + [self.node(k, "one.%s.%s" % (k, d), p2, p2, only=(d,)) for k in DEFS for d in DEFS[k]]
        P2["el"].kids = self.contents(p2, p2, "", n3, f3)
        P3 = process("P3")
        # lane sets of further processes: one lane, and none at all
        l3 = self.lane("l3", [n for n in n3 if n["kind"] == "task"], [] if self.extras else None)
        for P, lanes in ((P2, [l3]), (P3, [])):
            P["lanes"] = El("laneSet", {"id": self.lsid("laneset." + P["pid"])}, [x["el"] for x in lanes])
            P["toplanes"] = lanes
            P["el"].kids.insert(0, P["lanes"])
        if self.many:
            Q = process("Q", many="Q")
            qn, qf = fill(Q["id"], Q["id"], "q", ("startEvent", "task", "endEvent"), 0, seg="Q")
            Q["el"].kids = self.contents(Q["id"], Q["id"], "", qn, qf)
        for w in range(self.wide):
            Q = process("Q%d" % w)
            qn, qf = fill(Q["id"], Q["id"], "q%d" % w, ("startEvent", "task", "endEvent"), 0)
            Q["el"].kids = self.contents(Q["id"], Q["id"], "", qn, qf)

        # collaboration
        def part(pid, proc=None, many=None):
            i = self.id(pid, many)
            at = {"id": i, "name": opt(pid + ".name", self.tok(pid + ".name", seg=many))}
            if proc is not None:
                at["processRef"] = proc
            pd = {"id": i, "attrs": at, "el": El("participant", at, many=many), "many": many, "seg": many, "pid": pid,
                  "in": [], "out": [], "proc": proc}
            self.parts.append(pd)
            return pd
        A, B = part("pool1", p1), part("pool2", p2)
        part("pool3", self.id("Pelsewhere"))         # refers to a process of another file
        C, D = part("box1"), part("box2")
        byc = {n["kind"]: n for n in n3 if not n["nid"].startswith("one.")}
        mf = [self.flow("mf1", by["task"], byc["startEvent"], None, mflow=True),
              self.flow("mf2", byc["task"], by["intermediateCatchEvent"], None, mflow=True),
              self.flow("mf3", by["endEvent"], C, None, mflow=True),
              self.flow("mf4", D, by["startEvent"], None, mflow=True),
              self.flow("mf5", C, D, None, mflow=True)]
        if self.many:
            E = part("boxm", many="B")
            mf.append(self.flow("mfm", E, byc["task"], None, mflow=True, many="B"))
        for w in range(self.wide):
            E = part("wbox%d" % w)
            mf.append(self.flow("wmf%d" % w, E, byc["task"], None, mflow=True))
        pk, fk = [p["el"] for p in self.parts], [f["el"] for f in mf]
        coll = El("collaboration", {"id": self.id("coll")}, fk + pk if self.shuffled else pk + fk)
        self.coll = coll

        # interchange
        kids = []
        for n in self.nodes:
            at = {}
            if n["kind"] == "subProcess":
                at["isExpanded"] = opt(n["nid"] + ".exp", self.tok(n["nid"] + ".exp", seg=n["seg"], nonempty=True))
            kids.append(self.shape(n["id"], n["nid"], many=n["many"] or n["seg"], **at))
        for l in self.lanes:
            kids.append(self.shape(l["id"], l["lid"], many=l["many"],
                                   isHorizontal=opt(l["lid"] + ".hor", self.tok(l["lid"] + ".hor", seg=l["seg"], nonempty=True))))
        for p in self.parts:
            kids.append(self.shape(p["id"], p["pid"], many=p["many"],
                                   isHorizontal=opt(p["pid"] + ".hor", self.tok(p["pid"] + ".hor", seg=p["seg"], nonempty=True))))
        for k, f in enumerate(self.flows + self.mflows):
            kids.append(self.edge(f["id"], f["fid"], many=f["many"] or f["seg"],
                                  nway=(self.wide if k % 9 == 0 else 0) or 2 + k % 3, manyway=(
                self.many and k % 4 == 0 and not (f["many"] or f["seg"]))))
        if other:
            n_sh, n_ed = len(self.shapes), len(self.edges)
            kids += [self.shape(i, nm) for i, nm in other] + [self.edge(self.id("assoc1"), "assoc1")]
            del self.shapes[n_sh:], self.edges[n_ed:]       # not expected in the export
        if self.shuffled:
            kids = [k for k in kids if k.tag == "BPMNEdge"] + [k for k in reversed(kids) if k.tag == "BPMNShape"]
        plane = El("BPMNPlane", {"id": self.id("plane"), "bpmnElement": self.id("planeref")}, kids)
        diag = El("BPMNDiagram", {"id": self.id("diag"), "name": opt("diag.name", self.tok("diag.name"))}, [plane])
        self.plane, self.diag = plane, diag
        # incoming / outgoing lists
        for n in self.nodes:
            if not self.listed:
                continue
            seq_in = [f for f in n["in"] if f in self.flows]
            seq_out = [f for f in n["out"] if f in self.flows]
            el = n["el"]
            pre = [El("incoming", {}, [f["id"]], many=f["many"] if not n["many"] else None) for f in seq_in]
            post = [El("outgoing", {}, [f["id"]], many=f["many"] if not n["many"] else None) for f in seq_out]
            el.kids = post + el.kids + pre if self.shuffled else pre + post + el.kids
        procs = [p["el"] for p in self.procs]
        body = ([coll] + procs) if coll_first else (procs + [coll])
        self.root = El("definitions", {}, [diag] + body if di_first else body + [diag])


class Minimal(Family):
    """The least a file may have: no collaboration and no lanes, one process with three nodes, one without content."""

    def build(self, full, di_first, coll_first):
        for pid in ("P1", "P2"):
            i = self.id(pid)
            at = {"id": i}
            for a in ("name", "isClosed", "isExecutable", "processType"):
                at[a] = opt("%s.%s" % (pid, a), self.tok("%s.%s" % (pid, a), nonempty=(a != "name")))
            self.procs.append({"id": i, "attrs": at, "el": El("process", at), "many": None, "seg": None, "pid": pid,
                               "lanes": None})
        p1 = self.procs[0]["id"]
        ns = [self.node(k, "a." + k, p1, p1) for k in ("startEvent", "task", "endEvent")]
        fs = [self.flow("a.f%d" % k, a, b, p1, cond=k) for k, (a, b) in enumerate(zip(ns, ns[1:]))]
        for n in ns:
            n["el"].kids = []
            n["defs"] = []
            if self.listed:
                n["el"].kids = [El("incoming", {}, [f["id"]]) for f in n["in"]] + \
                    [El("outgoing", {}, [f["id"]]) for f in n["out"]]
        self.procs[0]["el"].kids = self.contents(p1, p1, "", ns, fs)
        kids = [self.shape(n["id"], n["nid"]) for n in ns] + [self.edge(f["id"], f["fid"]) for f in fs]
        self.plane = El("BPMNPlane", {"id": self.id("plane"), "bpmnElement": self.id("planeref")}, kids)
        self.diag = El("BPMNDiagram", {"id": self.id("diag"), "name": opt("diag.name", self.tok("diag.name"))}, [self.plane])
        self.coll = None
        self.root = El("definitions", {}, [p["el"] for p in self.procs] + [self.diag])


class Small(Family):
    """One process of a given shape.  nodes: [(name, kind, [definitions] or None)], flows: [(name, source, target,
    condition?)], names: True (any name), 'opt' (maybe omitted).  Everything else is opaque."""

    def __init__(self, nodes, flows, listed=True, coords=None, nway=2, attrs=None, names=True, pid="P1",
                 unnamed=False, pools=0):
        self.listed, self.flows_first, self.many, self.wide = listed, False, False, 0
        self.extras = self.shuffled = False
        self.nodes, self.flows, self.mflows, self.procs, self.lanes = [], [], [], [], []
        self.parts, self.shapes, self.edges, self.n = [], [], [], 0
        p = self.id(pid)
        at = {"id": p, "name": self.tok(pid + ".name")}
        pe = {"id": p, "attrs": at, "el": El("process", at), "many": None, "seg": None, "pid": pid, "lanes": None}
        self.procs.append(pe)
        self.by = {}
        for spec in nodes:
            nid, kind = spec[0], spec[1]
            nd = self.node(kind, nid, p, p, gated=(names == "opt"))
            if "default" in nd["attrs"]:
                nd["attrs"]["default"] = ABSENT
            nd["attrs"].update((attrs or {}).get(nid, {}))
            nd["el"].attrs = {k: v for k, v in nd["attrs"].items() if v is not ABSENT}
            want = spec[2] if len(spec) > 2 else ()
            nd["el"].kids = [k for k in nd["el"].kids if k.tag in want]
            nd["defs"] = [d for d in nd["defs"] if d[0] in want]
            self.by[nid] = nd
        self.fby = {}
        for spec in flows:
            f = self.flow(spec[0], self.by[spec[1]], self.by[spec[2]], p, cond=1 if len(spec) > 3 and spec[3] else 0,
                          gated=False)
            self.fby[spec[0]] = f
            if unnamed:
                f["el"].attrs.pop("name")
        pe["el"].kids = [n["el"] for n in self.nodes] + [f["el"] for f in self.flows]
        kids = [self.shape(n["id"], n["nid"]) for n in self.nodes]
        kids += [self.edge(f["id"], f["fid"], nway=nway) for f in self.flows]
        if coords:
            for s in self.shapes:
                for k, v in coords.get(s["sid"], {}).items():
                    s["bounds"].attrs[k] = v
        plane = El("BPMNPlane", {"id": self.id("plane"), "bpmnElement": p}, kids)
        diag = El("BPMNDiagram", {"id": self.id("diag"), "name": self.tok("diag.name")}, [plane])
        self.plane, self.diag, self.coll = plane, diag, None
        if listed:
            for n in self.nodes:
                pre = [El("incoming", {}, [f["id"]]) for f in n["in"]]
                pre += [El("outgoing", {}, [f["id"]]) for f in n["out"]]
                n["el"].kids = pre + n["el"].kids
        coll = []
        if pools:
            box = [El("participant", {"id": self.id("box%d" % k), "name": self.tok("box%d.name" % k)}) for k in range(pools)]
            coll = [El("collaboration", {"id": self.id("coll")}, box)]
            plane.kids = [self.shape(b.attrs["id"], "box%d" % k) for k, b in enumerate(box)] + plane.kids
        self.root = El("definitions", {}, coll + [pe["el"], diag])
