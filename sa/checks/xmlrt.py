"""XML import / export rules: C01-C06, C08 (XML part), C15."""
from ..values import *
from ..state import *
from ..core import *
from .. import docs
from ..docs import Family, install, kind_attrs, PROC_ATTRS, has

VARIANTS = {
    "listed": dict(fam=dict(listed=True), inst=dict(prefixes=("", "bpmndi:", "omgdc:", "omgdi:"), noise=("ws",))),
    "unlisted": dict(fam=dict(listed=False, flows_first=True, di_first=True, coll_first=False),
                     inst=dict(prefixes=("bpmn:", "di2:", "dc:", "di:"), noise=("ws", "comment", "pi"))),
    "compact": dict(fam=dict(listed=True, coll_first=False, many=False, extras=True, shuffled=True),
                    inst=dict(prefixes=(("q:", "My-model.v2:", "", "xsd1:"), "a1:", "Geo_metry:", "z:"), noise=())),
    "minimal": dict(cls=docs.Minimal, fam=dict(), inst=dict(prefixes=("", "", "", ""), noise=("ws", "comment"))),
    "wide": dict(fam=dict(listed=True, many=False, wide=12),
                 inst=dict(prefixes=("semantic:", "bpmndi:", "dc:", "di:"), noise=("ws",))),
}


class XmlRun(object):
    """Abstract load of one document family, and abstract exports of the result."""

    def __init__(self, rep, variant):
        self.rep, self.variant = rep, variant
        v = VARIANTS[variant]
        self.scn = s = Scn(rep.repo)
        self.F = v.get("cls", Family)(**v["fam"])
        self.dg = s.diagram()
        install(s.it, s.st, self.F.root, **v["inst"])
        self.load = s.call((self.dg, "load_diagram_from_xml_file"), Tok("path", nonempty=True))
        self.loaded = not self.load.dead
        self.exports = {}

    def export(self, meth="export_xml_file"):
        """-> root XN or None"""
        if meth in self.exports:
            return self.exports[meth]
        s = self.scn
        n0 = len(s.world())
        out = s.call((self.dg, meth), Tok("dir", nonempty=True), Tok("file", nonempty=True))
        root, probs = None, []
        writes = [w for w in s.world()[n0:] if w.v.items[0] == Const("xmlwrite")]
        snaps = []
        for w in writes:
            snaps.append(w.v.items[2])
        for w in s.world()[n0:]:
            if w.v.items[0] == Const("open"):
                f = w.v.items
                for x in f[1:]:
                    if isinstance(x, Ref) and s.st.get(x.addr).kind == "file":
                        for i in s.st.get(x.addr).items:
                            if isinstance(i.v, App) and i.v.op == "xml":
                                snaps.append(i.v.args[0])
        if len(snaps) == 1 and not out.dead:
            root = xml_view(s.st, snaps[0], problems=probs)
        self.exports[meth] = (out, root, probs)
        return self.exports[meth]

    def lists_spec(self, n, side):
        """expected flow-id list of a node (sequence flows, then message flows)."""
        its = []
        for f in n[side]:
            v = f["id"]
            its.append(Many(v, f["many"]) if f["many"] and f["many"] != n["seg"] else v)
        seq = [x for x, f in zip(its, n[side]) if f in self.F.flows]
        msg = [x for x, f in zip(its, n[side]) if f not in self.F.flows]
        return seq, msg


def runs(rep, variants):
    for v in variants:
        r = XmlRun(rep, v)
        rep.scn.append("document family '%s': %d nodes, %d sequence flows, %d message flows, %d lanes, %d processes" % (
            v, len(r.F.nodes), len(r.F.flows), len(r.F.mflows), len(r.F.lanes), len(r.F.procs)))
        yield r
        rep.absorb(r.scn)


def tiers(tier):
    return ("listed", "unlisted", "compact", "minimal", "wide")


def load_ok(rep, r):
    return rep.no_raise("load", "%s: loading never fails" % r.variant, r.load, r.scn) or r.loaded


# ---------------------------------------------------------------------- C01
def c01(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        s, F = r.scn, r.F
        K = lambda n: s.const(n)
        nd = s.nodes(r.dg)
        slots = s.st.get(nd.addr).slots
        for n in F.nodes:
            seqi, msgi = r.lists_spec(n, "in")
            seqo, msgo = r.lists_spec(n, "out")
            spec = ED({K("id"): n["id"], K("type"): Const(n["kind"]),
                       K("node_name"): pmap(n["attrs"]["name"], lambda q: Const("") if q is ABSENT else q),
                       K("process"): n["owner"],
                       K("incoming_flow"): EL(seqi + msgi, r.F.listed), K("outgoing_flow"): EL(seqo + msgo, r.F.listed)})
            c = Cmp(s.st)
            if n["seg"]:
                c.bound.add(n["seg"])
            ds = c.run(slots.get(n["id"], ABSENT), spec, "node %s" % n["nid"])
            rep.diffs("node-complete", "%s: %s %s" % (r.variant, n["kind"], n["nid"]), ds, s,
                      s.where(nd.addr, n["id"]))
        # nothing else, except pools without a process
        pools = {p["id"] for p in F.parts if p["proc"] is None}
        want = {n["id"] for n in F.nodes} | pools
        for k, v in slots.items():
            if k not in want:
                rep.diffs("no-other-node", "%s: extra %r" % (r.variant, k), Cmp(s.st).run(v, EGone(), "node %r" % k),
                          s, s.where(nd.addr, k))
        for p in F.parts:
            if p["proc"] is not None:
                continue
            c = Cmp(s.st)
            if p["seg"]:
                c.bound.add(p["seg"])
            ds = c.run(slots.get(p["id"], ABSENT), ED({K("type"): K("participant"), K("node_name"): pmap(
                p["attrs"]["name"], lambda q: Const("") if q is ABSENT else q)}), "pool %s" % p["pid"])
            rep.diffs("pool-node", "%s: %s" % (r.variant, p["pid"]), ds, s)
        rep.ok("no-other-node", "%s: %d nodes in graph, %d expected" % (r.variant, len(slots), len(want)))
        # ownership lists
        pe = s.st.res(s.attr(r.dg, "process_elements"))
        for p in F.procs:
            kids = [n for n in F.nodes if n["owner"] == p["id"]]
            spec = ED({K("node_ids"): EL([Many(n["id"], n["many"]) if n["many"] else n["id"] for n in kids], False)})
            c = Cmp(s.st)
            if p["seg"]:
                c.bound.add(p["seg"])
            ds = c.run(s.st.get(pe.addr).slots.get(p["id"], ABSENT), spec, "process %s" % p["pid"])
            rep.diffs("process-node-ids", "%s: %s" % (r.variant, p["pid"]), ds, s)
        for p in F.nodes:
            if p["kind"] != "subProcess":
                continue
            kids = [n for n in F.nodes if n["owner"] == p["id"]]
            c = Cmp(s.st)
            if p["seg"]:
                c.bound.add(p["seg"])
            ds = c.run(slots.get(p["id"], ABSENT), ED({K("node_ids"): EL([Many(n["id"], n["many"]) if n["many"] and n["many"] != p["seg"]
                                                                          else n["id"] for n in kids], False)}), "sub-process")
            rep.diffs("process-node-ids", "%s: %s" % (r.variant, p["nid"]), ds, s)


# ---------------------------------------------------------------------- exported tree helpers
class Xml(object):
    def __init__(self, rep, r, meth="export_xml_file"):
        self.rep, self.r, self.s, self.meth = rep, r, r.scn, meth
        self.out, self.root, self.probs = r.export(meth)
        self.byid = {}
        self.usable = False
        rule = "export"
        subj = "%s: %s" % (r.variant, meth)

        def io(c, name, loc):
            return "mkdirfails" in repr(c) or "direxists" in repr(c)
        ok = rep.no_raise(rule, subj + " never fails", self.out, self.s, allowed=(io,))
        if self.root is None:
            if ok:
                if self.s.it.notes or self.out.dead:
                    rep.und(rule, subj + " writes a tree", "no single written tree found")
                else:
                    rep.bad(rule, subj + " writes a tree", "the export does not write exactly one XML tree")
            return
        if self.probs:
            rep.und(rule, subj + " tree understood", "; ".join(self.probs[:3]))
            return
        self.usable = True
        self.all = list(self.root.walk())
        for x in self.all:
            i = rs(x.attr("id"), self.s.st.asm)
            self.byid.setdefault(i, []).append(x)
        # elements whose identity the analysis does not know
        self.unknown_ids = [x for x in self.all for a in ("id", "bpmnElement")
                            if term_unclean(rs(x.attr(a), self.s.st.asm))]

    def where(self, x):
        return "%s:%s" % x.loc if x is not None and x.loc else ""

    def find(self, rule, subj, tag, i, bound=None, many=None):
        """The one element with this tag and id; reports and returns XN or None."""
        c = [x for x in self.byid.get(i, []) if x.tag == tag]
        return self.single(rule, subj, c, bound, many)

    def single(self, rule, subj, c, bound=None, many=None):
        rep, st = self.rep, self.s.st
        notes = self.s.it.notes
        if not c:
            if notes or self.unknown_ids:
                rep.und(rule, subj, "not found in a tree that is not fully understood")
            else:
                rep.bad(rule, subj, "missing from the exported file")
            return None
        if len(c) > 1:
            gs = [csimp(x.full_guard(), st.asm) for x in c]
            both = False
            for a in range(len(c)):
                for b in range(a + 1, len(c)):
                    g = cand(gs[a], gs[b])
                    if csimp(g, st.asm) is not False and c[a].addr != c[b].addr or \
                            (c[a].addr == c[b].addr and g is not False):
                        both = g
            if both is not False:
                if notes or cond_unclean(both):
                    rep.und(rule, subj, "maybe written more than once")
                else:
                    rep.bad(rule, subj, "written %d times (when %s)" % (len(c), show(both)),
                            ", ".join(self.where(x) for x in c))
                return None
        g = csimp(cor(*[x.full_guard() for x in c]), st.asm)
        if g is not True:
            if notes or cond_unclean(g):
                rep.und(rule, subj, "written only when %s" % show(g))
            else:
                rep.bad(rule, subj, "written only when %s" % show(g), self.where(c[0]))
            return None
        x = c[0]
        if not self.many_ok(x, many, bound):
            if notes:
                rep.und(rule, subj, "multiplicity %r" % x.many)
            else:
                rep.bad(rule, subj, "written once per element of %r instead of once per %r" % (
                    self.manys(x), many or "file"), self.where(x))
            return None
        return x

    def manys(self, x):
        out = set()
        while x is not None:
            if x.many:
                out |= set(x.many.split("+"))
            x = x.parent
        return out

    def many_ok(self, x, many, bound):
        return self.manys(x) == ({many} if many else set()) | (set(bound or ()))

    def attrs(self, rule, subj, x, spec, bound=()):
        """spec: attr -> expected V / ABSENT / EAny"""
        ds = []
        for a, e in spec.items():
            c = Cmp(self.s.st)
            c.bound |= set(bound)
            ds += c.run(x.attr(a), EGone() if e is ABSENT else e, "%s/@%s" % (x.tag, a))
        self.rep.diffs(rule, subj, ds, self.s, self.where(x))

    def texts(self, x, tag):
        """texts of children with a tag, as items"""
        return [Item(k.text, k.guard, k.many) for k in x.kids if k.tag == tag]

    def cmp_items(self, rule, subj, items, specs, bound=(), where=""):
        """specs: list of alternative EL"""
        ref = self.s.it.alloc(self.s.st, Obj("list", {}, items), ("cmp", rule, subj))
        best = None
        for e in specs:
            c = Cmp(self.s.st)
            c.bound |= set(bound)
            ds = c.run(ref, e, subj)
            if not ds:
                best = ds
                break
            if best is None:
                best = ds
        self.rep.diffs(rule, subj, best, self.s, where)


def default_of(v, d):
    """file value, or the BPMN default if omitted"""
    return pmap(v, lambda q: (ABSENT if d is None else Const(d)) if q is ABSENT else q)


def parent_is(X, rule, subj, x, tag, i):
    p = x.parent
    pv = rs(p.attr("id"), X.s.st.asm) if p is not None else None
    if p is not None and p.tag == tag and (i is None or pv == i):
        X.rep.ok(rule, subj)
    elif X.s.it.notes or term_unclean(pv):
        X.rep.und(rule, subj, "parent %r" % (p,))
    else:
        X.rep.bad(rule, subj, "written under %r instead of <%s id=%r>" % (p, tag, i), X.where(x))


def check_nodes(X, r, di=True):
    rep, F = X.rep, r.F
    seen = set()
    for n in F.nodes:
        subj = "%s: %s %s" % (r.variant, n["kind"], n["nid"])
        x = X.find("node-once", subj, n["kind"], n["id"], bound=({n["seg"]} if n["seg"] else None))
        if x is None:
            continue
        rep.ok("node-once", subj)
        seen.add(x.addr)
        # parent
        own = n["owner"]
        ptag = "process" if any(p["id"] == own for p in F.procs) else "subProcess"
        parent_is(X, "node-owner", subj, x, ptag, own)
        b = {n["seg"]} if n["seg"] else set()
        spec = {"name": default_of(n["attrs"]["name"], "")}
        for a, d in kind_attrs(n["kind"]).items():
            spec[a] = default_of(n["attrs"][a], d)
        if n["kind"] == "boundaryEvent":
            spec["attachedToRef"] = n["attrs"]["attachedToRef"]
        X.attrs("node-attributes", subj, x, spec, b)
        for side, tag in (("in", "incoming"), ("out", "outgoing")):
            seq, msg = r.lists_spec(n, side)
            specs = [EL(seq + msg, F.listed), EL(seq, F.listed)]
            X.cmp_items("node-flow-lists", subj + " " + tag, X.texts(x, tag), specs, b, X.where(x))
        # event definitions
        kids = [k for k in x.kids if k.tag and k.tag.endswith("EventDefinition")]
        items = [Item(Tup((Const(k.tag), k.attr("id"))), k.guard, k.many) for k in kids]
        X.cmp_items("event-definitions", subj, items, [EL([Many(Tup((Const(d[0]), d[1])), d[2]) if len(d) > 2
                                                              else Tup((Const(d[0]), d[1])) for d in n["defs"]], False)], b,
                    X.where(x))
    known = set(docs.KINDS)
    for x in X.all:
        if x.tag in known and x.addr not in seen:
            i = rs(x.attr("id"), X.s.st.asm)
            if any(n["id"] == i for n in F.nodes):
                continue
            g = csimp(x.full_guard(), X.s.st.asm)
            if g is not False:
                (rep.und if X.s.it.notes or cond_unclean(g) else rep.bad)(
                    "node-invented", "%s: <%s id=%r>" % (r.variant, x.tag, i), "an element the file did not have")


# ---------------------------------------------------------------------- C02
def c02(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        X = Xml(rep, r)
        if X.usable:
            check_nodes(X, r)


# ---------------------------------------------------------------------- C03
def check_flows(X, r):
    rep, F = X.rep, r.F
    for f in F.flows:
        subj = "%s: flow %s" % (r.variant, f["fid"])
        x = X.find("flow-once", subj, "sequenceFlow", f["id"], bound=({f["seg"]} if f["seg"] else None))
        if x is None:
            continue
        rep.ok("flow-once", subj)
        own = f["owner"]
        ptag = "process" if any(p["id"] == own for p in F.procs) else "subProcess"
        parent_is(X, "flow-owner", subj, x, ptag, own)
        b = {f["seg"]} if f["seg"] else set()
        nm = default_of(f["attrs"]["name"], "")
        X.attrs("flow-endpoints", subj, x, {"sourceRef": f["src"]["id"], "targetRef": f["dst"]["id"]}, b)
        # name: the file's; the condition text may stand in for an empty one
        ct = f["cond"].text() if f["cond"] else None

        def okname(got, asm, nm=nm, ct=ct):
            want = rs(nm, asm)
            if isinstance(want, Phi):
                return True   # decided in the other cases of the split
            if got == want or (want == Const("") and got is ABSENT):
                return True
            if ct is not None and got == ct:
                return want == Const("")
            return False
        # split on the gates of the expected name first
        ds = []
        for val in (True, False):
            asm = dict(X.s.st.asm)
            if isinstance(nm, Phi):
                cassume(asm, nm.c, val)
            c = Cmp(X.s.st)
            c.bound |= b
            ds += c.run(x.attr("name"), EPred(okname, show(nm)), "sequenceFlow/@name", asm)
            if not isinstance(nm, Phi):
                break
        rep.diffs("flow-name", subj, ds, X.s, X.where(x))
        ces = [k for k in x.kids if k.tag == "conditionExpression"]
        items = [Item(Tup((k.text, k.attr("id"))), k.guard, k.many) for k in ces]
        want = [Tup((ct, f["cond"].attrs["id"]))] if ct is not None else []
        X.cmp_items("flow-condition", subj, items, [EL(want)], b, X.where(x))
    for x in X.all:
        if x.tag == "sequenceFlow":
            invented(X, "flow-invented", r.variant, x, "id", {f["id"] for f in F.flows},
                     "a sequence flow the file did not have")


def invented(X, rule, v, x, attr, want, text):
    """Every value the identifying attribute can take is one the file has."""
    asm = X.s.st.asm
    for i, g in gleaves(rs(x.attr(attr), asm), asm, x.full_guard()):
        if i in want:
            continue
        (X.rep.und if X.s.it.notes or term_unclean(i) or cond_unclean(g) else X.rep.bad)(
            rule, "%s: <%s %s=%r>" % (v, x.tag, attr, i),
            text + ("" if g is True else " (when %s)" % show(g)), X.where(x))


def c03(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        X = Xml(rep, r)
        if X.usable:
            check_flows(X, r)


# ---------------------------------------------------------------------- C04
def c04(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        X = Xml(rep, r)
        if not X.usable:
            continue
        F = r.F
        shapes = {}
        edges = {}
        for x in X.all:
            if x.tag in ("BPMNShape", "BPMNEdge"):
                d = shapes if x.tag == "BPMNShape" else edges
                d.setdefault(rs(x.attr("bpmnElement"), X.s.st.asm), []).append(x)
        for sh in F.shapes:
            subj = "%s: shape of %s" % (r.variant, sh["sid"])
            x = X.single("shape-once", subj, shapes.get(sh["ref"], []), None, sh["many"])
            if x is None:
                continue
            rep.ok("shape-once", subj)
            b = {sh["seg"]} if sh["seg"] else set()
            bs = [k for k in x.kids if k.tag == "Bounds"]
            bx = X.single("shape-bounds", subj, bs, None, sh["many"])
            if bx is not None:
                X.attrs("shape-bounds", subj, bx, dict(sh["bounds"].attrs), b)
            at = sh["el"].attrs
            if "isExpanded" in at:
                X.attrs("shape-expanded", subj, x, {"isExpanded": default_of(at["isExpanded"], "false")}, b)
            if "isHorizontal" in at:
                X.attrs("shape-horizontal", subj, x, {"isHorizontal": at["isHorizontal"]}, b)
            parent_is(X, "shape-on-plane", subj, x, "BPMNPlane", None)
        for ed in F.edges:
            subj = "%s: edge of %s" % (r.variant, ed["fid"])
            x = X.single("edge-once", subj, edges.get(ed["ref"], []), None, ed["many"])
            if x is None:
                continue
            rep.ok("edge-once", subj)
            b = {ed["seg"]} if ed["seg"] else set()
            ws = [Item(Tup((k.attr("x"), k.attr("y"))), k.guard, k.many) for k in x.kids if k.tag == "waypoint"]
            want = []
            for w in ed["ways"]:
                t = Tup((w.attrs["x"], w.attrs["y"]))
                want.append(Many(t, w.many) if w.many else t)
            X.cmp_items("edge-waypoints", subj, ws, [EL(want)], b, X.where(x))
            parent_is(X, "edge-on-plane", subj, x, "BPMNPlane", None)
        want = {sh["ref"] for sh in F.shapes}
        wante = {e["ref"] for e in F.edges}
        for d, w, t in ((shapes, want, "shape"), (edges, wante, "edge")):
            for k, xs in d.items():
                for x in xs:
                    invented(X, "di-invented", r.variant, x, "bpmnElement", w,
                             "interchange element for something the file did not draw")


# ---------------------------------------------------------------------- C05
def c05(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        X = Xml(rep, r)
        if not X.usable:
            continue
        F = r.F
        v = r.variant
        coll = F.coll and X.find("collaboration", "%s: collaboration" % v, "collaboration", F.coll.attrs["id"])
        if coll is not None:
            rep.ok("collaboration", "%s: collaboration" % v)
        for p in F.parts:
            subj = "%s: participant %s" % (v, p["pid"])
            x = X.find("participant-once", subj, "participant", p["id"], many=p["many"])
            if x is None:
                continue
            rep.ok("participant-once", subj)
            b = {p["seg"]} if p["seg"] else set()
            parent_is(X, "participant-parent", subj, x, "collaboration", F.coll.attrs["id"])
            X.attrs("participant-attributes", subj, x, {"name": default_of(p["attrs"]["name"], "")}, b)
            if p["proc"] is not None:
                X.attrs("participant-attributes", subj, x, {"processRef": p["proc"]}, b)
            else:
                X.attrs("participant-attributes", subj, x, {
                    "processRef": EPred(lambda g, a: g in (ABSENT, Const("")), "no process reference")}, b)
        for f in F.mflows:
            subj = "%s: message flow %s" % (v, f["fid"])
            x = X.find("message-flow-once", subj, "messageFlow", f["id"], many=f["many"])
            if x is None:
                continue
            rep.ok("message-flow-once", subj)
            b = {f["seg"]} if f["seg"] else set()
            parent_is(X, "message-flow-parent", subj, x, "collaboration", F.coll.attrs["id"])
            X.attrs("message-flow-attributes", subj, x, {"name": default_of(f["attrs"]["name"], ""),
                                                         "sourceRef": f["src"]["id"],
                                                         "targetRef": f["dst"]["id"]}, b)
        known_sets = set()

        def lane_set(rule, subj, el, ptag, pid):
            """the lane set under its owner; its id is optional"""
            i = el.attrs["id"]
            if isinstance(i, Phi):
                x = X.single(rule, subj, [y for y in X.all if y.tag == el.tag and y.parent is not None and
                                          y.parent.tag == ptag and rs(y.parent.attr("id"), X.s.st.asm) == pid])
                if x is not None:
                    X.attrs(rule, subj + " id", x, {"id": pmap(i, lambda q: EPred(
                        lambda g, a: g in (ABSENT, Const("")), "no id") if q is ABSENT else q)})
            else:
                x = X.find(rule, subj, el.tag, i)
                if x is not None:
                    parent_is(X, rule, subj + " parent", x, ptag, pid)
            if x is not None:
                rep.ok(rule, subj)
                known_sets.add(x.addr)
            return x
        for p, tag, pname in [(p, "process", p["pid"]) for p in F.procs] + [(n, "subProcess", n["nid"]) for n in F.nodes]:
            if p.get("lanes") is None:
                continue
            ls = lane_set("lane-set", "%s: lane set of %s" % (v, pname), p["lanes"], tag, p["id"])

            def lane(l, ptag, par):
                subj = "%s: lane %s" % (v, l["lid"])
                x = X.find("lane-once", subj, "lane", l["id"], many=l["many"])
                if x is None:
                    return
                rep.ok("lane-once", subj)
                b = {l["seg"]} if l["seg"] else set()
                if par is not None:
                    if x.parent is not None and x.parent.addr == par.addr:
                        rep.ok("lane-parent", subj)
                    else:
                        (rep.und if X.s.it.notes else rep.bad)(
                            "lane-parent", subj, "written under %r instead of %r" % (x.parent, par), X.where(x))
                X.attrs("lane-attributes", subj, x, {"name": default_of(l["el"].attrs["name"], "")}, b)
                want = [Many(n["id"], n["many"]) if n["many"] else n["id"] for n in l["refs"]]
                X.cmp_items("lane-refs", subj, X.texts(x, "flowNodeRef"), [EL(want)], b, X.where(x))
                if l["children"] is not None:
                    cs = lane_set("child-lane-set", subj + " child lane set", l["cs"], "lane", l["id"])
                    for c in l["children"]:
                        lane(c, "childLaneSet", cs)
            for l in p["toplanes"]:
                lane(l, "laneSet", ls)
        # nothing invented
        want = {"participant": {p["id"] for p in F.parts}, "messageFlow": {f["id"] for f in F.mflows},
                "lane": {l["id"] for l in F.lanes},
                "collaboration": {F.coll.attrs["id"]} if F.coll else set()}
        for x in X.all:
            if x.tag in ("laneSet", "childLaneSet") and x.addr not in known_sets and csimp(x.full_guard(), X.s.st.asm) is not False:
                (rep.und if X.s.it.notes or cond_unclean(x.full_guard()) else rep.bad)(
                    "coll-invented", "%s: %r under %r" % (v, x, x.parent), "a lane set the file did not have", X.where(x))
            if x.tag in want:
                invented(X, "coll-invented", v, x, "id", want[x.tag], "an element the file did not have")


# ---------------------------------------------------------------------- C06
def c06(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        X = Xml(rep, r)
        if not X.usable:
            continue
        F, v = r.F, r.variant
        check_procs(X, r)
        d = X.find("diagram", "%s: diagram element" % v, "BPMNDiagram", F.diag.attrs["id"])
        if d is not None:
            X.attrs("diagram", "%s: diagram element" % v, d, {"name": default_of(F.diag.attrs["name"], "")})
        p = X.find("plane", "%s: plane element" % v, "BPMNPlane", F.plane.attrs["id"])
        if p is not None:
            X.attrs("plane", "%s: plane element" % v, p, {"bpmnElement": F.plane.attrs["bpmnElement"]})
            parent_is(X, "plane", "%s: plane parent" % v, p, "BPMNDiagram", F.diag.attrs["id"])


def check_procs(X, r, names=True):
    rep, F, v = X.rep, r.F, r.variant
    for p in F.procs:
        subj = "%s: process %s" % (v, p["pid"])
        x = X.find("process-once", subj, "process", p["id"], many=p["many"])
        if x is None:
            continue
        rep.ok("process-once", subj)
        b = {p["seg"]} if p["seg"] else set()
        spec = {a: default_of(p["attrs"][a], d) for a, d in PROC_ATTRS.items()}
        X.attrs("process-attributes", subj, x, spec, b)
        nm = p["attrs"]["name"]

        def okname(got, asm):
            w = rs(default_of(nm, ""), asm)
            return isinstance(w, Phi) or got == w or (w == Const("") and got is ABSENT)
        ds = []
        for val in (True, False):
            asm = dict(X.s.st.asm)
            cassume(asm, nm.c, val)
            tok = nm.a
            for e in (True, False):
                a2 = dict(asm)
                cassume(a2, CAtom(App("eq", tuple(sorted((tok, Const("")), key=repr)))), e)
                c = Cmp(X.s.st)
                c.bound |= b
                ds += c.run(x.attr("name"), EPred(okname, "the name in the file"), "process/@name", a2)
        rep.diffs("process-name", subj, ds, X.s, X.where(x))
    for x in X.all:
        if x.tag == "process":
            invented(X, "process-invented", v, x, "id", {p["id"] for p in F.procs}, "a process the file did not have")


# ---------------------------------------------------------------------- C15
def c15(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        X = Xml(rep, r, "export_xml_file_no_di")
        if not X.usable:
            continue
        check_procs(X, r)
        check_nodes(X, r)
        check_flows(X, r)
        bad = [x for x in X.all if x.tag in ("BPMNDiagram", "BPMNPlane", "BPMNShape", "BPMNEdge", "Bounds", "waypoint")]
        if bad:
            rep.bad("no-interchange", "%s: interchange elements" % r.variant, "%r present" % bad[0], X.where(bad[0]))
        else:
            rep.ok("no-interchange", "%s: %d elements inspected" % (r.variant, len(X.all)))
        for x in X.all:
            if x.tag in ("participant", "messageFlow") and any(
                    p.tag in ("process", "subProcess") for p in ancestors(x)):
                rep.bad("no-collaboration-content", "%s: %r" % (r.variant, x), "written inside a process", X.where(x))
        rep.ok("no-collaboration-content", "%s" % r.variant)


def ancestors(x):
    x = x.parent
    while x is not None:
        yield x
        x = x.parent
