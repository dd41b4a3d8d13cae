"""C31: namespaces, text values and references of the exported XML."""
from .common import *
from .api import Live, node_calls
from .xmlrt import XmlRun, Xml, runs, tiers, load_ok
from . import csvx

MODEL = "http://www.omg.org/spec/BPMN/20100524/MODEL"
BPMNDI = "http://www.omg.org/spec/BPMN/20100524/DI"
DC = "http://www.omg.org/spec/DD/20100524/DC"
DI = "http://www.omg.org/spec/DD/20100524/DI"
XSI = "http://www.w3.org/2001/XMLSchema-instance"
XML = "http://www.w3.org/XML/1998/namespace"
SPACE = {"BPMNDiagram": BPMNDI, "BPMNPlane": BPMNDI, "BPMNShape": BPMNDI, "BPMNEdge": BPMNDI, "BPMNLabel": BPMNDI,
         "Bounds": DC, "waypoint": DI}
KNOWN = {"xsi": XSI, "xml": XML}


def text_of(v, asm):
    v = rs(v, asm)
    return v.v if isinstance(v, Const) and isinstance(v.v, str) else None


def judge(rep, X, subj):
    """namespaces and text values of one exported tree"""
    s = X.s
    asm, notes = s.st.asm, bool(s.it.notes)
    bad = rep.und if notes else rep.bad
    root = X.root
    if root.tag != "definitions":
        bad("root", subj, "the root element is <%s>" % root.tag, X.where(root))
        return
    rep.ok("root", subj)
    decl, unknown = {}, False
    for k, v in root.attrs().items():
        t = text_of(v, asm)
        if k == "xmlns" or isinstance(k, str) and k.startswith("xmlns:"):
            unknown |= t is None
            decl[k.partition(":")[2]] = t
    if any(k == "targetNamespace" for k in root.attrs()):
        rep.ok("target-namespace", subj)
    else:
        bad("target-namespace", subj, "definitions has no targetNamespace", X.where(root))

    def space(q):
        """-> (namespace or None, problem)"""
        if q.startswith("{"):
            return q[1:].partition("}")[0], None
        p = q.partition(":")[0] if ":" in q else ""
        if p not in decl:
            if p == "":
                return "", None
            return None, "prefix '%s' is not declared" % p
        return decl[p], None
    seen = {}
    for x in X.all:
        if x.qname is None:
            rep.und("namespace", "%s: %s" % (subj, x.tag), "unknown tag")
            continue
        got, why = space(x.qname)
        want = SPACE.get(x.tag, MODEL)
        key = (x.qname, got, why)
        if key not in seen:
            seen[key] = 0
            if why is None and got == want:
                rep.ok("namespace", "%s: %s" % (subj, x.qname))
            elif unknown and why is None and got is None:
                rep.und("namespace", "%s: %s" % (subj, x.qname), "the declared namespace is not known")
            else:
                bad("namespace", "%s: %s" % (subj, x.qname), why or "in namespace '%s' instead of '%s'" % (got, want), X.where(x))
        seen[key] += 1
        for k, v in x.attrs().items():
            sub = "%s: %s of <%s %s>" % (subj, k, x.tag, show(rs(x.attr("id"), asm)))
            if not isinstance(k, str):
                rep.und("attribute", sub, "unknown attribute name")
                continue
            if ":" in k and not k.startswith("{") and not k.startswith("xmlns:"):
                p = k.partition(":")[0]
                if p in decl or p == "xml":
                    rep.ok("attribute", sub)
                else:
                    bad("attribute", sub, "prefix '%s' is not declared" % p, X.where(x))
            strings(rep, s, "text-values", sub, v, bad, X.where(x), csimp(x.full_guard(), asm))
        if rs(x.text, asm) != NONE:
            strings(rep, s, "text-values", "%s: text of <%s %s>" % (subj, x.tag, show(rs(x.attr("id"), asm))), x.text, bad,
                    X.where(x), csimp(x.full_guard(), asm), True)


def strings(rep, s, rule, sub, v, bad, where, guard, none=False):
    for w, g in gleaves(rs(v, s.st.asm), s.st.asm, guard):
        if w is ABSENT or csimp(g, s.st.asm) is False or none and w == NONE:
            continue
        if isinstance(w, Const) and not isinstance(w.v, str):
            if cond_unclean(g):
                rep.und(rule, sub, "%r" % (w.v,))
            else:
                bad(rule, sub, "the value %r is not text and cannot be written" % (w.v,), where)
            return
        if isinstance(w, (Ref, Tup)):
            bad(rule, sub, "a %s is not text and cannot be written" % ("tuple" if isinstance(w, Tup) else s.st.get(w.addr).kind), where)
            return
    rep.ok(rule, sub)


REFS = (("sourceRef", "node"), ("targetRef", "node"), ("attachedToRef", "node"))


def closed(rep, X, subj):
    """ids differ and references stay inside the file"""
    s = X.s
    asm = s.st.asm
    bad = rep.und if s.it.notes or X.unknown_ids else rep.bad
    ids = {}
    for x in X.all:
        i = rs(x.attr("id"), asm)
        if i is ABSENT or csimp(x.full_guard(), asm) is False:
            continue
        sub = "%s: %s" % (subj, show(i))
        clash = None
        for w, g in gleaves(i, asm, csimp(x.full_guard(), asm)):
            if w is ABSENT or csimp(g, asm) is False:
                continue
            for y, h in ids.get(w, ()):
                both = csimp(cand(g, h), asm)
                if y is not x and both is not False and clash is None:
                    clash = (y, cond_unclean(both) or term_unclean(w))
            ids.setdefault(w, []).append((x, g))
        if clash is None:
            rep.ok("ids-differ", sub)
        elif clash[1]:
            rep.und("ids-differ", sub, "may be the id of another <%s>" % clash[0].tag)
        else:
            bad("ids-differ", sub, "both <%s> and <%s> have it" % (clash[0].tag, x.tag), X.where(x))
    ids = {i: l[0][0] for i, l in ids.items()}
    flows = {i for i, x in ids.items() if x.tag in ("sequenceFlow", "messageFlow")}
    model = {i for i, x in ids.items() if x.tag not in SPACE}
    nodes = model - flows

    def ref(what, v, among, x):
        sub = "%s: %s of <%s %s>" % (subj, what, x.tag, show(rs(x.attr("id"), asm)))
        v = rs(v, asm)
        leaves = [(w, g) for w, g in gleaves(v, asm, csimp(x.full_guard(), asm)) if csimp(g, asm) is not False]
        wrong = [(w, g) for w, g in leaves if w not in among]
        if not wrong:
            rep.ok("reference", sub)
        elif any(term_unclean(w) or cond_unclean(g) for w, g in wrong):
            rep.und("reference", sub, show(v))
        else:
            v = wrong[0][0]
            bad("reference", sub, "%s is not the id of such an element of the file" % show(v), X.where(x))
    for x in X.all:
        if csimp(x.full_guard(), asm) is False:
            continue
        if x.tag in ("sequenceFlow", "messageFlow"):
            ref("sourceRef", x.attr("sourceRef"), nodes, x)
            ref("targetRef", x.attr("targetRef"), nodes, x)
        elif x.tag in ("incoming", "outgoing"):
            ref(x.tag, x.text, flows, x.parent)
        elif x.tag in ("BPMNShape", "BPMNEdge", "BPMNPlane"):
            ref("bpmnElement", x.attr("bpmnElement"), flows if x.tag == "BPMNEdge" else nodes, x)


def c31(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        for meth in ("export_xml_file", "export_xml_file_no_di"):
            X = Xml(rep, r, meth)
            if X.usable:
                judge(rep, X, "%s, %s" % (r.variant, meth))
    L = Live(rep, "new")
    s = L.scn
    if L.ok:
        ids = []
        for nc in node_calls(s, L.pid, ""):
            v = rs(L.call(nc.meth, **nc.kw).value, s.st.asm)
            if isinstance(v, Tup):
                ids.append(v.items[0])
        for a, b in list(zip(ids, ids[1:])) + list(zip(ids, ids[2:])):
            L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a, target_ref_id=b, sequence_flow_name=Tok("fn"))
        for meth in ("export_xml_file", "export_xml_file_no_di"):
            X = Xml(rep, L, meth)
            if X.usable:
                judge(rep, X, "built by calls, " + meth)
                closed(rep, X, "built by calls, " + meth)
        rep.absorb(s)
        rep.scn.append("a diagram built by calls, both XML exports")
    else:
        rep.und("setup", "built by calls", "no diagram")
    for name in list(csvx.TABLES)[::1 if tier == "thorough" else 3]:
        L = csvx.CsvRun(rep, "CSV table '%s'" % name, csvx.TABLES[name])
        if not L.ok:
            rep.und("setup", name, "not imported")
            continue
        X = Xml(rep, L, "export_xml_file_no_di")
        if X.usable:
            judge(rep, X, L.variant)
            closed(rep, X, L.variant)
        rep.absorb(L.scn)
        rep.scn.append(L.variant + ", export without interchange data")
