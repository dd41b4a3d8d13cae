"""Rules on diagrams built and queried through the Python API: C07, C08, C09, C10, C24."""
import itertools
from .common import *
from .xmlrt import XmlRun, Xml, runs, tiers, load_ok, parent_is, default_of, VARIANTS
from .. import docs

START_DEFS = ("message", "timer", "conditional", "signal", "escalation")
END_DEFS = ("terminate", "escalation", "message", "compensate", "signal", "error")
DIRS = ("Unspecified", "Converging", "Diverging", "Mixed")
LIB_ERROR = "BpmnPythonError"


def btok(n):
    return Tok(n, "bool")


def tf(scn, v):
    return phi(scn.it.truth(scn.st, v), Const("true"), Const("false"))


def other_tok(scn, name, consts):
    """a string different from all the given ones"""
    t = Tok(name, "str", True)
    for c in consts:
        r = scn.it.eq(scn.st, t, Const(c))
        cassume(scn.st.asm, r, False)
    return t


class Node(object):
    """one node-creating call and what it has to record"""

    def __init__(self, label, meth, kw, kind, name, opts=None, defs=(), xml=None, shape=None):
        self.label, self.meth, self.kw, self.kind, self.name = label, meth, kw, kind, name
        self.opts, self.defs, self.xml, self.shape = opts or {}, defs, xml or {}, shape or {}


def node_calls(scn, pid, tag):
    n = [0]
    out = []

    def add(label, meth, kind, name, given, opts=None, defs=(), xml=None, shape=None, ids=(True, False)):
        for with_id in ids:
            n[0] += 1
            kw = dict(given, process_id=pid)
            if with_id:
                kw["node_id"] = Tok("%snew%d" % (tag, n[0]), "str", True, "id")
            out.append(Node("%s%s" % (label, "" if with_id else " (generated id)"), meth, kw, kind, name, opts, defs, xml,
                            shape))

    def nm():
        return Tok("%sname%d" % (tag, n[0]), "str")
    t = nm()
    add("task", "add_task_to_diagram", "task", t, {"task_name": t})
    add("task without name", "add_task_to_diagram", "task", Const(""), {}, ids=(False,))
    t = nm()
    e, g = btok(tag + "expanded"), btok(tag + "triggered")
    add("sub-process", "add_subprocess_to_diagram", "subProcess", t,
        {"subprocess_name": t, "is_expanded": e, "triggered_by_event": g},
        {"is_expanded": tf(scn, e), "triggered_by_event": tf(scn, g)}, xml={"triggeredByEvent": tf(scn, g)},
        shape={"isExpanded": tf(scn, e)})
    add("sub-process with defaults", "add_subprocess_to_diagram", "subProcess", t, {"subprocess_name": t},
        {"is_expanded": Const("false"), "triggered_by_event": Const("false")},
        xml={"triggeredByEvent": Const("false")}, shape={"isExpanded": Const("false")}, ids=(False,))
    for d in START_DEFS:
        t = nm()
        p, i = btok(tag + "par" + d), btok(tag + "int" + d)
        add("start event '%s'" % d, "add_start_event_to_diagram", "startEvent", t,
            {"start_event_name": t, "start_event_definition": Const(d), "parallel_multiple": p, "is_interrupting": i},
            {"parallel_multiple": tf(scn, p), "is_interrupting": tf(scn, i)}, (d + "EventDefinition",),
            xml={"parallelMultiple": tf(scn, p), "isInterrupting": tf(scn, i)}, ids=(d != "timer",))
    add("start event with defaults", "add_start_event_to_diagram", "startEvent", Const(""), {},
        {"parallel_multiple": Const("false"), "is_interrupting": Const("true")},
        xml={"parallelMultiple": Const("false"), "isInterrupting": Const("true")}, ids=(True, False))
    t = nm()
    add("start event with an unknown definition", "add_start_event_to_diagram", "startEvent", t,
        {"start_event_name": t, "start_event_definition": other_tok(scn, tag + "sdef", START_DEFS)}, ids=(True,))
    for d in END_DEFS:
        t = nm()
        add("end event '%s'" % d, "add_end_event_to_diagram", "endEvent", t,
            {"end_event_name": t, "end_event_definition": Const(d)}, {}, (d + "EventDefinition",),
            ids=(d != "signal",))
    add("end event with defaults", "add_end_event_to_diagram", "endEvent", Const(""), {}, ids=(True, False))
    t = nm()
    add("end event with an unknown definition", "add_end_event_to_diagram", "endEvent", t,
        {"end_event_name": t, "end_event_definition": other_tok(scn, tag + "edef", END_DEFS)}, ids=(True,))
    for kind, meth, dflt in (("exclusiveGateway", "add_exclusive_gateway_to_diagram", True),
                             ("inclusiveGateway", "add_inclusive_gateway_to_diagram", True),
                             ("parallelGateway", "add_parallel_gateway_to_diagram", False)):
        for d in DIRS:
            t = nm()
            kw = {"gateway_name": t, "gateway_direction": Const(d)}
            o, x = {"gateway_direction": Const(d)}, {"gatewayDirection": Const(d)}
            if dflt:
                df = Tok("%sdefault%d" % (tag, n[0]), "str", True)
                kw["default"] = df
                o["default"] = df
                x["default"] = df
            add("%s '%s'" % (kind, d), meth, kind, t, kw, o, xml=x, ids=(d == "Mixed",))
        o, x = {"gateway_direction": Const("Unspecified")}, {"gatewayDirection": Const("Unspecified")}
        if dflt:
            o["default"] = NONE
            x["default"] = ABSENT
        add(kind + " with defaults", meth, kind, Const(""), {}, o, xml=x)
    for kind in ("complexGateway", "eventBasedGateway"):
        t = nm()
        add("gateway of kind " + kind, "add_gateway_to_diagram", kind, t,
            {"gateway_type": Const(kind), "gateway_name": t, "gateway_direction": Const("Diverging")},
            {"gateway_direction": Const("Diverging")}, ids=(True,))
    for kind in ("userTask", "serviceTask", "manualTask"):
        t = nm()
        add("flow node of kind " + kind, "add_flow_node_to_diagram", kind, t, {"node_type": Const(kind), "name": t})
    return out


class Live(XmlRun):
    """A diagram in memory: 'new' (built by calls) or 'loaded' (any file of the document family)."""

    def __init__(self, rep, state):
        self.rep, self.variant, self.exports = rep, state, {}
        self.ok = True
        if state == "new":
            self.scn = Scn(rep.repo)
            self.F = None
            self.dg = self.scn.diagram()
            self.dname = Tok("diagram.name", "str")
            self.create = self.call("create_new_diagram_graph", diagram_name=self.dname)
            self.pname = Tok("proc.name", "str")
            self.pclosed, self.pexec = btok("proc.closed"), btok("proc.exec")
            self.ptype = Tok("proc.type", "str", True)
            self.proc = self.call("add_process_to_diagram", process_name=self.pname, process_is_closed=self.pclosed,
                                  process_is_executable=self.pexec, process_type=self.ptype)
            self.pid = self.proc.value if not self.proc.dead else TOP
        else:
            XmlRun.__init__(self, rep, "listed")
            self.variant = state
            self.ok = self.loaded
            self.pid = self.F.procs[0]["id"]

    def call(self, meth, *a, **kw):
        return self.scn.call((self.dg, meth), *a, **kw)


def lives(rep, states=("new", "loaded")):
    for s in states:
        L = Live(rep, s)
        rep.scn.append("diagram state '%s'" % s)
        if L.ok:
            yield L
        else:
            rep.und("setup", s, "the diagram could not be built")
        rep.absorb(L.scn)


# ---------------------------------------------------------------------- C07
def do_node(rep, L, nc, made):
    s = L.scn
    K = s.const
    st = s.st
    snap = st.fork()
    names = paths(st, L.dg)
    pre = reach(st, [L.dg])
    subj = "%s: %s" % (L.variant, nc.label)
    n0 = len(s.world())
    out = L.call(nc.meth, **nc.kw)
    if not rep.no_raise("call-accepted", subj, out, s) and out.dead:
        return
    v = rs(out.value, st.asm)
    nd = s.nodes(L.dg)
    if not isinstance(v, Tup) or len(v.items) != 2:
        (rep.und if term_unclean(v) or isinstance(v, Phi) else rep.bad)(
            "returns-pair", subj, "returned %s instead of (id, attributes)" % show(v))
        return
    i, ref = v.items
    want = nc.kw.get("node_id")
    if want is not None:
        rep.diffs("requested-id", subj, Cmp(st).run(i, want, "returned id"), s)
    slots = st.get(nd.addr).slots
    rep.diffs("returns-live-record", subj, Cmp(st).run(slots.get(i, ABSENT), ref, "stored record against returned record"),
              s)
    spec = {K("id"): i, K("type"): Const(nc.kind), K("node_name"): nc.name, K("process"): nc.kw["process_id"],
            K("incoming_flow"): EL([]), K("outgoing_flow"): EL([])}
    for k, e in nc.opts.items():
        spec[K(k)] = e
    ds = Cmp(st).run(ref, ED(spec), "node")
    rep.diffs("node-as-requested", subj, ds, s, s.where(ref.addr) if isinstance(ref, Ref) else "")
    if nc.kind in ("startEvent", "endEvent") and nc.meth in ("add_start_event_to_diagram", "add_end_event_to_diagram"):
        ed = ED({K("event_definitions"): EL([ED({K("definition_type"): Const(d), K("id"): EAny()}) for d in nc.defs])})
        rep.diffs("event-definitions", subj, Cmp(st).run(ref, ed, "node"), s)
    # own, unshared lists
    if isinstance(ref, Ref):
        own = reach(st, [ref])
        shared = sorted((own & pre) - {L.dg.addr}, key=repr)
        if shared and not s.it.notes:
            rep.bad("own-record", subj, "the new node shares the object %s with the diagram" % names.get(shared[0]))
        elif shared:
            rep.und("own-record", subj, "shared %s" % shared[0])
        else:
            o = st.get(ref.addr)
            a, b = rs(o.slots.get(K("incoming_flow"), ABSENT), st.asm), rs(o.slots.get(K("outgoing_flow"), ABSENT), st.asm)
            if isinstance(a, Ref) and a == b:
                rep.bad("own-record", subj, "incoming and outgoing flows are the same list")
            else:
                rep.ok("own-record", subj)
    untouched(rep, s, "rest-untouched", subj, snap, pre,
              lambda c: c.addr == nd.addr and c.key == i or
              (c.addr == nd.addr and c.key == "order"), names)
    rep.diffs("one-node-added", subj, Cmp(st).run(snap.heap[nd.addr].slots.get(i, ABSENT), EGone(), "id before"), s)
    made.append((nc, i, ref, n0))


def c07(rep, tier):
    for L in lives(rep):
        s = L.scn
        made = []
        for nc in node_calls(s, L.pid, ""):
            do_node(rep, L, nc, made)
        nm = Tok("noidname", "str")
        base = s.st.fork()
        do_node(rep, L, Node("task whose requested id is the empty string", "add_task_to_diagram",
                             {"task_name": nm, "node_id": Const(""), "process_id": L.pid}, "task", nm), [])
        s.st.become(base)
        if L.variant != "new":
            continue
        K = s.const
        # the process itself
        pe = s.st.res(s.attr(L.dg, "process_elements"))
        rep.no_raise("call-accepted", "new process", L.proc, s)
        ds = Cmp(s.st).run(s.st.get(pe.addr).slots.get(L.pid, ABSENT), ED(
            {K("name"): L.pname, K("is_closed"): tf(s, L.pclosed), K("is_executable"): tf(s, L.pexec),
             K("process_type"): L.ptype}), "process")
        rep.diffs("process-as-requested", "new process", ds, s)
        da = s.st.res(s.attr(L.dg, "diagram_attributes"))
        rep.diffs("diagram-as-requested", "new diagram", Cmp(s.st).run(da, ED({K("name"): L.dname, K("id"): EAny()}),
                                                                     "diagram"), s)
        # a flow, then the file
        flows = []
        for a, b in ((0, 1), (1, 2)):
            nm = Tok("apiflow%d" % a, "str")
            o = L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=made[a][1],
                       target_ref_id=made[b][1], sequence_flow_name=nm)
            if not o.dead and isinstance(rs(o.value, s.st.asm), Tup):
                flows.append((rs(o.value, s.st.asm).items[0], nm, made[a][1], made[b][1]))
        for meth in ("export_xml_file", "export_xml_file_no_di"):
            X = Xml(rep, L, meth)
            if not X.usable:
                continue
            for nc, i, ref, _ in made:
                subj = "%s of %s" % (meth, nc.label)
                x = X.find("exported-once", subj, nc.kind, i)
                if x is None:
                    continue
                rep.ok("exported-once", subj)
                parent_is(X, "exported-process", subj, x, "process", L.pid)
                X.attrs("exported-attributes", subj, x, dict(nc.xml, name=nc.name))
                kids = [k for k in x.kids if k.tag and k.tag.endswith("EventDefinition")]
                items = [Item(Const(k.tag), k.guard, k.many) for k in kids]
                X.cmp_items("exported-event-definitions", subj, items, [EL([Const(d) for d in nc.defs])])
                if meth == "export_xml_file":
                    sh = [y for y in X.all if y.tag == "BPMNShape" and rs(y.attr("bpmnElement"), s.st.asm) == i]
                    y = X.single("exported-shape", subj, sh)
                    if y is not None:
                        X.attrs("exported-shape", subj, y, nc.shape)
            for fid, nm, a, b in flows:
                subj = "%s of flow %r" % (meth, nm)
                x = X.find("flow-exported", subj, "sequenceFlow", fid)
                if x is not None:
                    parent_is(X, "flow-exported", subj, x, "process", L.pid)
                    X.attrs("flow-exported", subj, x, {"name": nm, "sourceRef": a, "targetRef": b})
            x = X.find("process-exported", meth, "process", L.pid)
            if x is not None:
                X.attrs("process-exported", meth, x, {"name": L.pname, "isClosed": tf(s, L.pclosed),
                                                      "isExecutable": tf(s, L.pexec), "processType": L.ptype})
        # a node created again under an id that was in use starts like any other
        for k in (0, 1):
            nm = Tok("renewed%d" % k, "str")
            out = L.call("add_flow_node_to_diagram", process_id=L.pid, node_type=Const("userTask"), name=nm,
                         node_id=made[k][1])
            v = rs(out.value, s.st.asm) if not out.dead else None
            if rep.no_raise("call-accepted", "node created again", out, s) and isinstance(v, Tup):
                rep.diffs("node-as-requested", "node created again", Cmp(s.st).run(v.items[1], ED(
                    {K("id"): made[k][1], K("type"): Const("userTask"), K("node_name"): nm, K("process"): L.pid,
                     K("incoming_flow"): EL([]), K("outgoing_flow"): EL([])}), "node"), s)


# ---------------------------------------------------------------------- C08
def flow_consistent(rep, s, dg, rule, subj, fid, src, dst, name, reg, bound=(), lists=True):
    """registry entry, edge and node lists agree on one flow"""
    K, st = s.const, s.st
    c = Cmp(st)
    c.bound |= set(bound)
    ds = c.run(st.get(reg.addr).slots.get(fid, ABSENT),
               ED({K("name"): name, K("source_ref"): src, K("target_ref"): dst}), "registry[%s]" % show(fid))
    rep.diffs(rule + "-registry", subj, ds, s, s.where(reg.addr, fid))
    e = s.edges(dg)
    k = s.it.edge_key(src, dst)
    c = Cmp(st)
    c.bound |= set(bound)
    ds = c.run(st.get(e.addr).slots.get(k, ABSENT),
               ED({K("id"): fid, K("name"): name, K("source_ref"): src, K("target_ref"): dst}), "edge")
    rep.diffs(rule + "-edge", subj, ds, s, s.where(e.addr, k))


def occurrences(st, v, fid):
    """number of times fid is in the list (None: not decidable)"""
    v = rs(v, st.asm)
    if v is ABSENT:
        return 0
    if not isinstance(v, Ref) or st.get(v.addr).items is None:
        return None
    conds = []
    for i in st.get(v.addr).items:
        for x, g in gleaves(rs(i.v, st.asm), st.asm, i.guard):
            if x == fid:
                if cond_unclean(g):
                    return None
                conds.append(g)
            elif term_unclean(x):
                return None
    if all(g is True for g in conds):
        return len(conds)
    if csimp(cor(*conds), st.asm) is True and not any(
            csimp(cand(a, b), st.asm) is not False for k, a in enumerate(conds) for b in conds[k + 1:]):
        return 1
    return "sometimes"


def lists_consistent(rep, s, dg, rule, ends):
    """ends: fid -> (src, dst). Every list mentions exactly the flows that start / end at the node, once."""
    K, st = s.const, s.st
    nd = s.nodes(dg)
    for nid, v in st.get(nd.addr).slots.items():
        v = rs(v, st.asm)
        if not isinstance(v, Ref):
            continue
        o = st.get(v.addr)
        for key, side in (("outgoing_flow", 0), ("incoming_flow", 1)):
            l = o.slots.get(K(key), ABSENT)
            bad = None
            for fid, e in ends.items():
                n = occurrences(st, l, fid)
                want = 1 if e[side] == nid else 0
                if n is None:
                    bad = bad or (None, "list not understood")
                elif n != want:
                    bad = (True, "%s of node %r lists flow %r %s times instead of %d" % (key, nid, fid, n, want))
                    break
            subj = "%r %s" % (nid, key)
            if bad is None:
                rep.ok(rule, subj)
            elif bad[0] is None or s.it.notes:
                rep.und(rule, subj, bad[1])
            else:
                lv = rs(l, st.asm)
                rep.bad(rule, subj, bad[1], s.where(lv.addr) if isinstance(lv, Ref) else "")


def c08_api(rep, tier):
    for L in lives(rep):
        s = L.scn
        K, st = s.const, s.st
        ids = []
        for k in range(4):
            o = L.call("add_task_to_diagram", process_id=L.pid, task_name=Tok("t%d" % k))
            v = rs(o.value, st.asm) if not o.dead else None
            if not isinstance(v, Tup):
                rep.und("setup", L.variant, "task")
                return
            ids.append(v.items[0])
        if L.variant == "loaded":
            ids += [n["id"] for n in L.F.nodes if n["nid"] in ("a.task", "b.task", "b.endEvent")]
        reg = st.res(s.attr(L.dg, "sequence_flows"))
        pairs = list(zip(ids, ids[1:])) + [(ids[0], ids[2]), (ids[3], ids[0]), (ids[1], ids[1])]
        ends = {}
        for k, (a, b) in enumerate(pairs):
            subj = "%s: flow %d" % (L.variant, k)
            snap = st.fork()
            names = paths(st, L.dg)
            pre = reach(st, [L.dg])
            la, lb = attr_of(s, L.dg, a, "outgoing_flow"), attr_of(s, L.dg, b, "incoming_flow")
            nm = Tok("fname%d" % k)
            out = L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a, target_ref_id=b,
                         sequence_flow_name=nm) if k != 1 else \
                L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a, target_ref_id=b)
            if k == 1:
                nm = Const("")
            if not rep.no_raise("call-accepted", subj, out, s) and out.dead:
                continue
            v = rs(out.value, st.asm)
            if not isinstance(v, Tup) or len(v.items) != 2:
                rep.bad("returns-pair", subj, "returned %s" % show(v))
                continue
            fid, ref = v.items
            ends[fid] = (a, b)
            flow_consistent(rep, s, L.dg, "call", subj, fid, a, b, nm, reg)
            e = s.edges(L.dg)
            ek = s.it.edge_key(a, b)
            rep.diffs("returns-live-record", subj, Cmp(st).run(st.get(e.addr).slots.get(ek, ABSENT), ref, "edge record"), s)
            rep.diffs("flow-process", subj, Cmp(st).run(ref, ED({K("process"): L.pid}), "edge"), s)
            # waypoints connect the two nodes
            xa, ya = attr_of(s, L.dg, a, "x"), attr_of(s, L.dg, a, "y")
            xb, yb = attr_of(s, L.dg, b, "x"), attr_of(s, L.dg, b, "y")
            rep.diffs("flow-waypoints", subj, Cmp(st).run(ref, ED({K("waypoints"): EL([Tup((xa, ya)), Tup((xb, yb))])}),
                                                         "edge"), s)
            ok_addr = {x.addr for x in (la, lb) if isinstance(x, Ref)}
            untouched(rep, s, "rest-untouched", subj, snap, pre,
                      lambda c: c.addr in ok_addr and c.key == "items" or c.addr == reg.addr and c.key == fid or
                      c.addr == e.addr and c.key == ek or
                      c.key == "order" and c.addr in (reg.addr, e.addr), names)
        lists_consistent(rep, s, L.dg, "lists-exact", ends)
        for nid in ids:
            for key, side in (("outgoing_flow", 0), ("incoming_flow", 1)):
                want = [f for f, e in ends.items() if e[side] == nid]
                l = rs(attr_of(s, L.dg, nid, key), st.asm)
                if not isinstance(l, Ref) or st.get(l.addr).items is None:
                    continue
                got = [x for i in st.get(l.addr).items for x, g in gleaves(rs(i.v, st.asm), st.asm, i.guard) if x in want]
                if len(want) > 1 and len(got) == len(want):
                    if got == want:
                        rep.ok("listed-in-order", "%s: %r %s" % (L.variant, nid, key))
                    else:
                        (rep.und if s.it.notes else rep.bad)(
                            "listed-in-order", "%s: %r %s" % (L.variant, nid, key),
                            "flows created as %s are listed as %s" % (want, got), s.where(l.addr))


def c08_xml(rep, tier):
    for r in runs(rep, tiers(tier)):
        if not load_ok(rep, r):
            continue
        s, F = r.scn, r.F
        K, st = s.const, s.st
        reg = st.res(s.attr(r.dg, "sequence_flows"))
        ends = {}
        for f in F.flows:
            nm = default_of(f["attrs"]["name"], "")
            if f["cond"] is not None:
                # an unnamed conditional flow may be labelled with its condition
                alt = f["cond"].kids[0]
            b = {f["seg"]} if f["seg"] else set()
            subj = "%s: flow %s" % (r.variant, f["fid"])
            ends[f["id"]] = (f["src"]["id"], f["dst"]["id"])
            e = s.edges(r.dg)
            k = s.it.edge_key(f["src"]["id"], f["dst"]["id"])
            ed = rs(st.get(e.addr).slots.get(k, ABSENT), st.asm)
            got_name = st.get(ed.addr).slots.get(K("name"), ABSENT) if isinstance(ed, Ref) else nm
            flow_consistent(rep, s, r.dg, "xml", subj, f["id"], f["src"]["id"], f["dst"]["id"],
                            got_name if f["cond"] is not None else nm, reg, b)
        co = st.res(s.attr(r.dg, "collaboration"))
        mreg = rs(st.get(co.addr).slots.get(K("message_flows"), ABSENT), st.asm)
        for f in F.mflows:
            nm = default_of(f["attrs"]["name"], "")
            b = {f["seg"]} if f["seg"] else set()
            ends[f["id"]] = (f["src"]["id"], f["dst"]["id"])
            if isinstance(mreg, Ref):
                flow_consistent(rep, s, r.dg, "xml-message", "%s: %s" % (r.variant, f["fid"]), f["id"], f["src"]["id"],
                                f["dst"]["id"], nm, mreg, b)
            else:
                rep.bad("xml-message-registry", "%s: %s" % (r.variant, f["fid"]), "no message flow registry")
        lists_consistent(rep, s, r.dg, "lists-exact", ends)
        # no other registry entries
        want = {f["id"] for f in F.flows}
        for k, v in st.get(reg.addr).slots.items():
            if k not in want:
                rep.diffs("no-other-flow", "%s: %r" % (r.variant, k), Cmp(st).run(v, EGone(), "registry"), s)
        rep.ok("no-other-flow", "%s: registry has %d flows" % (r.variant, len(want)))


# ---------------------------------------------------------------------- C09
FILE_EFFECTS = ("makedirs", "mkdir", "open", "xmlwrite", "remove", "rename", "rmtree", "unlink", "write_dot", "dotwrite")


def file_effects(st, n0):
    out = []
    for w in st.get("WORLD").items[n0:]:
        for v in leaves(w.v):
            if isinstance(v, Tup) and isinstance(v.items[0], Const) and v.items[0].v in FILE_EFFECTS:
                out.append(v)
    return out


def rejected(rep, s, dg, subj, out, snap, pre, names, n0, rule="rejected"):
    """every outcome is the library error, and at that point nothing has changed"""
    if not out.dead:
        (rep.und if s.it.notes else rep.bad)(rule, subj, "the call is accepted (returns %s)" % show(out.value))
        return
    for c, name, loc, msg, leaf in out.raises:
        if c is False:
            continue
        at = "%s:%s" % loc if loc else ""
        if name != LIB_ERROR:
            (rep.und if s.it.notes or cond_unclean(c) else rep.bad)(
                rule, subj, "fails with %s instead of the library error" % name, at) \
                if not (s.it.notes or cond_unclean(c)) else rep.und(rule, subj, "may fail with " + name)
            continue
        rep.ok(rule, subj)

        class Fake(object):
            pass
        f = Fake()
        f.st, f.it, f.where = leaf.st, s.it, s.where
        untouched(rep, f, "rejected-untouched", subj, snap, pre, names=names)
        fx = file_effects(leaf.st, n0)
        rep.check("rejected-no-file", subj, not fx, "file-system effect before the error: %s" % (fx[:1],))


def c09(rep, tier):
    # gateway directions
    for state in ("new", "loaded"):
        for meth, extra in (("add_exclusive_gateway_to_diagram", {}), ("add_inclusive_gateway_to_diagram", {}),
                            ("add_parallel_gateway_to_diagram", {}),
                            ("add_gateway_to_diagram", {"gateway_type": Const("complexGateway")})):
            if state == "loaded" and meth not in ("add_exclusive_gateway_to_diagram", "add_parallel_gateway_to_diagram") \
                    and tier != "thorough":
                continue
            L = Live(rep, state) if state == "new" or meth == "add_exclusive_gateway_to_diagram" else L
            if not L.ok:
                rep.und("setup", state, "no diagram")
                break
            s = L.scn
            if state == "new":
                L.call("add_task_to_diagram", process_id=L.pid, task_name=Tok("t0"), node_id=Tok("t0", "str", True, "id"))
                for d in DIRS:
                    out = L.call(meth, process_id=L.pid, gateway_direction=Const(d), **extra)
                    subj = "%s: %s direction %s" % (state, meth, d)
                    if rep.no_raise("documented-value-accepted", subj, out, s):
                        v = rs(out.value, s.st.asm)
                        if isinstance(v, Tup):
                            rep.diffs("documented-value-stored", subj, Cmp(s.st).run(
                                v.items[1], ED({s.const("gateway_direction"): Const(d)}), "gateway"), s)
                out = L.call(meth, process_id=L.pid, **extra)
                rep.no_raise("documented-value-accepted", "%s: %s default direction" % (state, meth), out, s)
            for kind, bad in (("unknown word", other_tok(s, "dir", DIRS)), ("lower case", Const("mixed")),
                              ("empty", Const(""))):
                for nid in (True, False):
                    if kind != "unknown word" and not nid:
                        continue
                    base = s.st.fork()
                    snap = s.st.fork()
                    names = paths(s.st, L.dg)
                    pre = reach(s.st, [L.dg])
                    n0 = len(s.world())
                    kw = dict(extra, process_id=L.pid, gateway_direction=bad, gateway_name=Tok("gname"))
                    if nid:
                        kw["node_id"] = Tok("gnew", "str", True, "id")
                    out = L.call(meth, **kw)
                    rejected(rep, s, L.dg, "%s: %s with %s%s" % (state, meth, kind, "" if nid else ", no id"), out, snap,
                             pre, names, n0)
                    s.st.become(base)
            if state == "new" or meth == "add_parallel_gateway_to_diagram":
                rep.absorb(s)
    # CSV export needs exactly one start
    for label, starts, tasks in (("no start at all", 0, 0), ("two start events", 2, 0), ("a start event and a loose task", 1, 1),
                                 ("two loose tasks", 0, 2), ("a cycle without start", 0, -1),
                                 ("a start event and another one without flows", 2, 0),
                                 ("a start event and a task without flows", 1, 1)):
        L = Live(rep, "new")
        s = L.scn
        ids = []
        for k in range(starts):
            ids.append(rs(L.call("add_start_event_to_diagram", process_id=L.pid, start_event_name=Tok("s%d" % k)).value,
                          s.st.asm).items[0])
        for k in range(abs(tasks)):
            ids.append(rs(L.call("add_task_to_diagram", process_id=L.pid, task_name=Tok("t%d" % k)).value,
                          s.st.asm).items[0])
        if tasks < 0:
            b = rs(L.call("add_task_to_diagram", process_id=L.pid, task_name=Tok("tb")).value, s.st.asm).items[0]
            c = rs(L.call("add_task_to_diagram", process_id=L.pid, task_name=Tok("tc")).value, s.st.asm).items[0]
            for x, y in ((ids[0], b), (b, c), (c, ids[0])):
                L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=x, target_ref_id=y)
        elif ids:
            e = rs(L.call("add_end_event_to_diagram", process_id=L.pid, end_event_name=Tok("e")).value, s.st.asm).items[0]
            for x in ids[:1] if "without flows" in label else ids:
                L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=x, target_ref_id=e)
        snap = s.st.fork()
        names = paths(s.st, L.dg)
        pre = reach(s.st, [L.dg])
        n0 = len(s.world())
        out = L.call("export_csv_file", Tok("dir", nonempty=True), Tok("file", nonempty=True))
        rejected(rep, s, L.dg, "CSV export, " + label, out, snap, pre, names, n0, "csv-rejected")
        rep.absorb(s)
    rep.scn.append("gateway calls with documented and undocumented directions; CSV exports without exactly one start")


# ---------------------------------------------------------------------- C10
def c10(rep, tier):
    for L in lives(rep):
        s = L.scn
        st = s.st
        K = s.const
        seen = {}

        def judge(subj, v, us):
            v = rs(v, st.asm)
            ok, txt = fresh_id(v, us)
            if ok is None or s.it.notes and ok is False:
                rep.und("fresh-id", subj, txt)
            elif ok:
                rep.ok("fresh-id", subj)
                if v in seen:
                    rep.bad("unique-id", subj, "same id as %s" % seen[v])
                else:
                    rep.ok("unique-id", subj)
                seen[v] = subj
            else:
                rep.bad("fresh-id", subj, txt)
        if L.variant == "new":
            us = uuids_since(s, 0)
            da, pa = st.res(s.attr(L.dg, "diagram_attributes")), st.res(s.attr(L.dg, "plane_attributes"))
            judge("diagram id", st.get(da.addr).slots.get(K("id"), ABSENT), us)
            judge("plane id", st.get(pa.addr).slots.get(K("id"), ABSENT), us)
            judge("process id", L.pid, us)
        for k in range(2):
            n0 = len(s.world())
            o = L.call("add_process_to_diagram", process_name=Tok("pp%d" % k))
            us = uuids_since(s, n0)
            judge("%s: process %d" % (L.variant, k), o.value if not o.dead else TOP, us)
            pa = st.res(s.attr(L.dg, "plane_attributes"))
            judge("%s: plane of process %d" % (L.variant, k), st.get(pa.addr).slots.get(K("id"), ABSENT), us)
        calls = node_calls(s, L.pid, "") + node_calls(s, L.pid, "again.")
        ids = []
        for nc in calls:
            n0 = len(s.world())
            o = L.call(nc.meth, **nc.kw)
            v = rs(o.value, st.asm) if not o.dead else TOP
            subj = "%s: %s" % (L.variant, nc.label)
            if not isinstance(v, Tup):
                rep.und("fresh-id", subj, "no pair returned")
                continue
            us = uuids_since(s, n0)
            if "node_id" in nc.kw:
                rep.diffs("given-id-kept", subj, Cmp(st).run(v.items[0], nc.kw["node_id"], "id"), s)
            else:
                judge(subj, v.items[0], us)
            ids.append(v.items[0])
            if nc.defs and isinstance(v.items[1], Ref):
                el = rs(st.get(v.items[1].addr).slots.get(K("event_definitions"), ABSENT), st.asm)
                if isinstance(el, Ref):
                    for it in st.get(el.addr).items or ():
                        d = rs(it.v, st.asm)
                        if isinstance(d, Ref):
                            judge(subj + " event definition", st.get(d.addr).slots.get(K("id"), ABSENT), us)
        for k in range(3):
            n0 = len(s.world())
            o = L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=ids[k], target_ref_id=ids[k + 1])
            v = rs(o.value, st.asm) if not o.dead else TOP
            judge("%s: flow %d" % (L.variant, k), v.items[0] if isinstance(v, Tup) else TOP, uuids_since(s, n0))
        if L.variant == "new":
            n0 = len(s.world())
            L.call("create_new_diagram_graph", Tok("again"))
            da = st.res(s.attr(L.dg, "diagram_attributes"))
            judge("second diagram id", st.get(da.addr).slots.get(K("id"), ABSENT), uuids_since(s, n0))


# ---------------------------------------------------------------------- C24
def pair_list(s, got):
    v = rs(got, s.st.asm)
    if isinstance(v, Phi):
        return None
    try:
        return s.it.items_of(s.st, v)
    except Exception:
        return None


def expect_items(rep, s, rule, subj, out, want, flows=False):
    """want: list of (id, ref, many). The result holds exactly these, in any order."""
    if not rep.no_raise(rule, subj, out, s) and out.dead:
        return
    st = s.st
    its = pair_list(s, out.value)
    if its is None:
        (rep.und if s.it.notes or term_unclean(out.value) or isinstance(out.value, Phi) else rep.bad)(
            rule, subj, "returned %s instead of a list of elements" % show(out.value))
        return
    left = list(want)
    for it, v, g in [(it, v, g) for it in its for v, g in gleaves(rs(it.v, st.asm), st.asm, it.guard)]:
        key = v
        if flows and isinstance(v, Tup) and len(v.items) == 3:
            key = v.items[2]
        m = [w for w in left if w[0] == key or (isinstance(w[0], Tup) and w[0] == v)]
        if not m:
            (rep.und if s.it.notes or term_unclean(v) or cond_unclean(g) else rep.bad)(
                rule, subj, "returns %s, which does not match or is repeated%s" % (
                    show(v), "" if g is True else " (when %s)" % show(g)))
            return
        if g is not True:
            (rep.und if s.it.notes or cond_unclean(g) else rep.bad)(
                rule, subj, "returns %s only when %s" % (show(v), show(g)))
            return
        if it.many != m[0][1]:
            (rep.und if s.it.notes else rep.bad)(rule, subj, "%s returned once per %r instead of once per %r" % (
                show(v), it.many, m[0][1]))
            return
        left.remove(m[0])
    if left:
        (rep.und if s.it.notes else rep.bad)(rule, subj, "%s is missing from the result" % show(left[0][0]))
    else:
        rep.ok(rule, subj)


def imported(rep):
    """diagrams read from CSV tables; their own tables are the reference"""
    from . import csvx
    for name in list(csvx.TABLES)[::4]:
        L = csvx.CsvRun(rep, "CSV table '%s'" % name, csvx.TABLES[name])
        if L.ok:
            rep.scn.append(L.variant)
            yield L
        else:
            rep.und("setup", L.variant, "not imported")
        rep.absorb(L.scn)


def own_tables(L):
    s, st, K = L.scn, L.scn.st, L.scn.const

    def field(o, k):
        return rs(st.get(o.addr).slots.get(K(k), ABSENT), st.asm)
    nodes, flows = [], []
    for i, r in st.get(s.nodes(L.dg).addr).slots.items():
        r = rs(r, st.asm)
        if isinstance(r, Ref) and isinstance(field(r, "type"), Const):
            nodes.append((i, field(r, "type").v, field(r, "process"), None, None))
        elif r is not ABSENT:
            return None, None
    for i, r in st.get(s.edges(L.dg).addr).slots.items():
        r = rs(r, st.asm)
        if isinstance(r, Ref):
            flows.append((field(r, "id"), field(r, "source_ref"), field(r, "target_ref"), field(r, "process"), None, None))
        elif r is not ABSENT:
            return None, None
    return nodes, flows


def c24(rep, tier):
    for L in itertools.chain(lives(rep, ("loaded", "new")), imported(rep)):
        s = L.scn
        st = s.st
        K = s.const
        if L.variant == "new":
            pid2 = L.call("add_process_to_diagram", process_name=Tok("second")).value
            made = []
            for k, nc in enumerate(node_calls(s, L.pid, "")):
                if k % 3 == 0:
                    nc.kw["process_id"] = pid2
                o = L.call(nc.meth, **nc.kw)
                v = rs(o.value, st.asm)
                if isinstance(v, Tup):
                    made.append((v.items[0], nc.kind, nc.kw["process_id"], None, None))
            nodes = made
            flows = []
            for (a, b) in zip(made, made[1:5]):
                o = L.call("add_sequence_flow_to_diagram", process_id=a[2], source_ref_id=a[0], target_ref_id=b[0])
                v = rs(o.value, st.asm)
                if isinstance(v, Tup):
                    flows.append((v.items[0], a[0], b[0], a[2], None, None))
        elif L.F is None:
            nodes, flows = own_tables(L)
            if not nodes:
                rep.und("setup", L.variant, "the imported tables are not definite")
                continue
        else:
            F = L.F
            nodes = [(n["id"], n["kind"], n["owner"], n["seg"], n["seg"]) for n in F.nodes]
            nodes += [(p["id"], "participant", None, p["many"], p["seg"]) for p in F.parts if p["proc"] is None]
            flows = [(f["id"], f["src"]["id"], f["dst"]["id"], f["owner"], f["seg"], f["seg"])
                     for f in F.flows + F.mflows]
        nd, ed = st.get(s.nodes(L.dg).addr).slots, st.get(s.edges(L.dg).addr).slots

        def npair(n):
            return (Tup((n[0], rs(nd.get(n[0], ABSENT), st.asm))), n[3])

        def fref(f):
            return (rs(ed.get(s.it.edge_key(f[1], f[2]), ABSENT), st.asm), f[4])
        v = L.variant
        expect_items(rep, s, "all-nodes", v, L.call("get_nodes"), [npair(n) for n in nodes])
        expect_items(rep, s, "all-flows", v, L.call("get_flows"), [fref(f) for f in flows], True)
        kinds = sorted({n[1] for n in nodes}) + ["noSuchKind", "Task", "Gateway", "Event", "Tas", "start", "TASK"]
        for k in kinds:
            expect_items(rep, s, "nodes-of-kind", "%s: %s" % (v, k), L.call("get_nodes", Const(k)),
                         [npair(n) for n in nodes if n[1] == k])
            expect_items(rep, s, "ids-of-kind", "%s: %s" % (v, k), L.call("get_nodes_id_list_by_type", Const(k)),
                         [(n[0], n[3]) for n in nodes if n[1] == k])
        owners = []
        for n in nodes:
            if n[2] is not None and n[2] not in owners:
                owners.append(n[2])
        def missing(n):
            return Tok(n, "str", True, "id") if L.variant in ("new", "loaded") else Const("there is no " + n)
        for p in owners + [missing("noproc")]:
            if isinstance(p, Tok) and p.seg:
                continue
            expect_items(rep, s, "nodes-of-process", "%s: %r" % (v, p), L.call("get_nodes_list_by_process_id", p),
                         [npair(n) for n in nodes if n[2] == p])
            expect_items(rep, s, "flows-of-process", "%s: %r" % (v, p), L.call("get_flows_list_by_process_id", p),
                         [fref(f) for f in flows if f[3] == p], True)
        ns = [n for n in nodes if not n[4]]
        for n in ns[::3] + ns[-1:]:
            o = L.call("get_node_by_id", n[0])
            if rep.no_raise("node-by-id", "%s: %r" % (v, n[0]), o, s):
                rep.diffs("node-by-id", "%s: %r" % (v, n[0]), Cmp(st, depth=400).run(o.value, npair(n)[0], "result"), s)
        fs = [f for f in flows if not f[5]]
        for f in fs[::3] + fs[-1:]:
            o = L.call("get_flow_by_id", f[0])
            if rep.no_raise("flow-by-id", "%s: %r" % (v, f[0]), o, s):
                ref = fref(f)[0]
                rep.diffs("flow-by-id", "%s: %r" % (v, f[0]), Cmp(st, depth=400).run(o.value, EPred(
                    lambda g, asm: isinstance(g, Tup) and len(g.items) == 3 and g.items[2] == ref and
                    {rs(g.items[0], asm), rs(g.items[1], asm)} == {f[1], f[2]}, "flow %r" % (f[0],)), "result"), s)
        for meth in ("get_node_by_id", "get_flow_by_id"):
            o = L.call(meth, missing("missing"))
            if rep.no_raise("by-id-missing", "%s: %s" % (v, meth), o, s):
                rep.diffs("by-id-missing", "%s: %s" % (v, meth), Cmp(st, depth=400).run(o.value, NONE, "result"), s)
        o = L.call("get_nodes_positions")
        if rep.no_raise("positions", v, o, s):
            r = rs(o.value, st.asm)
            if not isinstance(r, Ref) or st.get(r.addr).kind != "dict":
                rep.bad("positions", v, "returned %s" % show(r))
                continue
            got = st.get(r.addr).slots
            for n in nodes:
                rec = npair(n)[0].items[1]
                if not isinstance(rec, Ref):
                    continue
                x, y = (st.get(rec.addr).slots.get(K(k), ABSENT) for k in ("x", "y"))
                fx, fy = (s.it.num(st, [q], float, "float") for q in (x, y))
                rep.diffs("positions", "%s: %r" % (v, n[0]), Cmp(st).run(got.get(n[0], ABSENT), Tup((fx, fy)), "position"), s)
            want = {n[0] for n in nodes}
            for k in got:
                if k not in want:
                    rep.diffs("positions", "%s: extra %r" % (v, k), Cmp(st).run(got[k], EGone(), "position"), s)


def c08(rep, tier):
    c08_api(rep, tier)
    c08_xml(rep, tier)
