"""Rules on what calls may change (C11, C12) and on what they count (C14)."""
import contextlib
from .common import *
from .api import Live, node_calls
from .shapes import *
from .xmlrt import runs, tiers, load_ok
from .. import docs

METRICS = ("get_nodes_count", "get_all_gateways", "get_gateway_counts", "get_events_counts", "get_activities_counts",
           "all_activities_count", "all_gateways_count", "all_control_flow_elements_count", "all_events_count",
           "TNSE_metric", "TNIE_metric", "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric",
           "NumberOfNodes_metric", "GatewayHeterogenity_metric", "CoefficientOfNetworkComplexity_metric",
           "AverageGatewayDegree_metric", "DurfeeSquare_metric", "PerfectSquare_metric")
LAYOUT_METRICS = ("count_segments", "compute_longest_path", "compute_longest_path_tasks")
QUERIES = (("get_nodes", ()), ("get_flows", ()), ("get_nodes_positions", ()), ("get_nodes", ("kind",)),
           ("get_nodes_id_list_by_type", ("kind",)), ("get_node_by_id", ("node",)), ("get_flow_by_id", ("flow",)),
           ("get_nodes_list_by_process_id", ("proc",)), ("get_flows_list_by_process_id", ("proc",)),
           ("get_node_by_id", ("missing",)), ("get_flow_by_id", ("missing",)))


@contextlib.contextmanager
def trial(rep, s):
    """Run something on the current state and forget its effects (and its imprecision) afterwards."""
    base, notes = s.st.fork(), dict(s.it.notes)
    try:
        yield base.fork()
    finally:
        for k, n in s.it.notes.items():
            if k not in notes:
                rep.notes[k] = rep.notes.get(k, 0) + n
        s.it.notes.clear()
        s.it.notes.update(notes)
        s.st.become(base)


def quiet(rep, L, label, f, pre, names):
    s = L.scn
    with trial(rep, s) as snap:
        f()
        untouched(rep, s, "unchanged", "%s: %s" % (L.variant, label), snap, pre, names=names)


def module_fn(s, mod, name):
    m = s.mod(mod)
    v = s.st.get(m.addr).slots.get(name)
    return v


def read_only(rep, L, layout=True, csv=True, crossing=False, visual=True):
    s = L.scn
    names, pre = paths(s.st, L.dg), reach(s.st, [L.dg])
    nd = list(s.st.get(s.nodes(L.dg).addr).slots)
    fl = [f["id"] for f in L.F.flows] if L.F else []
    vals = {"kind": Const("task"), "node": nd[0] if nd else Tok("x"), "flow": fl[0] if fl else Tok("x"),
            "proc": L.pid, "missing": Tok("missing", "str", True, "id")}
    for meth, args in QUERIES:
        quiet(rep, L, "%s(%s)" % (meth, ", ".join(args)), lambda: L.call(meth, *[vals[a] for a in args]), pre, names)
    for meth in ("export_xml_file", "export_xml_file_no_di") + (("export_csv_file",) if csv else ()):
        quiet(rep, L, meth, lambda: L.call(meth, Tok("dir", nonempty=True), Tok("file", nonempty=True)), pre, names)
    todo = [("bpmn_python.bpmn_diagram_metrics", METRICS, ())]
    if layout:
        todo.append(("bpmn_python.diagram_layout_metrics", LAYOUT_METRICS, ()))
    if crossing:
        todo.append(("bpmn_python.diagram_layout_metrics", ("count_crossing_points",), ()))
    if visual:
        todo.append(("bpmn_python.bpmn_diagram_visualizer", ("visualize_diagram",), ()))
        todo.append(("bpmn_python.bpmn_diagram_visualizer", ("bpmn_diagram_to_dot_file", "bpmn_diagram_to_png"),
                     (Tok("path", nonempty=True),)))
    for mod, fns, extra in todo:
        for n in fns:
            fv = module_fn(s, mod, n)
            if fv is None:
                rep.und("unchanged", n, "no such function")
                continue
            quiet(rep, L, n, lambda: s.call(fv, L.dg, *extra), pre, names)


def c11(rep, tier):
    L = Live(rep, "loaded")
    if L.ok:
        read_only(rep, L, layout=False, csv=True)
    rep.absorb(L.scn)
    rep.scn.append("every reader on a diagram loaded from any file of the document family")
    L = Live(rep, "new")
    for nc in node_calls(L.scn, L.pid, ""):
        L.call(nc.meth, **nc.kw)
    read_only(rep, L, csv=True)
    rep.absorb(L.scn)
    L = Live(rep, "new")
    L.variant = "empty"
    read_only(rep, L, csv=True)
    rep.absorb(L.scn)
    small = (([("s", "startEvent"), ("t", "task"), ("e", "endEvent")], [("f0", "s", "t"), ("f1", "t", "e")], None, {}))
    for name in list(SHAPES) + [small]:
        L = Shaped(rep, name)
        if name is small:
            L.variant = "three nodes"
        if L.ok:
            read_only(rep, L, crossing=name is small, visual=name is small)
        rep.absorb(L.scn)
        rep.scn.append("every reader on process shape '%s'" % L.variant)


# ---------------------------------------------------------------------- C12
def ival(v):
    if isinstance(v, Const) and isinstance(v.v, str):
        try:
            return float(v.v)
        except ValueError:
            return None
    if isinstance(v, Const) and type(v.v) in (int, float):
        return v.v
    return None


def layout_rules(rep, L, tag=""):
    s = L.scn
    st = s.st
    K = s.const
    subj = "%s%s" % (L.variant, tag)
    mod = s.mod("bpmn_python.bpmn_diagram_layouter")
    nd, ed = st.get(s.nodes(L.dg).addr).slots, st.get(s.edges(L.dg).addr).slots
    nrec = {rs(v, st.asm).addr: k for k, v in nd.items() if isinstance(rs(v, st.asm), Ref)}
    erec = {rs(v, st.asm).addr: k for k, v in ed.items() if isinstance(rs(v, st.asm), Ref)}
    reg = rs(s.attr(L.dg, "sequence_flows"), st.asm)
    rrec = {rs(v, st.asm).addr for v in st.get(reg.addr).slots.values() if isinstance(rs(v, st.asm), Ref)} \
        if isinstance(reg, Ref) else set()
    old_way = set()
    for a in erec:
        w = rs(st.get(a).slots.get(K("waypoints"), ABSENT), st.asm)
        if isinstance(w, Ref):
            old_way.add(w.addr)
    names, pre, snap = paths(st, L.dg), reach(st, [L.dg]), st.fork()
    out = s.call((mod, "generate_layout"), L.dg)
    if not rep.no_raise("layout-accepts", subj, out, s) and out.dead:
        return
    untouched(rep, s, "only-positions", subj, snap, pre, lambda c: (
        c.addr in nrec and c.key in (K("x"), K("y")) or
        c.addr in erec and c.key == K("waypoints") or c.addr in old_way or
        c.addr in rrec and c.key == K("waypoints")), names)
    und = bool(s.it.notes)
    pos = {}
    for a, k in nrec.items():
        o = st.get(a).slots
        for c in ("x", "y"):
            v = rs(o.get(K(c), ABSENT), st.asm)
            n = ival(v)
            if n is None:
                (rep.und if und or isinstance(v, Phi) or term_unclean(v) else rep.bad)(
                    "node-placed", "%s: %s of %r" % (subj, c, k), "%s is %s, not a coordinate computed by the layout" % (
                        c, show(v)))
            else:
                rep.ok("node-placed", "%s: %s of %r" % (subj, c, k))
            pos.setdefault(k, []).append(n)
    for a, k in erec.items():
        o = st.get(a).slots
        fsub = "%s: %r" % (subj, rs(o.get(K("id"), ABSENT), st.asm))
        w = rs(o.get(K("waypoints"), ABSENT), st.asm)
        its = None
        if isinstance(w, Ref) and st.get(w.addr).kind == "list" and w.addr in st.heap:
            its = [rs(i.v, st.asm) for i in st.get(w.addr).items]
        elif isinstance(w, Tup):
            its = [rs(x, st.asm) for x in w.items]
        pts = []
        for p in its or ():
            q = [rs(x, st.asm) for x in p.items] if isinstance(p, Tup) else \
                [rs(i.v, st.asm) for i in st.get(p.addr).items or ()] if isinstance(p, Ref) else []
            pts.append([ival(x) for x in q])
        if not pts or len(pts) < 2 or any(len(p) != 2 or None in p for p in pts):
            (rep.und if und or isinstance(w, Phi) or term_unclean(w) or any(isinstance(i, Phi) for i in its or ())
             else rep.bad)("flow-routed", fsub, "waypoints are %s" % (its,))
            continue
        src, dst = rs(o.get(K("source_ref"), ABSENT), st.asm), rs(o.get(K("target_ref"), ABSENT), st.asm)
        for what, p, n in (("starts at its source", pts[0], src), ("ends at its target", pts[-1], dst)):
            b = pos.get(n)
            if not b or None in b:
                rep.und("flow-routed", fsub, "position of %r unknown" % (n,))
                continue
            okp = b[0] <= p[0] <= b[0] + 100 and b[1] <= p[1] <= b[1] + 100
            if okp:
                rep.ok("flow-routed", "%s %s" % (fsub, what))
            else:
                (rep.und if und else rep.bad)("flow-routed", "%s %s" % (fsub, what),
                                              "waypoint %s is not at node %r placed at %s" % (p, n, b))


def layout_shapes(tier):
    out = dict(SHAPES)

    def add(name, nodes, flows, attrs=None):
        out[name] = (nodes, flows, attrs, {})
    ks = [k for k in KINDS]
    add("isolated nodes of every kind", [("n." + k, k) for k in ks], [])
    add("two of every kind", [("n." + k, k) for k in ks] + [("m." + k, k) for k in ks],
        [("f." + k, "n." + k, "m." + k) for k in ks if k != "dataObject"])
    for n in (4, 5) if tier != "thorough" else (4, 5, 6, 7):
        for g in ("exclusiveGateway", "complexGateway", "eventBasedGateway"):
            x = split(g, n)
            add("%d branches, %s" % (n, g), *x)
    for g in KINDS:
        if g in ("dataObject", "startEvent", "endEvent"):
            continue
        add("split and join at " + g, [("s", "startEvent"), ("a", g), ("b", "task"), ("c", "task"), ("d", g), ("e", "endEvent")],
            [("f0", "s", "a"), ("f1", "a", "b"), ("f2", "a", "c"), ("f3", "b", "d"), ("f4", "c", "d"), ("f5", "d", "e")])
    add("loop through a join", [("s", "startEvent"), ("j", "exclusiveGateway"), ("t", "task"), ("g", "exclusiveGateway"),
                                ("e", "endEvent")],
        [("f0", "s", "j"), ("f1", "j", "t"), ("f2", "t", "g"), ("f3", "g", "e"), ("f4", "g", "j")])
    add("two loops", [("s", "startEvent"), ("j", "exclusiveGateway"), ("t", "task"), ("g", "exclusiveGateway"),
                      ("k", "task"), ("u", "userTask"), ("h", "inclusiveGateway"), ("e", "endEvent")],
        [("f0", "s", "j"), ("f1", "j", "t"), ("f2", "t", "g"), ("f3", "g", "k"), ("f4", "g", "j"), ("f5", "k", "u"),
         ("f6", "u", "h"), ("f7", "h", "k"), ("f8", "h", "e")])
    add("two starts joining", [("s", "startEvent"), ("r", "startEvent"), ("t", "task"), ("j", "parallelGateway"),
                               ("e", "endEvent")],
        [("f0", "s", "t"), ("f1", "t", "j"), ("f2", "r", "j"), ("f3", "j", "e")])
    add("cross branches", [("s", "startEvent"), ("g", "parallelGateway"), ("a", "task"), ("b", "task"), ("c", "task"),
                           ("j", "parallelGateway"), ("e", "endEvent"), ("e2", "endEvent")],
        [("f0", "s", "g"), ("f1", "g", "a"), ("f2", "g", "b"), ("f3", "a", "c"), ("f4", "b", "c"), ("f5", "g", "j"),
         ("f6", "c", "j"), ("f7", "j", "e"), ("f8", "a", "e2")])
    # a flow whose ends share a column (joins that are placed before their predecessors)
    conn = [k for k in KINDS if k != "dataObject"]
    few = ("task", "subProcess", "exclusiveGateway", "parallelGateway", "inclusiveGateway", "complexGateway")
    for k1 in conn if tier == "thorough" else few:
        for k2 in conn if tier == "thorough" else ("userTask", "parallelGateway", "inclusiveGateway"):
            add("tangled joins %s, %s" % (k1, k2),
                [("s1", "startEvent"), ("s2", "startEvent"), ("k1", k1), ("k2", k2), ("t", "task")],
                [("f0", "s1", "k1"), ("f1", "s2", "k2"), ("f2", "k1", "k2"), ("f3", "k2", "t"), ("f4", "t", "k1")])
    # flows between any two kinds: straight on, to other rows, and back
    for k1 in conn:
        add("straight from " + k1, [("a." + k, k1) for k in conn] + [("b." + k, k) for k in conn],
            [("f." + k, "a." + k, "b." + k) for k in conn])
        add("fan at " + k1, [("a", k1)] + [("b." + k, k) for k in conn] + [("z", k1)],
            [("f." + k, "a", "b." + k) for k in conn] + [("g." + k, "b." + k, "z") for k in conn])
        ks2 = conn if tier == "thorough" else ("task", "exclusiveGateway", "parallelGateway", "intermediateThrowEvent")
        add("back to " + k1, [x for k in ks2 for x in (("s." + k, "startEvent"), ("j." + k, k1), ("u." + k, "task"),
                                                       ("t." + k, k), ("e." + k, "endEvent"))],
            [x for k in ks2 for x in (("f0." + k, "s." + k, "j." + k), ("f1." + k, "j." + k, "u." + k), ("f4." + k, "u." + k, "t." + k),
                                      ("f2." + k, "t." + k, "e." + k), ("f3." + k, "t." + k, "j." + k))])
    add("long chain", [("n%d" % i, conn[i % len(conn)]) for i in range(20)],
        [("f%d" % i, "n%d" % i, "n%d" % (i + 1)) for i in range(19)])
    return out


def c12(rep, tier):
    for name, spec in layout_shapes(tier).items():
        L = Shaped(rep, spec)
        L.variant = name
        if not L.ok:
            rep.und("setup", name, "not loaded")
            continue
        layout_rules(rep, L)
        rep.absorb(L.scn)
        rep.scn.append("layout of '%s'" % name)
    # built by calls
    L = Live(rep, "new")
    s = L.scn
    ids = []
    for nc in node_calls(s, L.pid, ""):
        v = rs(L.call(nc.meth, **nc.kw).value, s.st.asm)
        if isinstance(v, Tup):
            ids.append(v.items[0])
    for a, b in zip(ids, ids[1:]):
        L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a, target_ref_id=b)
    layout_rules(rep, L, " (built by calls)")
    layout_rules(rep, L, " (built by calls, laid out again)")
    rep.absorb(s)


# ---------------------------------------------------------------------- C14
def tangled(n, seed=3):
    """n deterministic acyclic flow graphs without block structure: their joins and splits compete for the same cells"""
    import random
    kinds = ("task", "userTask", "exclusiveGateway", "parallelGateway", "inclusiveGateway", "intermediateThrowEvent")
    for k in range(n):
        r = random.Random(seed * 1000 + k)
        m = r.randint(4, 8)
        nodes = [("n%d" % i, r.choice(kinds)) for i in range(m)]
        pairs = [(i, j) for i in range(m) for j in range(i + 1, m)]
        flows = [("f%d" % x, "n%d" % i, "n%d" % j) for x, (i, j) in enumerate(r.sample(pairs, min(len(pairs), r.randint(m - 2, 2 * m))))]
        yield "tangle %d" % k, (nodes, flows, None, {})


def c25(rep, tier):
    todo = [(n, x) for n, x in layout_shapes(tier).items() if not n.startswith("straight")]
    todo += list(generated_shapes(60 if tier == "thorough" else 12).items())
    todo += list(tangled(150 if tier == "thorough" else 40))
    for name, spec in todo:
        L = Shaped(rep, spec)
        L.variant = name
        s, st, K = L.scn, L.scn.st, L.scn.const
        if not L.ok:
            rep.und("setup", name, "not loaded")
            continue
        out = s.call((s.mod("bpmn_python.bpmn_diagram_layouter"), "generate_layout"), L.dg)
        if out.dead:
            rep.und("own-position", name, "the layout does not complete")
            continue
        at = {}
        for k, v in st.get(s.nodes(L.dg).addr).slots.items():
            r = rs(v, st.asm)
            if not isinstance(r, Ref):
                continue
            p = tuple(ival(rs(st.get(r.addr).slots.get(K(c), ABSENT), st.asm)) for c in ("x", "y"))
            sub = "%s: %r" % (name, k)
            if None in p:
                rep.und("own-position", sub, "the position is not definite")
            elif p in at:
                (rep.und if s.it.notes else rep.bad)("own-position", sub, "placed at %s, where %r is" % (p, at[p]))
            else:
                rep.ok("own-position", sub)
                at[p] = k
        rep.absorb(s)
        rep.scn.append("layout of '%s'" % name)


def poly(x):
    """polynomial {monomial: coefficient} of a number, or None"""
    if isinstance(x, Const) and type(x.v) in (int, float):
        return {(): x.v} if x.v else {}
    if isinstance(x, Lin) and all(isinstance(t, tuple) for t, _ in x.terms):
        out = {(): x.c} if x.c else {}
        for t, k in x.terms:
            out[(t,)] = k
        return out
    return None


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            out[k] = out.get(k, 0) + c * d
    return {k: v for k, v in out.items() if v}


def ratio(x):
    if isinstance(x, App) and x.op in ("div", "truediv"):
        a, b = ratio(x.args[0]), ratio(x.args[1])
        return None if a is None or b is None else (pmul(a[0], b[1]), pmul(a[1], b[0]))
    p = poly(x)
    return None if p is None else (p, {(): 1})


def same_number(got, want):
    """equal as rational functions of the (arbitrary) numbers of elements; None: not such a function"""
    if isinstance(got, Const) and type(got.v) not in (int, float) or got is ABSENT:
        return False
    a, b = ratio(got), ratio(want)
    if a is None:
        return None
    return pmul(a[0], b[1]) == pmul(a[1], b[0])


def lin(parts):
    n, t = 0, {}
    for m in parts:
        if m is None:
            n += 1
        else:
            t[("N", m)] = t.get(("N", m), 0) + 1
    return Lin(n, t) if t else Const(n)


class Counted(docs.Small):
    """Any positive number of nodes of each of the given kinds, and any number of flows."""

    def __init__(self, kinds, flows, fixed=()):
        docs.Small.__init__(self, [("fix." + k + str(i), k) for i, k in enumerate(fixed)], [])
        p = self.procs[0]
        kids = []
        hub = self.nodes[0] if self.nodes else None
        for k in kinds:
            n = self.node(k, "c." + k, p["id"], p["id"], many="S." + k, gated=False)
            p["el"].kids.append(n["el"])
            kids.append(self.shape(n["id"], n["nid"], many=n["many"]))
            if flows and hub is not None and k != "dataObject":
                f = self.flow("cf." + k, hub, n, p["id"], many="S." + k, gated=False)
                p["el"].kids.append(f["el"])
                kids.append(self.edge(f["id"], f["fid"], many=f["many"]))
        self.plane.kids += kids


GATES_, EVENTS_ = docs.GATES, docs.EVENTS
ACTS = docs.TASKS + ("subProcess",)
DEFN = {
    "TNSE_metric": ("startEvent",), "TNIE_metric": ("intermediateCatchEvent", "intermediateThrowEvent"),
    "TNEE_metric": ("endEvent",), "TNE_metric": EVENTS_, "NOA_metric": ACTS, "NOAC_metric": ACTS + GATES_ + EVENTS_,
    "NOAJS_metric": ACTS + GATES_, "NumberOfNodes_metric": ACTS + GATES_ + EVENTS_,
    "all_activities_count": ACTS, "all_gateways_count": GATES_, "all_events_count": EVENTS_,
    "all_control_flow_elements_count": GATES_ + EVENTS_,
}
TABLES = {"get_gateway_counts": GATES_, "get_events_counts": EVENTS_, "get_activities_counts": ACTS}


def count_rules(rep, L, nodes, flows, tag):
    """nodes: [(id, kind, seg)]; flows: [(src, dst, seg)]"""
    s = L.scn
    st = s.st
    M = "bpmn_python.bpmn_diagram_metrics"

    def ask(fn, rule, label, want, *a):
        fv = module_fn(s, M, fn)
        subj = "%s: %s" % (tag, label)
        if fv is None:
            rep.und(rule, subj, "no such function")
            return
        with trial(rep, s):
            o = s.call(fv, L.dg, *a)
            if not rep.no_raise(rule, subj, o, s) and o.dead:
                return
            if callable(want):
                want(o, rule, subj)
            else:
                rep.diffs(rule, subj, Cmp(st).run(o.value, EPred(lambda g, asm: same_number(g, want), repr(want)), fn), s)
    n = lambda ks: lin([x[2] for x in nodes if x[1] in ks])
    ask("get_nodes_count", "count", "get_nodes_count()", lin([x[2] for x in nodes]))
    for k in docs.KINDS:
        ask("get_nodes_count", "count", "get_nodes_count(%s)" % k, n((k,)), Const(k))
    for f, ks in DEFN.items():
        ask(f, "count", f, n(ks))
    for f, ks in TABLES.items():
        def table(o, rule, subj, ks=ks):
            rep.diffs(rule, subj, Cmp(st).run(o.value, ED({Const(k): EPred(
                lambda g, asm, w=n((k,)): same_number(g, w), repr(n((k,)))) for k in ks}, exact=True), "result"), s)
        ask(f, "count-table", f, table)
    nn, nf = lin([x[2] for x in nodes]), lin([x[2] for x in flows])
    ask("CoefficientOfNetworkComplexity_metric", "ratio", "CoefficientOfNetworkComplexity_metric",
        div(nf, nn) if nodes else Const(0.0))
    gs = [x for x in nodes if x[1] in GATES_]
    if not gs:
        ask("AverageGatewayDegree_metric", "ratio", "AverageGatewayDegree_metric", Const(0.0))
    elif not any(g[2] for g in gs):
        tot = lin([f[2] for f in flows for e in f[:2] if any(e == g[0] for g in gs)])
        ask("AverageGatewayDegree_metric", "ratio", "AverageGatewayDegree_metric", div(tot, Const(len(gs))))
    ask("GatewayHeterogenity_metric", "count", "GatewayHeterogenity_metric", Const(len({g[1] for g in gs})))

    def gates(o, rule, subj):
        its = None
        try:
            its = s.it.items_of(st, rs(o.value, st.asm))
        except Exception:
            pass
        if its is None:
            rep.und(rule, subj, "not iterable: %s" % show(o.value))
            return
        nd = st.get(s.nodes(L.dg).addr).slots
        want = [(Tup((g[0], rs(nd.get(g[0], ABSENT), st.asm))), g[2]) for g in gs]
        got = [(rs(i.v, st.asm), i.many) for i in its if csimp(i.guard, st.asm) is not False]
        if all(csimp(i.guard, st.asm) in (True, False) for i in its) and sorted(map(repr, got)) == sorted(map(repr, want)):
            rep.ok(rule, subj)
        else:
            (rep.und if s.it.notes else rep.bad)(rule, subj, "returns %s instead of %s" % (
                [g[0].items[0] if isinstance(g[0], Tup) else g[0] for g in got][:8], [w[0].items[0] for w in want][:8]))
    ask("get_all_gateways", "gateways", "get_all_gateways", gates)


def div(a, b):
    if isinstance(a, Const) and isinstance(b, Const):
        return Const(float(a.v) / float(b.v))
    return App("div", (a, b))


def fam_nodes(F):
    ns = [(n["id"], n["kind"], n["seg"]) for n in F.nodes]
    return ns + [(p["id"], "participant", p["seg"]) for p in F.parts if p["proc"] is None]


def fam_flows(F):
    return [(f["src"]["id"], f["dst"]["id"], f["seg"]) for f in F.flows + F.mflows]


def load_family(rep, F, name):
    L = Live.__new__(Live)
    L.rep, L.variant, L.exports, L.F = rep, name, {}, F
    L.scn = s = Scn(rep.repo)
    L.dg = s.diagram()
    install(s.it, s.st, F.root)
    L.load = s.call((L.dg, "load_diagram_from_xml_file"), Tok("path", nonempty=True))
    L.ok = L.loaded = not L.load.dead
    L.pid = F.procs[0]["id"]
    return L


def c14(rep, tier):
    L = Live(rep, "loaded")
    count_rules(rep, L, fam_nodes(L.F), fam_flows(L.F), "loaded")
    rep.absorb(L.scn)
    rep.scn.append("all counts on a diagram loaded from any file of the document family")
    cases = [("any number of every kind", docs.KINDS, True, ("task",)), ("no flows", docs.KINDS, False, ("task",)),
             ("hub gateway", docs.KINDS[:6] + EVENTS_, True, ("exclusiveGateway", "complexGateway")),
             ("only tasks", ("task",), True, ("task",)), ("only gateways", (), True, GATES_)]
    for k in docs.KINDS:
        cases.append(("only " + k, (k,), False, ()))
        cases.append(("all but " + k, tuple(x for x in docs.KINDS if x != k), False, ()))
    for name, kinds, flows, fixed in cases:
        F = Counted(kinds, flows, fixed)
        L = load_family(rep, F, name)
        if not L.ok:
            rep.und("setup", name, "not loaded")
            continue
        count_rules(rep, L, fam_nodes(F), fam_flows(F), name)
        rep.absorb(L.scn)
        rep.scn.append("all counts: " + name)
    for name in ("nested branches", "three branches, exclusive, default"):
        L = Shaped(rep, name)
        count_rules(rep, L, fam_nodes(L.F), fam_flows(L.F), name)
        rep.absorb(L.scn)
    L = Live(rep, "new")
    count_rules(rep, L, [], [], "empty diagram")
    made, flows = [], []
    for nc in node_calls(L.scn, L.pid, ""):
        v = rs(L.call(nc.meth, **nc.kw).value, L.scn.st.asm)
        if isinstance(v, Tup):
            made.append((v.items[0], nc.kind, None))
    for a, b in zip(made, made[1:]):
        L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a[0], target_ref_id=b[0])
        flows.append((a[0], b[0], None))
    count_rules(rep, L, made, flows, "built by calls")
    rep.absorb(L.scn)

# ---------------------------------------------------------------------- C27
def simple_paths(nodes, flows, complete):
    """simple paths from a node without incoming flows; complete: only those that end where no flow leaves"""
    succ = {i: [] for i, _ in nodes}
    for f in flows:
        succ[f[1]].append(f[2])
    inc = {f[2] for f in flows}
    out = []

    def walk(path):
        nxt = [t for t in succ[path[-1]] if t not in path]
        if not succ[path[-1]] or not nxt and not complete:
            out.append(tuple(path))
        for t in nxt:
            walk(path + [t])
    for i, _ in nodes:
        if i not in inc:
            walk([i])
    return out


def path_shapes(tier):
    conn = [k for k in KINDS if k not in ("startEvent", "endEvent", "dataObject")]
    T = lambda *ids: [(i, "task") for i in ids]
    F = lambda *ps: [("f%d" % n, a, b) for n, (a, b) in enumerate(ps)]
    S, E = [("s", "startEvent")], [("e", "endEvent")]
    yield "no nodes", ([], [], None, {})
    yield "pools without a process", (S + T("a", "b") + E, F(("s", "a"), ("a", "b"), ("b", "e")), None, {"pools": 2})
    yield "only pools", ([], [], None, {"pools": 2})
    yield "loop on one task", (S + T("a") + E, F(("s", "a"), ("a", "a"), ("a", "e")), None, {})
    yield "loop on one sub-process", (S + [("a", "subProcess")] + T("b") + E,
                                      F(("s", "a"), ("a", "a"), ("a", "b"), ("b", "e")), None, {})
    yield "loop back", (S + T("a", "b", "c", "d") + E, F(("s", "a"), ("a", "b"), ("b", "d"), ("d", "a"), ("b", "c"), ("c", "e")), None, {})
    yield "way into a cycle", (S + T("a", "b", "c", "d") + E, F(("s", "a"), ("a", "b"), ("b", "c"), ("c", "d"), ("d", "b"), ("a", "e")), None, {})
    yield "only a cycle", (T("a", "b", "c"), F(("a", "b"), ("b", "c"), ("c", "a")), None, {})
    yield "never ends", (S + T("a", "b", "c"), F(("s", "a"), ("a", "b"), ("b", "c"), ("c", "a")), None, {})
    yield "several starts", (S + [("s2", "startEvent"), ("s3", "startEvent")] + T("a", "b", "c", "d") + E,
                             F(("s", "a"), ("a", "e"), ("s2", "b"), ("b", "c"), ("c", "d"), ("d", "e"), ("s3", "d")), None, {})
    yield "more tasks on the shorter path", (
        S + [("g", "exclusiveGateway"), ("i1", "intermediateThrowEvent"), ("i2", "intermediateThrowEvent"),
             ("i3", "intermediateCatchEvent")] + T("a", "b") + E,
        F(("s", "g"), ("g", "i1"), ("i1", "i2"), ("i2", "i3"), ("i3", "e"), ("g", "a"), ("a", "b"), ("b", "e")), None, {})
    for first in (0, 1):
        fs = F(("s", "a"), ("s", "b"), ("b", "c"), ("a", "e"), ("c", "e"))
        yield "branches of different length %d" % first, (S + T("a", "b", "c") + E, fs if first else fs[:1] + fs[:0:-1], None, {})
    yield "jump over", (S + T("a", "b", "c") + E, F(("s", "a"), ("a", "c"), ("a", "b"), ("b", "c"), ("c", "e"), ("s", "c")), None, {})
    for k in conn:
        yield "through " + k, (S + [("x", k), ("y", k)] + T("a") + E,
                               F(("s", "x"), ("s", "y"), ("x", "a"), ("a", "y"), ("y", "e")), None, {})
    for n in ("nested branches", "task that splits and task that joins", "branches with their own ends", "chain of all kinds"):
        yield n, SHAPES[n]
    yield from generated_shapes(30 if tier == "thorough" else 8).items()
    yield from tangled(120 if tier == "thorough" else 40, 11)
    yield from looped(120 if tier == "thorough" else 30)


def looped(n, seed=5):
    import random
    for k in range(n):
        r = random.Random(seed * 1000 + k)
        m = r.randint(4, 6)
        nodes = [("n%d" % i, r.choice(("task", "subProcess", "userTask", "exclusiveGateway", "endEvent"))) for i in range(m)]
        pairs = {}
        for _ in range(r.randint(m - 1, m + 3)):
            a, b = r.randrange(m), r.randrange(1, m)
            pairs.setdefault(frozenset((a, b)), (a, b))
        yield "loops %d" % k, (nodes, [("f%d" % x, "n%d" % a, "n%d" % b) for x, (a, b) in enumerate(pairs.values())], None, {})


def c27(rep, tier):
    MOD = "bpmn_python.diagram_layout_metrics"
    for name, spec in path_shapes(tier):
        nodes, flows = spec[0], spec[1]
        for listed in (True, False):
            L = Shaped(rep, spec, listed)
            s, st, K = L.scn, L.scn.st, L.scn.const
            label = name + ("" if listed else ", flows not listed")
            if not L.ok:
                rep.und("setup", label, "not loaded")
                continue
            kind = dict((n[0], n[1]) for n in nodes)
            for fn, complete in (("compute_longest_path", True), ("compute_longest_path_tasks", False)):
                longest(rep, L, MOD, fn, complete, nodes, flows, kind, label)
            segments_rule(rep, L, MOD, label, {(): len(flows)})
            rep.absorb(s)
            rep.scn.append("path and segment metrics of '%s'" % label)
    # any number of way points and flows
    for r in runs(rep, tiers(tier)):
        if load_ok(rep, r):
            exp = {}
            for e in r.F.edges:
                one = {(): -1}
                for w in e["ways"]:
                    m = (("N", w.many),) if w.many else ()
                    one[m] = one.get(m, 0) + 1
                k = ((("N", e["many"]),) if e["many"] else ())
                for m, c in one.items():
                    q = tuple(sorted(m + k))
                    exp[q] = exp.get(q, 0) + c
            segments_rule(rep, r, MOD, r.variant, {k: c for k, c in exp.items() if c})


def segments_rule(rep, L, MOD, label, exp):
    s = L.scn
    out = s.call((s.mod(MOD), "count_segments"), L.dg)
    sub = "%s: count_segments" % label
    bad = rep.und if s.it.notes else rep.bad
    if out.dead:
        bad("segments", sub, "fails")
        return
    exp = {k: c for k, c in exp.items() if c}
    v = rs(out.value, s.st.asm)
    leaves = [(poly(w), g) for w, g in gleaves(v, s.st.asm, True) if csimp(g, s.st.asm) is not False]
    wrong = [(p, g) for p, g in leaves if p != exp]
    if not wrong:
        rep.ok("segments", sub)
    elif any(p is None or cond_unclean(g) for p, g in wrong):
        rep.und("segments", sub, show(v)[:300])
    else:
        bad("segments", sub, "%s instead of %s" % (wrong[0][0], exp))


def plain_items(o, st):
    """values of a list that has a known number of items, or None"""
    if o is None or o.kind not in ("list", "tuple") or o.items is None:
        return None
    out = []
    for it in o.items:
        g = csimp(it.guard, st.asm)
        if it.many is not None or it.unord or g not in (True, False):
            return None
        if g:
            out.append(it.v)
    return out


def longest(rep, L, MOD, fn, complete, nodes, flows, kind, label):
    s, st, K = L.scn, L.scn.st, L.scn.const
    sub = "%s: %s" % (label, fn)
    out = s.call((s.mod(MOD), fn), L.dg)
    bad = rep.und if s.it.notes else rep.bad
    if out.dead:
        bad("longest-path", sub, "fails")
        return
    counted = lambda i: complete or kind[i] in ("task", "subProcess")
    allp = [tuple(i for i in p if counted(i)) for p in simple_paths(nodes, flows, complete)]
    best = max([len(p) for p in allp] or [0])
    v = rs(out.value, st.asm)
    l = rs(v.items[0], st.asm) if isinstance(v, Tup) and len(v.items) == 2 else None
    o = st.get(l.addr) if isinstance(l, Ref) else None
    items = plain_items(o, st)
    if items is None:
        rep.und("longest-path", sub, show(v))
        return
    ids = []
    for x in items:
        x = rs(x, st.asm)
        i = rs(x.items[0], st.asm) if isinstance(x, Tup) and len(x.items) == 2 else None
        n = next((n for n in L.F.nodes if n["id"] == i), None)
        if n is None:
            (rep.und if i is None or term_unclean(i) else bad)("longest-path", sub, "%s is not a node of the diagram" % show(x))
            return
        ids.append(next(a for a, b in L.F.by.items() if b is n))
        a = rs(x.items[1], st.asm)
        for key in ("type", "node_name"):
            want = rs(st.get(rs(st.get(s.nodes(L.dg).addr).slots[i], st.asm).addr).slots.get(K(key), ABSENT), st.asm)
            got = rs(st.get(a.addr).slots.get(K(key), ABSENT), st.asm) if isinstance(a, Ref) else None
            if got != want:
                (rep.und if got is None else bad)("path-node", "%s: %s of %s" % (sub, key, show(i)), "%s instead of %s" % (show(got), show(want)))
                return
    n = ival(rs(v.items[1], st.asm))
    if tuple(ids) not in allp and (ids or best):
        bad("longest-path", sub, "%s is not such a path" % " ".join(ids))
    elif len(ids) != best:
        bad("longest-path", sub, "%d nodes, and there is a path with %d" % (len(ids), best))
    elif n is None:
        rep.und("longest-path", sub, "length %s" % show(v.items[1]))
    elif n != best:
        bad("longest-path", sub, "the length is given as %s instead of %d" % (n, best))
    else:
        rep.ok("longest-path", sub)


# ---------------------------------------------------------------------- C28
def histograms(tier):
    """numbers of instances per kind, largest first"""
    out = set()

    def grow(h, most, left):
        out.add(tuple(h))
        for c in range(1, min(most, left) + 1):
            if len(h) < 5:
                grow(h + [c], c, left - c)
    grow([], 6, 14 if tier == "thorough" else 9)
    for d in range(2, 6):
        for h in ([d] * d, [d] * d + [d], [d] * (d - 1) + [d - 1], [d + 1] * d, [d * d] + [1] * (d - 1), [d * d - 1] + [1] * d,
                  [d * d - d] + [1] * (d - 1), [d * d - d + 1] + [1] * (d - 1), [1] * (d * 2), [d] * (d + 2)):
            out.add(tuple(h))
    return sorted(out)


def c28(rep, tier):
    kinds = list(KINDS)
    for n, h in enumerate(histograms(tier)):
        if len(h) > len(kinds):
            continue
        # other kinds and another order of the nodes each time
        ks = kinds[n % len(kinds):] + kinds[:n % len(kinds)]
        nodes = [("n%d.%d" % (i, j), ks[i]) for i, c in enumerate(h) for j in range(c)]
        nodes = nodes[::-1] if n % 3 == 1 else sorted(nodes, key=lambda x: x[0][::-1]) if n % 3 == 2 else nodes
        flows = [("f%d" % k, a[0], b[0]) for k, (a, b) in enumerate(zip(nodes, nodes[1:]))
                 if "dataObject" not in (a[1], b[1])] if n % 2 else []
        L = Shaped(rep, (nodes, flows, None, {}))
        s = L.scn
        label = "kinds with %s instances" % ", ".join(str(c) for c in h) if h else "no nodes"
        if not L.ok:
            rep.und("setup", label, "not loaded")
            continue
        durfee = max(d for d in range(len(h) + 1) if sum(c >= d for c in h) >= d)
        square = max(p for p in range(len(h) + 1) if sum(h[:p]) >= p * p)
        for fn, want in (("DurfeeSquare_metric", durfee), ("PerfectSquare_metric", square)):
            out = s.call((s.mod("bpmn_python.bpmn_diagram_metrics"), fn), L.dg)
            sub = "%s: %s" % (label, fn)
            bad = rep.und if s.it.notes else rep.bad
            if out.dead:
                bad("square-metric", sub, "fails")
                continue
            v = rs(out.value, s.st.asm)
            leaves = [(w.v if isinstance(w, Const) and type(w.v) in (int, float) else None, g)
                      for w, g in gleaves(v, s.st.asm, True) if csimp(g, s.st.asm) is not False]
            wrong = [(p, g) for p, g in leaves if p != want]
            if not wrong:
                rep.ok("square-metric", sub)
            elif any(p is None or cond_unclean(g) for p, g in wrong):
                rep.und("square-metric", sub, show(v)[:300])
            else:
                bad("square-metric", sub, "%s instead of %s" % (wrong[0][0], want))
        rep.absorb(s)
        rep.scn.append("square metrics, " + label)
