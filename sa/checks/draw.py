"""C23: drawings show every node and every flow."""
from .common import *
from .api import Live, lives, node_calls
from .effects import module_fn
from .shapes import *

MOD = "bpmn_python.bpmn_diagram_visualizer"


class Facts(object):
    """what the diagram holds, read from the abstract graph: [(id, record, many)] and [(u, w, record, many)]"""

    def __init__(self, s, dg):
        st = s.st
        self.nodes, self.flows = [], []
        for it in s.it.dict_items(st, s.nodes(dg).addr, 2):
            self.nodes.append((it.v.items[0], rs(it.v.items[1], st.asm), it.many, it.guard))
        for it in s.it.dict_items(st, s.edges(dg).addr, 2):
            k, d = it.v.items
            self.flows.append((k.args[0], k.args[1], rs(d, st.asm), it.many, it.guard))

    def attr(self, s, rec, key):
        return s.st.get(rec.addr).slots.get(s.const(key), ABSENT) if isinstance(rec, Ref) else TOP


def seq(s, v):
    """items of a list/tuple/set/dict/view value, or None"""
    try:
        return [i for i in s.it.items_of(s.st, v, consume=False) if csimp(i.guard, s.st.asm) is not False]
    except Exception:
        return None


def arg(ev, pos, name):
    a, kw = ev
    for k, v in kw:
        if k == name:
            return v
    return a[pos] if pos is not None and pos < len(a) else None


def draws(s, n0):
    """[(function, (args, kwargs), location)]"""
    out = []
    for w in s.world()[n0:]:
        for v in leaves(rs(w.v, s.st.asm)):
            if isinstance(v, Tup) and v.items[0] == Const("draw"):
                kw = [(t.items[0].v, t.items[1]) for t in v.items[3].items]
                out.append((v.items[1].v, (list(v.items[2].items), kw), v.items[-1], w.guard, w.many))
    return out


class Tally(object):
    """how often each expected thing occurs among the drawn things"""

    def __init__(self, rep, s, rule, subj):
        self.rep, self.s, self.rule, self.subj = rep, s, rule, subj
        self.seen, self.ok = {}, True

    def say(self, soft, text, loc=""):
        self.ok = False
        (self.rep.und if soft or self.s.it.notes else self.rep.bad)(self.rule, self.subj, text, loc)

    def add(self, key, guard, many, want_many, loc=""):
        g = csimp(guard, self.s.st.asm)
        if g is not True:
            return self.say(cond_unclean(g), "%s is drawn only when %s" % (show(key), show(g)), loc)
        if many != want_many:
            return self.say(False, "%s is drawn once per %r instead of once per %r" % (show(key), many, want_many), loc)
        if key in self.seen:
            return self.say(False, "%s is drawn twice (%s and %s)" % (show(key), self.seen[key], loc), loc)
        self.seen[key] = loc

    def done(self, wanted):
        for k in wanted:
            if self.ok and k not in self.seen:
                self.say(False, "%s is not drawn" % show(k))
        if self.ok:
            self.rep.ok(self.rule, self.subj)


def loc_of(v):
    return v.v if isinstance(v, Const) else str(v)


def unify(a, b, key, asm):
    """key (possibly orientation dependent) names the edge between a and b"""
    k = rs(key, asm)
    if not isinstance(k, Tup) or len(k.items) < 2:
        return False
    u, w = k.items[:2]
    conds = []
    for x in (u, w):
        p = has_phi(x)
        if p is not None:
            conds.append(p.c)
    asms = [asm]
    for c in conds:
        nxt = []
        for m in asms:
            for val in (True, False):
                m2 = dict(m)
                cassume(m2, c, val)
                nxt.append(m2)
        asms = nxt
    return all({rs(u, m), rs(w, m)} == {a, b} for m in asms)


def visualize(rep, L, label, F):
    s = L.scn
    st = s.st
    n0 = len(s.world())
    fv = module_fn(s, MOD, "visualize_diagram")
    if fv is None:
        rep.bad("drawing", label, "visualize_diagram does not exist")
        return
    out = s.call(fv, L.dg)
    if not rep.no_raise("drawing", label, out, s) and out.dead:
        return
    ev = draws(s, n0)
    graph = st.get(L.dg.addr).slots.get("diagram_graph")
    many = {n[0]: n[2] for n in F.nodes}
    ids = [n[0] for n in F.nodes]
    T = Tally(rep, s, "nodes-drawn", label)
    E = Tally(rep, s, "flows-drawn", label)
    labels, elabels, soft = [], [], False
    last_draw, show_at = -1, []
    for pos, (fn, a, loc, guard, mn) in enumerate(ev):
        at = loc_of(loc)
        g = csimp(guard, st.asm)
        if fn in ("show", "savefig"):
            show_at.append((pos, g))
            continue
        if not fn.startswith("draw"):
            continue
        last_draw = pos
        if g is not True or mn:
            rep.und("drawing", label, "%s is called conditionally" % fn, at)
            return
        gr = rs(arg(a, 0, "G"), st.asm) if arg(a, 0, "G") is not None else None
        same = gr == rs(graph, st.asm)
        if not same:
            if isinstance(gr, Ref) and st.get(gr.addr).kind == "graph":
                F2 = Facts2(s, gr)
                if {n[0] for n in F2.nodes} != set(ids):
                    rep.und("drawing", label, "draws another graph", at)
                    return
            else:
                rep.und("drawing", label, "draws %s" % show(gr), at)
                return
        positions(rep, s, label, arg(a, 1, "pos"), ids, fn, at)
        if fn in ("draw_networkx_nodes", "draw_networkx", "draw"):
            nl = arg(a, 2 if fn == "draw_networkx_nodes" else None, "nodelist")
            if nl is None or rs(nl, st.asm) == NONE:
                for n in F.nodes:
                    T.add(n[0], True, n[2], n[2], at)
            else:
                its = seq(s, nl)
                if its is None:
                    T.say(True, "draws an unknown list of nodes", at)
                else:
                    for i, v, g in [(i, v, g) for i in its for v, g in gleaves(rs(i.v, st.asm), st.asm, i.guard)]:
                        if v not in many:
                            T.say(term_unclean(v) or cond_unclean(g), "draws %s, which is no node" % show(v), at)
                            continue
                        T.add(v, g, i.many, many[v], at)
        if fn in ("draw_networkx_edges", "draw_networkx", "draw"):
            el = arg(a, 2 if fn == "draw_networkx_edges" else None, "edgelist")
            if el is None or rs(el, st.asm) == NONE:
                for f in F.flows:
                    E.add(Tup((f[0], f[1])), True, f[3], f[3], at)
            else:
                its = seq(s, el)
                if its is None:
                    E.say(True, "draws an unknown list of flows", at)
                else:
                    for i in its:
                        m = [f for f in F.flows if unify(f[0], f[1], i.v, st.asm)]
                        if not m:
                            E.say(term_unclean(i.v), "draws %s, which is no flow" % show(i.v), at)
                            continue
                        E.add(Tup((m[0][0], m[0][1])), i.guard, i.many, m[0][3], at)
        if fn == "draw_networkx_labels":
            labels.append((arg(a, 2, "labels"), at))
        elif fn in ("draw_networkx", "draw"):
            wl = arg(a, None, "with_labels")
            lb = arg(a, None, "labels")
            on = rs(wl, st.asm) == TRUE if wl is not None else (fn == "draw_networkx")
            if fn == "draw" and wl is None and lb is not None:
                on = True
            if on:
                labels.append((lb, at))
        if fn == "draw_networkx_edge_labels":
            elabels.append((arg(a, 2, "edge_labels"), at))
    T.done(ids)
    E.done([Tup((f[0], f[1])) for f in F.flows])
    # the labels
    one_table(rep, s, "node-labels", label, labels)
    one_table(rep, s, "flow-labels", label, elabels)
    if len(labels) == 1 and labels[0][0] is not None:
        o = table(s, labels[0][0])
        if o is None:
            rep.und("node-labels", label, "the labels are %s" % show(labels[0][0]))
        else:
            for n in F.nodes:
                rep.diffs("node-labels", "%s: %r" % (label, n[0]),
                          Cmp(st).run(shown(o.slots.get(n[0], ABSENT)), F.attr(s, n[1], "node_name"), "label"), s)
            for k, v in o.slots.items():
                if k not in many:
                    rep.diffs("node-labels", "%s: extra %r" % (label, k), Cmp(st).run(v, EGone(), "label"), s)
    if len(elabels) == 1 and elabels[0][0] is not None:
        o = table(s, elabels[0][0])
        if o is None:
            rep.und("flow-labels", label, "the labels are %s" % show(elabels[0][0]))
        else:
            used = set()
            for f in F.flows:
                m = [k for k in o.slots if unify(f[0], f[1], k, st.asm)]
                used.update(m)
                subj = "%s: %r" % (label, Tup((f[0], f[1])))
                if not m and not any(term_unclean(k) for k in o.slots):
                    rep.diffs("flow-labels", subj, Cmp(st).run(Const(""), F.attr(s, f[2], "name"), "label"), s)
                    continue
                if len(m) != 1:
                    un = any(term_unclean(k) for k in o.slots)
                    (rep.und if un or s.it.notes else rep.bad)("flow-labels", subj, "the flow has %d labels" % len(m), elabels[0][1])
                    continue
                rep.diffs("flow-labels", subj, Cmp(st).run(shown(o.slots[m[0]]), F.attr(s, f[2], "name"), "label"), s)
            for k, v in o.slots.items():
                if k not in used:
                    rep.diffs("flow-labels", "%s: extra %r" % (label, k), Cmp(st).run(v, EGone(), "label"), s)
    # shown once complete
    if any(p > last_draw and g is True for p, g in show_at):
        rep.ok("shown", label)
    else:
        (rep.und if s.it.notes or any(g is not True for _, g in show_at) else rep.bad)(
            "shown", label, "the drawing is not shown after everything has been drawn")


class Facts2(Facts):
    def __init__(self, s, g):
        st = s.st
        o = st.get(g.addr)
        self.nodes = [(i.v.items[0], rs(i.v.items[1], st.asm), i.many, i.guard)
                      for i in s.it.dict_items(st, o.slots["nodes"].addr, 2)]
        self.flows = []
        for it in s.it.dict_items(st, o.slots["edges"].addr, 2):
            k, d = it.v.items
            self.flows.append((k.args[0], k.args[1], rs(d, st.asm), it.many, it.guard))


def shown(v):
    """no label and the empty label look the same"""
    return pmap(v, lambda q: Const("") if q is ABSENT else q)


def table(s, v):
    v = rs(v, s.st.asm)
    if isinstance(v, Ref) and s.st.get(v.addr).kind == "dict" and not (s.st.get(v.addr).meta or {}).get("open"):
        return s.st.get(v.addr)
    return None


def one_table(rep, s, rule, label, tables):
    if len(tables) != 1:
        (rep.und if s.it.notes else rep.bad)(rule, label, "labels are drawn %d times" % len(tables))
    elif tables[0][0] is None or rs(tables[0][0], s.st.asm) == NONE:
        (rep.und if s.it.notes else rep.bad)(rule, label, "the names are not given as labels", tables[0][1])


def positions(rep, s, label, pos, ids, fn, at):
    o = table(s, pos) if pos is not None else None
    if o is None:
        rep.und("placed", "%s: %s" % (label, fn), "positions %s" % (show(pos) if pos is not None else "missing"))
        return
    miss = [i for i in ids if rs(o.slots.get(i, ABSENT), s.st.asm) is ABSENT]
    if miss:
        (rep.und if s.it.notes else rep.bad)("placed", "%s: %s" % (label, fn), "%s has no position" % show(miss[0]), at)
    else:
        rep.ok("placed", "%s: %s at %s" % (label, fn, at))


def files_written(rep, s, n0, label, kinds, name, ext):
    """the one write event, with its path checked"""
    ev = []
    for w in s.world()[n0:]:
        for v in leaves(rs(w.v, s.st.asm)):
            if isinstance(v, Tup) and isinstance(v.items[0], Const) and v.items[0].v in (
                    "write_dot", "dotwrite", "open", "xmlwrite", "fs", "savefig"):
                ev.append((v, w.guard, w.many))
    good = [e for e in ev if e[0].items[0].v in kinds]
    if len(ev) != 1 or len(good) != 1:
        soft = s.it.notes or any(e[0].items[0].v in ("open", "fs") for e in ev)
        (rep.und if soft else rep.bad)("one-picture", label, "writes %d files" % len(ev))
        if len(good) != 1:
            return None
    e, g, m = good[0]
    if csimp(g, s.st.asm) is not True or m:
        (rep.und if cond_unclean(g) or s.it.notes else rep.bad)("one-picture", label, "written only when %s" % show(g))
        return None
    path = e.items[2] if e.items[0].v == "write_dot" else e.items[1]
    rep.diffs("picture-path", label, Cmp(s.st).run(path, mkcat([name, Const(ext)]), "path"), s)
    rep.ok("one-picture", label)
    return e


def dot_file(rep, L, label, F):
    s = L.scn
    fv = module_fn(s, MOD, "bpmn_diagram_to_dot_file")
    if fv is None:
        rep.bad("dot", label, "bpmn_diagram_to_dot_file does not exist")
        return
    n0 = len(s.world())
    name = Tok("picture", "str", True)
    out = s.call(fv, L.dg, name)
    if not rep.no_raise("dot", label, out, s) and out.dead:
        return
    e = files_written(rep, s, n0, label + ", DOT", ("write_dot", "dotwrite"), name, ".dot")
    if e is None:
        return
    if e.items[0].v == "dotwrite":
        picture(rep, s, label + ", DOT", F, e, ("raw", "dot"))
        return
    g = rs(e.items[1], s.st.asm)
    own = rs(s.st.get(L.dg.addr).slots.get("diagram_graph"), s.st.asm)
    if g == own:
        rep.ok("dot", label)
        return
    if not isinstance(g, Ref) or s.st.get(g.addr).kind != "graph":
        rep.und("dot", label, "writes %s" % show(g))
        return
    F2 = Facts2(s, g)
    got = {n[0]: n for n in F2.nodes}
    for n in F.nodes:
        m = got.get(n[0])
        subj = "%s: %r" % (label, n[0])
        if m is None:
            (rep.und if s.it.notes else rep.bad)("dot", subj, "the node is not written")
            continue
        a = [F2.attr(s, m[1], k) for k in ("node_name",)] + [s.st.get(m[1].addr).slots.get(Const("label"), ABSENT)]
        want = F.attr(s, n[1], "node_name")
        ds = [Cmp(s.st).run(x, want, "name") for x in a]
        rep.diffs("dot", subj, min(ds, key=len), s)
    for f in F.flows:
        m = [x for x in F2.flows if {x[0], x[1]} == {f[0], f[1]}]
        subj = "%s: %r" % (label, Tup((f[0], f[1])))
        if not m:
            (rep.und if s.it.notes else rep.bad)("dot", subj, "the flow is not written")
            continue
        a = [F2.attr(s, m[0][2], "name"), s.st.get(m[0][2].addr).slots.get(Const("label"), ABSENT)]
        want = F.attr(s, f[2], "name")
        rep.diffs("dot", subj, min([Cmp(s.st).run(x, want, "name") for x in a], key=len), s)


def png(rep, L, label, F):
    s = L.scn
    fv = module_fn(s, MOD, "bpmn_diagram_to_png")
    if fv is None:
        rep.bad("png", label, "bpmn_diagram_to_png does not exist")
        return
    n0 = len(s.world())
    name = Tok("picture", "str", True)
    out = s.call(fv, L.dg, name)
    if not rep.no_raise("png", label, out, s) and out.dead:
        return
    e = files_written(rep, s, n0, label + ", PNG", ("dotwrite",), name, ".png")
    if e is None:
        return
    picture(rep, s, label + ", PNG", F, e, ("png",))


def picture(rep, s, label, F, e, formats):
    st = s.st
    fm = rs(e.items[3], st.asm)
    if isinstance(fm, Const) and fm.v in formats:
        rep.ok("picture-format", label)
    else:
        (rep.und if not isinstance(fm, Const) or s.it.notes else rep.bad)("picture-format", label, "format %s" % show(fm))
    d = rs(e.items[2], st.asm)
    if not isinstance(d, Ref) or st.get(d.addr).kind != "dot":
        rep.und("picture", label, "unknown picture %s" % show(d))
        return
    many = {n[0]: n[2] for n in F.nodes}
    recs = {n[0]: n[1] for n in F.nodes}
    T = Tally(rep, s, "picture-nodes", label)
    E = Tally(rep, s, "picture-flows", label)
    used = []
    for it in st.get(d.addr).items:
        g = csimp(it.guard, st.asm)
        if g is False:
            continue
        cases = [(g, rs(it.v, st.asm))]
        v = cases[0][1]
        el = v.items[1] if isinstance(v, Tup) else None
        for lv in leaves(rs(el, st.asm)) if el is not None else [TOP]:
            if not isinstance(lv, Ref) or st.get(lv.addr).kind != "dotel":
                rep.und("picture", label, "unknown element %s" % show(lv))
                return
        kinds = {st.get(lv.addr).meta["kind"] for lv in leaves(rs(el, st.asm))}
        if len(kinds) != 1 or v.items[0] != Const("add_" + min(kinds)):
            rep.und("picture", label, "mixed elements")
            return
        ls = list(leaves(rs(el, st.asm)))
        o = st.get(ls[0].addr)
        if kinds == {"node"}:
            names = {rs(st.get(l.addr).slots.get("name", ABSENT), st.asm) for l in ls}
            i = min(names, key=repr)
            if len(names) != 1 or i not in many:
                T.say(any(term_unclean(x) or isinstance(x, Phi) for x in names) or len(names) > 1, "shows %s, which is no node" % show(i))
                continue
            T.add(i, g, it.many, many[i])
            for l in ls:
                rep.diffs("picture-labels", "%s: %r" % (label, i),
                          Cmp(st).run(st.get(l.addr).slots.get("label", ABSENT), F.attr(s, recs[i], "node_name"), "label"), s)
        else:
            for l in ls:
                o = st.get(l.addr)
                a, b = o.slots.get("src", ABSENT), o.slots.get("dst", ABSENT)
                m = [f for f in F.flows if unify(f[0], f[1], Tup((a, b)), st.asm)]
                if not m:
                    E.say(term_unclean(a) or term_unclean(b), "shows a flow from %s to %s, which the diagram does not have" % (
                        show(a), show(b)))
                    continue
                f = m[0]
                if l is ls[0]:
                    E.add(Tup((f[0], f[1])), g, it.many, f[3])
                subj = "%s: %r" % (label, Tup((f[0], f[1])))
                rep.diffs("picture-direction", subj, Cmp(st).run(Tup((a, b)), Tup((
                    F.attr(s, f[2], "source_ref"), F.attr(s, f[2], "target_ref"))), "flow"), s)
                rep.diffs("picture-labels", subj, Cmp(st).run(o.slots.get("label", ABSENT), F.attr(s, f[2], "name"), "label"), s)
    T.done([n[0] for n in F.nodes])
    E.done([Tup((f[0], f[1])) for f in F.flows])


def everything(rep, L, label):
    base = L.scn.st.fork()
    for f in (visualize, dot_file, png):
        f(rep, L, label, Facts(L.scn, L.dg))
        L.scn.st.become(base.fork())


def c23(rep, tier):
    for L in lives(rep, ("loaded", "new")):
        if L.variant == "new":
            L2 = L
            everything(rep, L, "an empty diagram")
            s = L.scn
            made = []
            for nc in node_calls(s, L.pid, ""):
                v = rs(L.call(nc.meth, **nc.kw).value, s.st.asm)
                if isinstance(v, Tup):
                    made.append(v.items[0])
            for a, b in list(zip(made, made[1:6])) + [(made[2], made[2])]:
                L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a, target_ref_id=b)
            everything(rep, L, "a diagram built by calls")
        else:
            everything(rep, L, "a loaded file")
