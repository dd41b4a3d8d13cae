"""C13: diagrams are independent of each other and of what was done before."""
import re

from .common import *
from .api import Live, node_calls
from .shapes import *
from .effects import METRICS, LAYOUT_METRICS, QUERIES, module_fn
from .xmlrt import VARIANTS
from ..docs import Family, Small, install
from . import csvx

UUID = re.compile(r"\bu1?uuid_?\d+\b|\buuid\d+\b")


class Canon(object):
    """Structure reachable from a value, as {path: text}; addresses and drawn UUIDs are numbered in order of appearance."""

    def __init__(self, st, skip=("dom",)):
        self.st, self.out, self.seen, self.ids, self.skip = st, {}, {}, {}, skip
        self.dirty = False

    def text(self, v):
        if term_unclean(v) if isinstance(v, V) else False:
            self.dirty = True
        r = repr(v)
        if "...#" in r:         # abbreviated term: its digest is not comparable between runs
            self.dirty = True
        r = re.sub(r"&h\d+|\bh\d+\b", "@", r)
        return UUID.sub(lambda m: "U%d" % self.ids.setdefault(m.group(0), len(self.ids)), r)

    def walk(self, v, path, depth=0):
        v = rs(v, self.st.asm) if isinstance(v, V) else v
        if len(self.out) > 60000 or depth > 60:
            self.dirty = True
            return
        if isinstance(v, Phi):
            self.out[path + "?"] = self.text(v.c)
            self.walk(v.a, path + "|then", depth + 1)
            self.walk(v.b, path + "|else", depth + 1)
            return
        if isinstance(v, Tup):
            self.out[path] = "tuple of %d" % len(v.items)
            for i, x in enumerate(v.items):
                self.walk(x, "%s(%d)" % (path, i), depth + 1)
            return
        if isinstance(v, Ref):
            o = self.st.heap.get(v.addr)
            if o is None or o.kind in ("mod", "cls", "frame"):
                self.out[path] = str(v.addr) if o is not None else "?"
                return
            if v.addr in self.seen:
                self.out[path] = "same as " + self.seen[v.addr]
                return
            self.seen[v.addr] = path
            self.out[path] = o.kind
            if o.kind in self.skip:
                return
            if o.meta and o.meta.get("open"):
                self.dirty = True
            for k, x in o.slots.items():
                if not isinstance(x, V):
                    continue
                if x is ABSENT:
                    continue
                kt = self.text(k) if isinstance(k, V) else str(k)
                self.walk(x, "%s[%s]" % (path, kt), depth + 1)
            self.out[path + ".keys"] = [self.text(k) if isinstance(k, V) else str(k) for k, x in o.slots.items()
                                        if isinstance(x, V) and x is not ABSENT]
            for n, i in enumerate(o.items or ()):
                g = csimp(i.guard, self.st.asm)
                if g is False:
                    continue
                if g is not True:
                    self.out["%s[%d]?" % (path, n)] = self.text(g)
                    if cond_unclean(g):
                        self.dirty = True
                self.walk(i.v, "%s[%d]" % (path, n), depth + 1)
            if o.items is not None:
                self.out[path + ".len"] = len([i for i in o.items if csimp(i.guard, self.st.asm) is not False])
            return
        self.out[path] = self.text(v)


def canon(st, v, name="diagram"):
    c = Canon(st)
    c.walk(v, name)
    return c


def compare(rep, rule, subj, got, ref, notes):
    """got, ref: Canon"""
    if got.out == ref.out:
        rep.ok(rule, subj)
        return True
    diffs = []
    for p in list(ref.out) + [q for q in got.out if q not in ref.out]:
        if got.out.get(p) != ref.out.get(p):
            diffs.append((p, got.out.get(p, "nothing"), ref.out.get(p, "nothing")))
            if len(diffs) > 2:
                break
    p, g, r = diffs[0]
    txt = "%s is %s, but %s on a fresh start" % (p, str(g)[:160], str(r)[:160])
    if notes or got.dirty or ref.dirty:
        rep.und(rule, subj, txt)
    else:
        rep.bad(rule, subj, txt)
    return False


# ---------------------------------------------------------------------- the operations
def fam(variant="listed"):
    v = VARIANTS[variant]
    return lambda: (Family(**v["fam"]).root, v["inst"])


def small(spec, **over):
    def mk():
        nodes, flows, attrs, kw = spec
        return Small(nodes, flows, attrs=attrs, **dict(kw, **over)).root, {}
    return mk


def renamed(spec):
    """the same ids with other names, kinds and coordinates"""
    nodes, flows, attrs, kw = spec
    at = {n[0]: dict((attrs or {}).get(n[0], {}), name=Tok("other." + n[0])) for n in nodes}
    swap = {"task": "userTask", "userTask": "subProcess", "exclusiveGateway": "inclusiveGateway"}
    ns = [(n[0], swap.get(n[1], n[1])) + tuple(n[2:]) for n in nodes]
    return small((ns, flows, at, kw), pid="P1")


def load(s, dg, doc):
    root, inst = doc()
    install(s.it, s.st, root, **inst)
    return s.call((dg, "load_diagram_from_xml_file"), Tok("path", nonempty=True))


D, F = Tok("dir", nonempty=True), Tok("file", nonempty=True)


def export(s, dg, meth):
    n0 = len(s.world())
    out = s.call((dg, meth), D, F)
    return out, s.world()[n0:]


def written(s, ev):
    """canonical form of what an export wrote"""
    c = Canon(s.st)
    n = 0
    for w in ev:
        for v in leaves(rs(w.v, s.st.asm)):
            if isinstance(v, Tup) and isinstance(v.items[0], Const) and v.items[0].v in ("xmlwrite", "open", "makedirs", "dotwrite"):
                for j, x in enumerate(v.items[1:]):
                    if isinstance(x, Const) and j == len(v.items) - 2:
                        continue
                    c.walk(x, "%s %d.%d" % (v.items[0].v, n, j))
                n += 1
    return c


def api_build(s, dg, tag=""):
    s.call((dg, "create_new_diagram_graph"), diagram_name=Tok("dn"))
    p = s.call((dg, "add_process_to_diagram"), process_name=Tok("pn")).value
    ids = []
    for nc in node_calls(s, p, tag):
        r = s.call((dg, nc.meth), **nc.kw)
        v = rs(r.value, s.st.asm) if r.value is not None else None
        if isinstance(v, Tup):
            ids.append(v.items[0])
    for a, b in zip(ids[:4], ids[1:5]):
        s.call((dg, "add_sequence_flow_to_diagram"), process_id=p, source_ref_id=a, target_ref_id=b)
    return p


def readers(s, dg, csv=True, layout=False):
    for m, args in QUERIES:
        s.call((dg, m), *[{"kind": Const("task"), "node": Tok("x"), "flow": Tok("x"), "proc": Tok("x"),
                           "missing": Tok("missing", "str", True, "id")}[a] for a in args])
    for m in ("export_xml_file", "export_xml_file_no_di") + (("export_csv_file",) if csv else ()):
        s.call((dg, m), D, F)
    for n in METRICS:
        fv = module_fn(s, "bpmn_python.bpmn_diagram_metrics", n)
        if fv is not None:
            s.call(fv, dg)
    if layout:
        for n in LAYOUT_METRICS:
            fv = module_fn(s, "bpmn_python.diagram_layout_metrics", n)
            if fv is not None:
                s.call(fv, dg)


def generate_layout(s, dg):
    s.call(module_fn(s, "bpmn_python.bpmn_diagram_layouter", "generate_layout"), dg)


BLOCK = (split("exclusiveGateway", 2, default=1) + ({},))
NEST = SHAPES["nested branches"]
# ids that the document family gives to pools, lanes, flows, processes and other nodes
CROSS = ([("pool1", "startEvent"), ("box1", "task"), ("mf1", "userTask"), ("b.task", "subProcess"),
          ("P2", "task"), ("l1", "manualTask"), ("pool2", "endEvent")],
         [("P3", "pool1", "box1"), ("coll", "box1", "mf1"), ("box2", "mf1", "b.task"), ("a.task", "b.task", "P2"),
          ("pool3", "P2", "l1"), ("l2", "l1", "pool2")], None, {})


def csv_tables():
    t = csvx.TABLES
    ks = list(t)
    return t[ks[0]], t[ks[len(ks) // 2]], t[ks[-1]]


def histories():
    """label -> function(s) doing something with other diagrams; returns them"""
    def h_same(s):
        d = s.diagram()
        load(s, d, fam())
        return [d]

    def h_renamed(s):
        d = s.diagram()
        load(s, d, renamed(BLOCK))
        readers(s, d, layout=True)
        generate_layout(s, d)
        return [d]

    def h_small(s):
        d = s.diagram()
        load(s, d, small(BLOCK))
        readers(s, d, layout=True)
        generate_layout(s, d)
        s.call((d, "export_csv_file"), D, F)
        return [d]

    def h_api(s):
        d = s.diagram()
        api_build(s, d, "h")
        readers(s, d)
        return [d]

    def h_csv(s):
        d = s.diagram()
        csvx.CsvRun(None, "h", csv_tables()[1], scn=s, dg=d)
        s.call((d, "export_csv_file"), D, F)
        return [d]
    return {"the same file loaded": h_same, "a file with the same ids and other content": h_renamed,
            "a file loaded, read, laid out and exported": h_small, "a diagram built by calls": h_api,
            "a CSV file loaded": h_csv}


def subjects():
    """label -> function(s, dg) -> {name: Canon}"""
    def s_family(s, d):
        load(s, d, fam())
        out = {"diagram": canon(s.st, d)}
        for m in ("export_xml_file", "export_xml_file_no_di"):
            _, ev = export(s, d, m)
            out[m] = written(s, ev)
        return out

    def s_small(s, d):
        load(s, d, small(BLOCK))
        out = {"diagram": canon(s.st, d)}
        for m in ("export_xml_file", "export_csv_file"):
            _, ev = export(s, d, m)
            out[m] = written(s, ev)
        for n in METRICS[:20]:
            fv = module_fn(s, "bpmn_python.bpmn_diagram_metrics", n)
            if fv is not None:
                r = s.call(fv, d)
                if r.value is not None:
                    out[n] = canon(s.st, r.value, n)
        generate_layout(s, d)
        out["layout"] = canon(s.st, d)
        return out

    def s_nest(s, d):
        load(s, d, small(NEST, listed=False))
        generate_layout(s, d)
        out = {"layout": canon(s.st, d)}
        _, ev = export(s, d, "export_csv_file")
        out["export_csv_file"] = written(s, ev)
        return out

    def s_cross(s, d):
        load(s, d, small(CROSS))
        out = {"diagram": canon(s.st, d)}
        for m in ("export_xml_file", "export_xml_file_no_di"):
            _, ev = export(s, d, m)
            out[m] = written(s, ev)
        return out

    def s_api(s, d):
        api_build(s, d)
        out = {"diagram": canon(s.st, d)}
        _, ev = export(s, d, "export_xml_file")
        out["export_xml_file"] = written(s, ev)
        return out

    def s_csv(s, d):
        csvx.CsvRun(None, "s", csv_tables()[2], scn=s, dg=d)
        return {"diagram": canon(s.st, d)}

    def s_csv2(s, d):
        csvx.CsvRun(None, "s", csv_tables()[0], scn=s, dg=d)
        _, ev = export(s, d, "export_csv_file")
        return {"diagram": canon(s.st, d), "export_csv_file": written(s, ev)}
    return {"loading and exporting an XML file": s_family, "loading, measuring and laying out a process": s_small,
            "laying out nested branches": s_nest, "loading a file that uses the same ids for other elements": s_cross, "building a diagram by calls": s_api, "loading a CSV file": s_csv,
            "loading and exporting a CSV file": s_csv2}


def module_objs(st):
    """objects made when the modules were loaded, and the modules and classes themselves"""
    return {a for a, o in st.heap.items() if (o.region == "module" or o.kind in ("mod", "cls")) and o.kind not in ("frame", "dom")}


def c13(rep, tier):
    subs, hist = subjects(), histories()
    refs = {}
    for lab, f in subs.items():
        s = Scn(rep.repo)
        d = s.diagram()
        refs[lab] = f(s, d)
        refs[lab]["notes"] = bool(s.it.notes)
        rep.absorb(s)
        # twice in a row: the second diagram equals the first
        d2 = s.diagram()
        again = f(s, d2)
        for k, c in again.items():
            compare(rep, "same-again", "%s twice: %s" % (lab, k), c, refs[lab][k], bool(s.it.notes))
        share(rep, s, lab + " twice", [d], d2)
    starts_over_bare(rep)
    for hl, h in hist.items():
        # what the history leaves behind at module level
        s = Scn(rep.repo)
        s.diagram()
        for m in ("bpmn_diagram_metrics", "bpmn_diagram_layouter", "diagram_layout_metrics"):
            s.mod("bpmn_python." + m)
        snap = s.st.fork()
        mo = module_objs(s.st)
        ds = h(s)
        ch = [c for c in changes(snap, s.st, mo) if not (isinstance(c.key, str) and c.key in ("items",) and c.addr == "WORLD")]
        if ch:
            rep.und("module-state", hl, "changes %s" % (ch[0],))
        else:
            rep.ok("module-state", hl)
        base, notes = s.st.fork(), dict(s.it.notes)
        for lab, f in subs.items():
            s.it.notes.clear()
            s.it.notes.update(notes)
            pre = set()
            for x in ds:
                pre |= reach(s.st, [x])
            names = {}
            for x in ds:
                names.update(paths(s.st, x))
            snap = s.st.fork()
            d = s.diagram()
            got = f(s, d)
            subj = "%s after %s" % (lab, hl)
            for k, c in got.items():
                compare(rep, "same-after-history", "%s: %s" % (subj, k), c, refs[lab][k],
                        refs[lab]["notes"] or bool(s.it.notes))
            untouched(rep, s, "other-diagram-untouched", subj, snap, pre, names=names)
            share(rep, s, subj, ds, d)
            s.st.become(base.fork())
        rep.absorb(s)
        rep.scn.append("%d operations after: %s" % (len(subs), hl))
        # starting over on the used object
        for d in ds:
            s.call((d, "create_new_diagram_graph"), diagram_name=Tok("dn2"))
            fresh = Scn(rep.repo)
            e = fresh.diagram()
            fresh.call((e, "create_new_diagram_graph"), diagram_name=Tok("dn2"))
            if compare(rep, "starts-over", "new diagram after: " + hl, canon(s.st, d), canon(fresh.st, e),
                       bool(s.it.notes or fresh.it.notes)):
                # and works like a fresh one
                for lab in ("building a diagram by calls", "loading, measuring and laying out a process"):
                    if lab.startswith("building"):
                        got = subs[lab](s, d)
                        for k, c in got.items():
                            compare(rep, "starts-over", "%s, on an object used before (%s): %s" % (lab, hl, k), c, refs[lab][k],
                                    refs[lab]["notes"])
            s.st.become(base.fork())


def starts_over_bare(rep):
    """an object that was filled without ever creating a diagram on it"""
    s = Scn(rep.repo)
    d = s.diagram()
    p = s.call((d, "add_process_to_diagram"), process_name=Tok("pn")).value
    ids = [s.call((d, "add_task_to_diagram"), process_id=p, task_name=Tok("t%d" % k)).value for k in range(2)]
    ids = [rs(x, s.st.asm) for x in ids if x is not None]
    if len(ids) == 2 and all(isinstance(x, Tup) for x in ids):
        s.call((d, "add_sequence_flow_to_diagram"), process_id=p, source_ref_id=ids[0].items[0], target_ref_id=ids[1].items[0])
    s.call((d, "create_new_diagram_graph"), diagram_name=Tok("dn2"))
    fresh = Scn(rep.repo)
    e = fresh.diagram()
    fresh.call((e, "create_new_diagram_graph"), diagram_name=Tok("dn2"))
    compare(rep, "starts-over", "new diagram after calls on a bare object", canon(s.st, d), canon(fresh.st, e),
            bool(s.it.notes or fresh.it.notes))
    rep.absorb(s)


def share(rep, s, subj, olds, d):
    mine = reach(s.st, [d])
    for o in olds:
        if o == d:
            continue
        both = [a for a in reach(s.st, [o]) & mine if s.st.heap[a].kind not in ("dom", "fn") and s.st.heap[a].region != "dom"]
        names = paths(s.st, d)
        # a constant table of a module that nobody changes may be referred to by both
        both = [a for a in both if s.st.heap[a].region != "module"]
        if both:
            a = both[0]
            (rep.und if s.it.notes else rep.bad)("share-nothing", subj, "both diagrams hold the same %s (%s)" % (
                s.st.heap[a].kind, names.get(a, a)))
        else:
            rep.ok("share-nothing", subj)
