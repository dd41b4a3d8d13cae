"""C21: nothing depends on hash order, addresses or time.  C22: nothing takes a flow's direction from the graph's edge order."""
from .common import *
from .indep import subjects, Canon, canon, written, load, small, fam, export, generate_layout, D, F, api_build
from .effects import METRICS, LAYOUT_METRICS, QUERIES, module_fn
from .shapes import *
from . import csvx
from ..docs import Small


def measure(s, d, out, lay):
    """each metric from the same state; imprecision inside one says nothing about the others"""
    for mod, names in (("bpmn_diagram_metrics", METRICS), ("diagram_layout_metrics", LAYOUT_METRICS if lay else ())):
        for n in names:
            fv = module_fn(s, "bpmn_python." + mod, n)
            if fv is None:
                continue
            base, notes = s.st.fork(), dict(s.it.notes)
            s.it.notes.clear()
            r = s.call(fv, d)
            if r.value is not None:
                c = out[n] = canon(s.st, r.value, n)
                c.dirty = c.dirty or bool(s.it.notes)
            s.st.become(base)
            s.it.notes.clear()
            s.it.notes.update(notes)


def s_shape(spec, lay=True, csv=True):
    def f(s, d):
        load(s, d, small(spec))
        out = {"diagram": canon(s.st, d)}
        if csv:
            _, ev = export(s, d, "export_csv_file")
            out["export_csv_file"] = written(s, ev)
        measure(s, d, out, True)
        if lay:
            generate_layout(s, d)
            out["layout"] = canon(s.st, d)
        _, ev = export(s, d, "export_xml_file_no_di")
        out["export_xml_file_no_di"] = written(s, ev)
        return out
    return f


def s_table(T):
    def f(s, d):
        L = csvx.CsvRun(None, "t", T, scn=s, dg=d)
        out = {"diagram": canon(s.st, d)}
        if L.ok:
            _, ev = export(s, d, "export_xml_file_no_di")
            out["export_xml_file_no_di"] = written(s, ev)
        return out
    return f


def s_family(variant):
    def f(s, d):
        load(s, d, fam(variant))
        out = {"diagram": canon(s.st, d)}
        for m in ("export_xml_file", "export_xml_file_no_di"):
            _, ev = export(s, d, m)
            out[m] = written(s, ev)
        for m, args in QUERIES:
            if m in ("get_flows", "get_flow_by_id", "get_flows_list_by_process_id"):
                continue        # pairs of endpoints as networkx lists them, next to the flow's own record
            r = s.call((d, m), *[{"kind": Const("task"), "node": Tok("x"), "flow": Tok("x"), "proc": Tok("x"),
                                  "missing": Tok("missing", "str", True, "id")}[a] for a in args])
            if r.value is not None:
                out["%s(%s)" % (m, ", ".join(args))] = canon(s.st, r.value, m)
        measure(s, d, out, False)
        fv = module_fn(s, "bpmn_python.bpmn_diagram_visualizer", "bpmn_diagram_to_png")
        if fv is not None:
            n0 = len(s.world())
            s.call(fv, d, Tok("picture", "str", True))
            out["bpmn_diagram_to_png"] = written(s, s.world()[n0:])
        return out
    return f


def s_api(s, d):
    api_build(s, d)
    out = {"diagram": canon(s.st, d)}
    for m in ("export_xml_file", "export_xml_file_no_di"):
        _, ev = export(s, d, m)
        out[m] = written(s, ev)
    return out


def jobs(tier):
    j = {"a file with every kind of element": s_family("listed"), "a file whose nodes do not list their flows": s_family("unlisted"),
         "a diagram built by calls": s_api}
    names = list(SHAPES)
    for n in names if tier == "thorough" else names:
        j["process '%s'" % n] = s_shape(SHAPES[n])
    for n, T in csvx.tables(tier).items():
        j["CSV table '%s'" % n] = s_table(T)
    return j


def c21(rep, tier):
    for lab, f in jobs(tier).items():
        runs = []
        for order in (0, 1):
            s = Scn(rep.repo)
            s.it.set_order = order
            d = s.diagram()
            try:
                runs.append((f(s, d), bool(s.it.notes)))
            finally:
                rep.absorb(s)
        (a, na), (b, nb) = runs
        for k in list(a) + [x for x in b if x not in a]:
            subj = "%s: %s" % (lab, k)
            if k not in a or k not in b:
                (rep.und if na or nb else rep.bad)("hash-order", subj, "is only produced for one iteration order of a set")
                continue
            same(rep, subj, a[k], b[k], na or nb)
        rep.scn.append(lab)


def same(rep, subj, x, y, notes):
    nd = [(p, t) for p, t in x.out.items() if isinstance(t, str) and "nondet(" in t]
    if nd:
        rep.bad("time-or-address", subj, "%s is %s" % (nd[0][0], nd[0][1][:200]))
    else:
        rep.ok("time-or-address", subj)
    if x.out == y.out:
        rep.ok("hash-order", subj)
        return
    for p in list(x.out) + [q for q in y.out if q not in x.out]:
        if x.out.get(p) != y.out.get(p):
            txt = "%s is %s or %s, depending on the iteration order of a set" % (
                p, str(x.out.get(p, "nothing"))[:200], str(y.out.get(p, "nothing"))[:200])
            break
    (rep.und if notes or x.dirty or y.dirty else rep.bad)("hash-order", subj, txt)


def c22(rep, tier):
    for lab, f in jobs(tier).items():
        if lab.startswith("CSV table") and tier != "thorough" and len(rep.scn) > 60:
            continue
        s = Scn(rep.repo)
        d = s.diagram()
        fails, call = [], s.call

        def recording(target, *a, **kw):
            n0 = len(s.it.notes)
            out = call(target, *a, **kw)
            for c, name, loc, msg, leaf in out.raises:
                if "orient(" in repr(c):
                    fails.append((c, name, loc, len(s.it.notes) > n0))
            return out
        s.call = recording
        got = f(s, d)
        s.call = call
        for c, name, loc, imprecise in fails[:4]:
            (rep.und if imprecise or cond_unclean(c) else rep.bad)(
                "direction-from-flow", "%s: %s:%s" % (lab, loc[0] if loc else "?", loc[1] if loc else "?"),
                "fails with %s depending on the order in which the graph lists the ends of an edge: %s" % (name, show(c)[:300]))
        if not fails:
            rep.ok("never-fails-on-edge-order", lab)
        for k, c in got.items():
            subj = "%s: %s" % (lab, k)
            hit = [(p, t) for p, t in c.out.items() if "orient(" in (t if isinstance(t, str) else repr(t)) or "orient(" in p]
            if not hit:
                rep.ok("direction-from-flow", subj)
                continue
            p, t = hit[0]
            (rep.und if s.it.notes or c.dirty else rep.bad)(
                "direction-from-flow", subj, "%s depends on the order in which the graph lists the ends of an edge: %s" % (p[:300], str(t)[:300]))
        rep.absorb(s)
        rep.scn.append(lab)
