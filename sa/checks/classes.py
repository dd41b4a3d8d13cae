"""Rules on the BPMN element classes (C18)."""
from .common import *
from .api import other_tok

P = "bpmn_python.graph.classes."
DIRS = ("Unspecified", "Converging", "Diverging", "Mixed")
PTYPES = ("None", "Public", "Private")

# field kinds: (kind, allowed None, extra)
STR0 = ("str", True, None)
STR1 = ("str", False, None)
BOOL = ("bool", False, None)
BOOL0 = ("bool", True, None)

# class -> (module, base class, constructor arguments, own fields: name -> (setter, getter, kind, default))
CLS = {
    "BaseElement": ("base_element_type", None, (), {"id": ("set_id", "get_id", STR0, None)}),
    "ConditionExpression": ("condition_expression_type", None, (), {
        "condition": ("set_condition", "get_condition", STR1, None)}),
    "FlowElement": ("flow_element_type", "BaseElement", (), {"name": ("set_name", "get_name", STR0, None)}),
    "FlowNode": ("flow_node_type", "FlowElement", (), {
        "incoming": ("set_incoming", "get_incoming", ("list", False, "str"), []),
        "outgoing": ("set_outgoing", "get_outgoing", ("list", False, "str"), [])}),
    "SequenceFlow": ("sequence_flow_type", "FlowElement", ("source", "target"), {
        "source": ("set_source_ref", "get_source_ref", STR1, "arg"),
        "target": ("set_target_ref", "get_target_ref", STR1, "arg"),
        "immediate": ("set_is_immediate", "is_immediate", BOOL0, None),
        "condition": ("set_condition_expression", "get_condition_expression", ("obj", True, "ConditionExpression"), None)}),
    "MessageFlow": ("message_flow_type", "BaseElement", ("source", "target"), {
        "name": ("set_name", "get_name", STR0, None),
        "source": ("set_source_ref", "get_source_ref", STR1, "arg"),
        "target": ("set_target_ref", "get_target_ref", STR1, "arg"),
        "message": ("set_message_ref", "get_message_ref", STR0, None)}),
    "Participant": ("participant_type", "BaseElement", (), {
        "name": ("set_name", "get_name", STR0, None),
        "process": ("set_process_ref", "get_process_ref", STR0, None)}),
    "Lane": ("lane_type", "BaseElement", (), {
        "name": ("set_name", "get_name", STR0, None),
        "refs": ("set_flow_node_ref_list", "get_flow_node_ref_list", ("list", False, "str"), []),
        "child": ("set_child_lane_set", "get_child_lane_set", ("obj", True, "LaneSet"), None)}),
    "LaneSet": ("lane_set_type", "BaseElement", (), {
        "name": ("set_name", "get_name", STR0, None),
        "lanes": ("set_lane_list", "get_lane_list", ("list", False, "Lane"), [])}),
    "RootElement": ("root_element.root_element_type", "BaseElement", (), {}),
    "EventDefinition": ("root_element.event_definition_type", "RootElement", (), {}),
    "CallableElement": ("root_element.callable_element_type", "RootElement", (), {
        "name": ("set_name", "get_name", STR0, None)}),
    "Process": ("root_element.process_type", "CallableElement", (), {
        "type": ("set_process_type", "get_process_type", ("enum", False, PTYPES), "None"),
        "closed": ("set_is_closed", "is_closed", BOOL, False),
        "executable": ("set_is_executable", "is_executable", BOOL, False),
        "lane sets": ("set_lane_set_list", "get_lane_set_list", ("list", False, "LaneSet"), []),
        "elements": ("set_flow_element_list", "get_flow_element_list", ("list", False, "FlowElement"), [])}),
    "Gateway": ("gateways.gateway_type", "FlowNode", (), {
        "direction": ("set_gateway_direction", "get_gateway_direction", ("enum", False, DIRS), "Unspecified")}),
    "ExclusiveGateway": ("gateways.exclusive_gateway_type", "Gateway", (), {
        "default": ("set_default", "get_default", STR0, None)}),
    "InclusiveGateway": ("gateways.inclusive_gateway_type", "Gateway", (), {
        "default": ("set_default", "get_default", STR0, None)}),
    "ParallelGateway": ("gateways.parallel_gateway_type", "Gateway", (), {}),
    "Activity": ("activities.activity_type", "FlowNode", (), {"default": ("set_default", "get_default", STR0, None)}),
    "Task": ("activities.task_type", "Activity", (), {}),
    "SubProcess": ("activities.subprocess_type", "Activity", (), {
        "triggered": ("set_triggered_by_event", "triggered_by_event", BOOL, False),
        "lane sets": ("set_lane_set_list", "get_lane_set_list", ("list", False, "LaneSet"), []),
        "elements": ("set_flow_element_list", "get_flow_element_list", ("list", False, "FlowElement"), [])}),
    "Event": ("events.event_type", "FlowNode", (), {}),
    "CatchEvent": ("events.catch_event_type", "Event", (), {
        "parallel": ("set_parallel_multiple", "parallel_multiple", BOOL, False),
        "definitions": ("set_event_definition_list", "get_event_definition_list", ("list", False, "EventDefinition"), [])}),
    "ThrowEvent": ("events.throw_event_type", "Event", (), {
        "definitions": ("set_event_definition_list", "get_event_definition_list", ("list", False, "EventDefinition"), [])}),
    "StartEvent": ("events.start_event_type", "CatchEvent", (), {}),
    "IntermediateCatchEvent": ("events.intermediate_catch_event_type", "CatchEvent", (), {}),
    "EndEvent": ("events.end_event_type", "ThrowEvent", (), {}),
    "IntermediateThrowEvent": ("events.intermediate_throw_event_type", "ThrowEvent", (), {}),
}


def bases(c):
    while c:
        yield c
        c = CLS[c][1]


def fields(c):
    out = {}
    for b in reversed(list(bases(c))):
        out.update(CLS[b][3])
    return out


SUBS = {"FlowElement": ("FlowElement", "Task", "SubProcess", "SequenceFlow", "EndEvent", "ParallelGateway", "StartEvent",
                        "InclusiveGateway"),
        "EventDefinition": ("EventDefinition",), "Lane": ("Lane",), "LaneSet": ("LaneSet",),
        "ConditionExpression": ("ConditionExpression",)}
OTHERS = ("BaseElement", "Lane", "LaneSet", "ConditionExpression", "EventDefinition", "Participant", "Process", "FlowElement",
          "MessageFlow", "RootElement")


class World(object):
    """One abstract state in which every class of the model has been instantiated."""

    def __init__(self, rep):
        self.rep = rep
        self.s = Scn(rep.repo)
        self.n = 0
        self.ok = True

    def cls(self, c):
        m = self.s.mod(P + CLS[c][0])
        return self.s.attr(m, c)

    def new(self, c, *args):
        if CLS[c][2] and not args:
            self.n += 1
            args = [Tok("%s%d" % (a, self.n)) for a in CLS[c][2]]
        return self.s.call(self.cls(c), *args), args

    def obj(self, c):
        o, _ = self.new(c)
        return rs(o.value, self.s.st.asm) if o.value is not None else TOP

    def lst(self, items):
        return self.mk("list", [Item(x) for x in items])

    def mk(self, kind, x):
        self.n += 1
        it, st = self.s.it, self.s.st
        site = ("verif", self.n)
        return it.new_dict(st, x, site) if kind == "dict" else it.new_list(st, x, site, kind)

    def str(self, nonempty=False):
        self.n += 1
        return Tok("v%d" % self.n, "str", nonempty)

    def good(self, kind):
        """[(label, value)]"""
        k, none, x = kind
        out = []
        if k == "str":
            out = [("text", self.str()), ("empty text", Const("")), ("other text", self.str())]
        elif k == "bool":
            out = [("True", Const(True)), ("False", Const(False)), ("True again", Const(True))]
        elif k == "enum":
            out = [("'%s'" % e, Const(e)) for e in x]
        elif k == "obj":
            out = [("a " + c, self.obj(c)) for c in SUBS[x] for _ in (0, 1)]
        elif k == "list":
            el = (lambda: self.str()) if x == "str" else (lambda: self.obj(x))
            out = [("one element", self.lst([el()])), ("empty list", self.lst([])),
                   ("three elements", self.lst([el(), el(), el()]))]
            a = el()
            out.append(("a repeated element", self.lst([a, el(), a])))
            if x != "str":
                for c in SUBS[x]:
                    out.append(("list of a " + c, self.lst([self.obj(c), el()])))
            else:
                out.append(("list with empty text", self.lst([Const(""), el()])))
        if none:
            out.insert(1, ("None", NONE))
            out.append(("None at last", NONE))
            out.append(out[0])
        return out

    def scalars(self):
        d = self.mk("dict", {})
        d1 = self.mk("dict", {Const("k"): Const("v")})
        return [("zero", Const(0)), ("a number", Const(7)), ("a float", Const(1.5)), ("an empty dict", d), ("a dict", d1),
                ("an empty tuple", Tup([])), ("bytes", Const(b"ab")), ("empty bytes", Const(b""))]

    def wrong(self, kind):
        k, none, x = kind
        out = self.scalars()
        if not none:
            out.append(("None", NONE))
        st = [("text", self.str()), ("empty text", Const(""))]
        bl = [("True", Const(True)), ("False", Const(False))]
        ls = [("empty list", self.lst([])), ("list of text", self.lst([self.str()]))]
        if k == "str":
            out += bl + ls + [("an object", self.obj("BaseElement"))]
        elif k == "bool":
            out += st + ls + [("one", Const(1)), ("'true'", Const("true")), ("an object", self.obj("BaseElement"))]
        elif k == "enum":
            out += bl + ls
            for e in x:
                for v in (e.lower(), e.upper(), " " + e, e + "x", e[:-1], e[1:]):
                    if v not in x:
                        out.append(("'%s'" % v, Const(v)))
            out += [("empty text", Const("")), ("any other text", other_tok(self.s, "w", x))]
            out += [("'%s'" % v, Const(v)) for v in (DIRS + PTYPES) if v not in x]
            out += [("a list of a valid word", self.lst([Const(x[0])]))]
        elif k == "obj":
            out += st + bl + ls + [("a " + c, self.obj(c)) for c in OTHERS if not self.derives(c, x)]
            out.append(("the class itself", self.cls(x)))
            out.append(("a list of one", self.lst([self.obj(x)])))
        elif k == "list":
            good = (lambda: self.str()) if x == "str" else (lambda: self.obj(x))
            out += st + bl
            out.append(("a tuple", Tup([good()])))
            out.append(("a set", self.mk("set", [Item(good())])))
            out.append(("a single element", good()))
            bads = self.scalars()[:3] + [("None", NONE), ("False", Const(False)), ("a list", self.lst([good()])),
                                         ("bytes", Const(b"a"))]
            if x == "str":
                bads.append(("an object", self.obj("BaseElement")))
            else:
                bads += [("text", self.str()), ("empty text", Const(""))]
                bads += [("a " + c, self.obj(c)) for c in OTHERS if not self.derives(c, x)]
            for n, b in bads:
                out.append(("a list of %s" % n, self.lst([b])))
                out.append(("a list ending with %s" % n, self.lst([good(), good(), b])))
                out.append(("a list starting with %s" % n, self.lst([b, good(), good()])))
                out.append(("a list with %s inside" % n, self.lst([good(), b, good()])))
        return out

    @staticmethod
    def derives(c, x):
        return x in bases(c)


def same(w, got, exp):
    """the getter's value is the stored one (lists: same content)"""
    s = w.s
    got, exp = rs(got, s.st.asm), rs(exp, s.st.asm)
    if got == exp:
        return []
    if isinstance(exp, Ref) and s.st.get(exp.addr).kind == "list":
        return Cmp(s.st).run(got, EL([i.v for i in s.st.get(exp.addr).items]), "value")
    return Cmp(s.st).run(got, exp, "value")


def read_all(w, rep, subj, rule, obj, fl, want):
    for f, (_, g, _, _) in fl.items():
        out = w.s.call((obj, g))
        sj = "%s: %s" % (subj, g)
        if out.dead or out.raises:
            rep.no_raise(rule, sj, out, w.s)
            continue
        rep.diffs(rule, sj, same(w, out.value, want[f]), w.s)


def rejects(w, rep, subj, out, obj, fl, want):
    """The call raises on every path and the object keeps its values in the state of the error."""
    s = w.s
    if not out.dead:
        conds = [c for c, *_ in out.raises]
        if conds and any(cond_unclean(c) for c in conds) or s.it.notes:
            rep.und("rejected", subj, "may be accepted")
        else:
            c = conds[0] if conds else None
            if c is not None and csimp(c, s.st.asm) is True:
                rep.ok("rejected", subj)
            else:
                rep.bad("rejected", subj, "is accepted" + (" unless %s" % show(c) if c is not None else ""))
        return
    if not out.raises:
        rep.und("rejected", subj, "no outcome")
        return
    rep.ok("rejected", subj)
    if obj is None:
        return
    for c, name, loc, msg, leaf in out.raises[:4]:
        keep = s.st.fork()
        s.st.become(leaf.st.fork())
        try:
            read_all(w, rep, subj, "kept", obj, fl, want)
        finally:
            s.st.become(keep)


def one_class(rep, c, tier):
    fl = fields(c)
    w = World(rep)
    s = w.s
    out, args = w.new(c)
    if not rep.no_raise("created", c, out, s) and out.dead:
        return
    a = rs(out.value, s.st.asm)
    want = {}
    given = dict(zip(CLS[c][2], args))

    def defaults(o, giv, subj):
        for f, (_, g, _, d) in fl.items():
            r = s.call((o, g))
            sj = "%s.%s" % (subj, g)
            if r.dead or r.raises:
                rep.no_raise("default", sj, r, s)
                continue
            v = rs(r.value, s.st.asm)
            e = giv[f] if d == "arg" else EL([]) if isinstance(d, list) else Const(d)
            if isinstance(e, EL) and not (isinstance(v, Ref) and s.st.get(v.addr).kind == "list") and not term_unclean(v):
                rep.bad("default", sj, "%s is no list" % show(v))
                continue
            rep.diffs("default", sj, Cmp(s.st).run(v, e, sj), s)
            yield f, v
    want = dict(defaults(a, given, c))
    # class relations the type checks rely on
    out2, args2 = w.new(c)
    b = rs(out2.value, s.st.asm)
    bwant = dict(defaults(b, dict(zip(CLS[c][2], args2)), c + " (second object)"))
    for f in fl:
        if isinstance(want.get(f), Ref) and isinstance(bwant.get(f), Ref):
            rep.check("own-list", "%s.%s" % (c, f), want[f] != bwant[f], "two objects share the default list of " + f)
    rl = [f for f in fl if isinstance(want.get(f), Ref)]
    for i, f in enumerate(rl):
        for g in rl[i + 1:]:
            rep.check("own-list", "%s.%s/%s" % (c, f, g), want[f] != want[g], "%s and %s start as the same list" % (f, g))
    if len(want) < len(fl) or len(bwant) < len(fl):
        rep.absorb(s)
        return
    for f, (st_, g, kind, _) in fl.items():
        for lab, v in w.good(kind):
            subj = "%s.%s(%s)" % (c, st_, lab)
            out = s.call((a, st_), v)
            if not rep.no_raise("accepted", subj, out, s) and out.dead:
                continue
            want[f] = v
            read_all(w, rep, subj, "stored", a, fl, want)
        read_all(w, rep, "%s.%s, other object" % (c, st_), "other-object", b, fl, bwant)
    base = s.st.fork()
    for f, (st_, g, kind, _) in fl.items():
        for lab, v in w.wrong(kind):
            subj = "%s.%s(%s)" % (c, st_, lab)
            base = s.st.fork()
            out = s.call((a, st_), v)
            rejects(w, rep, subj, out, a, fl, want)
            s.st.become(base)
    read_all(w, rep, c + " after rejections", "other-object", b, fl, bwant)
    # constructor arguments
    for i, p in enumerate(CLS[c][2]):
        kind = fl[p][2]
        for lab, v in w.good(kind):
            args = [w.str() for _ in CLS[c][2]]
            args[i] = v
            out, _ = w.new(c, *args)
            subj = "%s(%s=%s)" % (c, p, lab)
            if not rep.no_raise("created", subj, out, s) and out.dead:
                continue
            o = rs(out.value, s.st.asm)
            dict(defaults(o, dict(zip(CLS[c][2], args)), subj))
        for lab, v in w.wrong(kind):
            args = [w.str() for _ in CLS[c][2]]
            args[i] = v
            base = s.st.fork()
            out, _ = w.new(c, *args)
            rejects(w, rep, "%s(%s=%s)" % (c, p, lab), out, None, fl, want)
            s.st.become(base)
    rep.absorb(s)
    rep.scn.append("%s: %d fields" % (c, len(fl)))


def hierarchy(rep):
    w = World(rep)
    s = w.s
    for c in CLS:
        v = w.cls(c)
        for d in CLS:
            r = s.call(LibV("builtins.issubclass"), v, w.cls(d))
            e = d in bases(c)
            got = rs(r.value, s.st.asm) if r.value is not None else TOP
            rep.diffs("hierarchy", "%s is%s a %s" % (c, "" if e else " not", d), Cmp(s.st).run(got, Const(e), ""), s)
    rep.absorb(s)


def c18(rep, tier):
    for c in CLS:
        one_class(rep, c, tier)
    hierarchy(rep)
