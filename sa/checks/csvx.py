"""Rules on CSV export (C16) and CSV import (C17, CSV part of C08)."""
from .common import *
from .api import Live, flow_consistent, lists_consistent
from .shapes import *
from .effects import trial

HEADER = ("Order", "Activity", "Condition", "Who", "Subprocess", "Terminated")
TASKISH = ("task", "userTask", "serviceTask", "manualTask", "subProcess")


# ---------------------------------------------------------------------- file content
class Row(object):
    def __init__(self, cells, quoted, guard, many, opts):
        self.cells, self.quoted, self.guard, self.many, self.opts = cells, quoted, guard, many, opts


def chunks_of(s, n0):
    """items of the single file the call wrote (None, reason) if that cannot be told"""
    files = []
    for w in s.world()[n0:]:
        for v in leaves(w.v):
            if isinstance(v, Tup) and v.items[0] == Const("open"):
                for x in v.items[1:]:
                    if isinstance(x, Ref) and s.st.get(x.addr).kind == "file":
                        files.append(x)
    if len(files) != 1:
        return None, "%d files opened" % len(files)
    return s.st.get(files[0].addr).items, ""


def csv_rows_of(s, items):
    """-> (rows, problem): the records a CSV reader sees, with the way each cell was written"""
    rows, cur, cell = [], [], []
    asm = s.st.asm

    def flush_cell():
        ps = [p for p in cell if p != Const("")]
        cur.append(mkcat(ps) if ps else Const(""))
        cell[:] = []

    def end_row():
        flush_cell()
        rows.append(Row(list(cur), False, True, None, ""))
        cur[:] = []

    def raw(v):
        if isinstance(v, Cat):
            for p in v.parts:
                raw(p)
            return
        if isinstance(v, Const) and isinstance(v.v, str):
            buf = ""
            for ch in v.v:
                if ch == ",":
                    cell.append(Const(buf))
                    buf = ""
                    flush_cell()
                elif ch == "\n":
                    cell.append(Const(buf))
                    buf = ""
                    end_row()
                elif ch != "\r":
                    buf += ch
            cell.append(Const(buf))
            return
        cell.append(v)
    for i in items:
        v = rs(i.v, asm)
        if csimp(i.guard, asm) is False:
            continue
        if isinstance(v, App) and v.op == "csvrow":
            if cur or any(c != Const("") for c in cell):
                return rows, "text before a CSV record without a line break"
            cell[:] = []
            rows.append(Row([rs(x, asm) for x in v.args[:-1]], True, csimp(i.guard, asm), i.many, v.args[-1].v))
            continue
        if i.many or csimp(i.guard, asm) is not True:
            return rows, "conditional text %r" % (v,)
        if isinstance(v, App):
            return rows, "text of unknown form %r" % (v,)
        raw(v)
    if cur or any(c != Const("") for c in cell):
        end_row()
    return rows, ""


BAD_OPTS = ("QUOTE_NONE", "doublequote=False", "delimiter=';'", "delimiter='\\t'", "quotechar=\"'\"", "delimiter='|'")


def judge_rows(rep, s, subj, rows, problem, want):
    """want: list of 6-tuples of V"""
    notes = bool(s.it.notes)
    if problem:
        rep.und("rows", subj, problem)
        return
    if not rows or tuple(c.v if isinstance(c, Const) else None for c in rows[0].cells) != HEADER:
        (rep.und if notes else rep.bad)("header", subj, "the file starts with %s" % (rows[0].cells if rows else "nothing"))
    else:
        rep.ok("header", subj)
    body = rows[1:]
    if len(body) != len(want) or any(r.guard is not True or r.many for r in body):
        (rep.und if notes or any(cond_unclean(r.guard) for r in body) else rep.bad)(
            "rows", subj, "rows written: %s; expected: %s" % (
                ["|".join(show(c) for c in r.cells[:3]) for r in body], ["|".join(show(c) for c in w[:3]) for w in want]))
        return
    rep.ok("rows", subj)
    for r, w in zip(body, want):
        if len(r.cells) != 6:
            (rep.und if notes else rep.bad)("columns", "%s: %s" % (subj, show(w[0])), "%d cells: %s" % (
                len(r.cells), [show(c) for c in r.cells]))
            continue
        for h, g, e in zip(HEADER, r.cells, w):
            rep.diffs("cell", "%s: %s of row %s" % (subj, h, show(w[0])), Cmp(s.st).run(g, e, h), s)
            if isinstance(g, Const):
                continue
            q = "%s: %s of row %s" % (subj, h, show(w[0]))
            if r.quoted:
                bad = [b for b in BAD_OPTS if b in r.opts]
                odd = [o for o in r.opts.split(",") if o and not o.startswith("lineterminator=") and "QUOTE_" not in o]
                if bad:
                    (rep.und if notes else rep.bad)("quoted", q, "CSV writer options %s" % r.opts)
                elif odd:
                    rep.und("quoted", q, "CSV writer options %s" % r.opts)
                else:
                    rep.ok("quoted", q)
            elif all(isinstance(p, (Const, Tok)) for p in id_parts(g)):
                (rep.und if notes else rep.bad)("quoted", q, "%s is written as plain text, so commas, quotes and line breaks "
                                                             "in it break the file" % show(g))
            else:
                rep.und("quoted", q, "text of form %s" % show(g))


# ---------------------------------------------------------------------- C16
def oracle_rows(F, label=None):
    """The rows of a block-structured process, from the description of the file alone."""
    rows = []
    label = label or (lambda f: f["attrs"]["name"])

    def nm(n):
        return n["attrs"]["name"]

    def join(n):
        return len(n["in"]) >= 2 and n["kind"] != "endEvent"

    def closes(n, j):
        """does every flow into j come from a branch of n?"""
        seen, todo = {id(n), id(j)}, [n]
        while todo:
            for f in todo.pop()["out"]:
                if id(f["dst"]) not in seen:
                    seen.add(id(f["dst"]))
                    todo.append(f["dst"])
        return all(id(f["src"]) in seen for f in j["in"])

    def row(order, act, cond, sub="", term=""):
        rows.append((Const(order), act, cond, Const(""), Const(sub), Const(term)))

    def walk(n, order, prefix, cond, enter=False):
        """writes the rows from n on; returns the join that ends the branch, or None"""
        if join(n) and not enter:
            return n
        k = n["kind"]
        if k in ("startEvent", "endEvent"):
            d = n["defs"][0][0] if n["defs"] else ""
            pre = "message " if d == "messageEventDefinition" else \
                "timer " if d == "timerEventDefinition" and k == "startEvent" else ""
            row(prefix + str(order), mkcat([Const(pre), nm(n)]) if pre else nm(n), cond,
                term="yes" if k == "endEvent" else "")
            if k == "endEvent":
                return None
        elif k in TASKISH:
            row(prefix + str(order), nm(n), cond, sub="yes" if k == "subProcess" else "")
        out = n["out"]
        if len(out) == 1:
            return walk(out[0]["dst"], order + 1, prefix, Const(""))
        if not out:
            return None
        nxt = None
        for i, f in enumerate(out):
            p = "%s%d%s" % (prefix, order, chr(97 + i))
            c = Const("") if k == "parallelGateway" else label(f)
            if k != "parallelGateway" and n["attrs"].get("default") == f["id"]:
                c = Const("else")
            if join(f["dst"]):
                row(p + "1", Const("goto %s%d" % (prefix, order + 1)), c)
                continue
            j = walk(f["dst"], 1, p, c)
            nxt = j or nxt
        if nxt is None or not closes(n, nxt):
            return nxt
        if nxt["kind"] in TASKISH:
            return walk(nxt, order + 1, prefix, Const(""), True)
        return walk(nxt["out"][0]["dst"], order + 1, prefix, Const(""))
    start = [n for n in F.nodes if not n["in"]][0]
    walk(start, 0, "", Const(""))
    return rows


def csv_shapes(tier):
    out = dict(SHAPES)

    def add(name, nodes, flows, attrs=None, **kw):
        out[name] = (nodes, flows, attrs, kw)
    for d in docs_defs("startEvent"):
        add("start event with " + d, [("s", "startEvent", [d]), ("t", "task"), ("e", "endEvent")],
            [("f0", "s", "t"), ("f1", "t", "e")])
    for d in docs_defs("endEvent"):
        add("end event with " + d, [("s", "startEvent"), ("t", "task"), ("e", "endEvent", [d])],
            [("f0", "s", "t"), ("f1", "t", "e")])
    for k in TASKISH:
        add("branches starting at " + k, [("s", "startEvent"), ("a", k), ("b", k), ("c", k), ("d", k), ("e", "endEvent")],
            [("f0", "s", "a"), ("f1", "a", "b"), ("f2", "a", "c"), ("f3", "b", "d"), ("f4", "c", "d"), ("f5", "d", "e")],
            {"a": {"default": Tok("f2", "str", True, "id")}})
    for n in (4, 6):
        add("%d branches, inclusive, default last" % n, *split("inclusiveGateway", n, default=n - 1))
    add("default branch straight to the join", [("s", "startEvent"), ("g", "exclusiveGateway"), ("t", "userTask"),
                                                ("j", "exclusiveGateway"), ("e", "endEvent")],
        [("f0", "s", "g"), ("f1", "g", "t"), ("f2", "g", "j"), ("f3", "t", "j"), ("f4", "j", "e")],
        {"g": {"default": Tok("f2", "str", True, "id")}})
    for d in (0, 2):
        ts = [("t0", "task"), ("t1", "task"), ("t2", "task")]
        add("default branch %d ends, the others join" % d, [("s", "startEvent"), ("g", "inclusiveGateway")] + ts + [
            ("x", "endEvent"), ("j", "inclusiveGateway"), ("z", "userTask"), ("e", "endEvent")],
            [("f0", "s", "g")] + [("b%d" % i, "g", "t%d" % i) for i in range(3)] +
            [("c%d" % i, "t%d" % i, "x" if i == d else "j") for i in range(3)] + [("f1", "j", "z"), ("f2", "z", "e")],
            {"g": {"default": Tok("b%d" % d, "str", True, "id")}})
    add("end inside a branch", [("s", "startEvent"), ("g", "exclusiveGateway"), ("t", "task"), ("x", "endEvent"),
                                ("h", "parallelGateway"), ("u", "task"), ("v", "task"), ("k", "parallelGateway"),
                                ("w", "task"), ("e", "endEvent")],
        [("f0", "s", "g"), ("f1", "g", "t"), ("f2", "t", "x"), ("f3", "g", "h"), ("f4", "h", "u"), ("f5", "h", "v"),
         ("f6", "u", "k"), ("f7", "v", "k"), ("f8", "k", "w"), ("f9", "w", "e")],
        {"g": {"default": Tok("f1", "str", True, "id")}})
    add("splits in sequence", [("s", "startEvent"), ("g", "exclusiveGateway"), ("a", "task"), ("b", "task"),
                               ("j", "exclusiveGateway"), ("h", "inclusiveGateway"), ("c", "task"), ("d", "task"),
                               ("k", "inclusiveGateway"), ("z", "subProcess"), ("e", "endEvent")],
        [("f0", "s", "g"), ("f1", "g", "a"), ("f2", "g", "b"), ("f3", "a", "j"), ("f4", "b", "j"), ("f5", "j", "h"),
         ("f6", "h", "c"), ("f7", "h", "d"), ("f8", "c", "k"), ("f9", "d", "k"), ("fa", "k", "z"), ("fb", "z", "e")],
        {"h": {"default": Tok("f6", "str", True, "id")}})
    add("nested split with an activity join", [
        ("s", "startEvent"), ("g", "exclusiveGateway"), ("h", "parallelGateway"), ("t1", "task"), ("t2", "task"),
        ("k", "parallelGateway"), ("t0", "task"), ("d", "task"), ("e", "endEvent")],
        [("f0", "s", "g"), ("f1", "g", "h"), ("f2", "g", "t0"), ("f3", "h", "t1"), ("f4", "h", "t2"), ("f5", "t1", "k"),
         ("f6", "t2", "k"), ("f7", "k", "d"), ("f8", "t0", "d"), ("f9", "d", "e")])
    out.update(generated_shapes(400 if tier == "thorough" else 60))
    add("unnamed flows", *split("exclusiveGateway", 2, default=1), flow_names=False)
    return out


def docs_defs(k):
    from .. import docs
    return docs.DEFS[k]


def c16(rep, tier):
    for name, spec in csv_shapes(tier).items():
        nodes, flows, attrs, kw = spec
        kw = dict(kw)
        named = kw.pop("flow_names", True)
        L = Shaped(rep, (nodes, flows, attrs, kw), **({} if named else {"unnamed": True}))
        if not L.ok:
            rep.und("setup", name, "not loaded")
            continue
        s = L.scn
        n0 = len(s.world())
        out = L.call("export_csv_file", Tok("dir", nonempty=True), Tok("file", nonempty=True))
        if not rep.no_raise("export-accepted", name, out, s, [lambda c, n, l: n in ("OSError", "PermissionError", "IOError")]) \
                and out.dead:
            continue
        items, why = chunks_of(s, n0)
        if items is None:
            rep.und("rows", name, why)
            continue
        rows, prob = csv_rows_of(s, items)
        judge_rows(rep, s, name, rows, prob, oracle_rows(L.F, None if named else (lambda f: Const(""))))
        rep.absorb(s)
        rep.scn.append("CSV export of '%s'" % name)
    # a diagram built by calls
    for g in ("exclusive", "inclusive", "parallel"):
        L = Live(rep, "new")
        s = L.scn
        mk = lambda m, **k: rs(L.call(m, process_id=L.pid, **k).value, s.st.asm).items[0]
        a = mk("add_start_event_to_diagram", start_event_name=Tok("sn"), start_event_definition=Const("timer"))
        gw = mk("add_%s_gateway_to_diagram" % g)
        ts = [mk("add_task_to_diagram", task_name=Tok("tn%d" % i)) for i in range(2)]
        sp = mk("add_subprocess_to_diagram", subprocess_name=Tok("spn"))
        j = mk("add_%s_gateway_to_diagram" % g)
        e = mk("add_end_event_to_diagram", end_event_name=Tok("en"), end_event_definition=Const("message"))
        fl = [(a, gw, None)] + [(gw, t, Tok("fn%d" % i)) for i, t in enumerate(ts)] + \
             [(ts[0], j, None), (ts[1], sp, None), (sp, j, None), (j, e, None)]
        for x, y, n in fl:
            kw = {"sequence_flow_name": n} if n else {}
            L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=x, target_ref_id=y, **kw)
        n0 = len(s.world())
        out = L.call("export_csv_file", Tok("dir", nonempty=True), Tok("file", nonempty=True))
        subj = "built by calls, %s gateways" % g
        if not rep.no_raise("export-accepted", subj, out, s, [lambda c, n, l: n in ("OSError", "PermissionError", "IOError")]) \
                and out.dead:
            continue
        items, why = chunks_of(s, n0)
        if items is None:
            rep.und("rows", subj, why)
            continue
        rows, prob = csv_rows_of(s, items)
        E = Const("")
        c = lambda i: E if g == "parallel" else Tok("fn%d" % i)
        judge_rows(rep, s, subj, rows, prob, [
            (Const("0"), mkcat([Const("timer "), Tok("sn")]), E, E, E, E),
            (Const("1a1"), Tok("tn0"), c(0), E, E, E), (Const("1b1"), Tok("tn1"), c(1), E, E, E),
            (Const("1b2"), Tok("spn"), E, E, Const("yes"), E),
            (Const("2"), mkcat([Const("message "), Tok("en")]), E, E, E, Const("yes"))])
        rep.absorb(s)


# ---------------------------------------------------------------------- C17
class Csv(object):
    """rows: [(order, activity spec, condition spec, subprocess?, terminated?)]; flows: [(source, target, row whose
    condition the flow carries or None)], where 'split:x' / 'join:y' name the gateways; gates: {name: kind}."""

    def __init__(self, rows, flows, gates):
        self.rows, self.flows, self.gates = rows, flows, gates


def seq(*orders):
    return [(a, b, b) for a, b in zip(orders, orders[1:])]


def table(labels, kind, goto=None):
    """0, 1, a split with the given branch labels after 1, joined at 3, end 4"""
    n = len(labels)
    br = ["2%s1" % chr(97 + i) for i in range(n)]
    rows = [("0", "any", "", 0, 0), ("1", "any", "", 0, 0)] + [(b, "any", l, i % 2, 0) for i, (b, l) in enumerate(zip(br, labels))] + \
           [("3", "any", "", 0, 0), ("4", "any", "", 0, 1)]
    fl = [("0", "1", "1"), ("1", "split:1", None)] + [("split:1", b, b) for b in br] + [(b, "join:3", None) for b in br] + \
         [("join:3", "3", "3"), ("3", "4", "4")]
    return Csv(rows, fl, {"split:1": kind, "join:3": kind})


EX, IN, PA = "exclusiveGateway", "inclusiveGateway", "parallelGateway"


def gate_of(labels):
    l = [x.strip() for x in labels]
    if len(l) == 2 and (set(l) == {"yes", "no"} or "else" in l):
        return EX
    return IN if any(l) else PA


def build(block):
    """A block-structured table.  block: list of 'task' | 'sub' | 'end' | 'goto <order>' | [(label, block), ...] where the
    first item of a branch is a row and a list is a split between the rows around it."""
    rows, flows, gates = [], [], {}

    def go(items, prefix, start, prev, label):
        """prev: list of sources that continue to the next row; -> sources that leave the block"""
        n = start
        for k, it in enumerate(items):
            if isinstance(it, list):
                before = prefix + str(n - 1)
                sp = "split:" + before
                gates[sp] = gate_of([l for l, _ in it])
                flows.append((before, sp, None))
                out = []
                for i, (l, b) in enumerate(it):
                    out += go(b, "%s%d%s" % (prefix, n, chr(97 + i)), 1, [sp], l)
                n += 1
                if len(out) >= 2:
                    j = "join:" + prefix + str(n)
                    gates[j] = gates[sp]
                    for o in out:
                        flows.append((o, j, None))
                    out = [j]
                prev = out
                continue
            order = prefix + str(n)
            rows.append((order, "any" if not it.startswith("goto") else it, label if k == 0 else "",
                         int(it == "sub"), int(it == "end")))
            if it.startswith("goto"):
                for p in prev:
                    flows.append((p, it.split()[1], order))
                prev = []
            else:
                for p in prev:
                    flows.append((p, order, order))
                prev = [order] if it != "end" else []
            n += 1
        return prev
    go(block, "", 0, [], "")
    return Csv(rows, flows, gates)


def split2(labels, inner=("task",)):
    return [(l, list(inner)) for l in labels]


def generated(tier):
    """systematic tables: every labelling of two and three branches, nesting, branch ends, jumps"""
    import itertools
    L = ("", "other", "yes", "no", "else")
    out = {}
    T = "task"
    for a in itertools.product(L, repeat=2):
        out["labels %s" % "/".join(x or "-" for x in a)] = build([T, T, split2(a), T, "end"])
    three = itertools.product(L, repeat=3) if tier == "thorough" else [
        x for x in itertools.combinations_with_replacement(L, 3)] + [("else", "other", ""), ("yes", "no", ""), ("no", "else", "yes")]
    for a in three:
        out["labels %s" % "/".join(x or "-" for x in a)] = build([T, T, split2(a), T, "end"])
    for n in (4, 26):
        out["%d branches, one else" % n] = build([T, T, split2(["other"] * (n - 1) + ["else"]), T, "end"])
        out["%d branches" % n] = build([T, T, split2([""] * n), T, "end"])
    out["split right after the start"] = build([T, split2(["yes", "no"]), T, "end"])
    out["end right after the join"] = build([T, T, split2(["", ""]), "end"])
    out["two splits in a row"] = build([T, T, split2(["yes", "no"]), T, split2(["", "", ""], (T, "sub")), T, "end"])
    deep = [("other", [T, [("", [T, [("yes", [T]), ("no", [T, T])], "sub"]), ("", [T])], T]), ("other", [T])]
    out["three levels of splits"] = build([T, T, deep, T, "end"])
    out["splits in every branch"] = build([T, T, [(l, [T, split2(["yes", "no"]), T]) for l in ("", "")], T, "end"])
    out["all branches end"] = build([T, T, [("other", [T, "end"]), ("else", [T, T, "end"])]])
    out["all three branches end"] = build([T, T, [("", [T, "end"]), ("", ["end"]), ("", ["sub", "end"])]])
    out["one of three branches ends"] = build([T, T, [("other", [T, "end"]), ("other", [T]), ("else", [T])], T, "end"])
    out["a branch is only an end"] = build([T, T, [("yes", ["end"]), ("no", [T])], T, "end"])
    out["goto out of a nested branch"] = build([T, T, [("yes", [T, [("other", [T]), ("else", ["goto 1"])], T]), ("no", [T])], T, "end"])
    out["goto from one of three"] = build([T, T, T, [("other", [T]), ("other", ["goto 1"]), ("else", [T])], T, "end"])
    out["two gotos"] = build([T, T, T, [("other", [T]), ("other", ["goto 1"]), ("other", ["GOTO 2"])], T, "end"])
    out["padded goto"] = build([T, T, T, [("yes", [T]), ("no", ["goto  1 "])], T, "end"])
    out["two digit split"] = build([T] * 10 + [split2(["yes", "no"], (T, T))] + [T, "end"])
    out["split before row 20"] = build([T] * 19 + [split2(["yes", "no"], (T, T))] + [T, "end"])
    out["split before row 21"] = build([T] * 20 + [split2(["", ""])] + [T, "end"])
    out["branches of 21 rows"] = build([T, T, [("", [T] * 21), ("", [T] * 20 + ["end"])], T, "end"])
    out["split inside a branch before its row 20"] = build([T, T, [("", [T] * 19 + [split2(["", "", ""])] + [T]), ("", [T])], T, "end"])
    out["three digit orders"] = build([T] * 101 + ["end"])
    out["long branch"] = build([T, T, [("", [T] * 11), ("", [T])], T, "end"])
    return {k: v for k, v in out.items() if v is not None}


TABLES = {
    "plain sequence": Csv([("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2", "any", "", 1, 0), ("3", "any", "", 0, 1)],
                          seq("0", "1", "2", "3"), {}),
    "sequence with conditions": Csv([("0", "any", "", 0, 0), ("1", "any", "other", 0, 0), ("2", "any", "other", 1, 0),
                                     ("3", "any", "", 1, 1)], seq("0", "1", "2", "3"), {}),
    "two unlabelled": table(["", ""], PA), "yes and no": table(["yes", "no"], EX), "no and yes": table(["no", "yes"], EX),
    "else and label": table(["other", "else"], EX), "label and else": table(["else", "other"], EX),
    "two labels": table(["other", "other"], IN), "one label": table(["other", ""], IN),
    "else and nothing": table(["", "else"], EX), "yes and label": table(["yes", "other"], IN),
    "padded yes and no": table([" yes", "no "], EX),
    "three unlabelled": table(["", "", ""], PA), "three labels": table(["other", "other", "other"], IN),
    "three, one labelled": table(["", "", "other"], IN), "five unlabelled": table([""] * 5, PA),
    "goto forward": Csv([("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2a1", "any", "yes", 0, 0),
                         ("2b1", "goto 3", "no", 0, 0), ("3", "any", "", 0, 0), ("4", "any", "", 0, 1)],
                        [("0", "1", "1"), ("1", "split:1", None), ("split:1", "2a1", "2a1"), ("split:1", "3", "2b1"),
                         ("2a1", "3", "3"), ("3", "4", "4")], {"split:1": EX}),
    "goto back": Csv([("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2", "any", "", 0, 0), ("3a1", "any", "other", 0, 0),
                      ("3b1", "GoTo 1", "else", 0, 0), ("4", "any", "", 0, 0), ("5", "any", "", 0, 1)],
                     [("0", "1", "1"), ("1", "2", "2"), ("2", "split:2", None), ("split:2", "3a1", "3a1"),
                      ("split:2", "1", "3b1"), ("3a1", "4", "4"), ("4", "5", "5")], {"split:2": EX}),
    "unconditional goto into a branch": Csv(
        [("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2a1", "any", "other", 0, 0), ("2b1", "any", "else", 0, 0),
         ("2b2", "goto 2a1", "", 0, 0), ("3", "any", "", 0, 0), ("4", "any", "", 0, 1)],
        [("0", "1", "1"), ("1", "split:1", None), ("split:1", "2a1", "2a1"), ("split:1", "2b1", "2b1"),
         ("2b1", "2a1", "2b2"), ("2a1", "3", "3"), ("3", "4", "4")], {"split:1": EX}),
    "end inside a branch": Csv(
        [("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2a1", "any", "yes", 0, 0), ("2a2", "any", "", 0, 1),
         ("2b1", "any", "no", 0, 0), ("3", "any", "", 0, 0), ("4", "any", "", 0, 1)],
        [("0", "1", "1"), ("1", "split:1", None), ("split:1", "2a1", "2a1"), ("2a1", "2a2", "2a2"),
         ("split:1", "2b1", "2b1"), ("2b1", "3", "3"), ("3", "4", "4")], {"split:1": EX}),
    "longer branches": Csv(
        [("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2", "any", "", 0, 0), ("3a1", "any", "", 0, 0),
         ("3a2", "any", "", 1, 0), ("3b1", "any", "", 0, 0), ("4", "any", "", 0, 0), ("5", "any", "", 0, 1)],
        [("0", "1", "1"), ("1", "2", "2"), ("2", "split:2", None), ("split:2", "3a1", "3a1"), ("split:2", "3b1", "3b1"),
         ("3a1", "3a2", "3a2"), ("3a2", "join:4", None), ("3b1", "join:4", None), ("join:4", "4", "4"), ("4", "5", "5")],
        {"split:2": PA, "join:4": PA}),
    "split inside a branch": Csv(
        [("0", "any", "", 0, 0), ("1", "any", "", 0, 0), ("2a1", "any", "yes", 0, 0), ("2a2a1", "any", "", 0, 0),
         ("2a2b1", "any", "", 0, 0), ("2a3", "any", "", 0, 0), ("2b1", "any", "no", 0, 0), ("3", "any", "", 0, 0),
         ("4", "any", "", 0, 1)],
        [("0", "1", "1"), ("1", "split:1", None), ("split:1", "2a1", "2a1"), ("split:1", "2b1", "2b1"),
         ("2a1", "split:2a1", None), ("split:2a1", "2a2a1", "2a2a1"), ("split:2a1", "2a2b1", "2a2b1"),
         ("2a2a1", "join:2a3", None), ("2a2b1", "join:2a3", None), ("join:2a3", "2a3", "2a3"), ("2a3", "join:3", None),
         ("2b1", "join:3", None), ("join:3", "3", "3"), ("3", "4", "4")],
        {"split:1": EX, "join:3": EX, "split:2a1": PA, "join:2a3": PA}),
    "order cells with spaces": Csv([("0", "any", "", 0, 0), ("1 ", "any", "", 0, 0), (" 2", "any", "", 0, 0), ("3", "any", "", 0, 1)],
                                   seq("0", "1", "2", "3"), {}),
    "two digit orders": Csv([(str(i), "any", "", 0, i == 12) for i in range(13)], seq(*[str(i) for i in range(13)]), {}),
}


def assume_text(s, v, consts=(), goto=False, nonempty=False):
    """v is text different from the constants even when stripped or lower-cased, and no jump"""
    it, st = s.it, s.st
    forms = [v]
    for chain in (("strip",), ("lower",), ("strip", "lower"), ("lower", "strip")):
        x = v
        for m in chain:
            x = it.call_method(st, x, m, [], {}, None)
        forms.append(x)
    for f in forms:
        for c in consts:
            cassume(st.asm, it.eq(st, f, Const(c)), False)
        if nonempty:
            cassume(st.asm, it.truth(st, f), True)
        if goto:
            for p in ("goto", "goto "):
                r = it.call_method(st, f, "startswith", [Const(p)], {}, None)
                cassume(st.asm, it.truth(st, r), False)
            firsts = [it.call_method(st, f, "partition", [Const(" ")], {}, None).items[0]]
            for a in ([Const(" ")], [Const(" "), Const(1)]):
                l = it.call_method(st, f, "split", a, {}, None)
                firsts += [rs(st.get(x.addr).items[0].v, st.asm) for x in leaves(l)]
            firsts.append(rs(st.get(it.call_method(st, f, "split", [], {}, None).addr).items[0].v, st.asm))
            for w in firsts:
                for x in (w, it.call_method(st, w, "lower", [], {}, None)):
                    cassume(st.asm, it.eq(st, x, Const("goto")), False)


class CsvRun(Live):
    def __init__(self, rep, name, T, scn=None, dg=None):
        self.rep, self.variant, self.exports, self.F = rep, name, {}, None
        self.scn = s = scn or Scn(rep.repo)
        self.dg = dg or s.diagram()
        self.T, self.cells = T, {}
        rows = []
        for order, act, cond, sub, term in T.rows:
            o = order.strip()
            if act == "any":
                a = Tok("act." + o, "str")
                assume_text(s, a, goto=True)
            else:
                a = Const(act)
            if cond == "other":
                c = Tok("cond." + o, "str", True)
                assume_text(s, c, ("yes", "no", "else", ""), nonempty=True)
            else:
                c = Const(cond) if cond else ABSENT
            self.cells[o] = (a if act == "any" else None, c)
            rows.append((Const(order), [
                ("Activity", Phi(CAtom(App("has", (Const("act." + o),))), a, ABSENT) if act == "any" and o != "0" else a),
                ("Condition", c), ("Who", Phi(CAtom(App("has", (Const("who." + o),))), Tok("who." + o), ABSENT)),
                ("Subprocess", Const("yes") if sub else ABSENT), ("Terminated", Const("yes") if term else ABSENT)]))
        s.it.csv_rows = rows
        self.load = s.call((self.dg, "load_diagram_from_csv_file"), Tok("path", nonempty=True))
        self.ok = not self.load.dead


def resolve_gates(L):
    """ids of the generated gateways, found by their neighbours"""
    s, T = L.scn, L.T
    st, K = s.st, s.const
    rows = {Const(r[0].strip()) for r in T.rows}
    out, probs = {}, []
    ends = []
    for k, v in st.get(s.edges(L.dg).addr).slots.items():
        v = rs(v, st.asm)
        if v is ABSENT:
            continue
        if not isinstance(v, Ref):
            probs.append("edge %r" % (v,))
            continue
        o = st.get(v.addr).slots
        ends.append((rs(o.get(K("source_ref"), ABSENT), st.asm), rs(o.get(K("target_ref"), ABSENT), st.asm)))
    for g in T.gates:
        kind, n = g.split(":")
        c = [b for a, b in ends if a == Const(n) and b not in rows] if kind == "split" else \
            [a for a, b in ends if b == Const(n) and a not in rows]
        if len(set(c)) == 1:
            out[g] = c[0]
        else:
            probs.append("%s: %d candidates" % (g, len(set(c))))
    return out, probs, ends


def c17_one(rep, name, T):
    L = CsvRun(rep, name, T)
    s = L.scn
    st, K = s.st, s.const
    rep.no_raise("import-accepted", name, L.load, s)
    if not L.ok:
        rep.absorb(s)
        return
    notes = bool(s.it.notes)
    goto = {r[0].strip() for r in T.rows if r[1].lower().startswith("goto")}
    nd = s.nodes(L.dg)
    for order, act, cond, sub, term in T.rows:
        o = order.strip()
        v = st.get(nd.addr).slots.get(Const(o), ABSENT)
        subj = "%s: row %s" % (name, o)
        if o in goto:
            rep.diffs("goto-row-removed", subj, Cmp(st).run(v, EGone(), "node"), s)
            continue
        kind = "startEvent" if o == "0" else "endEvent" if term else "subProcess" if sub else "task"
        a = L.cells[o][0]
        nm = a if o == "0" else Phi(CAtom(App("has", (Const("act." + o),))), a, Const(""))
        rep.diffs("row-kind", subj, Cmp(st).run(v, ED({K("type"): Const(kind)}), "node"), s)
        rep.diffs("row-name", subj, Cmp(st).run(v, ED({K("node_name"): nm}), "node"), s)
    gates, probs, ends = resolve_gates(L)
    for p in probs:
        (rep.und if notes else rep.bad)("gateway-present", name, p)
    for g, i in gates.items():
        rep.diffs("gateway-kind", "%s: %s" % (name, g), Cmp(st).run(
            st.get(nd.addr).slots.get(i, ABSENT), ED({K("type"): Const(T.gates[g])}), "node"), s)
    want = {Const(r[0].strip()) for r in T.rows if r[0].strip() not in goto} | set(gates.values())
    for k, v in st.get(nd.addr).slots.items():
        if k not in want:
            rep.diffs("no-other-node", "%s: %s" % (name, show(k)), Cmp(st).run(v, EGone(), "node"), s)
    rep.ok("no-other-node", name)
    if probs:
        rep.absorb(s)
        return
    res = lambda x: gates[x] if ":" in x else Const(x)
    wantf = set()
    for a, b, c in T.flows:
        k = s.it.edge_key(res(a), res(b))
        wantf.add(k)
        cell = L.cells[c][1] if c else ABSENT
        ce = EGone() if cell is ABSENT else ED({K("condition_expression"): cell})
        v = st.get(s.edges(L.dg).addr).slots.get(k, ABSENT)
        subj = "%s: flow %s to %s" % (name, a, b)
        rep.diffs("flow", subj, Cmp(st).run(v, ED({K("source_ref"): res(a), K("target_ref"): res(b)}), "flow"), s)
        cv = rs(v, st.asm)
        if isinstance(cv, Ref):
            got = rs(st.get(cv.addr).slots.get(K("condition_expression"), ABSENT), st.asm)
            if cell is ABSENT and got == NONE:
                got = ABSENT
            rep.diffs("flow-condition", subj, Cmp(st).run(got, ce, "condition"), s)
    for k, v in st.get(s.edges(L.dg).addr).slots.items():
        if k not in wantf:
            rep.diffs("no-other-flow", "%s: %s" % (name, show(k)), Cmp(st).run(v, EGone(), "flow"), s)
    rep.ok("no-other-flow", name)
    rep.absorb(s)


def tables(tier):
    d = dict(TABLES)
    d.update(generated(tier))
    return d


def c17(rep, tier):
    for name, T in tables(tier).items():
        c17_one(rep, name, T)
        rep.scn.append("import of CSV table '%s'" % name)


def c08_csv(rep, tier):
    for name, T in (tables(tier) if tier == "thorough" else TABLES).items():
        L = CsvRun(rep, name, T)
        s = L.scn
        st, K = s.st, s.const
        if not L.ok:
            rep.und("setup", name, "not loaded")
            continue
        reg = st.res(s.attr(L.dg, "sequence_flows"))
        ends = {}
        for k, v in st.get(s.edges(L.dg).addr).slots.items():
            v = rs(v, st.asm)
            if not isinstance(v, Ref):
                continue
            o = st.get(v.addr).slots
            fid, a, b, nm = (rs(o.get(K(x), ABSENT), st.asm) for x in ("id", "source_ref", "target_ref", "name"))
            ends[fid] = (a, b)
            subj = "csv %s: %s" % (name, show(fid))
            flow_consistent(rep, s, L.dg, "csv", subj, fid, a, b, nm, reg)
            rep.check("csv-edge-ends", subj, s.it.edge_key(a, b) == k, "edge between %r carries source %r, target %r" % (k, a, b)) \
                if not s.it.notes else rep.und("csv-edge-ends", subj, "imprecise")
        for k, v in st.get(reg.addr).slots.items():
            if k not in ends:
                rep.diffs("no-other-flow", "csv %s: %s" % (name, show(k)), Cmp(st).run(v, EGone(), "registry"), s)
        lists_consistent(rep, s, L.dg, "csv-lists", ends)
        # nothing else is listed
        for nid, v in st.get(s.nodes(L.dg).addr).slots.items():
            v = rs(v, st.asm)
            if not isinstance(v, Ref):
                continue
            for key in ("incoming_flow", "outgoing_flow"):
                l = rs(st.get(v.addr).slots.get(K(key), ABSENT), st.asm)
                if isinstance(l, Ref) and st.get(l.addr).items is not None:
                    ex = [i for i in st.get(l.addr).items if rs(i.v, st.asm) not in ends and csimp(i.guard, st.asm) is True]
                    subj = "csv %s: %s of %s" % (name, key, show(nid))
                    if ex and not s.it.notes and not term_unclean(ex[0].v) and not isinstance(ex[0].v, Phi):
                        rep.bad("csv-lists-only-flows", subj, "lists %s, which is no flow" % show(ex[0].v), s.where(l.addr))
                    elif ex:
                        rep.und("csv-lists-only-flows", subj, show(ex[0].v))
                    else:
                        rep.ok("csv-lists-only-flows", subj)
        rep.absorb(s)
        rep.scn.append("flows of CSV table '%s'" % name)
