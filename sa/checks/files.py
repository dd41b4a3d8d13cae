"""C20: file-system effects of the exports."""
import os

from .common import *
from .api import Live
from .shapes import *

DESTROY = ("os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.removedirs", "os.renames", "shutil.rmtree",
           "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", "os.truncate", "os.chmod", "os.chown", "os.chdir",
           "os.symlink", "os.link", "os.mkfifo", "os.utime", "os.system")


def norm(v, asm):
    """comparable form of a path: ("const", text), ("parts", (..)) or None"""
    v = rs(v, asm)
    if isinstance(v, Const) and isinstance(v.v, str):
        return ("const", os.path.normpath(v.v) if v.v else "")
    if isinstance(v, App) and v.op == "pathjoin":
        return ("parts", tuple(v.args))
    if isinstance(v, Tok):
        return ("parts", (v,))
    if isinstance(v, Cat):
        ps = list(v.parts)
        out, glue = [], False
        for p in ps:
            if p in (Const("/"), Const(os.sep)):
                if glue or not out:
                    return ("cat", tuple(ps))
                glue = True
                continue
            if isinstance(p, Const) or (out and not glue):
                return ("cat", tuple(ps))
            out.append(p)
            glue = False
        return ("parts", tuple(out)) if not glue else ("cat", tuple(ps))
    if isinstance(v, App) and v.op in ("os.path.abspath", "os.path.normpath", "os.path.expanduser"):
        return norm(v.args[0], asm) if v.op != "os.path.expanduser" else None
    return None


def wanted(d, f):
    if isinstance(d, Const) and isinstance(f, Const):
        return ("const", os.path.normpath(os.path.join(d.v, f.v)))
    return ("parts", (d, f))


def same_path(rep, rule, subj, got, want, asm, notes, where):
    n = norm(got, asm)
    if n == want:
        rep.ok(rule, subj)
        return
    if n is None or term_unclean(rs(got, asm)) or notes:
        rep.und(rule, subj, "path %s" % show(got))
        return
    if n[0] == "cat" and len(n[1]) == 2 and want[0] == "parts" and n[1] == want[1]:
        rep.bad(rule, subj, "%s joins directory and name without a separator" % show(got), where)
        return
    if n[0] == "cat":
        rep.und(rule, subj, "path %s" % show(got))
        return
    rep.bad(rule, subj, "%s instead of %s" % (show(got), want[1]), where)


def events(st, n0):
    out = []
    for w in st.get("WORLD").items[n0:]:
        g = csimp(w.guard, st.asm)
        if g is False:
            continue
        for v in leaves(rs(w.v, st.asm)):
            if isinstance(v, Tup) and isinstance(v.items[0], Const):
                out.append((v.items[0].v, v.items[1:], g, w.many))
    return out


def at(x):
    l = x[-1] if x else None
    return "%s:%s" % (l.v if isinstance(l, Const) else l, "") if l is not None and not isinstance(l, Ref) else ""


IGNORE = ("uuid", "print", "setpop", "draw", "libstore")


def judge(rep, s, subj, meth, out, n0, d, f, csv):
    asm, notes = s.st.asm, bool(s.it.notes)
    evs = [e for e in events(s.st, n0) if e[0] not in IGNORE]
    want = wanted(d, f)
    dwant = ("const", os.path.normpath(d.v)) if isinstance(d, Const) else ("parts", (d,))
    writes = [e for e in evs if e[0] in ("xmlwrite",) or (e[0] == "open" and mode_of(e, asm)[0:1] != "r")]
    reads = [e for e in evs if e[0] == "open" and mode_of(e, asm) in ("r", "rb", "rt")]
    dirs = [e for e in evs if e[0] in ("makedirs", "mkdir")]
    other = [e for e in evs if e not in writes and e not in dirs and e not in reads]
    # exactly one file
    if len(writes) != 1:
        (rep.und if notes or any(cond_unclean(e[2]) for e in writes) else rep.bad)(
            "one-file", subj, "%d files are written: %s" % (len(writes), [show(e[1][0]) for e in writes]))
    else:
        w = writes[0]
        if w[2] is not True or w[3]:
            (rep.und if notes or cond_unclean(w[2]) else rep.bad)(
                "one-file", subj, "the file is written only when %s" % show(w[2]))
        else:
            rep.ok("one-file", subj)
        same_path(rep, "file-name", subj, w[1][0], want, asm, notes, at(w[1]))
        if not csv:
            encoding(rep, s, subj, w, asm, notes)
        else:
            m = mode_of(w, asm)
            if m is None:
                rep.und("mode", subj, "mode %s" % show(w[1][1]))
            else:
                (rep.ok("mode", subj) if m in ("w", "wt", "tw", "w+") else
                 (rep.und if notes else rep.bad)("mode", subj, "the file is opened with mode %r" % m))
    for e in other:
        if e[0] == "fs" and isinstance(e[1][0], Const) and e[1][0].v in DESTROY:
            tgt = [norm(x, asm) for x in e[1][1:] if isinstance(x, V)]
            if want in tgt or cond_unclean(e[2]) or any(t is None for t in tgt):
                rep.und("nothing-else", subj, "%s" % (e[1][0].v,))
            else:
                rep.bad("nothing-else", subj, "calls %s(%s)" % (e[1][0].v, ", ".join(show(x) for x in e[1][1:])))
        elif e[0] in ("write_dot", "dotwrite"):
            rep.bad("nothing-else", subj, "also writes %s" % show(e[1][0]))
        elif e[0] == "fs":
            rep.und("nothing-else", subj, "%s" % (e[1][0],))
    for e in dirs:
        same_path(rep, "directory", subj, e[1][0], dwant, asm, notes, at(e[1]))
    if not any(o[1] == subj and o[0] == "nothing-else" for o in rep.obl[-8:]):
        rep.ok("nothing-else", subj)
    # the directory: created when missing, tolerated when present, other failures reported
    if len(dirs) == 0:
        (rep.und if notes else rep.bad)("directory-created", subj, "the directory is not created")
        return
    exist = CAtom(App("direxists", (rs(dirs[0][1][0], asm),)))
    fails = CAtom(App("mkdirfails", (rs(dirs[0][1][0], asm),)))
    if dirs[0][0] == "mkdir":
        (rep.und if notes else rep.bad)("directory-created", subj, "a missing parent directory is not created")
    else:
        miss = {}
        cassume(miss, exist, False)
        g = csimp(dirs[0][2], miss)
        (rep.ok("directory-created", subj) if g is True else
         (rep.und if notes or cond_unclean(g) else rep.bad)("directory-created", subj, "only when %s" % show(g)))
    bad = None
    for c, name, loc, msg, leaf in out.raises:
        a = dict(leaf.st.asm)
        if csimp(exist, a) is True or csimp(c, a) is False:
            bad = (c, name, loc)
            if csimp(exist, a) is True:
                break
            bad = None
    if bad:
        (rep.und if notes else rep.bad)("directory-exists", subj, "fails with %s when the directory exists" % bad[1],
                                        "%s:%s" % bad[2] if bad[2] else "")
    else:
        rep.ok("directory-exists", subj)
    # a failure to create must be reported: no normal outcome is left with mkdirfails
    a = dict(asm)
    if csimp(fails, a) is False:
        rep.ok("failure-reported", subj)
    else:
        a2 = dict(asm)
        cassume(a2, exist, False)
        if csimp(fails, a2) is False:
            rep.ok("failure-reported", subj)
        elif any(csimp(c, dict(a2, **{})) is not False and mentions(c, fails) for c, *_ in out.raises):
            # raised under a condition that mentions the failure: exact when it covers it
            cov = False
            for c, *_ in out.raises:
                a3 = dict(a2)
                cassume(a3, fails, True)
                if csimp(c, a3) is True:
                    cov = True
            (rep.ok if cov else lambda r, x: rep.und(r, x, "raised under an odd condition"))("failure-reported", subj)
        else:
            (rep.und if notes else rep.bad)("failure-reported", subj,
                                            "the call returns normally although the directory could not be created")


def mentions(c, atom):
    return c is not True and c is not False and any(x == atom for x in catoms(c))


def mode_of(e, asm):
    if e[0] != "open":
        return None
    m = rs(e[1][1], asm)
    return m.v if isinstance(m, Const) and isinstance(m.v, str) else None


def encoding(rep, s, subj, w, asm, notes):
    if w[0] == "xmlwrite":
        enc, decl = rs(w[1][2], asm), rs(w[1][3], asm)
        xml = [(enc, decl)]
        if any(term_unclean(x) for x in (enc, decl)):
            rep.und("utf-8", subj, "encoding %s" % show(enc))
            return
    else:
        fo = next((x for x in w[1] if isinstance(x, Ref) and s.st.get(x.addr).kind == "file"), None)
        its = s.st.get(fo.addr).items if fo is not None else None
        if not its or len(its) != 1 or not (isinstance(its[0].v, App) and its[0].v.op == "xml"):
            rep.und("utf-8", subj, "content of an unknown form")
            return
        enc, decl = its[0].v.args[1], its[0].v.args[2]
        if mode_of(w, asm) not in ("wb", "bw"):
            rep.und("utf-8", subj, "text mode")
            return
    e = enc.v.lower() if isinstance(enc, Const) and isinstance(enc.v, str) else None
    if e in ("utf-8", "utf8"):
        rep.ok("utf-8", subj)
    else:
        (rep.und if notes else rep.bad)("utf-8", subj, "written with encoding %s" % show(enc))
    if decl == TRUE:
        rep.ok("declaration", subj)
    elif isinstance(decl, Const):
        if decl.v is None and e is not None and e not in ("utf-8", "us-ascii", "utf8"):
            rep.ok("declaration", subj)
        else:
            (rep.und if notes else rep.bad)("declaration", subj, "no XML declaration (xml_declaration=%s)" % show(decl))
    else:
        rep.und("declaration", subj, show(decl))


EXPORTS = (("export_xml_file", False), ("export_xml_file_no_di", False), ("export_csv_file", True))
WHERE = (("any directory", Tok("dir", nonempty=True), Tok("file", nonempty=True)),
         ("plain", Const("out"), Const("f.xml")), ("trailing separator", Const("out/"), Const("f.xml")),
         ("absolute", Const("/tmp/a b/c"), Const("f")), ("absolute with separator", Const("/tmp/x/"), Const("d.e.bpmn")),
         ("nested", Const("./a/b/"), Const("name with blanks.csv")), ("parent", Const("../o"), Const(".hidden")))


def c20(rep, tier):
    shape = split("exclusiveGateway", 2, default=1)
    for state in ("shape", "loaded", "new"):
        if state == "shape":
            L = Shaped(rep, (shape[0], shape[1], shape[2] if len(shape) > 2 else None, {}))
        else:
            L = Live(rep, state)
        if not L.ok:
            rep.und("setup", state, "no diagram")
            continue
        s = L.scn
        if state == "new":
            a = rs(L.call("add_start_event_to_diagram", process_id=L.pid).value, s.st.asm).items[0]
            b = rs(L.call("add_task_to_diagram", process_id=L.pid, task_name=Tok("tn")).value, s.st.asm).items[0]
            L.call("add_sequence_flow_to_diagram", process_id=L.pid, source_ref_id=a, target_ref_id=b)
        for meth, csv in EXPORTS:
            if csv and state == "loaded":
                continue
            for lab, d, f in WHERE if state != "loaded" else WHERE[:1]:
                base, notes = s.st.fork(), dict(s.it.notes)
                n0 = len(s.world())
                out = L.call(meth, d, f)
                subj = "%s of a %s diagram, %s" % (meth, state, lab)
                if out.dead:
                    rep.und("one-file", subj, "export fails")
                else:
                    judge(rep, s, subj, meth, out, n0, d, f, csv)
                    # in every failing outcome nothing but the directory has been touched
                    for c, name, loc, msg, leaf in out.raises:
                        if csimp(c, leaf.st.asm) is False:
                            continue
                        ev = [e for e in events(leaf.st, n0) if e[0] in ("open", "xmlwrite") and
                              (e[0] != "open" or mode_of(e, leaf.st.asm) not in ("r", "rb", "rt"))]
                        (rep.ok("complete-first", subj) if not ev else
                         (rep.und if s.it.notes or cond_unclean(c) else rep.bad)(
                             "complete-first", subj, "fails with %s after the file was opened" % name,
                             "%s:%s" % loc if loc else ""))
                s.st.become(base)
                s.it.notes.clear()
                s.it.notes.update(notes)
        rep.absorb(s)
        rep.scn.append("exports of a %s diagram" % state)
    # exports that fail while the content is put together leave no file behind
    for lab, spec, calls in failing():
        L = Shaped(rep, spec) if spec else Live(rep, "new")
        s = L.scn
        if not L.ok:
            rep.und("setup", lab, "no diagram")
            continue
        if lab == "a node without coordinates":
            n = rs(node_of(s, L.dg, [x["id"] for x in L.F.nodes][1]), s.st.asm)
            s.st.mut(n.addr).slots.pop(s.const("x"), None)
        for meth in calls:
            base = s.st.fork()
            n0 = len(s.world())
            out = L.call(meth, Tok("dir", nonempty=True), Tok("file", nonempty=True))
            subj = "%s of %s" % (meth, lab)
            if not out.raises:
                rep.ok("complete-first", subj)
            for c, name, loc, msg, leaf in out.raises:
                if csimp(c, leaf.st.asm) is False:
                    continue
                ev = [e for e in events(leaf.st, n0) if e[0] in ("open", "xmlwrite") and csimp(e[2], leaf.st.asm) is not False]
                if not ev:
                    rep.ok("complete-first", subj)
                elif s.it.notes or cond_unclean(c):
                    rep.und("complete-first", subj, "may fail with %s after the file was opened" % name)
                else:
                    rep.bad("complete-first", subj, "fails with %s after the file was opened, leaving an incomplete file" % name,
                            "%s:%s" % loc if loc else "")
            s.st.become(base)
        rep.absorb(s)
        rep.scn.append("failing exports of " + lab)


def failing():
    sh = split("exclusiveGateway", 27)
    yield "a process with 27 branches", (sh[0], sh[1], sh[2] if len(sh) > 2 else None, {}), ("export_csv_file",)
    yield "an empty diagram", None, ("export_csv_file",)
    two = ([("s", "startEvent"), ("s2", "startEvent"), ("t", "task"), ("e", "endEvent")],
           [("f0", "s", "t"), ("f1", "s2", "e")], None, {})
    yield "a diagram with two starts", two, ("export_csv_file",)
    yield "a node without coordinates", (two[0], two[1], None, {}), ("export_xml_file",)
