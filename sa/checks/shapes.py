"""Small process shapes used by the rules on traversals (CSV export, layout, layout metrics)."""
from .common import *
from .api import Live
from ..docs import Small, install, KINDS

CHAIN = [k for k in KINDS if k not in ("startEvent", "endEvent", "dataObject")]


def chain(kinds, end=True):
    ns = [("s", "startEvent")] + [("n%d.%s" % (i, k), k) for i, k in enumerate(kinds)] + ([("e", "endEvent")] if end else [])
    return ns, [("f%d" % i, a[0], b[0]) for i, (a, b) in enumerate(zip(ns, ns[1:]))]


def split(gate, n=2, join=None, default=None, conds=False):
    """start, gate with n branches of one task each, join gateway, end"""
    ns = [("s", "startEvent"), ("g", gate)] + [("t%d" % i, "task") for i in range(n)] + \
         [("j", join or gate), ("e", "endEvent")]
    fs = [("fs", "s", "g")]
    for i in range(n):
        fs.append(("fi%d" % i, "g", "t%d" % i, conds))
    for i in range(n):
        fs.append(("fo%d" % i, "t%d" % i, "j"))
    fs.append(("fe", "j", "e"))
    at = {"g": {"default": Tok("fi%d" % default, "str", True, "id")}} if default is not None else None
    return ns, fs, at


SHAPES = {}


def shape(name, nodes, flows, attrs=None, **kw):
    SHAPES[name] = (nodes, flows, attrs, kw)


shape("chain of all kinds", *chain(CHAIN))
shape("start and end", *chain([]))
for g in ("exclusiveGateway", "inclusiveGateway", "parallelGateway"):
    shape("two branches, " + g, *split(g))
shape("three branches, exclusive, default", *split("exclusiveGateway", 3, default=1))
shape("two branches, inclusive, default first", *split("inclusiveGateway", 2, default=0))
shape("conditions on the branches", *split("exclusiveGateway", 2, conds=True))
shape("branch straight to the join", [("s", "startEvent"), ("g", "exclusiveGateway"), ("t", "userTask"),
                                      ("j", "exclusiveGateway"), ("e", "endEvent")],
      [("f0", "s", "g"), ("f1", "g", "t"), ("f2", "g", "j"), ("f3", "t", "j"), ("f4", "j", "e")])
shape("branches with their own ends", [("s", "startEvent"), ("g", "parallelGateway"), ("t", "serviceTask"),
                                       ("u", "subProcess"), ("e1", "endEvent"), ("e2", "endEvent")],
      [("f0", "s", "g"), ("f1", "g", "t"), ("f2", "g", "u"), ("f3", "t", "e1"), ("f4", "u", "e2")])
shape("nested branches", [("s", "startEvent"), ("g", "exclusiveGateway"), ("h", "parallelGateway"), ("t0", "task"),
                          ("t1", "task"), ("t2", "task"), ("k", "parallelGateway"), ("j", "exclusiveGateway"),
                          ("e", "endEvent")],
      [("f0", "s", "g"), ("f1", "g", "h"), ("f2", "g", "t0"), ("f3", "h", "t1"), ("f4", "h", "t2"), ("f5", "t1", "k"),
       ("f6", "t2", "k"), ("f7", "k", "j"), ("f8", "t0", "j"), ("f9", "j", "e")])
shape("task that splits and task that joins", [("s", "startEvent"), ("a", "task"), ("b", "manualTask"), ("c", "userTask"),
                                               ("d", "task"), ("e", "endEvent")],
      [("f0", "s", "a"), ("f1", "a", "b"), ("f2", "a", "c"), ("f3", "b", "d"), ("f4", "c", "d"), ("f5", "d", "e")])


class Shaped(Live):
    def __init__(self, rep, name, listed=True, **over):
        self.rep, self.variant, self.exports = rep, name, {}
        nodes, flows, attrs, kw = SHAPES[name] if isinstance(name, str) else name
        self.scn = s = Scn(rep.repo)
        kw = dict(kw, **over)
        self.F = Small(nodes, flows, attrs=attrs, listed=listed, **kw)
        self.dg = s.diagram()
        install(s.it, s.st, self.F.root)
        self.load = s.call((self.dg, "load_diagram_from_xml_file"), Tok("path", nonempty=True))
        self.ok = self.loaded = not self.load.dead
        self.pid = self.F.procs[0]["id"]


# ---------------------------------------------------------------------- generated block-structured processes
STEPS = ("task", "userTask", "serviceTask", "manualTask", "subProcess", "intermediateCatchEvent",
         "intermediateThrowEvent")
GATES3 = ("exclusiveGateway", "inclusiveGateway", "parallelGateway")


def generated_shapes(n, seed=7, gates=GATES3, maxdepth=3):
    """n deterministic block-structured processes: sequences of steps and splits; a branch is empty (at most one per
    split), a block of its own, or ends in its own end event; splits are closed by a gateway or by an activity."""
    import random
    out = {}
    for k in range(n):
        rng = random.Random(seed * 1000 + k)
        nodes, flows, attrs = [], [], {}

        def node(kind):
            i = "%s%d" % (kind[0] + kind[-1], len(nodes))
            nodes.append((i, kind))
            return i

        def flow(a, b):
            f = "f%d" % len(flows)
            flows.append((f, a, b, rng.random() < .2))
            return f

        def seq(prev, depth, least=0):
            """continue from node prev; -> last node"""
            n = rng.randint(least, 3 if depth else 4)
            for _ in range(n):
                if depth < maxdepth and rng.random() < (.45 if depth < 2 else .25) and len(nodes) < 26:
                    prev = block(prev, depth)
                    if prev is None:
                        return None
                else:
                    x = node(rng.choice(STEPS))
                    flow(prev, x)
                    prev = x
            return prev

        def block(prev, depth):
            # an activity may split itself, and an activity may join
            if rng.random() < .85 or not any(i == prev and kd in STEPS[:5] for i, kd in nodes) or \
                    any(f[1] == prev for f in flows):
                g = node(rng.choice(gates))
                flow(prev, g)
            else:
                g = prev
            gk = dict(nodes)[g]
            ends, fs = [], []
            empty = False
            nb = rng.choice((2, 2, 2, 3, 4))
            pend = []
            for b in range(nb):
                r = rng.random()
                if r < .12 and not empty and b:
                    empty = True
                    pend.append(b)
                    fs.append(None)
                    continue
                x = node(rng.choice(STEPS)) if rng.random() < .85 or depth + 1 >= maxdepth else None
                if x is None:
                    n0 = len(flows)
                    last = block(g, depth + 1) if dict(nodes)[g] not in STEPS else None
                    if last is None and len(flows) == n0:
                        x = node("task")
                    else:
                        fs.append(flows[n0][0])
                        if last is not None:
                            ends.append(last)
                        continue
                fs.append(flow(g, x))
                last = seq(x, depth + 1)
                if last is not None and rng.random() < .15:
                    e = node("endEvent")
                    flow(last, e)
                    last = None
                if last is not None:
                    ends.append(last)
            if not ends and not empty:
                return None
            act = rng.random() < .2
            j = node(rng.choice(STEPS[:5]) if act else (gk if gk in gates else rng.choice(gates)))
            for e in ends:
                flow(e, j)
            if empty:
                fs = [x for x in fs if x] + [flow(g, j)]
            if gk != "parallelGateway" and rng.random() < .4:
                attrs[g] = {"default": Tok(rng.choice([f for f in fs if f]), "str", True, "id")}
            x = node(rng.choice(STEPS[:5])) if not act else None
            if x is not None:
                flow(j, x)
                return x
            return j
        s = node("startEvent")
        last = seq(s, 0, 1)
        if last is not None:
            flow(last, node("endEvent"))
        out["generated process %d" % k] = (nodes, flows, attrs, {})
    return out
