"""Entry point: python3 -m sa.check <property> [--tier quick|thorough] [--repo DIR]"""
import argparse
import json
import os
import sys
import threading
import time
import traceback

LIMIT = {"quick": 420, "thorough": 3000}      # seconds


class OutOfTime(BaseException):
    """Raised in the analysis thread by the watchdog; what was decided until then stands."""


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    from .checks import registry
    return registry.CHECKS


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> key=<rule|subject prefix> ...' of known_findings.txt"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def run(prop, tier, repo):
    from .core import Report
    from . import interp
    rep = Report(prop, repo)
    interp.DEADLINE[0] = rep.t0 + LIMIT[tier]
    fn, minimum = table()[prop]
    try:
        START.append((rep.t0, LIMIT[tier] + 15))
        try:
            fn(rep, tier)
        finally:
            START.clear()
    except OutOfTime:
        rep.und("analysis", "engine", "out of time")
    except Exception as e:      # the analysis itself failed: no verdict on what remains
        tb = traceback.format_exc()
        rep.errors.append(tb)
        rep.und("analysis", "engine", "%s: %s" % (type(e).__name__, e))
    return rep, minimum


START = []


def watchdog(t):
    import ctypes
    hit = False
    while t.is_alive():
        t.join(1)
        if START and not hit and time.time() - START[0][0] > START[0][1]:
            hit = True
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("SA_REPO", "/repo"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    rep, minimum = run(a.prop, tier, a.repo)
    wall = time.time() - rep.t0
    proved = [o for o in rep.obl if o[2] == "proved"]
    refuted = [o for o in rep.obl if o[2] == "refuted"]
    und = [o for o in rep.obl if o[2] == "undecided"]
    known = known_findings(a.prop)
    new, old = [], []
    for o in refuted:
        for key, text in known:
            if ("%s|%s" % (o[0], o[1])).startswith(key):
                old.append((key, text))
                break
        else:
            new.append(o)
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation (gated value-flow, no execution, no solver) of the functions "
                           "reachable from the public entry points named in the scenarios; every obligation is a rule "
                           "applied to one abstract object, call or exported element. undecided obligations are not "
                           "claimed.",
            "obligations": len(rep.obl), "discharged": len(proved), "refuted": len(refuted),
            "undecided": len(und),
            "rules": {r: sum(1 for o in rep.obl if o[0] == r) for r in sorted({o[0] for o in rep.obl})},
            "functions_analysed": sorted(rep.funcs),
            "function_activations": sum(rep.funcs.values()),
            "scenarios": rep.scn,
            "imprecision": ["%s %s" % k for k in rep.notes][:40],
            "samples": ["%s | %s" % (o[0], o[1]) for o in proved[:: max(1, len(proved) // 12)]][:14],
            "undecided_list": ["%s | %s: %s" % (o[0], o[1], o[3][:300]) for o in und[:20]],
            "refuted_list": ["%s | %s: %s" % (o[0], o[1], o[3][:600]) for o in refuted[:30]],
        },
        "assumptions": ["library models in sa/lib.py (minidom, ElementTree, networkx.Graph, pandas, os, uuid, csv)",
                        "identifiers in one input file are pairwise different"],
        "wall_s": round(wall, 3), "violations": len(new),
    }
    if rep.errors:
        ev["coverage"]["engine_errors"] = rep.errors[:3]
    path = os.path.join(HERE, "evidence", a.prop + ".json")
    if not a.no_evidence:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proved, %d refuted, %d undecided; %d functions analysed; %.1fs" % (
        a.prop, len(rep.obl), len(proved), len(refuted), len(und), len(rep.funcs), wall))
    if a.v:
        for o in und:
            print("  UNDECIDED %s | %s: %s" % (o[0], o[1], o[3][:400]))
        for k in list(rep.notes)[:15]:
            print("  NOTE", k)
        for e in rep.errors:
            print(e)
    for key, text in sorted(set(old)):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, text or key))
    for o in new[:12]:
        print("  %s | %s: %s" % (o[0], o[1], o[3][:700]))
    if new:
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(path, HERE)))
        return 1
    if not proved:
        print("nothing could be decided")
        return 2
    return 0


def entry():
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    res = [2]

    def go():
        try:
            res[0] = main()
        except SystemExit as e:
            res[0] = e.code or 0
        except BaseException:
            traceback.print_exc()
            res[0] = 2
    t = threading.Thread(target=go)
    t.start()
    watchdog(t)
    sys.stdout.flush()
    os._exit(res[0])


if __name__ == "__main__":
    entry()
