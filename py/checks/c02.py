from common import *
import tracker
import flow

TITLE = "The target list and spatial index are only used under the tree lock"
EXPLANATION = ("Every tracker operation is evaluated with its helpers inlined; each read, write or call on the target list, the spatial index "
               "or the identity counter of the shared tree is located together with the critical sections open around it.")


def protected(P):
    """Fields of the tree shared between threads: everything but pointers to constants."""
    out = set()
    for r in P.recs:
        if r["qual"] == tracker.TREE:
            for f in P.rec_fields(r):
                ty = P.ty(f["t"])
                if ty["k"] == "ptr" and P.ty(ty["to"]).get("const"):
                    continue
                out.add(f["n"])
    if not out:
        raise AnalysisError("tree record not found")
    return out


def run(P, rep):
    rep.rule = "an access to a non-constant field of the shared tree is inside one and the same named critical section"
    prot = protected(P)
    names = {}
    sites = []
    for f in tracker.methods(P):
        v = tracker.evalf(P, f, tracker.Cfg(reads=True))
        rep.count("operations")
        for e in flow.events(v.nodes):
            if e.kind not in ("read", "write", "call", "bindref"):
                continue
            for loc in (e.n.get("loc"), e.n.get("obj")) + tuple(e.n.get("args") or ()):
                if isinstance(loc, Term) and loc.op == "addr":
                    loc = loc.args[0]
                if not isinstance(loc, Term) or loc.op != "loc":
                    continue
                st = tracker.inner(v, loc, tracker.TREE)
                if not st or st[0][0] != "f" or st[0][1] not in prot:
                    continue
                rep.count("accesses")
                sites.append((f, e, st[0][1]))
                for c in e.crits:
                    names[c] = names.get(c, 0) + 1
    if len(sites) < 20 or not names:
        raise AnalysisError("only %d accesses of the shared tree found" % len(sites))
    lock = max(sorted(names), key=names.get)
    bad = set()
    for f, e, fld in sites:
        if lock not in e.crits:
            bad.add((fld, P.loc(e.n.l), f["q"], e.kind, tuple(e.crits)))
    for fld, l, q, kind, crits in sorted(bad):
        rep.bad("%s: %s of the shared %s outside critical(%s)%s" % (q, kind, fld, lock, " (inside %s)" % ",".join(crits) if crits else ""),
                l, "%s.%s" % (q, fld))
    for f in {id(s[0]): s[0] for s in sites}.values():
        if not any(b[2] == f["q"] for b in bad):
            rep.good("%s accesses the tree only inside critical(%s)" % (tracker.sig(P, f), lock), where(P, f))
    # other code must go through the tracker's operations
    for f in P.fns:
        if not f.get("repo") or "body" not in f or f["q"].startswith((tracker.TRACKER, tracker.TREE)):
            continue
        if not P.file_of(f["l"]).startswith("lmb/"):
            continue
        hit = treeuse(P, f["body"], prot)
        if hit is not None:
            rep.bad("binding code uses the shared tree directly, without the lock", P.loc(hit), "binding." + f["q"])
        else:
            rep.good("binding code does not touch the shared tree", where(P, f))


def treeuse(P, x, prot):
    if isinstance(x, dict):
        if x.get("k") == "mem" and x.get("f") in prot and isinstance(x.get("rec"), int) and P.recs[x["rec"]]["qual"] == tracker.TREE:
            return x.get("l", 0)
        if x.get("k") in ("call", "mcall") and isinstance(x.get("fn"), int) and P.fns[x["fn"]]["q"].startswith(tracker.TREE + "::"):
            return x.get("l", 0)
    for y in tracker.kids(x):
        h = treeuse(P, y, prot)
        if h is not None:
            return h
    return None
