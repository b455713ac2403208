from common import *
import tracker
import flow

TITLE = "Targets use their tracker's parameters; summaries stand alone"
EXPLANATION = ("Tracker constructors, the creation of clusters and targets, the summary's constructors and assignment and the destruction of the target list are evaluated with helpers inlined; "
               "pointers to parameters are followed to the object they point at.")


def run(P, rep):
    rep.rule = ("tracker construction: the target list points at the tracker's own parameters, which hold the values given; every parameter pointer written anywhere is that one or a copy of another object's; "
                "summary construction, copy and assignment: every member from the source, the probability reference bound to the own weight; destruction: each target of the list freed once")
    for f in [f for f in P.fns if f.get("ctor") and f["q"] == tracker.TRACKER + "::" + f["n"] and "body" in f and not implicit(f)]:
        construct(P, rep, f)
    n = 0
    for q in ("birth", "cluster", "correct", "predict"):
        for f in P.find(tracker.TRACKER + "::" + q):
            n += pointers(P, rep, f)
    for f in P.find("lmb::TargetTree_::new_target") + P.find("lmb::Cluster_::correct"):
        n += pointers(P, rep, f)
    rep.ob(n >= 3, "parameters are handed to clusters, densities and targets", "include/lmb.hpp:1", "ptr.found", "%d places" % n)
    summaries(P, rep)
    freed(P, rep)


def implicit(f):
    return f.get("implicit") or len(f["params"]) == 1 and f["params"][0]["n"] in ("", None)


def construct(P, rep, f):
    W = where(P, f)
    v = tracker.evalf(P, f, tracker.Cfg())
    own = at(v, ["params"])
    tag = "ctor%d" % len(f["params"])
    p = None
    for r, x in ((("targettree", "params"), "target list"),):
        p = F(v, *r)
        rep.ob(pointee(p) is own, "the %s of a new tracker uses the tracker's own parameters" % x, W, tag + ".ptr", show(p, 3))
    if len(f["params"]) == 1:
        rec = P.rec_of(v.ltype[own])
        for fd in P.rec_fields(rec):
            a, b = F(v, "params", fd["n"]), v.peek(at(v, [fd["n"]], v.args[0]), v.st0)
            rep.ob(a is b, "a new tracker has the %s it was given" % fd["n"], W, tag + "." + fd["n"], show(a, 3))


def pointee(p):
    return p.args[0] if isinstance(p, Term) and p.op == "addr" else None


def pointers(P, rep, f):
    """Every parameter pointer a function stores."""
    W = where(P, f)
    cfg = tracker.Cfg()
    cfg.P = P
    v = tracker.evalf(P, f, cfg)
    own = at(v, ["params"])
    n = 0
    bad = {}
    for e in flow.events(v.nodes):
        if e.kind != "write" or e.n.loc is None or e.n.loc.op != "loc" or not isinstance(e.n.val, Term) or e.n.get("op") == "havoc":
            continue
        st = e.n.loc.args[1]
        vals = []
        if st[-1:] == (("f", "params"),):
            t = v.ltype.get(e.n.loc)
            if t is not None and P.types[t]["k"] == "ptr":
                vals.append(e.n.val)
        elif e.n.val.op == "struct" and any(x[0] == "params" for x in e.n.val.args[1:] if isinstance(x, tuple) and x):
            vals.append(get(e.n.val, ("f", "params")))
        for x in vals:
            if x.op in ("undef", "struct"):
                continue
            n += 1
            if not good(x, own):
                bad[P.loc(e.n.l)] = show(x, 4)[:120]
    rep.ob(not bad, "%s: parameters are always the tracker's own" % f["n"], next(iter(bad), W), "ptr.%s.%d" % (f["n"], len(f["params"])), "; ".join(bad.values()) if bad else None)
    return n


def good(x, own):
    if x.op == "ite":
        return good(x.args[1], own) and good(x.args[2], own)
    if pointee(x) is own:
        return True
    return lastname(x) == "params" or x.op in ("phi", "after", "get", "fresh", "init", "el") and "params" in show(x, 2)


def summaries(P, rep):
    fs = [f for f in P.fns if f.get("method") and f.get("rec") is not None and P.recs[f["rec"]]["qual"] == "lmb::TargetSummary_" and "body" in f and (f.get("ctor") or f["n"] == "operator=") and f["params"]]
    kinds = set()
    for f in fs:
        W = where(P, f)
        v = tracker.evalf(P, f, tracker.Cfg())
        rec = P.rec_of(v.ltype[v.this])
        copy = len(f["params"]) == 1 and P.rec_of(f["params"][0]["t"]) is rec
        kind = ("copy" if f.get("ctor") else "assign") if copy else "new"
        kinds.add(kind)
        for fd in fields(P, rec):
            n, ty = fd["n"], P.types[fd["t"]]["k"]
            if ty == "ptr":
                rep.ob(False, "a summary points at nothing outside itself", W, "sum.%s.%s" % (kind, n), n)
            elif ty in ("ref", "rref"):
                st, v.st = v.st, v.st
                x = F(v, n)
                if kind == "assign":
                    continue
                y = target(v, n)
                ok = y is not None and y.op == "loc" and y.args[0] == v.this.args[0] and y.args[1][:-1] == v.this.args[1] and y.args[1][-1] == ("f", "w")
                rep.ob(ok, "a summary's %s is its own existence probability" % n, W, "sum.%s.%s" % (kind, n), str(y))
            elif copy:
                a, b = F(v, n), v.peek(at(v, [n], v.args[0]), v.st0)
                rep.ob(a is b, "a copy has the %s of the original" % n, W, "sum.%s.%s" % (kind, n), show(a, 3)[:120])
            else:
                p = [l for q, l in zip(f["params"], v.args) if q["n"].strip("_") == n]
                if p:
                    a = F(v, n)
                    rep.ob(a is v.peek(p[0], v.st0), "a summary has the %s given" % n, W, "sum.%s.%s" % (kind, n), show(a, 3)[:120])
    refs = any(P.types[fd["t"]]["k"] in ("ref", "rref", "ptr") for r in P.recs if r.get("qual") == "lmb::TargetSummary_" for fd in fields(P, r))
    if refs:
        rep.ob({"new", "copy"} <= kinds, "summaries with a reference define how they are copied", "include/target.hpp:1", "sum.kinds", ", ".join(sorted(kinds)))


def fields(P, r):
    from checks.c24 import allfields
    return allfields(P, r)


def target(v, n):
    """What a reference member is bound to."""
    raw = v.st.mem.get(ve.ext(v.this, ("f", n))) if hasattr(v.st, "mem") else None
    for x in (raw, F(v, n)):
        if isinstance(x, Term) and x.op == "refto":
            return x.args[0]
    return None


def freed(P, rep):
    for f in [f for f in P.fns if f["q"].startswith("lmb::TargetTree_::~")]:
        v = tracker.evalf(P, f, tracker.Cfg())
        W = where(P, f)
        ts = v.peek(at(v, ["targets"]), v.st0)
        ds = [e for e in flow.events(v.nodes) if e.kind == "delete"]
        if len(ds) != 1:
            rep.bad("the target list frees its targets in one place", W, "free", "%d places" % len(ds))
            continue
        e = ds[0]
        n = size(ts)
        ok = len(e.loops) == 1 and e.loops[0].info["full"] and assume(e.g, {eq(n, ZERO): False}) is TRUE and e.loops[0].info["trip"] is n
        k = e.loops[0].info["k"] if e.loops else None
        x = e.n.ptr
        if drains(v, e, at(v, ["targets"])):
            rep.ob(True, "every target of a destroyed tracker is freed, once", P.loc(e.n.l), "free.each", show(x, 4))
            continue
        idx = x.args[1][1] if isinstance(x, Term) and x.op == "get" and x.args[0] is ts else None
        if idx is None and isinstance(x, Term) and x.op == "init":
            st = x.args[0].args[1]
            idx = st[-1][1] if st and st[-1][0] == "e" and x.args[0].args[0] == at(v, ["targets"]).args[0] else None
        ok = ok and idx is not None and all(subst(idx, {k: num(i), n: num(3)}) in [num(j) for j in (0, 1, 2)] for i in (0, 1, 2)) and len({subst(idx, {k: num(i), n: num(3)}) for i in (0, 1, 2)}) == 3
        rep.ob(ok, "every target of a destroyed tracker is freed, once", P.loc(e.n.l), "free.each", show(x, 4) if isinstance(x, Term) else None)
    rep.ob(any(f["q"].startswith("lmb::TargetTree_::~") for f in P.fns), "destroying a tracker frees its targets", "include/targettree.hpp:1", "free.found")


def drains(v, e, c):
    """The loop around e takes the container's elements off one by one until none is left, and e works on the one taken."""
    if len(e.loops) != 1 or e.g is not TRUE or e.loops[0].info["early"]:
        return False
    x = e.n.ptr
    if not (isinstance(x, Term) and x.op == "get" and x.args[0].op == "phi"):
        return False
    ph = x.args[0]
    own = [w for w in flow.events(v.nodes) if w.kind == "write" and w.n.loc is c and w.loops == e.loops]
    if len(own) != 1 or own[0].g is not TRUE or own[0].n.val.op != "popped" or own[0].n.val.args[0] is not ph or own[0].no < e.no:
        return False
    last = own[0].n.val.args[1] == "pop_back"
    i = x.args[1][1]
    return i is (add(size(ph), num(-1)) if last else ZERO) and e.loops[0].info["cond"] is not_(eq(size(ph), ZERO))
