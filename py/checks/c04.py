from common import *
import tracker
import flow
import race

TITLE = "Queries and metrics leave the tracker unchanged"
EXPLANATION = ("Every tracker operation other than prediction and correction is evaluated with its helpers inlined; every write and every mutating call is "
               "classified by the object it reaches. The spatial index search, kept as a symbol there, is evaluated on its own.")
UPDATES = ("predict", "correct")


def run(P, rep):
    rep.rule = "no write to the tracker object or to anything reached through a pointer that the operation did not allocate; no non-const call on them"
    n = 0
    for f in tracker.methods(P):
        if f["n"] in UPDATES:
            continue
        n += 1
        v = tracker.evalf(P, f)
        judge(P, rep, f, v, v.this.args[0], tracker.sig(P, f), set())
    if n < 9:
        raise AnalysisError("only %d queries found" % n)
    # the index search itself
    start = set()
    for f in P.fns:
        if f["q"].startswith(tracker.TREE + "::") and f.get("const") and "body" in f:
            start |= tracker.direct(P, f)
            v = tracker.evalf(P, f)
            judge(P, rep, f, v, v.this.args[0], tracker.sig(P, f), set())
    fs = [P.fns[i] for i in sorted(tracker.reach(P, start)) if P.fns[i]["q"].startswith("RTree::") and P.fns[i].get("method") and "body" in P.fns[i]]
    if not any(f["n"] == "Search" for f in fs):
        raise AnalysisError("index search not found")
    for f in fs:
        v = tracker.evalf(P, f, tracker.Cfg())
        judge(P, rep, f, v, v.this.args[0] if v.this is not None else None, "RTree::" + tracker.sig(P, f), {x["id"] for x in fs})


def judge(P, rep, f, v, this, name, judged):
    """judged: functions kept as symbols here but held to the same rule themselves."""
    bad = {}
    outs = refs(P, v, f)
    for e in flow.events(v.nodes):
        n = e.n
        if e.kind == "write":
            rep.count("writes")
            if (n.op != "havoc" or not judged) and foreign(n.loc, this, outs):
                bad.setdefault((P.loc(n.l), show(n.loc, 5)), "writes")
        elif e.kind == "delete" and isinstance(n.ptr, Term) and n.ptr.op != "new":
            bad.setdefault((P.loc(n.l), show(n.ptr, 5)), "deletes")
        elif e.kind == "call":
            rep.count("calls")
            if n.get("f") is not None and n.f["id"] in judged:
                continue
            if mutating(n) and isinstance(n.obj, Term) and n.obj.op == "loc" and foreign(n.obj, this, outs):
                bad.setdefault((P.loc(n.l), show(n.obj, 5)), "calls %s on" % n.get("q"))
            for a, p in zip(n.get("args") or (), (n.f or {}).get("params", ())):
                ty = P.ty(p["t"])
                if ty["k"] in ("ref", "ptr") and not P.ty(ty["to"]).get("const"):
                    loc = a.args[0] if isinstance(a, Term) and a.op == "addr" else a
                    if isinstance(loc, Term) and loc.op == "loc" and foreign(loc, this, outs):
                        bad.setdefault((P.loc(n.l), show(loc, 5)), "hands %s a mutable reference to" % n.get("q"))
    for (l, x), w in sorted(bad.items()):
        rep.bad("%s %s %s" % (name, w, x), l, "%s:%s" % (name, x))
    if not bad:
        rep.good("%s writes only its own result" % name, where(P, f))


def refs(P, v, f):
    """Out parameters: memory the caller hands in to be filled."""
    return {v.args[i].args[0] for i, p in enumerate(f["params"])
            if i < len(v.args) and isinstance(v.args[i], Term) and v.args[i].op == "loc" and P.ty(p["t"])["k"] == "ref"
            and not (P.rec_of(p["t"]) or {"qual": ""})["qual"].startswith("RTree::")}


def mutating(n):
    f = n.get("f")
    return f is not None and n.get("obj") is not None and f.get("method") and not f.get("const") and not f.get("static") and not f.get("ctor")


def foreign(loc, this, outs):
    """Memory of the tracker, or reached through a pointer to something this operation did not allocate."""
    p = race.flat(loc)
    if p[0][0] == "val":
        return p[0][1].op != "new"
    return p[0][1] == this or (p[0][1] not in outs and any(s[0] == "*" for s in p))
