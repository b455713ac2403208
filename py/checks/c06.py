from common import *
import tracker
import flow
from checks.c05 import indexop

TITLE = "A target is kept exactly while it is probable enough and well enough located"
EXPLANATION = ("Prediction and the cluster update are evaluated with helpers inlined; the condition under which a target is put back into the index, kept in the list, or "
               "dropped and freed is read off the effect tree and compared, over the states in which the operation leaves the target, with the two limits.")


def run(P, rep):
    rep.rule = ("insert/keep condition of each affected target == (existence probability on return >= r_lim) and (norm of position covariance on return <= cov_lim)")
    for q in (tracker.TRACKER + "::predict", "lmb::Cluster_::correct"):
        for f in insts(P, q):
            gate(P, rep, f)
    rep.assumption("all parameter pointers of one tracker refer to the same parameter set")


def field_fn(P, rec, name):
    fs = [g for g in P.fns if g.get("method") and "body" in g and g["n"] == name and not g["params"] and P.recs[g["rec"]]["qual"] == rec]
    if not fs:
        raise AnalysisError("no %s::%s" % (rec, name))
    return fs


def gate(P, rep, f):
    v = tracker.evalf(P, f)
    W, name = where(P, f), f["q"].replace("lmb::", "")
    evs = flow.events(v.nodes)
    ins = [e for e in evs if indexop(e, "Insert")]
    if not ins:
        return rep.bad("%s keeps no target" % name, W, name + ".keep")
    X = [tracker.foreach(v, e, e.n.args[2]) for e in ins]
    ptr = X[0].e.n.args[2]
    if not X[0].ok:
        return rep.bad("%s: the decision is not made once per target (%s)" % (name, X[0].why), P.loc(X[0].e.n.l), name + ".each")
    t = tracker.pointee(v, ptr)
    r = v.peek(at(v, ["r"], t), v.st)
    pdf = at(v, ["pdf"], t)
    rec = v.p.rec_of(v.ltype[pdf])
    fs = [g for g in P.fns if g.get("method") and "body" in g and g["n"] == "poscov" and not g["params"] and P.recs[g["rec"]] is rec]
    if not fs:
        raise AnalysisError("no position covariance query for " + rec["qual"])
    C = v.query(fs[0], pdf, st=v.st)
    norm = pw(add(*[pw(el(C, i, j), 2) for i in range(2) for j in range(2)]), Fraction(1, 2))
    want = and_(not_(lt(r, tracker.param("r_lim"))), not_(lt(tracker.param("cov_lim"), norm)))
    want = tracker.pointer_k(tracker.canon(v, want), ptr)
    got = tracker.canon(v, or_(*[x.guard for x in X]))
    ok = flow.equiv(want, got)
    rep.count("decisions")
    rep.ob(ok, "%s: a target is kept exactly when both limits hold" % name, P.loc(ins[0].n.l), name + ".gate",
           None if ok else "kept when %s; the limits say %s" % (brief(got), brief(want)))
    D = [tracker.foreach(v, e, e.n.ptr) for e in evs if e.kind == "delete" and tracker.element(e.n.ptr)]
    gd = tracker.canon(v, or_(*[x.guard for x in D]))
    ok = flow.equiv(gd, not_(want))
    rep.ob(ok, "%s: a target is freed exactly when a limit is broken" % name, P.loc(D[0].e.n.l) if D else W, name + ".drop", None if ok else "freed when %s" % brief(gd))


def brief(t):
    s = show(t, 5)
    return s if len(s) < 400 else s[:400] + "..."
