from common import *
import tracker
import flow
from checks.c07 import is_target
from assoc import axis

TITLE = "A target is born for exactly the reports with enough unexplained weight"
EXPLANATION = ("The correction of a tracker is evaluated with helpers inlined (the update of one cluster is a symbol); every creation of a target is read off the effect tree with its loops and guard, and the values the new target is given are "
               "compared with the birth rule.")


def run(P, rep):
    rep.rule = ("for every report: created <=> (sum of birth weights >= r_lim) and (share of the birth intensity >= r_lim); r = min(share, rB_max); one component at the report's position and zero velocity, "
                "covariance blocks report and velocity prior; cluster id of the report; time of the correction")
    for f in insts(P, tracker.TRACKER + "::correct"):
        check(P, rep, f)
    rep.assumption("every report of the scan is in exactly one cluster (C21); cluster updates leave the birth weights as C19 decides")


def dom(t, rnd, ev):
    if t.op == "param" or (t.op in ("init", "get") and lastname(t) in ("rB", "lambdaB", "r_lim", "rB_max")):
        return rnd("x" + ev.key(t)).uniform(0.1, 2)
    return None


def check(P, rep, f):
    v = tracker.evalf(P, f, tracker.Cfg(opaque=("lmb::Cluster_::correct",)))
    evs = flow.events(v.nodes)
    W = where(P, f)
    news = [e for e in evs if e.kind == "new" and is_target(v, e.n)]
    if len(news) != 1:
        return rep.bad("targets are not born in one place", W, "born", "%d places" % len(news))
    e = news[0]
    N = P.loc(e.n.l)
    t = ve.LOC(("D", e.n.ptr))
    last = {}
    for w in evs:
        if w.kind == "write" and w.n.loc is not None and w.n.loc.args[0] == t.args[0] and len(w.n.loc.args[1]) == 1:
            last[w.n.loc.args[1][0][1]] = w
    for n in ("r", "cid", "t0", "pdf"):
        if n not in last:
            return rep.bad("a new target's %s is not set" % n, N, "unset." + n)
    for n, w in last.items():
        rep.ob(w.loops == e.loops and flow.equiv(w.g, e.g), "%s is set for every new target" % n, P.loc(w.n.l), "always." + n)
    # the report
    scan = v.args[[i for i, p in enumerate(f["params"]) if isvec(P, p["t"])][0]]
    k = e.loops[-1].info["k"] if e.loops else None
    sv = v.peek(scan, v.st0)
    rs = [x for x in walk(last["r"].n.val) if x.op in ("init", "get") and lastname(x) == "rB" and k is not None and mentions(x, k)]
    if len(set(rs)) != 1:
        return rep.bad("birth is not decided report by report", P.loc(last["r"].n.l), "report", show(last["r"].n.val, 6)[:200])
    rB = rs[0]
    rl = owner(rB)
    ok, how = every(v, e, rl, scan, sv)
    rep.ob(ok, "birth is decided for every report%s" % how, N, "every", "over %s" % show(rl, 5)[:200])
    # the rule
    total = sum_over(size(sv), lambda b: v.peek(at(v, ["rB"], elemloc(v, scan, b)), v.st0))
    sl = ve.LOC(v.args[0].args[0])
    lam = v.peek(at(v, ["lambdaB"], v.args[0]), v.st0)
    share = div(mul(rB, lam), total)
    rlim, rmax = tracker.param("r_lim"), tracker.param("rB_max")
    want = and_(not_(lt(total, rlim)), not_(lt(share, rlim)))
    got = tracker.canon(v, flow.expand(guard(e)))
    alt = not_(lt(share, rlim))
    rep.ob(flow.same(got, want, dom), "a target is born exactly when both limits hold", N, "gate", "born when %s" % show(got, 7)[:300])
    same_or_report(rep, tracker.canon(v, last["r"].n.val), fn("min", share, rmax), "existence probability is the report's share of the birth intensity, capped", P.loc(last["r"].n.l), "r", dom)
    rid = v.peek(at(v, ["cid"], rl), v.st) if rl.op == "loc" else None
    rep.ob(rid is not None and (last["cid"].n.val is rid or samefield(last["cid"].n.val, rB, "cid")), "a new target carries its report's cluster", P.loc(last["cid"].n.l), "cid", show(last["cid"].n.val, 5)[:200])
    tm_ = v.args[2] if len(v.args) > 2 else None
    rep.ob(last["t0"].n.val is T("init", tm_, 0), "a new target is dated to the correction", P.loc(last["t0"].n.l), "t0", show(last["t0"].n.val, 5)[:200])
    density(P, rep, v, f, last["pdf"], rl, P.rec_of(v.ltype[elemloc(v, scan, ZERO)]))


def isvec(P, t):
    r = P.rec_of(P.unref(t))
    return r is not None and r["qual"] == "std::vector"


def elemloc(v, scan, b):
    l = ve.ext(scan, ("e", b))
    v.set_elem_type(scan, l)
    return l


def guard(e):
    f = {}
    for l in e.loops:
        if l.info["trip"] is not None:
            f[eq(l.info["trip"], ZERO)] = False
    return assume(e.g, f)


def owner(t):
    """Location of the object a field value belongs to."""
    x = t.args[0]
    if t.op == "init":
        root, steps = x.args
        return ve.LOC(root, steps[:-1])
    return x


def samefield(a, rB, name):
    """Whether a is the named field of the object rB is a field of."""
    if a.op == "init" and rB.op == "init":
        return owner(a) is owner(rB) and lastname(a) == name
    return a.op == "get" and rB.op == "get" and a.args[0] is rB.args[0] and lastname(a) == name


def every(v, e, rl, scan, sv):
    if any(not l.info["full"] for l in e.loops):
        return False, ": a loop may stop early"
    if rl.op != "loc":
        return False, ""
    root, steps = rl.args
    if root == scan.args[0] and len(e.loops) == 1:
        return axis(e, steps[-1][1], size(sv)) is not None, " of the scan"
    if root[0] == "D" and len(e.loops) == 2:
        p = root[1]
        a, b = e.loops
        ix = L = None
        if p.op == "init":
            r2, s2 = p.args[0].args
            if s2 and s2[-1][0] == "e":
                ix, L = s2[-1][1], v.peek(ve.LOC(r2, s2[:-1]), v.st0)
        elif p.op == "get" and p.args[1][0] == "e":
            ix, L = p.args[1][1], p.args[0]
        if L is None:
            return False, ""
        ok = b.info["trip"] is size(L) and axis(e, ix, size(L)) is b
        # the outer loop visits every cluster
        c = next((x for x in walk(L) if x.op == "loc" and any(s[0] == "e" and s[1] is a.info["k"] for s in x.args[1])), None)
        if c is None:
            return False, ": not cluster by cluster"
        n = next(i for i, s in enumerate(c.args[1]) if s[0] == "e" and s[1] is a.info["k"])
        coll = ve.LOC(c.args[0], c.args[1][:n])
        nc = size(v.peek(coll, e.n.get("st") or v.st))
        return ok and (a.info["trip"] is nc), " of every cluster"
    return False, ""


def density(P, rep, v, f, w, rl, rec):
    W = P.loc(w.n.l)
    pdf = w.n.val
    fs = {g["n"]: g for g in P.fns if g.get("method") and "body" in g and g["n"] in ("mean", "cov") and not g["params"] and derives(P, rec, P.recs[g["rec"]])}
    m, C = v.query(fs["mean"], rl), v.query(fs["cov"], rl)
    pv = v.peek(at(v, ["pv"], v.args[0]), v.st0)
    c = get(pdf, ("f", "c"))
    rep.ob(size(c) is ONE, "a new density has one component", W, "pdf.one", "%s components" % show(size(c), 4))
    c0 = get(c, ("e", ZERO))
    obj = v.peek(rl, v.st)
    qs = {y: (m if y.args[0] == fs["mean"]["q"] else C) for y in walk(pdf) if y.op == "fn" and y.args[0] in (fs["mean"]["q"], fs["cov"]["q"]) and len(y.args) == 2
          and (y.args[1] is obj or y.args[1] is T("init", rl, 0))}
    x, Pm = trip(subst(get(c0, ("f", "x")), qs)), subst(get(c0, ("f", "P")), qs)
    want = [el(m, 0, 0), el(m, 1, 0), ZERO, ZERO]
    for i in range(4):
        same_or_report(rep, trip(el(x, i, 0)), want[i], "initial state %d" % i, W, "pdf.x%d" % i)
    for i in range(4):
        for j in range(4):
            a = el(C, i, j) if i < 2 and j < 2 else el(pv, i - 2, j - 2) if i > 1 and j > 1 else ZERO
            same_or_report(rep, el(Pm, i, j), a, "initial covariance (%d,%d)" % (i, j), W, "pdf.P%d%d" % (i, j))
    rep.ob(get(c0, ("f", "w")) is ONE, "the initial component has weight one", W, "pdf.w", show(get(c0, ("f", "w")), 4))


def derives(P, r, base):
    if r is base:
        return True
    for b in r.get("bases", ()):
        if derives(P, P.recs[b["rec"] if isinstance(b, dict) else b], base):
            return True
    return False


def trip(t):
    """Conversion to a local frame and back about the same origin is the identity (C10)."""
    m = {}
    for x in walk(t):
        if x.op == "fn" and x.args[0] == "cf::ne2ll" and isinstance(x.args[1], Term) and x.args[1].op == "fn" and x.args[1].args[0] == "cf::ll2ne" and x.args[1].args[2] is x.args[2]:
            m[x] = x.args[1].args[1]
    return subst(t, m) if m else t
